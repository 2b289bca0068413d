//! Mechanical extraction of /repo's source into one file for the verifier.
//!
//! extract OUT.rs MAP.json --prelude FILE... --spec FILE... --crate NAME=DIR... [--external KEY]...
mod inline;
mod lower;
mod macros;
mod print;
mod spec;

use lower::{fix_path, Lower};
use print::plain;
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use spec::Specs;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::path::{Path as FsPath, PathBuf};
use syn::visit_mut::VisitMut;
use syn::*;

/// whether the model of the file system is part of the text
static FILES: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[derive(Default)]
pub struct Ctx {
    pub macros: HashMap<String, macros::Rules>,
    pub iter_fns: HashSet<String>,
    pub mut_iters: HashMap<String, Expr>,
    pub user_iters: HashSet<String>,
    pub local_traits: HashSet<String>,
    pub external: HashSet<String>,
    pub canary: bool,
    /// 'R' for functions that return a Result, 'O' for an Option, '?' if names clash
    pub ret_kind: HashMap<String, char>,
}

struct Module {
    path: Vec<String>,
    file: String,
    items: Vec<Item>,
}

fn cfg_drop(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") {
            return false;
        }
        let s = plain(a.meta.to_token_stream()).replace(' ', "");
        match s.as_str() {
            "cfg(target_endian=\"little\")" | "cfg(not(test))" | "cfg(not(target_endian=\"big\"))" | "cfg(target_pointer_width=\"64\")" | "cfg(unix)" => false,
            _ => true,
        }
    })
}

fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    }
}

fn load_module(file: &FsPath, dir: &FsPath, path: Vec<String>, out: &mut Vec<Module>) {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| fail(&format!("{}: {}", file.display(), e)));
    let f = parse_file(&text).unwrap_or_else(|e| fail(&format!("{}: {}", file.display(), e)));
    load_items(f.items, file, dir, path, out)
}

fn load_items(items: Vec<Item>, file: &FsPath, dir: &FsPath, path: Vec<String>, out: &mut Vec<Module>) {
    let mut keep = vec![];
    let at = out.len();
    out.push(Module { path: path.clone(), file: file.display().to_string(), items: vec![] });
    for i in items {
        if cfg_drop(item_attrs(&i)) {
            continue;
        }
        if let Item::Mod(m) = i {
            let name = m.ident.to_string();
            let mut p = path.clone();
            p.push(name.clone());
            let sub = dir.join(&name);
            match m.content {
                Some((_, items)) => load_items(items, file, &sub, p, out),
                None => {
                    let a = dir.join(format!("{}.rs", name));
                    let b = sub.join("mod.rs");
                    let f = if a.exists() { a } else { b };
                    load_module(&f, &sub, p, out)
                }
            }
        } else {
            keep.push(i)
        }
    }
    out[at].items = keep;
}

fn fail(s: &str) -> ! {
    eprintln!("extract: {}", s);
    std::process::exit(3)
}

fn is_impl_iterator(t: &ReturnType) -> Option<(Type, bool)> {
    if let ReturnType::Type(_, t) = t {
        if let Type::ImplTrait(i) = &**t {
            for b in &i.bounds {
                if let TypeParamBound::Trait(t) = b {
                    let s = t.path.segments.last().unwrap();
                    if s.ident == "Iterator" {
                        if let PathArguments::AngleBracketed(a) = &s.arguments {
                            for g in &a.args {
                                if let GenericArgument::AssocType(x) = g {
                                    let is_mut = matches!(&x.ty, Type::Reference(r) if r.mutability.is_some());
                                    return Some((x.ty.clone(), is_mut));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    None
}

fn scan(mods: &mut [Module], ctx: &mut Ctx) {
    for m in mods.iter_mut() {
        for i in &m.items {
            if let Item::Macro(x) = i {
                if x.mac.path.is_ident("macro_rules") {
                    if let (Some(n), Some(r)) = (&x.ident, macros::parse_rules(x.mac.tokens.clone())) {
                        ctx.macros.insert(n.to_string(), r);
                    }
                }
            }
        }
    }
    // expand item macros
    for m in mods.iter_mut() {
        let mut items = vec![];
        for i in m.items.drain(..) {
            match i {
                Item::Macro(x) if !x.mac.path.is_ident("macro_rules") => {
                    let n = x.mac.path.segments.last().unwrap().ident.to_string();
                    match ctx.macros.get(&n).map(|r| macros::expand(r, x.mac.tokens.clone())) {
                        Some(Ok(ts)) => match parse2::<File>(ts) {
                            Ok(f) => items.extend(f.items),
                            Err(e) => fail(&format!("macro {}: {}", n, e)),
                        },
                        _ => fail(&format!("macro {} cannot be expanded", n)),
                    }
                }
                Item::Macro(_) => {}
                i => items.push(i),
            }
        }
        m.items = items;
    }
    for m in mods.iter() {
        for i in &m.items {
            let mut sig = |s: &Signature, b: Option<&Block>| {
                let kind = match &s.output {
                    ReturnType::Type(_, t) => match type_name(t).as_str() {
                        "Result" => 'R',
                        "Option" => 'O',
                        _ => '-',
                    },
                    _ => '-',
                };
                let k = ctx.ret_kind.entry(s.ident.to_string()).or_insert(kind);
                if *k != kind {
                    *k = '?';
                }
                if let Some((_, is_mut)) = is_impl_iterator(&s.output) {
                    if is_mut {
                        if let Some(Stmt::Expr(e, None)) = b.and_then(|b| b.stmts.last()) {
                            ctx.mut_iters.insert(s.ident.to_string(), e.clone());
                        }
                    } else {
                        ctx.iter_fns.insert(s.ident.to_string());
                    }
                }
            };
            match i {
                Item::Fn(f) => sig(&f.sig, Some(&f.block)),
                Item::Impl(im) => {
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            sig(&f.sig, Some(&f.block))
                        }
                    }
                    if let Some((_, t, _)) = &im.trait_ {
                        if t.segments.last().unwrap().ident == "Iterator" {
                            ctx.user_iters.insert(type_name(&im.self_ty));
                        }
                    }
                }
                Item::Trait(t) => {
                    ctx.local_traits.insert(t.ident.to_string());
                    for x in &t.items {
                        if let TraitItem::Fn(f) = x {
                            sig(&f.sig, f.default.as_ref())
                        }
                    }
                }
                _ => {}
            }
        }
    }
}

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_name(&r.elem),
        t => plain(t.to_token_stream()),
    }
}

/// `<A,B>` for an impl of a type at concrete arguments, otherwise nothing
fn concrete_args(im: &ItemImpl) -> String {
    let own: Vec<String> = im.generics.params.iter().map(|p| match p {
        GenericParam::Type(t) => t.ident.to_string(),
        GenericParam::Const(c) => c.ident.to_string(),
        GenericParam::Lifetime(l) => l.lifetime.to_string(),
    }).collect();
    if let Type::Path(p) = &*im.self_ty {
        if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
            let v: Vec<String> = a.args.iter().map(|a| plain(a.to_token_stream()).replace(' ', "")).collect();
            if !v.is_empty() && v.iter().all(|a| !own.contains(a) && !a.starts_with('\'')) {
                return format!("<{}>", v.join(","));
            }
        }
    }
    String::new()
}

const VX_NAMES: &[&str] = &[
    "Read", "Write", "ReadBytesExt", "WriteBytesExt", "ByteOrder", "BigEndian", "LittleEndian", "NativeEndian",
    "LE", "BE", "NetworkEndian", "FromPrimitive", "Display", "Formatter",
];

fn flat_use(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            flat_use(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Name(n) => {
            let mut v = pre.clone();
            if n.ident == "self" {
            } else {
                v.push(n.ident.to_string());
            }
            out.push((v, None));
        }
        UseTree::Rename(r) => {
            let mut v = pre.clone();
            if r.ident != "self" {
                v.push(r.ident.to_string());
            }
            out.push((v, Some(r.rename.to_string())));
        }
        UseTree::Glob(_) => {
            let mut v = pre.clone();
            v.push("*".into());
            out.push((v, None));
        }
        UseTree::Group(g) => {
            for t in &g.items {
                flat_use(t, pre, out)
            }
        }
    }
}

/// Rewritten use declarations, as text.
fn use_lines(t: &UseTree, krate: &str, mut_iters: bool) -> Vec<String> {
    let _ = mut_iters;
    let mut flat = vec![];
    flat_use(t, &mut vec![], &mut flat);
    let mut out = vec![];
    for (p, alias) in flat {
        let root = p[0].as_str();
        let q: Option<String> = match root {
            "std" | "core" | "alloc" | "byteorder" | "num_derive" | "num_traits" => {
                let last = p.last().unwrap();
                if krate == "at_asm" && last == "WriteBytesExt" {
                    out.push("crate::vx::WriteU8 as _".into());
                }
                if p.len() == 3 && p[1] == "fmt" && last == "Error" {
                    Some("crate::vx::FmtError".into())
                } else if VX_NAMES.contains(&last.as_str()) { Some(format!("crate::vx::{}", last)) } else if FILES.load(std::sync::atomic::Ordering::Relaxed) && matches!(last.as_str(), "OpenOptions" | "File" | "PathBuf") { Some(format!("crate::vxf::{}", last)) } else if last == "BufReader" { Some("crate::vxs::BufReader".into()) } else { None }
            }
            "crate" => Some(format!("crate::{}::{}", krate, p[1..].join("::"))),
            "at_mac" | "at_obj" | "at_asm" | "at_x64" => Some(format!("crate::{}", p.join("::"))),
            _ => Some(p.join("::")),
        };
        if let Some(q) = q {
            let a = alias.map(|a| format!(" as {}", a)).unwrap_or_default();
            out.push(format!("{}{}", q, a));
        }
    }
    out
}

pub fn fix_use(t: &UseTree, krate: &str) -> Option<UseTree> {
    let mut l = use_lines(t, krate, false);
    let mut seen = HashSet::new();
    l.retain(|x| x.ends_with(" as _") || seen.insert(x.rsplit(" as ").next().unwrap().rsplit("::").next().unwrap().to_string()));
    if l.is_empty() {
        return parse_str("crate::vx::vx_nothing as _vx_nothing").ok();
    }
    parse_str(&format!("{{{}}}", l.join(", "))).ok()
}

struct FnInfo {
    key: String,
    file: String,
    src_line: usize,
    start: usize,
    end: usize,
    has_spec: bool,
    external: bool,
    trusted: bool,
    unsupported: Vec<String>,
    lost_ins: Vec<String>,
    loops: usize,
    want_loops: Option<usize>,
    props: Vec<String>,
    uses: Vec<String>,
    has_body: bool,
    inlined: bool,
    recv: bool,
}

struct Emit<'c> {
    ctx: &'c Ctx,
    specs: &'c Specs,
    out: String,
    fns: Vec<FnInfo>,
    dropped: Vec<String>,
    file: String,
    krate: String,
    used_specs: BTreeSet<String>,
    used_inside: BTreeSet<String>,
    bound: BTreeSet<String>,
    buffered: bool,
    table: &'c inline::Table,
    module: String,
}

fn generics_text(g: &Generics) -> (String, String) {
    let (i, _, w) = g.split_for_impl();
    (plain(i.to_token_stream()), w.map(|w| plain(w.to_token_stream())).unwrap_or_default())
}

struct FixPaths<'a>(&'a str);
impl VisitMut for FixPaths<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        fix_path(p, self.0);
        syn::visit_mut::visit_path_mut(self, p)
    }
}

struct SubstItem<'a>(&'a Type);
impl VisitMut for SubstItem<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if plain(t.to_token_stream()).replace(' ', "") == "Self::Item" {
            *t = self.0.clone();
            return;
        }
        syn::visit_mut::visit_type_mut(self, t)
    }
}

struct RenameSelf;
impl VisitMut for RenameSelf {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "self" {
            *i = Ident::new("self_", Span::call_site());
        }
    }
    fn visit_item_use_mut(&mut self, _: &mut ItemUse) {}
}

impl<'c> Emit<'c> {
    fn line(&self) -> usize {
        self.out.bytes().filter(|b| *b == b'\n').count() + 1
    }
    fn put(&mut self, s: &str) {
        self.out.push_str(s);
        if !s.ends_with('\n') {
            self.out.push('\n');
        }
    }
    fn inside(&mut self, key: &str) {
        if let Some(t) = self.specs.inside.get(key) {
            self.used_inside.insert(key.to_string());
            let t = t.clone();
            self.put(&t);
        }
    }

    fn emit_fn(&mut self, key: &str, mut sig: Signature, block: Option<Block>, vis: &str, self_ty: Option<&Type>) {
        if self.ctx.mut_iters.contains_key(&sig.ident.to_string()) {
            self.dropped.push(format!("{} (inlined at its uses)", key));
            return;
        }
        let spec = self.specs.fns.get(key).cloned();
        if spec.is_some() {
            self.used_specs.insert(key.to_string());
        }
        let src_line = sig.ident.span().start().line;
        let mut block = block;
        let in_module = (self.module.clone(), self_ty.map(type_name).unwrap_or_default(), sig.ident.to_string());
        let inlined = spec.is_none() && self.table.fns.contains_key(&in_module) && block.is_some();
        if let (Some(b), false) = (&mut block, inlined) {
            let mut v = inline::Inliner {
                table: self.table,
                module: self.module.clone(),
                self_ty: self_ty.map(type_name),
                receiver: sig.receiver().cloned(),
                ret: sig.output.clone(),
                closure: 0,
                stack: vec![key.to_string()],
                done: Default::default(),
                n: 0,
                ref_params: sig.inputs.iter().filter_map(|a| match a {
                    FnArg::Typed(t) => match (&*t.pat, &*t.ty) {
                        (Pat::Ident(i), Type::Reference(_)) => Some(i.ident.to_string()),
                        _ => None,
                    },
                    _ => None,
                }).collect(),
            };
            v.tail_block(b);
            v.visit_block_mut(b);
        }
        if let Some((t, _)) = is_impl_iterator(&sig.output) {
            sig.output = parse_quote!(-> Vec<#t>);
        }
        FixPaths(&self.krate.clone()).visit_signature_mut(&mut sig);
        let mut lw = Lower {
            ctx: self.ctx,
            krate: self.krate.clone(),
            spec: spec.clone(),
            nloops: 0,
            raw: HashMap::new(),
            inv: HashMap::new(),
            unsupported: vec![],
            hoisted: vec![],
            fn_name: sig.ident.to_string(),
            self_ty: self_ty.map(type_name),
            tmp: 0,
            rename_fns: HashMap::new(),
            used: Default::default(),
            lets: HashMap::new(),
        };
        // parameters
        let mut pre: Vec<Stmt> = vec![];
        let mut extra_generics: Vec<String> = vec![];
        let mut has_self = false;
        let n_args = sig.inputs.len();
        for (k, a) in sig.inputs.iter_mut().enumerate() {
            match a {
                FnArg::Receiver(r) => {
                    has_self = true;
                    if r.reference.is_none() && r.mutability.is_some() {
                        r.mutability = None;
                        if let Some(b) = &mut block {
                            RenameSelf.visit_block_mut(b);
                        }
                        pre.push(parse_quote!(let mut self_ = self;));
                    }
                }
                FnArg::Typed(t) => {
                    match &*t.pat {
                        Pat::Wild(_) => {
                            let i = Ident::new(&format!("__p{}", k), Span::call_site());
                            t.pat = parse_quote!(#i);
                        }
                        Pat::Ident(_) => {}
                        p => {
                            let i = Ident::new(&format!("__p{}", k), Span::call_site());
                            pre.push(parse_quote!(let #p = #i;));
                            t.pat = parse_quote!(#i);
                        }
                    }
                    // impl Trait arguments become type parameters
                    struct G(Vec<String>, usize);
                    impl VisitMut for G {
                        fn visit_type_mut(&mut self, t: &mut Type) {
                            if let Type::ImplTrait(i) = t {
                                let n = format!("VxG{}", self.1);
                                self.1 += 1;
                                self.0.push(format!("{}: {}", n, plain(i.bounds.to_token_stream())));
                                let n = Ident::new(&n, Span::call_site());
                                *t = parse_quote!(#n);
                                return;
                            }
                            syn::visit_mut::visit_type_mut(self, t)
                        }
                    }
                    let mut g = G(vec![], k);
                    g.visit_type_mut(&mut t.ty);
                    extra_generics.extend(g.0);
                }
            }
        }
        for g in &extra_generics {
            let p: GenericParam = parse_str(g).unwrap();
            sig.generics.params.push(p);
        }
        if has_self && n_args == 1 {
            let n = sig.ident.to_string();
            if matches!(n.as_str(), "len" | "is_empty" | "iter" | "as_ref" | "as_mut" | "chars" | "bytes" | "is_ascii" | "ok" | "trim") {
                sig.ident = Ident::new(&format!("vx_{}", n), Span::call_site());
            }
        }
        if matches!(&block, Some(b) if b.to_token_stream().to_string().contains("unsafe")) {
            lw.unsupported.push("unsafe code".into());
        }
        let has_body = block.is_some();
        let forced = self.ctx.external.contains(key);
        let mut body_text = String::new();
        if let Some(mut b) = block {
            if !forced && !inlined {
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                lw.visit_block_mut(&mut b);
                let mut stmts = pre;
                stmts.extend(lw.ins("start"));
                let mut rest = b.stmts;
                let tail = lw.ins("tail");
                if !tail.is_empty() {
                    let at = rest.len().saturating_sub(1);
                    rest.splice(at..at, tail);
                }
                let mut end = lw.ins("end");
                if self.ctx.canary && spec.is_some() && !spec.as_ref().unwrap().trusted && !matches!(&sig.output, ReturnType::Type(_, t) if matches!(**t, Type::Never(_))) {
                    // vacuity guard: this must fail in every function
                    end.push(parse_quote!(assert(false);));
                }
                if !end.is_empty() {
                    match rest.pop() {
                        Some(Stmt::Expr(e, None)) => {
                            if matches!(sig.output, ReturnType::Default) {
                                rest.push(Stmt::Expr(e, Some(Default::default())));
                                rest.extend(end);
                            } else {
                                rest.push(parse_quote!(let __ret = #e;));
                                rest.extend(end);
                                rest.push(Stmt::Expr(parse_quote!(__ret), None));
                            }
                        }
                        Some(s) => {
                            rest.push(s);
                            rest.extend(end);
                        }
                        None => rest.extend(end),
                    }
                }
                stmts.extend(rest);
                let b2: Block = parse_quote!({ #(#stmts)* });
                let mut p = print::Printer { out: String::new(), inv: &lw.inv, raw: &lw.raw };
                p.tokens(b2.to_token_stream());
                    p.out
                }));
                match res {
                    Ok(t) => body_text = t,
                    Err(_) => lw.unsupported.push("the rewriting of this function failed".into()),
                }
            }
        }
        let external = has_body && (forced || inlined || !lw.unsupported.is_empty());
        let trusted = spec.as_ref().map(|s| s.trusted).unwrap_or(false);
        // header
        let start = self.line();
        let mut h = String::new();
        h.push_str("#[allow(unused)]\n");
        if external || trusted {
            h.push_str("#[verifier::external_body]\n");
        } else if lw.nloops > 0 {
            // termination is an obligation, except of a loop nothing is known about
            h.push_str("#[verifier::loop_isolation(false)]\n");
            if !(1..=lw.nloops).all(|k| lw.inv.get(&k).map_or(false, |t| t.contains("decreases"))) {
                h.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
            }
        }
        if let Some(s) = &spec {
            h.push_str(&s.attrs);
        }
        let (g, w) = generics_text(&sig.generics);
        let inputs = plain(sig.inputs.to_token_stream());
        h.push_str(&format!("{}fn {}{}({})", vis, sig.ident, g, inputs));
        let ret = spec.as_ref().map(|s| s.ret.clone()).unwrap_or("r".into());
        match &sig.output {
            ReturnType::Default => {}
            ReturnType::Type(_, t) => {
                let t = plain(t.to_token_stream());
                if t.trim() == "!" { h.push_str(" -> !") } else { h.push_str(&format!(" -> ({}: {})", ret, t)) }
            }
        }
        if !w.is_empty() {
            let w = w.trim_end().trim_end_matches(',');
            h.push_str(&format!("\n{}", w));
        }
        h.push('\n');
        if let Some(s) = &spec {
            h.push_str(&s.spec);
        }
        if !has_body {
            h = h.trim_end().trim_end_matches(',').to_string();
            h.push_str("\n;\n");
        } else if external || trusted {
            h.push_str("{ unimplemented!() }\n");
        } else {
            h.push_str(&body_text);
            h.push('\n');
        }
        self.put(&h);
        let end = self.line();
        self.fns.push(FnInfo {
            key: key.to_string(),
            file: self.file.clone(),
            src_line,
            start,
            end,
            has_spec: spec.is_some(),
            external,
            trusted,
            unsupported: lw.unsupported.clone(),
            lost_ins: spec.as_ref().map(|s| s.ins.keys().filter(|k| !lw.used.contains(*k)).cloned().collect()).unwrap_or_default(),
            loops: lw.nloops,
            want_loops: spec.as_ref().and_then(|s| s.nloops),
            props: spec.as_ref().map(|s| s.props.clone()).unwrap_or_default(),
            uses: spec.as_ref().map(|s| s.uses.clone()).unwrap_or_default(),
            has_body,
            inlined,
            recv: sig.receiver().is_some(),
        });
        let hoisted = std::mem::take(&mut lw.hoisted);
        for f in hoisted {
            let pre = key.rsplit_once("::").unwrap().0.to_string();
            let k = format!("{}::{}", pre, f.sig.ident);
            // nested functions of methods go to the module; those of functions stay beside them
            self.pending(k, f, self_ty.is_some());
        }
    }

    fn pending(&mut self, key: String, f: ItemFn, in_impl: bool) {
        if in_impl {
            Self::late.with(|l| l.borrow_mut().push((key, f)));
        } else {
            self.emit_fn(&key, f.sig, Some(*f.block), "pub ", None);
        }
    }

    fn emit_module(&mut self, m: &Module, all: &[Module]) {
        if self.specs.drop.contains(&m.path.join("::")) {
            self.dropped.push(m.path.join("::"));
            return;
        }
        self.file = m.file.clone();
        let name = m.path.last().unwrap().clone();
        self.module = m.path.join("::");
        self.put(&format!("pub mod {} {{", name));
        self.put("#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vx::t::*;\n#[allow(unused_imports)] use crate::vxs::*;\n#[allow(unused_imports)] use crate::specs::*;\nbroadcast use crate::vx::group_enc;");
        if FILES.load(std::sync::atomic::Ordering::Relaxed) {
            self.put("#[allow(unused_imports)] use crate::vxf::*;");
        }
        let prefix = m.path.join("::");
        self.buffered = m.items.iter().any(|i| matches!(i, Item::Use(u) if u.to_token_stream().to_string().contains("BufReader")));
        for i in &m.items {
            self.emit_item(i, &prefix);
        }
        let late = LATE.with(|l| std::mem::take(&mut *l.borrow_mut()));
        for (k, f) in late {
            self.emit_fn(&k, f.sig, Some(*f.block), "pub ", None);
        }
        self.inside(&prefix);
        for c in all {
            if c.path.len() == m.path.len() + 1 && c.path[..m.path.len()] == m.path[..] {
                self.emit_module(c, all);
            }
        }
        self.put("}");
        self.file = m.file.clone();
    }

    fn derives(attrs: &[Attribute]) -> Vec<String> {
        let mut v = vec![];
        for a in attrs {
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|m| {
                    v.push(m.path.segments.last().unwrap().ident.to_string());
                    Ok(())
                });
            }
        }
        v
    }

    fn emit_item(&mut self, i: &Item, prefix: &str) {
        let krate = self.krate.clone();
        match i {
            Item::Use(u) => {
                for l in use_lines(&u.tree, &krate, false) {
                    let last = l.split("::").last().unwrap().split(' ').next().unwrap().to_string();
                    if self.ctx.mut_iters.contains_key(&last) || self.specs.drop.contains(&format!("use {}", last)) {
                        continue;
                    }
                    let bound = l.rsplit(" as ").next().unwrap().rsplit("::").next().unwrap().to_string();
                    if bound != "*" && bound != "_" && !self.bound.insert(format!("{} {}", prefix, bound)) {
                        continue;
                    }
                    let l = if self.buffered && l == "crate::vx::Read" { "crate::vxs::Source as Read".to_string() } else { l };
                    self.put(&format!("#[allow(unused_imports)] pub use {};", l));
                }
            }
            Item::Const(c) => {
                let mut c = c.clone();
                FixPaths(&krate).visit_item_const_mut(&mut c);
                self.put(&format!("pub const {}: {} = {};", c.ident, plain(c.ty.to_token_stream()), plain(c.expr.to_token_stream())));
            }
            Item::Type(t) => {
                let mut t = t.clone();
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                FixPaths(&krate).visit_item_type_mut(&mut t);
                self.put(&plain(t.to_token_stream()));
            }
            Item::Struct(s) => {
                let d = Self::derives(&s.attrs);
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                }
                FixPaths(&krate).visit_item_struct_mut(&mut s);
                if d.contains(&"Copy".to_string()) {
                    self.put("#[derive(Clone, Copy)]");
                }
                self.put(&plain(s.to_token_stream()));
            }
            Item::Enum(e) => self.emit_enum(e, prefix),
            Item::Fn(f) => {
                let key = format!("{}::{}", prefix, f.sig.ident);
                self.emit_fn(&key, f.sig.clone(), Some((*f.block).clone()), "pub ", None);
            }
            Item::Trait(t) => {
                let key = format!("{}::{}", prefix, t.ident);
                let (g, w) = generics_text(&t.generics);
                let mut sup = t.supertraits.clone();
                for b in sup.iter_mut() {
                    FixPaths(&krate).visit_type_param_bound_mut(b);
                }
                let sup = plain(sup.to_token_stream());
                let sup = if sup.is_empty() { sup } else { format!(": {}", sup) };
                self.put(&format!("pub trait {}{}{} {} {{", t.ident, g, sup, w));
                self.inside(&key);
                for x in &t.items {
                    match x {
                        TraitItem::Fn(f) => {
                            let k = format!("{}::{}", key, f.sig.ident);
                            let dummy: Type = parse_quote!(Self);
                            self.emit_fn(&k, f.sig.clone(), f.default.clone(), "", Some(&dummy));
                        }
                        x => self.put(&plain(x.to_token_stream())),
                    }
                }
                self.put("}");
            }
            Item::Impl(im) => self.emit_impl(im, prefix),
            Item::Macro(_) => {}
            other => self.dropped.push(format!("{}: item {}", prefix, plain(other.to_token_stream()).chars().take(60).collect::<String>())),
        }
    }

    fn emit_enum(&mut self, e: &ItemEnum, prefix: &str) {
        let d = Self::derives(&e.attrs);
        let unit = e.variants.iter().all(|v| matches!(v.fields, Fields::Unit));
        let has_ref = e.variants.iter().any(|v| v.fields.iter().any(|f| matches!(f.ty, Type::Reference(ref r) if r.mutability.is_none())));
        let all_shared = e.variants.iter().all(|v| v.fields.iter().all(|f| matches!(f.ty, Type::Reference(ref r) if r.mutability.is_none())));
        let mut x = e.clone();
        x.attrs.clear();
        x.vis = parse_quote!(pub);
        for v in x.variants.iter_mut() {
            v.attrs.clear();
            for f in v.fields.iter_mut() {
                f.attrs.clear();
            }
        }
        FixPaths(&self.krate.clone()).visit_item_enum_mut(&mut x);
        let copy = d.contains(&"Copy".to_string());
        let eq = copy && unit && d.contains(&"PartialEq".to_string());
        if eq {
            self.put("#[derive(Clone, Copy, PartialEq, Eq)]");
        } else if copy || (has_ref && all_shared) {
            self.put("#[derive(Clone, Copy)]");
        }
        let mut big = false;
        let mut codes: Vec<(String, String)> = vec![];
        if unit {
            let mut next: Option<String> = Some("0".into());
            for v in &e.variants {
                let c = match &v.discriminant {
                    Some((_, x)) => plain(x.to_token_stream()),
                    None => next.clone().unwrap(),
                };
                if let Some(n) = lit_value(&c) {
                    if n > i32::MAX as u128 {
                        big = true;
                    }
                    next = Some((n + 1).to_string());
                } else {
                    next = Some(format!("({}) + 1", c));
                }
                codes.push((v.ident.to_string(), c));
            }
        }
        if big {
            self.put("#[repr(u32)]");
        }
        self.put(&plain(x.to_token_stream()));
        if eq {
            self.put(&format!("unsafe impl verus_builtin::Structural for {} {{}}", e.ident));
        }
        if d.contains(&"FromPrimitive".to_string()) {
            let n = &e.ident;
            let mut s = format!("impl crate::vx::FromPrimitive for {} {{\n", n);
            s.push_str("open spec fn prim(n: int) -> Option<Self> {\n");
            for (v, c) in &codes {
                s.push_str(&format!("if n == ({}) {{ Some({}::{}) }} else ", c, n, v));
            }
            s.push_str("{ None }\n}\n");
            for t in ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"] {
                s.push_str(&format!("fn from_{}(n: {}) -> (r: Option<Self>) {{ let n = n as i128;\n", t, t));
                for (v, c) in &codes {
                    s.push_str(&format!("if n == ({}) {{ Some({}::{}) }} else ", c, n, v));
                }
                s.push_str("{ None }\n}\n");
            }
            s.push_str("}\n");
            self.put(&s);
        }
        let key = format!("{}::{}", prefix, e.ident);
        self.inside(&format!("{}#enum", key));
    }

    fn emit_impl(&mut self, im: &ItemImpl, prefix: &str) {
        let krate = self.krate.clone();
        let tn = type_name(&im.self_ty) + &concrete_args(im);
        let key = format!("{}::{}", prefix, tn);
        let mut trait_text = String::new();
        let mut inherent_of_trait = false;
        let mut item_ty: Option<Type> = None;
        let mut tkey = String::new();
        if let Some((_, t, _)) = &im.trait_ {
            let name = t.segments.last().unwrap().ident.to_string();
            tkey = name.clone();
            let full = format!("{} as {}", key, name);
            if self.specs.drop.contains(&full) {
                self.dropped.push(full);
                return;
            }
            if name == "Display" && !self.specs.inside.contains_key(&full) {
                self.dropped.push(format!("impl {} for {} ({})", name, tn, prefix));
                return;
            }
            if self.ctx.local_traits.contains(&name) || self.known_trait(t) {
                let mut t = t.clone();
                FixPaths(&krate).visit_path_mut(&mut t);
                trait_text = format!("{} for ", plain(t.to_token_stream()));
            } else if matches!(name.as_str(), "AsRef" | "AsMut" | "From" | "Default" | "Iterator") {
                inherent_of_trait = true;
                for x in &im.items {
                    if let ImplItem::Type(t) = x {
                        if t.ident == "Item" {
                            item_ty = Some(t.ty.clone());
                        }
                    }
                }
            } else {
                self.dropped.push(format!("impl {} for {} ({})", name, tn, prefix));
                return;
            }
        }
        let mut im = im.clone();
        if let Some(t) = &item_ty {
            SubstItem(t).visit_item_impl_mut(&mut im);
        }
        let (g, w) = generics_text(&im.generics);
        let mut st = (*im.self_ty).clone();
        FixPaths(&krate).visit_type_mut(&mut st);
        self.put(&format!("impl{} {}{} {} {{", g, trait_text, plain(st.to_token_stream()), w));
        let is_trait = !trait_text.is_empty();
        if is_trait {
            self.inside(&format!("{} as {}", key, tkey));
        } else if !inherent_of_trait {
            self.inside(&key);
        }
        for x in &im.items {
            match x {
                ImplItem::Fn(f) => {
                    if cfg_drop(&f.attrs) {
                        continue;
                    }
                    let k = format!("{}::{}", key, f.sig.ident);
                    self.emit_fn(&k, f.sig.clone(), Some(f.block.clone()), if is_trait { "" } else { "pub " }, Some(&im.self_ty));
                }
                ImplItem::Const(c) => {
                    if cfg_drop(&c.attrs) {
                        continue;
                    }
                    let mut c = c.clone();
                    FixPaths(&krate).visit_impl_item_const_mut(&mut c);
                    self.put(&format!("{}const {}: {} = {};", if is_trait { "" } else { "pub " }, c.ident, plain(c.ty.to_token_stream()), plain(c.expr.to_token_stream())));
                }
                ImplItem::Type(t) if inherent_of_trait => {
                    let _ = t;
                }
                x => self.put(&plain(x.to_token_stream())),
            }
        }
        self.put("}");
    }

    fn known_trait(&self, t: &Path) -> bool {
        matches!(t.segments.last().unwrap().ident.to_string().as_str(), "InstructionTrait" | "Display")
    }
}

thread_local! {
    static LATE: std::cell::RefCell<Vec<(String, ItemFn)>> = const { std::cell::RefCell::new(vec![]) };
}
impl Emit<'_> {
    #[allow(non_upper_case_globals)]
    const late: &'static std::thread::LocalKey<std::cell::RefCell<Vec<(String, ItemFn)>>> = &LATE;
}

fn lit_value(s: &str) -> Option<u128> {
    parse_str::<LitInt>(s.trim()).ok()?.base10_parse::<u128>().ok()
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let (outp, mapp) = (args[0].clone(), args[1].clone());
    let (mut preludes, mut specf, mut crates, mut external) = (vec![], vec![], vec![], HashSet::new());
    let mut canary = false;
    let mut mode = String::new();
    for a in &args[2..] {
        if a.starts_with("--") {
            mode = a.clone();
            continue;
        }
        match mode.as_str() {
            "--prelude" => preludes.push(a.clone()),
            "--spec" => specf.push(a.clone()),
            "--crate" => {
                let (n, d) = a.split_once('=').unwrap();
                crates.push((n.to_string(), PathBuf::from(d)));
            }
            "--canary" => canary = true,
            "--external" => {
                external.insert(a.clone());
            }
            _ => fail("usage"),
        }
    }
    FILES.store(preludes.iter().any(|p| p.ends_with("vxf.rs")), std::sync::atomic::Ordering::Relaxed);
    let specs = spec::load(&specf);
    let mut ctx = Ctx { external, canary, ..Default::default() };
    let mut loaded: Vec<(String, Vec<Module>)> = vec![];
    for (n, d) in &crates {
        let mut mods = vec![];
        let (src, root) = if d.is_file() { (d.parent().unwrap().to_path_buf(), d.clone()) } else { (d.join("src"), d.join("src").join("lib.rs")) };
        load_module(&root, &src, vec![n.clone()], &mut mods);
        scan(&mut mods, &mut ctx);
        loaded.push((n.clone(), mods));
    }
    let mut table = inline::Table::default();
    for (_, mods) in &loaded {
        for m in mods {
            let mut fns: Vec<(Option<String>, &Signature, Option<&Block>, bool)> = vec![];
            for i in &m.items {
                match i {
                    Item::Fn(f) => fns.push((None, &f.sig, Some(&f.block), true)),
                    Item::Impl(im) => {
                        let own = im.trait_.is_none() && concrete_args(im).is_empty();
                        for x in &im.items {
                            if let ImplItem::Fn(f) = x {
                                fns.push((Some(type_name(&im.self_ty)), &f.sig, Some(&f.block), own && !cfg_drop(&f.attrs)));
                            }
                        }
                    }
                    Item::Trait(t) => {
                        for x in &t.items {
                            if let TraitItem::Fn(f) = x {
                                fns.push((None, &f.sig, f.default.as_ref(), false));
                            }
                        }
                    }
                    _ => {}
                }
            }
            for (t, s, b, own) in fns {
                table.count(&s.ident);
                if own && !ctx.mut_iters.contains_key(&s.ident.to_string()) {
                    table.add(&m.path.join("::"), t, s, b.unwrap(), &specs);
                }
            }
        }
    }
    let mut e = Emit {
        ctx: &ctx,
        specs: &specs,
        out: String::new(),
        fns: vec![],
        dropped: vec![],
        file: String::new(),
        krate: String::new(),
        used_specs: BTreeSet::new(),
        used_inside: BTreeSet::new(),
        bound: BTreeSet::new(),
        buffered: false,
        table: &table,
        module: String::new(),
    };
    e.put("#![allow(unused, dead_code, non_snake_case, non_camel_case_types, unreachable_code, private_interfaces)]\nuse vstd::prelude::*;\nverus! {");
    if !preludes.iter().any(|p| p.ends_with("vxs.rs")) {
        e.put("pub mod vxs {}");
    }

    for p in &preludes {
        let t = std::fs::read_to_string(p).unwrap_or_else(|x| fail(&format!("{}: {}", p, x)));
        e.put(&t);
    }
    for (n, mods) in &loaded {
        e.krate = n.clone();
        e.emit_module(&mods[0], mods);
    }
    e.put("pub mod specs {");
    e.put(&specs.top);
    for (m, t) in &specs.tops {
        e.put(&format!("pub use s_{0}::*;\npub mod s_{0} {{\nuse super::*;\nbroadcast use crate::vx::group_enc;", m));
        e.put(t);
        e.put("}");
    }
    e.put("}");
    e.put("}\nfn main() {}");
    std::fs::write(&outp, &e.out).unwrap();
    let mut lost: Vec<String> = vec![];
    for k in specs.fns.keys() {
        if !e.used_specs.contains(k) {
            lost.push(k.clone());
        }
    }
    for k in specs.inside.keys() {
        if !e.used_inside.contains(k) {
            lost.push(format!("inside {}", k));
        }
    }
    let mut j = String::from("{\"fns\":[\n");
    for (k, f) in e.fns.iter().enumerate() {
        if k > 0 {
            j.push_str(",\n");
        }
        j.push_str(&format!(
            "{{\"key\":{},\"file\":{},\"src_line\":{},\"start\":{},\"end\":{},\"has_spec\":{},\"external\":{},\"trusted\":{},\"has_body\":{},\"inlined\":{},\"recv\":{},\"unsupported\":{},\"lost_ins\":{},\"loops\":{},\"want_loops\":{},\"props\":{},\"uses\":{}}}",
            esc(&f.key), esc(&f.file), f.src_line, f.start, f.end, f.has_spec, f.external, f.trusted, f.has_body, f.inlined, f.recv, list(&f.unsupported), list(&f.lost_ins), f.loops,
            f.want_loops.map(|n| n.to_string()).unwrap_or("null".into()), list(&f.props), list(&f.uses)
        ));
    }
    j.push_str(&format!("\n],\"dropped\":{},\"lost\":{}}}\n", list(&e.dropped), list(&lost)));
    std::fs::write(&mapp, j).unwrap();
}
