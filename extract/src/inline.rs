//! Calls of functions without a contract are replaced by the body of the function.
//!
//! A helper qualifies when it lies in the module of the caller (a free function or an inherent
//! method), is not recursive and not generic over anything but readers and writers. Early exits
//! (`return`, `?`) are kept only where they leave the caller with the value the helper would have
//! returned: in a tail position, or, for `?` alone, under a `?` with the same error type.
use crate::print::plain;
use crate::spec::Specs;
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::{BTreeSet, HashMap};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
pub struct Helper {
    pub sig: Signature,
    pub block: Block,
    pub ty: Option<String>,
    pub ret_exit: bool,
    pub try_exit: bool,
}

#[derive(Default)]
pub struct Table {
    /// module path, type (or ""), name
    pub fns: HashMap<(String, String, String), Helper>,
    /// how many functions of this name the sources have
    pub names: HashMap<String, usize>,
}

struct Exits {
    ret: bool,
    bad_ret: bool,
    tr: bool,
}
impl<'a> Visit<'a> for Exits {
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        // `return Err(..)` and `return None` behave like `?`
        let fail = r.expr.as_ref().map(|e| match &**e {
            Expr::Call(c) => plain(c.func.to_token_stream()).trim() == "Err",
            Expr::Path(p) => p.path.is_ident("None"),
            _ => false,
        }).unwrap_or(false);
        if fail { self.tr = true } else { self.bad_ret = true }
        self.ret = true;
        visit::visit_expr_return(self, r)
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        self.tr = true;
        visit::visit_expr_try(self, t)
    }
}

struct Idents<'s>(&'s str, usize);
impl<'a> Visit<'a> for Idents<'_> {
    fn visit_ident(&mut self, i: &'a Ident) {
        if i == self.0 {
            self.1 += 1
        }
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        fn count(t: proc_macro2::TokenStream, s: &str) -> usize {
            t.into_iter().map(|t| match t {
                proc_macro2::TokenTree::Ident(i) if i == s => 1,
                proc_macro2::TokenTree::Group(g) => count(g.stream(), s),
                _ => 0,
            }).sum()
        }
        self.1 += count(m.tokens.clone(), self.0);
    }
}
fn mentions(b: &Expr, s: &str) -> usize {
    let mut v = Idents(s, 0);
    v.visit_expr(b);
    v.1
}
fn block_mentions(b: &Block, s: &str) -> usize {
    let mut v = Idents(s, 0);
    v.visit_block(b);
    v.1
}

/// uses of `self` other than `self.field` and `self.method()`
struct BareSelf(bool, bool);
impl<'a> Visit<'a> for BareSelf {
    fn visit_expr_field(&mut self, f: &'a ExprField) {
        if !matches!(&*f.base, Expr::Path(p) if p.path.is_ident("self")) {
            visit::visit_expr_field(self, f)
        }
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if !matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) {
            self.visit_expr(&m.receiver)
        }
        for a in &m.args {
            self.visit_expr(a)
        }
    }
    fn visit_ident(&mut self, i: &'a Ident) {
        if i == "self" {
            self.0 = true
        }
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        if m.tokens.to_string().contains("self") {
            self.0 = true;
            self.1 = true;
        }
    }
}

impl Table {
    pub fn count(&mut self, name: &Ident) {
        *self.names.entry(name.to_string()).or_default() += 1;
    }

    pub fn add(&mut self, module: &str, ty: Option<String>, sig: &Signature, block: &Block, specs: &Specs) {
        let name = sig.ident.to_string();
        let key = match &ty {
            Some(t) => format!("{}::{}::{}", module, t, name),
            None => format!("{}::{}", module, name),
        };
        if specs.fns.contains_key(&key) || name == "main" || sig.asyncness.is_some() || sig.unsafety.is_some() {
            return;
        }
        if matches!(&sig.output, ReturnType::Type(_, t) if matches!(**t, Type::ImplTrait(_) | Type::Never(_))) {
            return;
        }
        if block.to_token_stream().to_string().contains("unsafe") || block_mentions(block, &name) > 0 {
            return;
        }
        let mut e = Exits { ret: false, bad_ret: false, tr: false };
        e.visit_block(block);
        let h = Helper { sig: sig.clone(), block: block.clone(), ty: ty.clone(), ret_exit: e.bad_ret, try_exit: e.tr };
        self.fns.insert((module.to_string(), ty.unwrap_or_default(), name), h);
    }
}

pub struct Inliner<'a> {
    pub table: &'a Table,
    pub module: String,
    pub self_ty: Option<String>,
    pub receiver: Option<Receiver>,
    pub ret: ReturnType,
    pub closure: usize,
    pub stack: Vec<String>,
    pub done: BTreeSet<String>,
    pub n: usize,
    /// parameters of the function at hand which are references
    pub ref_params: BTreeSet<String>,
}

/// the part of a return type that `?` hands on
fn err_type(t: &ReturnType) -> Option<String> {
    if let ReturnType::Type(_, t) = t {
        if let Type::Path(p) = &**t {
            let s = p.path.segments.last()?;
            if s.ident == "Option" {
                return Some("None".into());
            }
            if s.ident == "Result" {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    if a.args.len() == 2 {
                        return Some(plain(a.args[1].to_token_stream()).replace(' ', ""));
                    }
                    let pre: Vec<String> = p.path.segments.iter().take(p.path.segments.len() - 1).map(|s| s.ident.to_string()).collect();
                    return Some(format!("{}::Result", pre.join("::")));
                }
            }
        }
    }
    None
}

struct Strip(BTreeSet<String>, bool);
impl VisitMut for Strip {
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
        r.lifetime = None;
        visit_mut::visit_type_reference_mut(self, r)
    }
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
        *l = Lifetime::new("'_", Span::call_site());
    }
    fn visit_type_impl_trait_mut(&mut self, _: &mut TypeImplTrait) {
        self.1 = true;
    }
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if self.0.contains(&i.to_string()) {
            self.1 = true
        }
    }
}

struct SelfTy(Ident);
impl VisitMut for SelfTy {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "Self" {
            *i = self.0.clone()
        }
    }
}

/// puts an expression in place of `self`, behind a `&` where `self` is used as a whole
struct SelfExpr(Expr, bool);
impl VisitMut for SelfExpr {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let is_self = |e: &Expr| matches!(e, Expr::Path(p) if p.path.is_ident("self"));
        match e {
            Expr::Field(f) if is_self(&f.base) => {
                *f.base = self.0.clone();
                return;
            }
            Expr::MethodCall(m) if is_self(&m.receiver) => {
                *m.receiver = self.0.clone();
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a)
                }
                return;
            }
            _ => {}
        }
        if is_self(e) {
            let r = &self.0;
            *e = if self.1 { parse_quote!((&#r)) } else { parse_quote!(#r) };
            return;
        }
        visit_mut::visit_expr_mut(self, e)
    }
}

#[derive(PartialEq, Clone, Copy)]
enum Place {
    Value,
    Tail,
    Try,
    Stmt,
}

fn simple_place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => simple_place(&f.base),
        _ => false,
    }
}

impl Inliner<'_> {
    /// is this the name of a parameter which is a reference?
    fn refs(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.path.get_ident().map(|i| self.ref_params.contains(&i.to_string())).unwrap_or(false))
    }

    fn find(&self, e: &Expr) -> Option<(Helper, Option<Expr>, Vec<Expr>)> {
        let m = self.module.clone();
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                if p.qself.is_some() {
                    return None;
                }
                let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let h = match v.len() {
                    1 => self.table.fns.get(&(m, String::new(), v[0].clone()))?,
                    2 => {
                        let t = if v[0] == "Self" { self.self_ty.clone()? } else { v[0].clone() };
                        self.table.fns.get(&(m, t, v[1].clone()))?
                    }
                    _ => return None,
                };
                if h.sig.receiver().is_some() {
                    return None;
                }
                Some((h.clone(), None, c.args.iter().cloned().collect()))
            }
            Expr::MethodCall(c) => {
                let name = c.method.to_string();
                let is_self = matches!(&*c.receiver, Expr::Path(p) if p.path.is_ident("self"));
                let h = if is_self {
                    self.table.fns.get(&(m, self.self_ty.clone()?, name))?
                } else {
                    if self.table.names.get(&name) != Some(&1) || !simple_place(&c.receiver) {
                        return None;
                    }
                    self.table.fns.iter().find(|(k, h)| k.0 == m && k.2 == name && h.sig.receiver().is_some())?.1
                };
                h.sig.receiver()?;
                Some((h.clone(), Some((*c.receiver).clone()), c.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }

    fn expand(&mut self, e: &Expr, place: Place) -> Option<Block> {
        let (h, recv, args) = self.find(e)?;
        let name = match &h.ty {
            Some(t) => format!("{}::{}::{}", self.module, t, h.sig.ident),
            None => format!("{}::{}", self.module, h.sig.ident),
        };
        if self.stack.contains(&name) || self.stack.len() > 6 {
            return None;
        }
        match place {
            Place::Tail => {
                if (h.ret_exit || h.try_exit) && self.closure > 0 {
                    return None;
                }
            }
            Place::Try => {
                if h.ret_exit || h.try_exit && (self.closure > 0 || err_type(&h.sig.output).is_none() || err_type(&h.sig.output) != err_type(&self.ret)) {
                    return None;
                }
            }
            _ => {
                if h.ret_exit || h.try_exit {
                    return None;
                }
            }
        }
        let own: BTreeSet<String> = h.sig.generics.params.iter().filter_map(|p| match p {
            GenericParam::Type(t) => Some(t.ident.to_string()),
            GenericParam::Const(c) => Some(c.ident.to_string()),
            _ => None,
        }).collect();
        let mut block = h.block.clone();
        // a body that names its own type parameters cannot be moved
        if own.iter().any(|g| block_mentions(&block, g) > 0) {
            return None;
        }
        let same_self = recv.as_ref().map(|r| matches!(r, Expr::Path(p) if p.path.is_ident("self"))).unwrap_or(false);
        let mut sig = h.sig.clone();
        if let Some(t) = &h.ty {
            if self.self_ty.as_ref() != Some(t) {
                let t = Ident::new(t, Span::call_site());
                SelfTy(t.clone()).visit_block_mut(&mut block);
                SelfTy(t).visit_signature_mut(&mut sig);
            }
        }
        if let Some(r) = &recv {
            let kind = |r: &Receiver| (r.reference.is_some(), r.reference.is_some() && r.mutability.is_some());
            let hk = kind(h.sig.receiver()?);
            if h.sig.receiver()?.reference.is_none() && h.sig.receiver()?.mutability.is_some() {
                return None;
            }
            let same = same_self && self.receiver.as_ref().map(|r| kind(r) == hk || kind(r).0 && hk.0).unwrap_or(false);
            if !same {
                let mut b = BareSelf(false, false);
                b.visit_block(&block);
                if b.1 || b.0 && !matches!(h.sig.receiver()?.reference, Some(_) if h.sig.receiver()?.mutability.is_none()) {
                    return None;
                }
                SelfExpr(r.clone(), b.0 && !self.refs(r)).visit_block_mut(&mut block);
            }
        }
        let mut lets: Vec<Stmt> = vec![];
        let params: Vec<&PatType> = sig.inputs.iter().filter_map(|a| match a {
            FnArg::Typed(t) => Some(t),
            _ => None,
        }).collect();
        if params.len() != args.len() {
            return None;
        }
        self.n += 1;
        let mut later: Vec<Stmt> = vec![];
        for (k, (p, a)) in params.iter().zip(&args).enumerate() {
            let mut t = (*p.ty).clone();
            let mut s = Strip(own.clone(), false);
            s.visit_type_mut(&mut t);
            let a = match (&*p.ty, a) {
                (Type::Reference(r), Expr::Path(x)) if r.mutability.is_some() => {
                    if matches!(&*p.pat, Pat::Ident(i) if x.path.is_ident(&i.ident) && i.mutability.is_none()) {
                        continue;
                    }
                    parse_quote!(&mut *#x)
                }
                _ => a.clone(),
            };
            let pat = (*p.pat).clone();
            if matches!(pat, Pat::Wild(_)) {
                lets.push(Stmt::Expr(parse_quote!(let _ = #a), Some(Default::default())));
                continue;
            }
            // an argument that mentions a name bound by an earlier parameter is evaluated first
            let clash = args.iter().skip(k + 1).any(|b| match &pat {
                Pat::Ident(i) => mentions(b, &i.ident.to_string()) > 0,
                _ => true,
            });
            let ty: Option<Type> = if s.1 { None } else { Some(t) };
            let bind = |pat: &Pat, a: &Expr| -> Stmt {
                match &ty {
                    Some(t) => parse_quote!(let #pat: #t = #a;),
                    None => parse_quote!(let #pat = #a;),
                }
            };
            if clash {
                let tmp = Ident::new(&format!("__h{}_{}", self.n, k), Span::call_site());
                let tp: Pat = parse_quote!(#tmp);
                lets.push(bind(&tp, &a));
                later.push(parse_quote!(let #pat = #tmp;));
            } else {
                lets.push(bind(&pat, &a));
            }
        }
        lets.extend(later);
        self.stack.push(name.clone());
        let (st, rc) = (self.self_ty.clone(), self.receiver.clone());
        if place == Place::Tail {
            self.tail_block(&mut block);
        }
        self.visit_block_mut(&mut block);
        self.self_ty = st;
        self.receiver = rc;
        self.stack.pop();
        self.done.insert(name);
        let unit = matches!(sig.output, ReturnType::Default);
        let mut stmts = lets;
        if place == Place::Tail || unit {
            stmts.extend(block.stmts);
            if unit && place != Place::Tail {
                // the block is a statement
                if let Some(Stmt::Expr(_, semi @ None)) = stmts.last_mut() {
                    *semi = Some(Default::default());
                }
            }
        } else {
            let ReturnType::Type(_, t) = &sig.output else { unreachable!() };
            let mut t = (**t).clone();
            let mut s = Strip(own, false);
            s.visit_type_mut(&mut t);
            let single = block.stmts.len() == 1;
            let inner: Expr = match block.stmts.pop() {
                Some(Stmt::Expr(e, None)) if single => e,
                Some(s) => {
                    block.stmts.push(s);
                    Expr::Block(ExprBlock { attrs: vec![], label: None, block })
                }
                None => return None,
            };
            if s.1 {
                stmts.push(Stmt::Expr(inner, None));
            } else {
                let r = Ident::new(&format!("__h{}", self.n), Span::call_site());
                stmts.push(parse_quote!(let #r: #t = #inner;));
                stmts.push(Stmt::Expr(parse_quote!(#r), None));
            }
        }
        Some(Block { brace_token: Default::default(), stmts })
    }

    pub fn tail_block(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail(e)
        }
    }

    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::If(i) if i.else_branch.is_some() => {
                self.tail_block(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail(x)
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    self.tail(&mut a.body)
                }
            }
            Expr::Block(b) if b.label.is_none() => self.tail_block(&mut b.block),
            Expr::Paren(p) => self.tail(&mut p.expr),
            e => {
                if let Some(b) = self.expand(e, Place::Tail) {
                    *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                }
            }
        }
    }
}

impl VisitMut for Inliner<'_> {
    fn visit_item_mut(&mut self, _: &mut Item) {}

    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        self.closure += 1;
        self.visit_expr_mut(&mut c.body);
        self.closure -= 1;
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Expr(e, semi) = s {
            let call = matches!(e, Expr::Call(_) | Expr::MethodCall(_));
            if call && semi.is_some() {
                visit_mut::visit_expr_mut(self, e);
                if let Some(b) = self.expand(e, Place::Stmt) {
                    *s = Stmt::Expr(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }), Some(Default::default()));
                }
                return;
            }
        }
        visit_mut::visit_stmt_mut(self, s)
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Return(r) = e {
            if let Some(x) = &mut r.expr {
                if self.closure == 0 {
                    self.tail(x);
                }
            }
        }
        // a helper handed to an adapter by name
        if let Expr::MethodCall(m) = e {
            for a in m.args.iter_mut() {
                if let Expr::Path(p) = a {
                    let p = p.clone();
                    let call: Expr = parse_quote!(#p(__hx));
                    if let Some((h, None, _)) = self.find(&call) {
                        if h.sig.inputs.len() == 1 && !h.ret_exit && !h.try_exit {
                            *a = parse_quote!(|__hx| #call);
                        }
                    }
                }
            }
        }
        if let Expr::Try(t) = e {
            visit_mut::visit_expr_mut(self, &mut t.expr);
            if let Some(b) = self.expand(&t.expr, Place::Try) {
                *t.expr = Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })) });
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if matches!(e, Expr::Call(_) | Expr::MethodCall(_)) {
            if let Some(b) = self.expand(e, Place::Value) {
                let x = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                *e = Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(x) });
            }
        }
    }
}
