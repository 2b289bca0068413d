//! Rewrites a function body into the dialect the verifier accepts.
//! Every rewrite is listed in DESIGN.md ("what the extraction does").
use crate::spec::FnSpec;
use crate::{macros, print, Ctx};
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Lower<'c> {
    pub ctx: &'c Ctx,
    pub krate: String,
    pub spec: Option<FnSpec>,
    pub nloops: usize,
    pub raw: HashMap<usize, String>,
    pub inv: HashMap<usize, String>,
    pub unsupported: Vec<String>,
    pub hoisted: Vec<ItemFn>,
    pub fn_name: String,
    pub self_ty: Option<String>,
    pub tmp: usize,
    pub rename_fns: HashMap<String, String>,
    pub used: std::collections::BTreeSet<String>,
    pub lets: HashMap<String, usize>,
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

struct Op {
    name: String,
    turbofish: Option<AngleBracketedGenericArguments>,
    args: Vec<Expr>,
}

enum Src {
    List(Expr),
    Range(Expr, Expr, bool),
    Mut(Vec<Expr>),
    User(Expr),
}

enum Term {
    ForEach(Pat, Vec<Stmt>),
    Sum(Option<TokenStream>),
    Count,
    List,
    Any(Pat, Expr),
    All(Pat, Expr),
    Find(Pat, Expr),
    Position(Pat, Expr),
    Fold(Expr, Pat, Pat, Expr),
}

impl<'c> Lower<'c> {
    fn bad(&mut self, why: impl Into<String>) -> Expr {
        self.unsupported.push(why.into());
        parse_quote!(crate::vx::vx_unsupported())
    }
    pub fn raw_text(&mut self, text: String) -> usize {
        let n = self.raw.len() + 1;
        self.raw.insert(n, text);
        n
    }
    pub fn ins(&mut self, point: &str) -> Vec<Stmt> {
        let t = self.spec.as_ref().and_then(|s| s.ins.get(point)).cloned();
        match t {
            Some(t) => {
                self.used.insert(point.to_string());
                let n = self.raw_text(t);
                let l = LitInt::new(&n.to_string(), Span::call_site());
                vec![parse_quote!(__vx_raw!(#l);)]
            }
            None => vec![],
        }
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        id(&format!("__{}{}", p, self.tmp))
    }
    fn next_loop(&mut self) -> usize {
        self.nloops += 1;
        self.nloops
    }
    /// invariant text of loop n
    fn set_inv(&mut self, n: usize, auto: &[String], auto_dec: Option<String>) {
        let user = self.spec.as_ref().and_then(|s| s.loops.get(&n)).cloned().unwrap_or_default();
        let mut t = String::new();
        if !auto.is_empty() || !user.trim().is_empty() {
            let has_inv_kw = user.trim_start().starts_with("invariant");
            if !has_inv_kw {
                t.push_str("invariant\n");
            }
            for a in auto {
                t.push_str(&format!("    {},\n", a));
            }
            t.push_str(&user);
            t.push('\n');
        }
        if !user.contains("decreases") {
            if let Some(d) = auto_dec {
                t.push_str(&format!("    decreases {},\n", d));
            }
        }
        self.inv.insert(n, t);
    }
    fn marker(&self, n: usize) -> Stmt {
        let l = LitInt::new(&n.to_string(), Span::call_site());
        parse_quote!(__vx_inv!(#l);)
    }

    // ---------------------------------------------------------------- chains
    fn flatten(e: &Expr) -> (Expr, Vec<Op>) {
        let mut ops = vec![];
        let mut cur = e.clone();
        loop {
            match cur {
                Expr::MethodCall(m) => {
                    ops.push(Op { name: m.method.to_string(), turbofish: m.turbofish.clone(), args: m.args.iter().cloned().collect() });
                    cur = *m.receiver;
                }
                Expr::Paren(p) if matches!(*p.expr, Expr::MethodCall(_)) => cur = *p.expr,
                _ => break,
            }
        }
        ops.reverse();
        (cur, ops)
    }
    fn rebuild(base: Expr, ops: &[Op]) -> Expr {
        let mut e = base;
        for o in ops {
            let name = id(&o.name);
            let args = &o.args;
            let tf = o.turbofish.as_ref().map(|t| quote!(#t));
            e = parse_quote!(#e . #name #tf ( #(#args),* ));
        }
        e
    }
    fn is_closure(e: &Expr) -> bool {
        matches!(e, Expr::Closure(_))
    }
    fn strip(e: &Expr) -> Expr {
        match e {
            Expr::Paren(p) => Self::strip(&p.expr),
            Expr::Group(p) => Self::strip(&p.expr),
            e => e.clone(),
        }
    }
    /// Parts of a `self.a.iter_mut().chain(self.b.iter_mut())` body.
    fn mut_parts(e: &Expr) -> Option<Vec<Expr>> {
        let (base, mut ops) = Self::flatten(e);
        let mut tail = vec![];
        while ops.last().map(|o| o.name == "chain").unwrap_or(false) {
            let o = ops.pop().unwrap();
            let mut p = Self::mut_parts(&o.args[0])?;
            p.extend(tail);
            tail = p;
        }
        let last = ops.pop()?;
        if last.name != "iter_mut" || !last.args.is_empty() {
            return None;
        }
        let mut out = vec![Self::rebuild(base, &ops)];
        out.extend(tail);
        Some(out)
    }
    /// Recognises the source of an iterator chain; returns it with the ops left.
    fn source(&mut self, e: &Expr) -> Option<(Src, Vec<Op>)> {
        let (base, mut ops) = Self::flatten(e);
        // mutable iteration
        if let Some(k) = ops.iter().position(|o| o.name == "iter_mut") {
            let mut end = k + 1;
            while ops.get(end).map(|o| o.name == "chain").unwrap_or(false) {
                end += 1;
            }
            let rest = ops.split_off(end);
            let parts = Self::mut_parts(&Self::rebuild(base, &ops))?;
            return Some((Src::Mut(parts), rest));
        }
        if let Some(k) = ops.iter().position(|o| self.ctx.mut_iters.contains_key(&o.name)) {
            let body = self.ctx.mut_iters[&ops[k].name].clone();
            let rest = ops.split_off(k + 1);
            ops.pop();
            let recv = Self::rebuild(base, &ops);
            let mut parts = Self::mut_parts(&body)?;
            for p in &mut parts {
                SubstSelf(&recv).visit_expr_mut(p);
            }
            return Some((Src::Mut(parts), rest));
        }
        // `X::IntoIter::new(arr)`, `std::env::args()`
        if let Expr::Call(c) = &base {
            if let Expr::Path(p) = &*c.func {
                let s = print::plain(p.to_token_stream()).replace(' ', "");
                if c.args.is_empty() && matches!(s.as_str(), "std::env::args" | "env::args" | "args") && !ops.is_empty() {
                    return Some((Src::List(parse_quote!(crate::vxf::env_args())), ops));
                }
                if s.ends_with("IntoIter::new") {
                    let mut a = c.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    return Some((Src::List(parse_quote!(crate::vx::vx_arr_to_vec(#a))), ops));
                }
            }
        }
        // range
        if let Expr::Range(r) = Self::strip(&base) {
            if let (Some(a), Some(b)) = (r.start, r.end) {
                let (mut a, mut b) = (*a, *b);
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                let mut incl = matches!(r.limits, RangeLimits::Closed(_));
                if let (true, Expr::Lit(ExprLit { lit: Lit::Int(n), .. })) = (incl, &b) {
                    if let Some(v) = n.base10_parse::<u64>().ok().filter(|v| *v < 0x7f) {
                        let l = LitInt::new(&format!("{}{}", v + 1, n.suffix()), Span::call_site());
                        b = parse_quote!(#l);
                        incl = false;
                    }
                }
                return Some((Src::Range(a, b, incl), ops));
            }
        }
        let k = ops.iter().enumerate().position(|(j, o)| {
            (matches!(o.name.as_str(), "iter" | "into_iter" | "chars" | "bytes") && o.args.is_empty())
                || (o.name == "split" && o.args.len() == 1 && Self::is_closure(&o.args[0]))
                || (self.ctx.iter_fns.contains(&o.name) && o.name != "iter" && !ops.get(j + 1).map(|n| n.name == "iter").unwrap_or(false))
        })?;
        let name = ops[k].name.clone();
        let user = self.ctx.iter_fns.contains(&name);
        // a slice-returning method of the same name as an iterator-returning one
        if user && !matches!(name.as_str(), "iter") {
            let is_adapter = |o: &Op| matches!(o.name.as_str(), "map" | "filter" | "for_each" | "enumerate" | "find" | "any" | "all" | "sum" | "count" | "collect");
            if let Some(next) = ops.get(k + 1) {
                if !is_adapter(next) {
                    return None;
                }
            } else {
                return None;
            }
        }
        let rest = ops.split_off(k + 1);
        let last = ops.pop().unwrap();
        let mut recv = Self::rebuild(base, &ops);
        self.visit_expr_mut(&mut recv);
        let src: Expr = match name.as_str() {
            "iter" => parse_quote!(#recv.vx_iter()),
            "into_iter" => recv,
            "chars" => parse_quote!(#recv.vx_chars()),
            "bytes" => parse_quote!(#recv.vx_bytes()),
            "split" => {
                let f = self.predicate(&last.args[0]);
                parse_quote!(#recv.vx_split_by(#f))
            }
            _ => {
                let n = id(&name);
                parse_quote!(#recv.#n())
            }
        };
        Some((Src::List(src), rest))
    }

    fn closure_parts(e: &Expr, n: usize) -> Option<(Vec<Pat>, Expr)> {
        match e {
            Expr::Closure(c) if c.inputs.len() == n => Some((c.inputs.iter().cloned().collect(), (*c.body).clone())),
            _ => None,
        }
    }
    /// closure or function path applied to one argument
    fn as_closure(&mut self, e: &Expr) -> Option<(Pat, Expr)> {
        if let Some((p, b)) = Self::closure_parts(e, 1) {
            return Some((p[0].clone(), b));
        }
        if let Expr::Path(_) = e {
            let v = self.fresh("a");
            return Some((parse_quote!(#v), parse_quote!(#e(#v))));
        }
        None
    }

    fn block_of(e: Expr) -> Vec<Stmt> {
        match e {
            Expr::Block(b) if b.label.is_none() => {
                let mut s = b.block.stmts;
                if let Some(Stmt::Expr(_, semi @ None)) = s.last_mut() {
                    *semi = Some(Default::default());
                }
                s
            }
            e => vec![Stmt::Expr(e, Some(Default::default()))],
        }
    }

    fn has_control(e: &Expr) -> bool {
        struct F(bool);
        impl VisitMut for F {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                match e {
                    Expr::Return(_) | Expr::Try(_) | Expr::Break(_) | Expr::Continue(_) => self.0 = true,
                    Expr::Closure(_) => {}
                    _ => visit_mut::visit_expr_mut(self, e),
                }
            }
        }
        let mut f = F(false);
        f.visit_expr_mut(&mut e.clone());
        f.0
    }

    /// Statements for one element `cur` through the adapters.
    fn adapt(&mut self, ops: &[Op], cur: Expr, idx: Option<&Ident>, term: &Term, acc: &Ident, by_mut: bool) -> Vec<Stmt> {
        if let Some(o) = ops.first() {
            let rest = &ops[1..];
            match o.name.as_str() {
                "map" => {
                    let (p, mut b) = match self.as_closure(&o.args[0]) {
                        Some(x) => x,
                        None => return vec![Stmt::Expr(self.bad("map argument"), Some(Default::default()))],
                    };
                    if Self::has_control(&b) {
                        self.unsupported.push("control flow in a map closure".into());
                    }
                    let mut out = self.bind(&p, &cur);
                    self.visit_expr_mut(&mut b);
                    out.extend(self.adapt(rest, b, None, term, acc, false));
                    out
                }
                "filter" => {
                    let (p, mut b) = match self.as_closure(&o.args[0]) {
                        Some(x) => x,
                        None => return vec![Stmt::Expr(self.bad("filter argument"), Some(Default::default()))],
                    };
                    self.visit_expr_mut(&mut b);
                    let x = self.fresh("x");
                    if by_mut {
                        let inner = self.adapt(rest, parse_quote!(&mut *#x), idx, term, acc, by_mut);
                        return vec![
                            parse_quote!(let __keep = { let #p = &*#cur; #b };),
                            parse_quote!(if __keep { let #x = #cur; #(#inner)* }),
                        ];
                    }
                    let bind = Self::by_ref(&p, &x);
                    let inner = self.adapt(rest, parse_quote!(#x), idx, term, acc, by_mut);
                    vec![
                        parse_quote!(let #x = #cur;),
                        parse_quote!(let __keep = { #bind #b };),
                        parse_quote!(if __keep { #(#inner)* }),
                    ]
                }
                "enumerate" => match idx {
                    Some(i) => {
                        let i = i.clone();
                        self.adapt(rest, parse_quote!((#i - 1, #cur)), None, term, acc, by_mut)
                    }
                    None => vec![Stmt::Expr(self.bad("enumerate after another adapter"), Some(Default::default()))],
                },
                "copied" => self.adapt(rest, parse_quote!(*#cur), idx, term, acc, by_mut),
                "cloned" => self.adapt(rest, parse_quote!((#cur).clone()), idx, term, acc, by_mut),
                n => {
                    let n = n.to_string();
                    vec![Stmt::Expr(self.bad(format!("iterator adapter {}", n)), Some(Default::default()))]
                }
            }
        } else {
            match term {
                Term::ForEach(p, b) => {
                    let mut out = self.bind(p, &cur);
                    out.extend(b.iter().cloned());
                    out
                }
                Term::Sum(_) => vec![parse_quote!(#acc = #acc + (#cur);)],
                Term::Count => vec![parse_quote!(let _ = #cur;), parse_quote!(#acc = #acc + 1;)],
                Term::List => vec![parse_quote!(#acc.push(#cur);)],
                Term::Any(p, b) => {
                    let mut out = self.bind(p, &cur);
                    out.push(parse_quote!(if #b { #acc = true; }));
                    out
                }
                Term::All(p, b) => {
                    let mut out = self.bind(p, &cur);
                    out.push(parse_quote!(if !(#b) { #acc = false; }));
                    out
                }
                Term::Find(p, b) => {
                    let x = self.fresh("x");
                    let bind = Self::by_ref(p, &x);
                    vec![
                        parse_quote!(let #x = #cur;),
                        parse_quote!(let __hit = { #bind #b };),
                        parse_quote!(if __hit { #acc = Some(#x); }),
                    ]
                }
                Term::Position(p, b) => {
                    let i = match idx {
                        Some(i) => i.clone(),
                        None => {
                            return vec![Stmt::Expr(self.bad("position after another adapter"), Some(Default::default()))]
                        }
                    };
                    let mut out = self.bind(p, &cur);
                    out.push(parse_quote!(if #b { #acc = Some(#i - 1); }));
                    out
                }
                Term::Fold(_, pa, p, b) => {
                    let mut out: Vec<Stmt> = vec![parse_quote!(let #pa = #acc;)];
                    out.extend(self.bind(p, &cur));
                    out.push(parse_quote!(#acc = #b;));
                    out
                }
            }
        }
    }
    /// `let p = cur`, with reference patterns written as dereferences
    fn bind(&mut self, p: &Pat, cur: &Expr) -> Vec<Stmt> {
        match p {
            Pat::Reference(r) if r.mutability.is_none() => {
                let q = &r.pat;
                vec![parse_quote!(let #q = *#cur;)]
            }
            Pat::Paren(q) => self.bind(&q.pat, cur),
            Pat::Tuple(t) if t.elems.iter().any(|e| matches!(e, Pat::Reference(_))) => {
                let mut names: Vec<Pat> = vec![];
                let mut later = vec![];
                for e in &t.elems {
                    match e {
                        Pat::Reference(r) if r.mutability.is_none() => {
                            let x = self.fresh("r");
                            let q = &r.pat;
                            later.push(parse_quote!(let #q = *#x;));
                            names.push(parse_quote!(#x));
                        }
                        e => names.push(e.clone()),
                    }
                }
                let mut out: Vec<Stmt> = vec![parse_quote!(let (#(#names),*) = #cur;)];
                out.extend(later);
                out
            }
            p => vec![parse_quote!(let #p = #cur;)],
        }
    }
    /// binding of a by-reference closure parameter to a local of Copy type
    fn by_ref(p: &Pat, x: &Ident) -> Stmt {
        match p {
            Pat::Reference(r) => {
                let q = &r.pat;
                parse_quote!(let #q = #x;)
            }
            Pat::Ident(_) => parse_quote!(let #p = &#x;),
            _ => parse_quote!(let #p = #x;),
        }
    }

    fn pipeline(&mut self, src: Src, ops: Vec<Op>, mut term: Term, n: usize) -> Expr {
        // closures of the terminal are lowered here
        match &mut term {
            Term::Any(_, b) | Term::All(_, b) | Term::Find(_, b) | Term::Position(_, b) | Term::Fold(_, _, _, b) => {
                if Self::has_control(b) {
                    self.unsupported.push("control flow in a closure".into());
                }
                let mut x = b.clone();
                self.visit_expr_mut(&mut x);
                *b = x;
            }
            _ => {}
        }
        let acc = id(&format!("__acc{}", n));
        let mut out: Vec<Stmt> = self.ins(&format!("before {}", n));
        let mut extra = quote!();
        let mut result: Option<Expr> = Some(parse_quote!(#acc));
        match &term {
            Term::ForEach(..) => result = None,
            Term::Sum(Some(t)) => out.push(parse_quote!(let mut #acc: #t = 0;)),
            Term::Sum(None) => out.push(parse_quote!(let mut #acc = 0;)),
            Term::Count => out.push(parse_quote!(let mut #acc: usize = 0;)),
            Term::List => out.push(parse_quote!(let mut #acc = Vec::new();)),
            Term::Any(..) => {
                out.push(parse_quote!(let mut #acc = false;));
                extra = quote!(&& !#acc)
            }
            Term::All(..) => {
                out.push(parse_quote!(let mut #acc = true;));
                extra = quote!(&& #acc)
            }
            Term::Find(..) | Term::Position(..) => {
                if matches!(term, Term::Position(..)) {
                    out.push(parse_quote!(let mut #acc: Option<usize> = None;));
                } else {
                    out.push(parse_quote!(let mut #acc = None;));
                }
                extra = quote!(&& #acc.is_none())
            }
            Term::Fold(init, ..) => out.push(parse_quote!(let mut #acc = #init;)),
        }
        match src {
            Src::List(list) => {
                let s = id(&format!("__s{}", n));
                let i = id(&format!("__i{}", n));
                let mut ops = ops;
                let mut start: Expr = parse_quote!(0);
                if ops.first().map(|o| o.name == "skip").unwrap_or(false) {
                    let mut a = ops.remove(0).args.remove(0);
                    self.visit_expr_mut(&mut a);
                    start = parse_quote!(crate::vx::vx_min(#a, #s.len()));
                }
                let mut end: Expr = parse_quote!(#s.len());
                let mut inv = vec![format!("{} <= {}@.len()", i, s)];
                let mut limit: Vec<Stmt> = vec![];
                if ops.first().map(|o| o.name == "take").unwrap_or(false) {
                    let mut a = ops.remove(0).args.remove(0);
                    self.visit_expr_mut(&mut a);
                    let t = id(&format!("__t{}", n));
                    limit.push(parse_quote!(let #t = crate::vx::vx_end(#i, #a, #s.len());));
                    end = parse_quote!(#t);
                    inv = vec![format!("{} <= __t{} <= {}@.len()", i, n, s)];
                }
                let body = self.adapt(&ops, parse_quote!(#s[#i - 1]), Some(&i), &term, &acc, false);
                let m = self.marker(n);
                self.set_inv(n, &inv, Some(format!("{}@.len() - {}", s, i)));
                let ls = self.ins(&format!("loop {} start", n));
                let le = self.ins(&format!("loop {} end", n));
                match list {
                    // a temporary must outlive the loop
                    Expr::MethodCall(mut mc) if matches!(&*mc.receiver, Expr::Call(_) | Expr::MethodCall(_)) => {
                        let o = id(&format!("__o{}", n));
                        let recv = &mc.receiver;
                        out.push(parse_quote!(let #o = #recv;));
                        mc.receiver = parse_quote!(#o);
                        out.push(parse_quote!(let #s = #mc;));
                    }
                    list => out.push(parse_quote!(let #s = #list;)),
                }
                out.push(parse_quote!(let mut #i: usize = #start;));
                out.extend(limit);
                out.extend(self.ins(&format!("init {}", n)));
                out.push(parse_quote!(while #i < #end #extra { #m #i = #i + 1; #(#ls)* #(#body)* #(#le)* }));
            }
            Src::Range(a, b, incl) => {
                let i = id(&format!("__i{}", n));
                let e = id(&format!("__e{}", n));
                let cur: Expr = parse_quote!(#i - 1);
                let body = self.adapt(&ops, cur, None, &term, &acc, false);
                let m = self.marker(n);
                let (auto, dec) = (vec![], Some(if incl { format!("{} as int + 1 - {} as int", e, i) } else { format!("{} as int - {} as int", e, i) }));
                self.set_inv(n, &auto, dec);
                let ls = self.ins(&format!("loop {} start", n));
                let le = self.ins(&format!("loop {} end", n));
                out.push(parse_quote!(let mut #i = #a;));
                out.push(parse_quote!(let #e = #b;));
                out.extend(self.ins(&format!("init {}", n)));
                let cmp = if incl { quote!(<=) } else { quote!(<) };
                out.push(parse_quote!(while #i #cmp #e #extra { #m #i = #i + 1; #(#ls)* #(#body)* #(#le)* }));
            }
            Src::Mut(parts) => {
                for (k, p) in parts.into_iter().enumerate() {
                    let nn = if k == 0 { n } else { self.next_loop() };
                    if k > 0 {
                        out.extend(self.ins(&format!("before {}", nn)));
                    }
                    let i = id(&format!("__i{}", nn));
                    let body = self.adapt(&ops, parse_quote!((&mut #p[#i - 1])), Some(&i), &term, &acc, true);
                    let m = self.marker(nn);
                    let ps = print::plain(p.to_token_stream());
                    self.set_inv(nn, &[format!("{} <= {}@.len()", i, ps)], Some(format!("{}@.len() - {}", ps, i)));
                    let ls = self.ins(&format!("loop {} start", nn));
                    let le = self.ins(&format!("loop {} end", nn));
                    out.push(parse_quote!(let mut #i: usize = 0;));
                    out.extend(self.ins(&format!("init {}", nn)));
                    out.push(parse_quote!(while #i < #p.len() #extra { #m #i = #i + 1; #(#ls)* #(#body)* #(#le)* }));
                    out.extend(self.ins(&format!("after {}", nn)));
                }
            }
            Src::User(it) => {
                let s = id(&format!("__s{}", n));
                let x = self.fresh("x");
                let body = self.adapt(&ops, parse_quote!(#x), None, &term, &acc, false);
                let m = self.marker(n);
                self.set_inv(n, &[], None);
                let ls = self.ins(&format!("loop {} start", n));
                let le = self.ins(&format!("loop {} end", n));
                out.push(parse_quote!(let mut #s = #it;));
                out.extend(self.ins(&format!("init {}", n)));
                out.push(parse_quote!(loop { #m #(#ls)* match #s.next() { Some(#x) => { #(#body)* } None => { break; } } #(#le)* }));
            }
        }
        out.extend(self.ins(&format!("after {}", n)));
        match result {
            Some(r) => parse_quote!({ #(#out)* #r }),
            None => parse_quote!({ #(#out)* }),
        }
    }

    /// Lowers an iterator chain; None if `e` is not one.
    fn chain(&mut self, e: &Expr) -> Option<Expr> {
        let (_, all) = Self::flatten(e);
        if all.is_empty() {
            return None;
        }
        // number the loop before looking into the source, so that numbers follow the text
        let save = (self.nloops, self.raw.len());
        // probe without side effects on numbering
        let n = self.next_loop();
        let (src, ops) = match self.source(e) {
            Some(x) => x,
            None => {
                self.nloops = save.0;
                return None;
            }
        };
        let mut src = src;
        let mut adapters: Vec<Op> = vec![];
        let mut it = ops.into_iter();
        let mut used = false;
        let mut result: Option<Expr> = None;
        let mut rest: Vec<Op> = vec![];
        while let Some(o) = it.next() {
            let name = o.name.clone();
            let pred = |o: &Op| Self::closure_parts(&o.args[0], 1).map(|(p, b)| (p[0].clone(), b));
            match name.as_str() {
                "map" | "filter" | "enumerate" | "skip" | "take" | "copied" | "cloned" if !(name == "skip" && !adapters.is_empty()) && !(name == "take" && adapters.iter().any(|o| o.name != "skip")) => {
                    adapters.push(o);
                    continue;
                }
                "by_ref" => continue,
                "chain" => {
                    // materialise both sides
                    let a = self.materialise(src, std::mem::take(&mut adapters), n, &mut used);
                    let m = self.next_loop();
                    let b = match self.source(&o.args[0]) {
                        Some((s, ops2)) => {
                            let mut u = false;
                            let r = self.materialise(s, ops2, m, &mut u);
                            if !u {
                                self.nloops -= 1;
                            }
                            r
                        }
                        None => {
                            self.nloops -= 1;
                            self.bad("chain argument")
                        }
                    };
                    src = Src::List(parse_quote!(crate::vx::vx_concat(#a, #b)));
                    continue;
                }
                _ => {}
            }
            if name == "position" && adapters.is_empty() && self.spec.as_ref().map_or(true, |s| !s.loops.contains_key(&n)) {
                // the first place of a slice where a pure predicate holds
                if let Src::List(Expr::MethodCall(m)) = &src {
                    let body = Self::closure_parts(&o.args[0], 1).and_then(|(_, b)| self.spec_expr(&b));
                    if m.method == "vx_iter" && body.is_some() {
                        let r = m.receiver.clone();
                        let f = self.predicate(&o.args[0]);
                        result = Some(parse_quote!(#r.vx_position_by(#f)));
                        rest = it.collect();
                        src = Src::List(parse_quote!(()));
                        break;
                    }
                }
            }
            let term = match name.as_str() {
                "for_each" => match self.as_closure(&o.args[0]) {
                    Some((p, mut b)) => {
                        if Self::has_control(&b) {
                            self.unsupported.push("control flow in a for_each closure".into());
                        }
                        self.visit_expr_mut(&mut b);
                        Some(Term::ForEach(p, Self::block_of(b)))
                    }
                    None => None,
                },
                "sum" => Some(Term::Sum(o.turbofish.as_ref().map(|t| t.args.first().unwrap().to_token_stream()))),
                "count" => Some(Term::Count),
                "any" => pred(&o).map(|(p, b)| Term::Any(p, b)),
                "all" => pred(&o).map(|(p, b)| Term::All(p, b)),
                "find" => pred(&o).map(|(p, b)| Term::Find(p, b)),
                "position" => pred(&o).map(|(p, b)| Term::Position(p, b)),
                "fold" => Self::closure_parts(&o.args[1], 2).map(|(p, b)| Term::Fold(o.args[0].clone(), p[0].clone(), p[1].clone(), b)),
                "collect" | "to_vec" => Some(Term::List),
                "next" => {
                    let l = self.materialise(src, std::mem::take(&mut adapters), n, &mut used);
                    result = Some(parse_quote!(crate::vx::vx_first(#l)));
                    rest = it.collect();
                    src = Src::List(parse_quote!(()));
                    break;
                }
                other => {
                    let l = self.materialise(src, std::mem::take(&mut adapters), n, &mut used);
                    let m = id(&format!("vx_it_{}", other));
                    let args = &o.args;
                    result = Some(parse_quote!(#l.#m(#(#args),*)));
                    rest = it.collect();
                    src = Src::List(parse_quote!(()));
                    break;
                }
            };
            let term = match term {
                Some(t) => t,
                None => {
                    let e = self.bad(format!("iterator operation {}", name));
                    return Some(e);
                }
            };
            rest = it.collect();
            if adapters.is_empty() && matches!(term, Term::List) {
                result = Some(self.materialise(src, vec![], n, &mut used));
            } else if adapters.is_empty() && matches!(term, Term::Count) && matches!(src, Src::List(_)) {
                let l = self.materialise(src, vec![], n, &mut used);
                result = Some(parse_quote!((#l).vx_len()));
            } else {
                used = true;
                let ops = std::mem::take(&mut adapters);
                result = Some(self.pipeline(src, ops, term, n));
            }
            src = Src::List(parse_quote!(()));
            break;
        }
        let mut e = match result {
            Some(r) => r,
            None => self.materialise(src, adapters, n, &mut used),
        };
        if !used && self.nloops == n {
            self.nloops = save.0;
        }
        if !rest.is_empty() {
            // the remaining calls work on the result of the terminal
            let tmp = self.fresh("t");
            let mut whole = Self::rebuild(parse_quote!(#tmp), &rest);
            self.visit_expr_mut(&mut whole);
            e = parse_quote!({ let #tmp = #e; #whole });
        }
        Some(e)
    }

    fn materialise(&mut self, src: Src, ops: Vec<Op>, n: usize, used: &mut bool) -> Expr {
        match src {
            Src::List(e) if ops.is_empty() => e,
            src => {
                *used = true;
                self.pipeline(src, ops, Term::List, n)
            }
        }
    }

    // ------------------------------------------------------------ predicates
    fn spec_expr(&self, e: &Expr) -> Option<String> {
        Some(match e {
            Expr::Binary(b) => format!("({}) {} ({})", self.spec_expr(&b.left)?, print::plain(b.op.to_token_stream()), self.spec_expr(&b.right)?),
            Expr::Unary(u) => format!("{}({})", print::plain(u.op.to_token_stream()), self.spec_expr(&u.expr)?),
            Expr::Paren(p) => format!("({})", self.spec_expr(&p.expr)?),
            Expr::Lit(_) | Expr::Path(_) => print::plain(e.to_token_stream()),
            Expr::MethodCall(m) if m.args.is_empty() => {
                let r = self.spec_expr(&m.receiver)?;
                let f = match m.method.to_string().as_str() {
                    "is_whitespace" => "vxs::ws",
                    "is_ascii_digit" => "vxs::ascii_digit",
                    "is_ascii" => "vx::ascii_char",
                    _ => return None,
                };
                format!("crate::{}({})", f, r)
            }
            Expr::Reference(r) => self.spec_expr(&r.expr)?,
            _ => return None,
        })
    }
    /// a pure predicate closure, given its own contract
    fn predicate(&mut self, e: &Expr) -> Expr {
        if let Expr::Path(p) = e {
            let s = print::plain(p.to_token_stream()).replace(' ', "");
            if s == "char::is_whitespace" {
                return self.predicate(&parse_quote!(|c: char| c.is_whitespace()));
            }
        }
        let (ps, body) = match Self::closure_parts(e, 1) {
            Some(x) => x,
            None => return self.bad("predicate argument"),
        };
        let (name, ty, pre, spre) = match &ps[0] {
            Pat::Type(t) => (print::plain(t.pat.to_token_stream()), format!(": {}", print::plain(t.ty.to_token_stream())), String::new(), String::new()),
            Pat::Reference(r) => {
                let x = print::plain(r.pat.to_token_stream());
                ("__p".into(), String::new(), format!("let {} = *__p; ", x), format!("let {} = *__p; ", x))
            }
            p => (print::plain(p.to_token_stream()), String::new(), String::new(), String::new()),
        };
        let spec = match self.spec_expr(&body) {
            Some(s) => s,
            None => return self.bad("predicate body"),
        };
        let mut b = body;
        self.visit_expr_mut(&mut b);
        let t = format!("|{}{}| -> (__b: bool) ensures __b == ({{ {}{} }}) {{ {}{} }}", name, ty, spre, spec, pre, print::plain(b.to_token_stream()));
        let n = self.raw_text(t);
        let l = LitInt::new(&n.to_string(), Span::call_site());
        parse_quote!(__vx_raw!(#l))
    }
    /// method name with the kind of its pattern argument
    fn pattern_method(&mut self, name: &str, args: &mut Vec<Expr>) -> Option<String> {
        if args.len() != 1 {
            return None;
        }
        let a = Self::strip(&args[0]);
        match &a {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                let v = s.value();
                if v.chars().count() == 1 {
                    let c = LitChar::new(v.chars().next().unwrap(), Span::call_site());
                    args[0] = parse_quote!(#c);
                    Some(format!("vx_{}_char", name))
                } else {
                    Some(format!("vx_{}_str", name))
                }
            }
            Expr::Lit(ExprLit { lit: Lit::Char(_), .. }) => Some(format!("vx_{}_char", name)),
            Expr::Closure(_) | Expr::Path(_) => {
                let is_pred = match &a {
                    Expr::Path(p) => print::plain(p.to_token_stream()).contains("is_"),
                    _ => true,
                };
                if is_pred {
                    args[0] = self.predicate(&a);
                    Some(format!("vx_{}_by", name))
                } else {
                    Some(format!("vx_{}_str", name))
                }
            }
            _ => Some(format!("vx_{}_seq", name)),
        }
    }

    // ------------------------------------------------------- options, strings
    /// whether this expression is a Result (rather than an Option), as far as its text tells
    fn is_result(&self, e: &Expr) -> bool {
        let known = |n: &str, recv: Option<&Expr>| -> bool {
            match n {
                "ok" | "next" | "get" | "first" | "last" | "pop" | "strip_prefix" | "strip_suffix" | "split_once" | "rsplit_once" | "find" | "position" | "checked_add" | "checked_sub" | "checked_mul" => return false,
                "map_err" | "ok_or" | "ok_or_else" | "try_from" | "try_into" | "from_str_radix" | "from_utf8" | "write_all" | "read_exact" | "read_line" | "open" | "parse" | "fmt" => return true,
                "map" | "and_then" | "or_else" | "as_ref" | "as_mut" => return recv.map(|r| self.is_result(r)).unwrap_or(false),
                n if n.starts_with("write_") || n.starts_with("read_") => return true,
                _ => {}
            }
            self.ctx.ret_kind.get(n).copied() == Some('R')
        };
        match e {
            Expr::Paren(p) => self.is_result(&p.expr),
            Expr::MethodCall(m) => known(&m.method.to_string(), Some(&m.receiver)),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => match p.path.segments.last().unwrap().ident.to_string().as_str() {
                    "Ok" | "Err" => true,
                    "Some" => false,
                    n => known(n, None),
                },
                _ => false,
            },
            Expr::Match(m) => m.arms.iter().any(|a| self.is_result(&a.body)),
            _ => false,
        }
    }

    /// a `for` over an array literal, as one copy of its body per element
    fn unrolled(&mut self, f: &ExprForLoop) -> Option<Expr> {
        if f.label.is_some() || self.spec.as_ref().map_or(false, |s| s.nloops.unwrap_or(0) > 0) {
            return None;
        }
        let (mut it, mut by_ref) = (Self::strip(&f.expr), false);
        loop {
            match it {
                Expr::MethodCall(m) if m.args.is_empty() && (m.method == "iter" || m.method == "into_iter") => {
                    by_ref |= m.method == "iter";
                    it = Self::strip(&m.receiver);
                }
                Expr::Reference(r) if r.mutability.is_none() => {
                    by_ref = true;
                    it = Self::strip(&r.expr);
                }
                _ => break,
            }
        }
        let Expr::Array(a) = it else { return None };
        if a.elems.is_empty() || a.elems.len() > 40 {
            return None;
        }
        struct Jumps(bool);
        impl VisitMut for Jumps {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                match e {
                    Expr::Break(_) | Expr::Continue(_) => self.0 = true,
                    e => visit_mut::visit_expr_mut(self, e),
                }
            }
        }
        let mut j = Jumps(false);
        j.visit_block_mut(&mut f.body.clone());
        if j.0 {
            return None;
        }
        let names: Vec<Ident> = a.elems.iter().map(|_| self.fresh("u")).collect();
        let elems: Vec<&Expr> = a.elems.iter().collect();
        let p = &f.pat;
        let mut body = f.body.stmts.clone();
        if let Some(Stmt::Expr(_, semi @ None)) = body.last_mut() {
            *semi = Some(Default::default());
        }
        let mut copies: Vec<Expr> = vec![];
        for n in &names {
            let x: Expr = if by_ref { parse_quote!(&#n) } else { parse_quote!(#n) };
            copies.push(parse_quote!({ let #p = #x; #(#body)* }));
        }
        Some(parse_quote!({ #(let #names = #elems;)* #(#copies)* }))
    }

    fn option_call(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let r = &m.receiver;
        let ok0 = |b: &Expr| !Self::has_control(b);
        let res = self.is_result(r);
        match (name.as_str(), args.len()) {
            ("unwrap_or_else", 1) => {
                if let Some((p, b)) = Self::closure_parts(&args[0], 1) {
                    ok0(&b).then_some(())?;
                    let p = &p[0];
                    return Some(parse_quote!(match #r { Ok(__v) => __v, Err(#p) => #b }));
                }
                let b = match &args[0] {
                    Expr::Path(_) => {
                        let f = &args[0];
                        parse_quote!(#f())
                    }
                    c => Self::closure_parts(c, 0)?.1,
                };
                ok0(&b).then_some(())?;
                Some(parse_quote!(match #r { Some(__v) => __v, None => #b }))
            }
            ("unwrap_or", 1) => {
                let b = &args[0];
                if res {
                    return Some(parse_quote!({ let __d = #b; match #r { Ok(__v) => __v, Err(_) => __d } }));
                }
                Some(parse_quote!({ let __d = #b; match #r { Some(__v) => __v, None => __d } }))
            }
            ("ok_or_else", 1) => {
                let (_, b) = Self::closure_parts(&args[0], 0)?;
                ok0(&b).then_some(())?;
                Some(parse_quote!(match #r { Some(__v) => Ok(__v), None => Err(#b) }))
            }
            ("ok_or", 1) => {
                let b = &args[0];
                Some(parse_quote!(match #r { Some(__v) => Ok(__v), None => Err(#b) }))
            }
            ("map", 1) => {
                let (p, b) = self.as_closure(&args[0])?;
                ok0(&b).then_some(())?;
                if res {
                    return Some(parse_quote!(match #r { Ok(#p) => Ok(#b), Err(__v) => Err(__v) }));
                }
                Some(parse_quote!(match #r { Some(#p) => Some(#b), None => None }))
            }
            ("and_then", 1) => {
                let (p, b) = self.as_closure(&args[0])?;
                ok0(&b).then_some(())?;
                if res {
                    return Some(parse_quote!(match #r { Ok(#p) => #b, Err(__v) => Err(__v) }));
                }
                Some(parse_quote!(match #r { Some(#p) => #b, None => None }))
            }
            ("map_or", 2) => {
                let (p, b) = self.as_closure(&args[1])?;
                ok0(&b).then_some(())?;
                let d = &args[0];
                if res {
                    return Some(parse_quote!(match #r { Ok(#p) => #b, Err(_) => #d }));
                }
                Some(parse_quote!(match #r { Some(#p) => #b, None => #d }))
            }
            ("map_or_else", 2) => {
                let (p, b) = self.as_closure(&args[1])?;
                ok0(&b).then_some(())?;
                if let Some((q, d)) = Self::closure_parts(&args[0], 1) {
                    ok0(&d).then_some(())?;
                    let q = &q[0];
                    return Some(parse_quote!(match #r { Ok(#p) => #b, Err(#q) => #d }));
                }
                let (_, d) = Self::closure_parts(&args[0], 0)?;
                ok0(&d).then_some(())?;
                Some(parse_quote!(match #r { Some(#p) => #b, None => #d }))
            }
            ("is_some_and", 1) => {
                let (p, b) = self.as_closure(&args[0])?;
                ok0(&b).then_some(())?;
                Some(parse_quote!(match #r { Some(#p) => #b, None => false }))
            }
            ("is_none_or", 1) => {
                let (p, b) = self.as_closure(&args[0])?;
                ok0(&b).then_some(())?;
                Some(parse_quote!(match #r { Some(#p) => #b, None => true }))
            }
            ("is_ok_and", 1) => {
                let (p, b) = self.as_closure(&args[0])?;
                ok0(&b).then_some(())?;
                Some(parse_quote!(match #r { Ok(#p) => #b, Err(_) => false }))
            }
            ("copied", 0) => Some(parse_quote!(match #r { Some(__v) => Some(*__v), None => None })),
            ("then", 1) => {
                let (_, b) = Self::closure_parts(&args[0], 0)?;
                ok0(&b).then_some(())?;
                Some(parse_quote!((if #r { Some(#b) } else { None })))
            }
            ("then_some", 1) => {
                let b = &args[0];
                Some(parse_quote!({ let __d = #b; if #r { Some(__d) } else { None } }))
            }
            ("map_err", 1) => {
                let (p, b) = self.as_closure(&args[0])?;
                ok0(&b).then_some(())?;
                Some(parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#b) }))
            }
            ("or_else", 1) => {
                if let Some((p, b)) = Self::closure_parts(&args[0], 1) {
                    ok0(&b).then_some(())?;
                    let p = &p[0];
                    return Some(parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => #b }));
                }
                let (_, b) = Self::closure_parts(&args[0], 0)?;
                ok0(&b).then_some(())?;
                Some(parse_quote!(match #r { Some(__v) => Some(__v), None => #b }))
            }
            ("or", 1) => {
                let b = &args[0];
                Some(parse_quote!({ let __d = #b; match #r { Some(__v) => Some(__v), None => __d } }))
            }
            // decimal digits
            ("parse", 0) => {
                let t = m.turbofish.as_ref()?.args.first()?;
                let s = print::plain(t.to_token_stream());
                matches!(s.trim(), "Self" | "u8" | "u16" | "u32" | "u64").then_some(())?;
                Some(parse_quote!(#t::from_str_radix(#r, 10)))
            }
            // the part before the first separator
            ("next", 0) => {
                if let Expr::MethodCall(s) = &**r {
                    if s.method == "split" && s.args.len() == 1 {
                        let c = match &s.args[0] {
                            Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) => c.value(),
                            Expr::Lit(ExprLit { lit: Lit::Str(t), .. }) if t.value().chars().count() == 1 => t.value().chars().next().unwrap(),
                            _ => return None,
                        };
                        let c = LitChar::new(c, Span::call_site());
                        let x = &s.receiver;
                        return Some(parse_quote!(Some(#x.vx_split_head(#c))));
                    }
                }
                None
            }
            // a write into a part of a buffer
            ("copy_from_slice", 1) => {
                if let Expr::Index(ix) = Self::strip(r) {
                    if let Expr::Range(g) = Self::strip(&ix.index) {
                        if matches!(g.limits, RangeLimits::HalfOpen(_)) {
                            let x = &ix.expr;
                            let a: Expr = g.start.map(|e| *e).unwrap_or(parse_quote!(0));
                            let b: Expr = g.end.map(|e| parse_quote!(Some(#e))).unwrap_or(parse_quote!(None));
                            let s = &args[0];
                            return Some(parse_quote!((#x).vx_copy_range(#a, #b, #s)));
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }

    /// Replaces string literals in a pattern by bindings; returns the guard.
    fn str_pat(&mut self, p: &mut Pat) -> Option<TokenStream> {
        match p {
            Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                let v = self.fresh("l");
                let s = s.clone();
                *p = parse_quote!(#v);
                Some(quote!(crate::vx::vx_str_eq(#v, #s)))
            }
            Pat::Or(o) if o.cases.iter().all(|c| matches!(c, Pat::Lit(ExprLit { lit: Lit::Str(_), .. }))) => {
                let v = self.fresh("l");
                let gs: Vec<TokenStream> = o.cases.iter().map(|c| quote!(crate::vx::vx_str_eq(#v, #c))).collect();
                *p = parse_quote!(#v);
                Some(quote!((#(#gs)||*)))
            }
            Pat::TupleStruct(t) => {
                let gs: Vec<TokenStream> = t.elems.iter_mut().filter_map(|e| self.str_pat(e)).collect();
                (!gs.is_empty()).then(|| quote!(#(#gs)&&*))
            }
            Pat::Tuple(t) => {
                let gs: Vec<TokenStream> = t.elems.iter_mut().filter_map(|e| self.str_pat(e)).collect();
                (!gs.is_empty()).then(|| quote!(#(#gs)&&*))
            }
            Pat::Paren(q) => self.str_pat(&mut q.pat),
            Pat::Ident(i) => match &mut i.subpat {
                Some((_, q)) => {
                    let name = i.ident.clone();
                    match &**q {
                        Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                            let s = s.clone();
                            *p = parse_quote!(#name);
                            Some(quote!(crate::vx::vx_str_eq(#name, #s)))
                        }
                        _ => None,
                    }
                }
                None => None,
            },
            _ => None,
        }
    }
    fn has_str_lit(p: &Pat) -> bool {
        p.to_token_stream().to_string().contains('"')
    }

    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args = || m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map(|p| p.into_iter().collect::<Vec<_>>());
        match name.as_str() {
            "panic" | "unimplemented" | "todo" | "unreachable" => Some(parse_quote!(crate::vx::vx_panic())),
            "assert" => {
                let a = args().ok()?;
                let c = &a[0];
                Some(parse_quote!(if !(#c) { crate::vx::vx_panic(); }))
            }
            "assert_eq" => {
                let a = args().ok()?;
                let (x, y) = (&a[0], &a[1]);
                Some(parse_quote!(if !(#x == #y) { crate::vx::vx_panic(); }))
            }
            "assert_ne" => {
                let a = args().ok()?;
                let (x, y) = (&a[0], &a[1]);
                Some(parse_quote!(if #x == #y { crate::vx::vx_panic(); }))
            }
            "debug_assert" => {
                let a = args().ok()?;
                let c = &a[0];
                Some(parse_quote!(if crate::vx::vx_any_bool() { if !(#c) { crate::vx::vx_panic(); } }))
            }
            "debug_assert_eq" => {
                let a = args().ok()?;
                let (x, y) = (&a[0], &a[1]);
                Some(parse_quote!(if crate::vx::vx_any_bool() { if !(#x == #y) { crate::vx::vx_panic(); } }))
            }
            "write" => {
                let a = args().ok()?;
                let f = &a[0];
                match &a[1] {
                    Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) if a.len() == 2 && !l.value().contains(|c| c == '{' || c == '}') => Some(parse_quote!(#f.vx_write_str(#l))),
                    _ => Some(parse_quote!(#f.vx_write_any())),
                }
            }
            "format" => Some(parse_quote!(crate::vx::vx_format())),
            "eprintln" | "println" | "eprint" | "print" => {
                // the text is dropped; a contract may say what the arguments are
                let a = args().unwrap_or_default();
                if a.len() < 2 || !name.starts_with('e') {
                    return Some(parse_quote!(()));
                }
                let said = self.ins("print");
                if said.is_empty() {
                    return Some(parse_quote!(()));
                }
                let lets = a[1..].iter().enumerate().map(|(k, e)| {
                    let p = id(&format!("__p{}", k + 1));
                    quote!(let #p = &(#e);)
                });
                Some(parse_quote!({ #(#lets)* #(#said)* }))
            }
            "vec" => {
                let body = m.tokens.clone();
                if let Ok(r) = parse2::<ExprRepeat>(quote!([#body])) {
                    let (e, l) = (r.expr, r.len);
                    return Some(parse_quote!(crate::vx::vx_vec_repeat(#e, #l)));
                }
                let a = args().ok()?;
                if a.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                Some(parse_quote!(crate::vx::vx_arr_to_vec([#(#a),*])))
            }
            "matches" => {
                let f = |i: parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                    let e: Expr = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) {
                        i.parse::<Token![if]>()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<Option<Token![,]>>()?;
                    Ok((e, p, g))
                };
                let (e, p, g) = m.parse_body_with(f).ok()?;
                let g = g.map(|g| quote!(if #g));
                Some(parse_quote!(match #e { #p #g => true, _ => false }))
            }
            _ => {
                let r = self.ctx.macros.get(&name)?;
                let ts = macros::expand(r, m.tokens.clone()).ok()?;
                parse2::<Expr>(quote!({ #ts })).ok().map(|e| match e {
                    Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                        Stmt::Expr(e, None) => parse_quote!((#e)),
                        _ => Expr::Block(b),
                    },
                    e => e,
                })
            }
        }
    }

    fn rename(&mut self, m: &mut ExprMethodCall) {
        let name = m.method.to_string();
        let new: Option<String> = match (name.as_str(), m.args.len()) {
            ("len" | "is_empty" | "iter" | "unwrap" | "trim" | "trim_start" | "trim_end" | "split_whitespace" | "ok" | "is_ascii"
            | "is_whitespace" | "as_ref" | "as_mut" | "chars" | "to_le_bytes" | "to_be_bytes" | "to_ne_bytes" | "bytes" | "is_ascii_digit"
            | "swap_bytes" | "is_ascii_hexdigit" | "into_iter" | "to_vec" | "to_owned" | "lines", 0) => Some(format!("vx_{}", name)),
            ("expect", 1) => {
                m.args.clear();
                Some("vx_unwrap".into())
            }
            ("wrapping_add" | "wrapping_sub" | "wrapping_mul", 1) | ("wrapping_neg", 0) => Some(format!("vx_{}", name)),
            ("split_at" | "min" | "max" | "resize" | "push_str" | "swap_remove" | "next_multiple_of" | "div_ceil" | "extend_from_slice", _) => Some(format!("vx_{}", name)),
            ("trim_matches" | "trim_start_matches" | "trim_end_matches" | "split_once" | "rsplit_once" | "strip_prefix" | "strip_suffix" | "starts_with" | "ends_with" | "contains", 1) => {
                let mut a: Vec<Expr> = m.args.iter().cloned().collect();
                let r = self.pattern_method(&name, &mut a);
                m.args = a.into_iter().collect();
                r
            }
            ("remove", 1) if self.krate == "at_asm_bin" => Some("vx_remove".into()),
            _ => None,
        };
        if let Some(n) = new {
            m.method = id(&n);
        }
    }
}

/// the breaks of one loop; puts `text` in front of each
struct Breaks {
    text: Vec<Stmt>,
    plain: usize,
    valued: bool,
}
impl VisitMut for Breaks {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Break(b) => {
                if b.expr.is_some() || b.label.is_some() {
                    self.valued = true;
                } else {
                    self.plain += 1;
                    if !self.text.is_empty() {
                        let t = &self.text;
                        *e = parse_quote!({ #(#t)* break; });
                    }
                }
            }
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
            e => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

fn all_idents(t: proc_macro2::TokenStream) -> Vec<Ident> {
    t.into_iter()
        .flat_map(|t| match t {
            proc_macro2::TokenTree::Ident(i) => vec![i],
            proc_macro2::TokenTree::Group(g) => all_idents(g.stream()),
            _ => vec![],
        })
        .collect()
}

struct SubstName<'a>(&'a Ident, &'a Expr);
impl VisitMut for SubstName<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Path(p) if p.path.is_ident(self.0)) {
            *e = self.1.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, e)
    }
}

pub struct SubstSelf<'a>(pub &'a Expr);
impl VisitMut for SubstSelf<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = self.0.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
}

impl VisitMut for Lower<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        let krate = self.krate.clone();
        fix_path(p, &krate);
        let hit = if p.segments.len() == 1 { self.rename_fns.get(&p.segments[0].ident.to_string()).cloned() } else { None };
        if let Some(n) = hit {
            p.segments[0].ident = id(&n);
        }
        visit_mut::visit_path_mut(self, p)
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t)
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // hoist nested functions
        let mut keep = vec![];
        let mut renames = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Item(Item::Fn(mut f)) => {
                    let new = format!("{}__{}", self.fn_name, f.sig.ident);
                    renames.push((f.sig.ident.to_string(), new.clone()));
                    f.sig.ident = id(&new);
                    self.hoisted.push(f);
                }
                s => {
                    // contracts may attach ghost code to the n-th `let` of a name
                    let mut name = None;
                    if let Stmt::Local(l) = &s {
                        let mut p = &l.pat;
                        if let Pat::Type(t) = p {
                            p = &t.pat;
                        }
                        if let Pat::Ident(i) = p {
                            name = Some(i.ident.to_string());
                        }
                    }
                    keep.push(s);
                    if let Some(n) = name {
                        let k = self.lets.entry(n.clone()).or_insert(0);
                        *k += 1;
                        let key = if *k == 1 { format!("let {}", n) } else { format!("let {} {}", n, k) };
                        keep.extend(self.ins(&key));
                    }
                }
            }
        }
        // an array that is made only to be looped over
        // `let [a, b] = e;` names the elements one by one
        let mut k = 0;
        while k < keep.len() {
            let parts = match &keep[k] {
                Stmt::Local(Local { pat: Pat::Slice(p), init: Some(LocalInit { expr, diverge: None, .. }), .. })
                    if p.elems.iter().all(|x| matches!(x, Pat::Ident(PatIdent { by_ref: None, subpat: None, .. }) | Pat::Wild(_))) =>
                {
                    Some((p.elems.iter().cloned().collect::<Vec<_>>(), (**expr).clone()))
                }
                _ => None,
            };
            if let Some((pats, x)) = parts {
                self.tmp += 1;
                let t = Ident::new(&format!("__d{}", self.tmp), Span::call_site());
                let mut new: Vec<Stmt> = vec![parse_quote!(let #t = #x;)];
                for (j, p) in pats.iter().enumerate() {
                    if let Pat::Ident(_) = p {
                        let j = Index::from(j);
                        new.push(parse_quote!(let #p = #t[#j];));
                    }
                }
                keep.splice(k..=k, new);
            }
            k += 1;
        }
        let mut i = 0;
        while i + 1 < keep.len() {
            let arr = match &keep[i] {
                Stmt::Local(Local { pat: Pat::Ident(p), init: Some(x), .. }) if p.mutability.is_none() && matches!(&*x.expr, Expr::Array(_)) => Some((p.ident.clone(), (*x.expr).clone())),
                _ => None,
            };
            if let Some((n, a)) = arr {
                let uses = keep[i + 1..].iter().flat_map(|s| all_idents(s.to_token_stream())).filter(|t| *t == n).count();
                if let Stmt::Expr(Expr::ForLoop(f), _) = &mut keep[i + 1] {
                    let in_head = all_idents(f.expr.to_token_stream()).into_iter().filter(|t| *t == n).count();
                    if uses == 1 && in_head == 1 {
                        let mut x = (*f.expr).clone();
                        SubstName(&n, &a).visit_expr_mut(&mut x);
                        let mut g = f.clone();
                        g.expr = Box::new(x);
                        if self.unrolled(&g).is_some() {
                            keep[i + 1] = Stmt::Expr(Expr::ForLoop(g), None);
                            keep.remove(i);
                        }
                    }
                }
            }
            i += 1;
        }
        b.stmts = keep;
        for (a, n) in &renames {
            self.rename_fns.insert(a.clone(), n.clone());
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_item_use_mut(&mut self, u: &mut ItemUse) {
        let t = crate::fix_use(&u.tree, &self.krate);
        if let Some(t) = t {
            u.tree = t;
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if name == "__vx_raw" || name == "__vx_inv" {
                return;
            }
            let semi = m.semi_token;
            match self.macro_expr(&m.mac) {
                Some(e) => *s = Stmt::Expr(e, semi),
                None => {
                    let e = self.bad(format!("macro {}", name));
                    *s = Stmt::Expr(e, Some(Default::default()));
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Group(g) => {
                *e = Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: g.expr.clone() });
                self.visit_expr_mut(e);
            }
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if name == "__vx_raw" || name == "__vx_inv" {
                    return;
                }
                match self.macro_expr(&m.mac) {
                    Some(x) => {
                        *e = x;
                        self.visit_expr_mut(e)
                    }
                    None => *e = self.bad(format!("macro {}", name)),
                }
            }
            Expr::ForLoop(f) if self.unrolled(f).is_some() => {
                *e = self.unrolled(f).unwrap();
                self.visit_expr_mut(e);
            }
            Expr::ForLoop(f) => {
                let n = self.next_loop();
                let it = Self::strip(&f.expr);
                let (src, ops) = match self.source(&it) {
                    Some((s, ops)) => {
                        let (ad, bad): (Vec<Op>, Vec<Op>) = ops.into_iter().partition(|o| matches!(o.name.as_str(), "map" | "filter" | "enumerate" | "skip" | "take" | "copied" | "cloned"));
                        if !bad.is_empty() {
                            let b = self.bad(format!("for over {}", bad[0].name));
                            *e = parse_quote!({ #b });
                            return;
                        }
                        (s, ad)
                    }
                    None => {
                        let mut it = it;
                        match &mut it {
                            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.segments.len() >= 2 && self.ctx.user_iters.contains(&p.path.segments[p.path.segments.len()-2].ident.to_string())) => {
                                self.visit_expr_mut(&mut it);
                                (Src::User(it), vec![])
                            }
                            Expr::Reference(r) if r.mutability.is_none() => {
                                let mut x = (*r.expr).clone();
                                self.visit_expr_mut(&mut x);
                                (Src::List(parse_quote!(#x.vx_iter())), vec![])
                            }
                            Expr::Reference(r) => {
                                let mut x = (*r.expr).clone();
                                self.visit_expr_mut(&mut x);
                                (Src::Mut(vec![x]), vec![])
                            }
                            _ => {
                                self.visit_expr_mut(&mut it);
                                (Src::List(parse_quote!(#it.vx_into_list())), vec![])
                            }
                        }
                    }
                };
                let mut body = f.body.clone();
                if matches!(src, Src::Mut(ref v) if v.len() > 1) && body.to_token_stream().to_string().contains("break") {
                    self.unsupported.push("break in a loop over chained mutable iterators".into());
                }
                self.visit_block_mut(&mut body);
                let mut stmts = body.stmts;
                if let Some(Stmt::Expr(_, semi @ None)) = stmts.last_mut() {
                    *semi = Some(Default::default());
                }
                let pat = (*f.pat).clone();
                if f.label.is_some() {
                    self.unsupported.push("loop label".into());
                }
                *e = self.pipeline(src, ops, Term::ForEach(pat, stmts), n);
            }
            Expr::While(w) => {
                let n = self.next_loop();
                let m = self.marker(n);
                if let Expr::Let(l) = Self::strip(&w.cond) {
                    let (p, mut x) = (l.pat, *l.expr);
                    self.visit_expr_mut(&mut x);
                    let mut body = w.body.clone();
                    self.visit_block_mut(&mut body);
                    let stmts = body.stmts;
                    self.set_inv(n, &[], None);
                    let ls = self.ins(&format!("loop {} start", n));
                    let le = self.ins(&format!("loop {} end", n));
                    let be = self.ins(&format!("before {}", n));
                    let ae = self.ins(&format!("after {}", n));
                    let br = self.ins(&format!("loop {} break", n));
                    let mut arms: Vec<Arm> = vec![parse_quote!(#p => { #(#stmts)* #(#le)* })];
                    arms.push(parse_quote!(_ => { #(#br)* break; }));
                    let mut m2: Expr = parse_quote!(match #x { #(#arms)* });
                    if let Expr::Match(mm) = &mut m2 {
                        for a in &mut mm.arms {
                            if let Some(g) = self.str_pat(&mut a.pat) {
                                a.guard = Some((Default::default(), parse_quote!(#g)));
                            }
                        }
                    }
                    *e = parse_quote!({ #(#be)* loop { #m #(#ls)* #m2 } #(#ae)* });
                } else {
                    self.visit_expr_mut(&mut w.cond);
                    self.visit_block_mut(&mut w.body);
                    self.set_inv(n, &[], None);
                    let ls = self.ins(&format!("loop {} start", n));
                    let le = self.ins(&format!("loop {} end", n));
                    let be = self.ins(&format!("before {}", n));
                    let ae = self.ins(&format!("after {}", n));
                    let mut stmts = std::mem::take(&mut w.body.stmts);
                    if let Some(Stmt::Expr(_, semi @ None)) = stmts.last_mut() {
                        *semi = Some(Default::default());
                    }
                    let c = &w.cond;
                    let l = w.label.as_ref().map(|l| quote!(#l));
                    *e = parse_quote!({ #(#be)* #l while #c { #m #(#ls)* #(#stmts)* #(#le)* } #(#ae)* });
                }
            }
            Expr::Loop(l) => {
                let n = self.next_loop();
                let m = self.marker(n);
                self.visit_block_mut(&mut l.body);
                self.set_inv(n, &[], None);
                let ls = self.ins(&format!("loop {} start", n));
                let le = self.ins(&format!("loop {} end", n));
                let mut br = Breaks { text: vec![], plain: 0, valued: false };
                br.visit_block_mut(&mut l.body);
                if br.plain > 0 && !br.valued {
                    br.text = self.ins(&format!("loop {} break", n));
                    if !br.text.is_empty() {
                        br.visit_block_mut(&mut l.body);
                    }
                }
                let mut stmts = std::mem::take(&mut l.body.stmts);
                if let Some(Stmt::Expr(_, semi @ None)) = stmts.last_mut() {
                    *semi = Some(Default::default());
                }
                let mut all = vec![m];
                all.extend(ls);
                all.extend(stmts);
                all.extend(le);
                l.body.stmts = all;
                if br.plain > 0 && !br.valued && l.label.is_none() {
                    let be = self.ins(&format!("before {}", n));
                    let ae = self.ins(&format!("after {}", n));
                    if !be.is_empty() || !ae.is_empty() {
                        let x = l.clone();
                        *e = parse_quote!({ #(#be)* #x #(#ae)* });
                    }
                }
            }
            Expr::MethodCall(_) => {
                let probe = e.clone();
                if let Some(x) = self.chain(&probe) {
                    *e = x;
                    return;
                }
                let m = match e {
                    Expr::MethodCall(m) => m,
                    _ => unreachable!(),
                };
                if let Some(x) = self.option_call(m) {
                    *e = x;
                    self.visit_expr_mut(e);
                    return;
                }
                // `(&mut a[..]).write_u32::<E>(v)`: a write to the front of a fixed buffer
                if let Expr::Reference(r) = Self::strip(&m.receiver) {
                    if r.mutability.is_some() && m.method.to_string().starts_with("write_") {
                        if let Expr::Index(ix) = &*r.expr {
                            if matches!(&*ix.index, Expr::Range(g) if g.start.is_none() && g.end.is_none()) {
                                let (a, tf) = (&ix.expr, m.turbofish.as_ref().map(|t| quote!(#t)));
                                let name = id(&format!("vx_front_{}", m.method));
                                let args = m.args.iter();
                                let mut x: Expr = parse_quote!((#a).#name #tf (#(#args),*));
                                visit_mut::visit_expr_mut(self, &mut x);
                                *e = x;
                                return;
                            }
                        }
                    }
                }
                self.rename(m);
                if let Expr::Closure(_) = &*m.receiver {
                    self.unsupported.push("closure receiver".into());
                }
                visit_mut::visit_expr_method_call_mut(self, m);
            }
            Expr::Call(c) => {
                let f = Self::strip(&c.func);
                if let Expr::Macro(m) = &f {
                    if let Some(x) = self.macro_expr(&m.mac) {
                        c.func = Box::new(x);
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                if let Expr::Match(mut m) = f {
                    // call of a selected function: the call moves into the arms
                    let args = &c.args;
                    for a in &mut m.arms {
                        let b = &a.body;
                        a.body = parse_quote!(#b(#args));
                        a.comma = Some(Default::default());
                    }
                    *e = parse_quote!((#m));
                    self.visit_expr_mut(e);
                    return;
                }
                visit_mut::visit_expr_call_mut(self, c);
            }
            Expr::Match(m) => {
                let arms = std::mem::take(&mut m.arms);
                for a in arms {
                    if Self::has_str_lit(&a.pat) {
                        let alts: Vec<Pat> = match &a.pat {
                            Pat::Or(o) if !o.cases.iter().all(|c| matches!(c, Pat::Lit(_))) => o.cases.iter().cloned().collect(),
                            p => vec![p.clone()],
                        };
                        for p in alts {
                            let mut b = a.clone();
                            b.pat = p;
                            if let Some(g) = self.str_pat(&mut b.pat) {
                                b.guard = Some(match b.guard.take() {
                                    Some((_, old)) => (Default::default(), parse_quote!(#g && #old)),
                                    None => (Default::default(), parse_quote!(#g)),
                                });
                            }
                            b.comma = Some(Default::default());
                            m.arms.push(b);
                        }
                    } else {
                        let mut a = a;
                        a.comma = Some(Default::default());
                        m.arms.push(a);
                    }
                }
                visit_mut::visit_expr_match_mut(self, m);
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    if Self::has_str_lit(&l.pat) {
                        let (p, x, t) = (&l.pat, &l.expr, &i.then_branch);
                        let el: TokenStream = match &i.else_branch {
                            Some((_, e)) => quote!(#e),
                            None => quote!({}),
                        };
                        *e = parse_quote!(match #x { #p => #t, _ => #el });
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                visit_mut::visit_expr_if_mut(self, i);
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let ne = matches!(b.op, BinOp::Ne(_));
                let lit = |x: &Expr| -> Option<Expr> {
                    match Self::strip(x) {
                        Expr::Call(c) if print::plain(c.func.to_token_stream()) == "Some" && c.args.len() == 1 => match &c.args[0] {
                            Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => Some(c.args[0].clone()),
                            _ => None,
                        },
                        _ => None,
                    }
                };
                let slit = |x: &Expr| matches!(Self::strip(x), Expr::Lit(ExprLit { lit: Lit::Str(_), .. }));
                let (l, r) = ((*b.left).clone(), (*b.right).clone());
                let x: Option<Expr> = if let Some(s) = lit(&r) {
                    Some(parse_quote!(crate::vx::vx_opt_str_eq(#l, #s)))
                } else if let Some(s) = lit(&l) {
                    Some(parse_quote!(crate::vx::vx_opt_str_eq(#r, #s)))
                } else if slit(&r) || slit(&l) {
                    Some(parse_quote!(crate::vx::vx_str_eq(#l, #r)))
                } else {
                    None
                };
                match x {
                    Some(x) => {
                        *e = if ne { parse_quote!((!#x)) } else { x };
                        visit_mut::visit_expr_mut(self, e);
                    }
                    None => visit_mut::visit_expr_mut(self, e),
                }
            }
            Expr::Closure(_) => {
                // reached only outside the recognised uses
                self.unsupported.push("closure".into());
                visit_mut::visit_expr_mut(self, e);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// crate-relative and external paths
pub fn fix_path(p: &mut Path, krate: &str) {
    if p.segments.is_empty() {
        return;
    }
    let first = p.segments[0].ident.to_string();
    let s = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
    if first == "crate" && p.segments.len() > 1 && !["at_mac", "at_obj", "at_asm", "at_x64", "at_asm_bin", "vx", "vxs", "vxf"].contains(&p.segments[1].ident.to_string().as_str()) {
        let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
        let k = id(krate);
        *p = parse_quote!(crate::#k::#(#rest)::*);
        return;
    }
    if ["at_mac", "at_obj", "at_asm", "at_x64"].contains(&first.as_str()) && p.segments.len() > 1 {
        let rest: Vec<PathSegment> = p.segments.iter().cloned().collect();
        *p = parse_quote!(crate::#(#rest)::*);
        return;
    }
    let new: Option<&str> = match s.as_str() {
        "exit" | "process::exit" | "std::process::exit" => Some("crate::vx::vx_exit"),
        "String::from_utf8" => Some("crate::vx::vx_string_from_utf8"),
        "std::str::from_utf8" | "str::from_utf8" => Some("crate::vx::vx_str_from_utf8"),
        "ReadBytesExt::read_u8" | "byteorder::ReadBytesExt::read_u8" => Some("crate::vx::ReadU8::read_u8"),
        "WriteBytesExt::write_u8" | "byteorder::WriteBytesExt::write_u8" => Some("crate::vx::WriteU8::write_u8"),
        "str::to_string" => Some("crate::vx::vx_to_string"),
        "std::env::args" | "env::args" => Some("crate::vxf::env_args"),
        "std::fs::OpenOptions" | "fs::OpenOptions" => Some("crate::vxf::OpenOptions"),
        "std::fs::OpenOptions::new" | "fs::OpenOptions::new" => Some("crate::vxf::OpenOptions::new"),
        "std::fs::File" | "fs::File" => Some("crate::vxf::File"),
        "std::fs::File::open" | "fs::File::open" => Some("crate::vxf::File::open"),
        "std::fs::File::create" | "fs::File::create" => Some("crate::vxf::File::create"),
        "std::fs::write" | "fs::write" => Some("crate::vxf::fs_write"),
        "std::fs::remove_file" | "fs::remove_file" => Some("crate::vxf::fs_remove_file"),
        "std::path::PathBuf" => Some("crate::vxf::PathBuf"),
        "std::path::PathBuf::from" => Some("crate::vxf::PathBuf::from"),
        "std::cmp::max" | "cmp::max" | "core::cmp::max" => Some("crate::vx::t::VxOrd::vx_max"),
        "std::cmp::min" | "cmp::min" | "core::cmp::min" => Some("crate::vx::t::VxOrd::vx_min"),
        "std::mem::replace" | "mem::replace" => Some("crate::vx::vx_replace"),
        "std::mem::take" | "mem::take" => Some("crate::vx::vx_take"),
        _ => None,
    };
    if let Some(n) = new {
        *p = parse_str(n).unwrap();
        return;
    }
    if p.segments.len() == 2 {
        let last = p.segments[1].ident.to_string();
        if matches!(first.as_str(), "u8" | "u16" | "u32" | "u64" | "i8" | "i16" | "i32" | "i64" | "usize" | "Self")
            && matches!(last.as_str(), "from_str_radix" | "from_le_bytes" | "from_be_bytes" | "from_ne_bytes" | "try_from")
        {
            p.segments[1].ident = id(&format!("vx_{}", last));
        }
    }
}
