//! A small macro_rules! expander: enough for the declarative macros of /repo.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::HashMap;
use syn::parse::{ParseStream, Parser};

#[derive(Clone, Debug)]
enum Bind {
    One(TokenStream),
    Many(Vec<HashMap<String, Bind>>),
}
type Binds = HashMap<String, Bind>;

#[derive(Clone)]
pub struct Rules(Vec<(TokenStream, TokenStream)>);

pub fn parse_rules(ts: TokenStream) -> Option<Rules> {
    let mut out = vec![];
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        let pat = match t {
            TokenTree::Group(g) => g.stream(),
            _ => return None,
        };
        // =>
        it.next()?;
        it.next()?;
        let body = match it.next()? {
            TokenTree::Group(g) => g.stream(),
            _ => return None,
        };
        if let Some(TokenTree::Punct(p)) = it.peek() {
            if p.as_char() == ';' {
                it.next();
            }
        }
        out.push((pat, body));
    }
    Some(Rules(out))
}

pub fn expand(r: &Rules, input: TokenStream) -> Result<TokenStream, String> {
    for (pat, body) in &r.0 {
        let pat: Vec<TokenTree> = pat.clone().into_iter().collect();
        let res = (|i: ParseStream| -> syn::Result<Binds> {
            let mut b = Binds::new();
            matches(&pat, i, &mut b)?;
            if !i.is_empty() {
                return Err(i.error("trailing tokens"));
            }
            Ok(b)
        })
        .parse2(input.clone());
        if let Ok(b) = res {
            return transcribe(body.clone(), &[&b]);
        }
    }
    Err("no macro rule matches".into())
}

fn matches(pat: &[TokenTree], i: ParseStream, b: &mut Binds) -> syn::Result<()> {
    let mut k = 0;
    while k < pat.len() {
        if let TokenTree::Punct(p) = &pat[k] {
            if p.as_char() == '$' {
                match &pat[k + 1] {
                    TokenTree::Ident(name) => {
                        let kind = match &pat[k + 3] {
                            TokenTree::Ident(i) => i.to_string(),
                            _ => return Err(i.error("fragment")),
                        };
                        let ts = fragment(&kind, i)?;
                        b.insert(name.to_string(), Bind::One(ts));
                        k += 4;
                        continue;
                    }
                    TokenTree::Group(g) => {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut sep = None;
                        k += 2;
                        let op = loop {
                            match &pat[k] {
                                TokenTree::Punct(p) if "*+?".contains(p.as_char()) => {
                                    k += 1;
                                    break p.as_char();
                                }
                                t => {
                                    sep = Some(t.to_string());
                                    k += 1;
                                }
                            }
                        };
                        let mut many = vec![];
                        while !i.is_empty() {
                            let f = i.fork();
                            let mut bb = Binds::new();
                            if matches(&inner, &f, &mut bb).is_err() {
                                break;
                            }
                            let mut bb = Binds::new();
                            matches(&inner, i, &mut bb)?;
                            many.push(bb);
                            if op == '?' {
                                break;
                            }
                            if let Some(s) = &sep {
                                let f = i.fork();
                                match f.parse::<TokenTree>() {
                                    Ok(t) if &t.to_string() == s => {
                                        i.parse::<TokenTree>()?;
                                    }
                                    _ => break,
                                }
                            }
                        }
                        let mut names = vec![];
                        collect_names(&inner, &mut names);
                        for n in names {
                            b.insert(n, Bind::Many(many.clone()));
                        }
                        continue;
                    }
                    _ => return Err(i.error("bad pattern")),
                }
            }
        }
        match &pat[k] {
            TokenTree::Group(g) => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                let t: TokenTree = i.parse()?;
                match t {
                    TokenTree::Group(h) if h.delimiter() == g.delimiter() => {
                        let mut bb = Binds::new();
                        (|j: ParseStream| {
                            matches(&inner, j, &mut bb)?;
                            if j.is_empty() { Ok(()) } else { Err(j.error("trailing")) }
                        })
                        .parse2(h.stream())?;
                        b.extend(bb);
                    }
                    _ => return Err(i.error("group")),
                }
            }
            t => {
                let u: TokenTree = i.parse()?;
                if u.to_string() != t.to_string() {
                    return Err(i.error("literal token"));
                }
            }
        }
        k += 1;
    }
    Ok(())
}

fn collect_names(pat: &[TokenTree], out: &mut Vec<String>) {
    for k in 0..pat.len() {
        match &pat[k] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(n)) = pat.get(k + 1) {
                    out.push(n.to_string());
                }
            }
            TokenTree::Group(g) => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                collect_names(&inner, out)
            }
            _ => {}
        }
    }
}

fn fragment(kind: &str, i: ParseStream) -> syn::Result<TokenStream> {
    use quote::ToTokens;
    Ok(match kind {
        "ident" => i.call(<syn::Ident as syn::ext::IdentExt>::parse_any)?.into_token_stream(),
        "expr" => {
            let e: syn::Expr = i.parse()?;
            Group::new(Delimiter::None, e.to_token_stream()).into_token_stream()
        }
        "ty" => i.parse::<syn::Type>()?.into_token_stream(),
        "path" => i.parse::<syn::Path>()?.into_token_stream(),
        "literal" => i.parse::<syn::Lit>()?.into_token_stream(),
        "block" => i.parse::<syn::Block>()?.into_token_stream(),
        "pat" => syn::Pat::parse_multi(i)?.into_token_stream(),
        "tt" => i.parse::<TokenTree>()?.into_token_stream(),
        "lifetime" => i.parse::<syn::Lifetime>()?.into_token_stream(),
        "vis" => i.parse::<syn::Visibility>()?.into_token_stream(),
        _ => return Err(i.error("unsupported fragment")),
    })
}

fn lookup<'a>(scopes: &[&'a Binds], n: &str) -> Option<&'a Bind> {
    scopes.iter().rev().find_map(|b| b.get(n))
}

fn transcribe(ts: TokenStream, scopes: &[&Binds]) -> Result<TokenStream, String> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut k = 0;
    while k < v.len() {
        match &v[k] {
            TokenTree::Punct(p) if p.as_char() == '$' => match v.get(k + 1) {
                Some(TokenTree::Ident(n)) => {
                    match lookup(scopes, &n.to_string()) {
                        Some(Bind::One(t)) => out.extend(t.clone()),
                        _ => return Err(format!("macro variable {}", n)),
                    }
                    k += 2;
                    continue;
                }
                Some(TokenTree::Group(g)) => {
                    let mut sep: Option<TokenTree> = None;
                    k += 2;
                    loop {
                        match &v[k] {
                            TokenTree::Punct(p) if "*+?".contains(p.as_char()) => break,
                            t => sep = Some(t.clone()),
                        }
                        k += 1;
                    }
                    k += 1;
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut names = vec![];
                    collect_names(&inner, &mut names);
                    let reps = names.iter().find_map(|n| match lookup(scopes, n) {
                        Some(Bind::Many(m)) => Some(m.clone()),
                        _ => None,
                    }).ok_or("repetition without variable")?;
                    for (j, b) in reps.iter().enumerate() {
                        if j > 0 {
                            if let Some(s) = &sep {
                                out.extend([s.clone()]);
                            }
                        }
                        let mut s2: Vec<&Binds> = scopes.to_vec();
                        s2.push(b);
                        out.extend(transcribe(g.stream(), &s2)?);
                    }
                    continue;
                }
                _ => return Err("bad $".into()),
            },
            TokenTree::Group(g) => {
                let inner = transcribe(g.stream(), scopes)?;
                let mut h = Group::new(g.delimiter(), inner);
                h.set_span(g.span());
                out.extend([TokenTree::Group(h)]);
            }
            t => out.extend([t.clone()]),
        }
        k += 1;
    }
    Ok(out)
}
