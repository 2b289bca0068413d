//! Token printer with line structure; splices the contract text at markers.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::HashMap;

/// texts: marker number -> text
pub struct Printer<'a> {
    pub out: String,
    pub inv: &'a HashMap<usize, String>,
    pub raw: &'a HashMap<usize, String>,
}

fn marker(v: &[TokenTree], name: &str) -> Option<usize> {
    if let (Some(TokenTree::Ident(i)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (v.first(), v.get(1), v.get(2)) {
        if i == name && p.as_char() == '!' {
            return g.stream().to_string().trim().parse().ok();
        }
    }
    None
}

impl<'a> Printer<'a> {
    pub fn tokens(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        self.list(&v)
    }
    fn list(&mut self, v: &[TokenTree]) {
        let mut k = 0;
        while k < v.len() {
            if let Some(n) = marker(&v[k..], "__vx_raw") {
                let t = self.raw.get(&n).cloned().unwrap_or_default();
                self.out.push('\n');
                self.out.push_str(t.trim_end());
                self.out.push('\n');
                k += 3;
                if matches!(v.get(k), Some(TokenTree::Punct(p)) if p.as_char() == ';') {
                    k += 1;
                }
                continue;
            }
            match &v[k] {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let mut from = 0;
                            if let Some(n) = marker(&inner, "__vx_inv") {
                                from = 4;
                                if let Some(t) = self.inv.get(&n) {
                                    let alone = t.lines().any(|l| l.trim() == "isolated");
                                    let t = t.lines().filter(|l| l.trim() != "isolated").collect::<Vec<_>>().join("\n");
                                    if alone {
                                        let at = self.out.rfind("while ").max(self.out.rfind("loop ")).unwrap();
                                        self.out.insert_str(at, "#[verifier::loop_isolation(true)]\n");
                                    }
                                    self.out.push('\n');
                                    self.out.push_str(t.trim_end());
                                    self.out.push('\n');
                                }
                            }
                            self.out.push_str("{\n");
                            self.list(&inner[from..]);
                            self.out.push_str("\n} ");
                        }
                        Delimiter::Parenthesis => {
                            self.out.push('(');
                            self.list(&inner);
                            self.out.push_str(") ");
                        }
                        Delimiter::Bracket => {
                            self.out.push('[');
                            self.list(&inner);
                            self.out.push_str("] ");
                        }
                        Delimiter::None => self.list(&inner),
                    }
                }
                TokenTree::Punct(p) => {
                    self.out.push(p.as_char());
                    if p.as_char() == ';' {
                        self.out.push('\n');
                    } else if p.spacing() == Spacing::Alone {
                        self.out.push(' ');
                    }
                }
                t => {
                    self.out.push_str(&t.to_string());
                    self.out.push(' ');
                }
            }
            k += 1;
        }
    }
}

pub fn plain(ts: TokenStream) -> String {
    let e = HashMap::new();
    let mut p = Printer { out: String::new(), inv: &e, raw: &e };
    p.tokens(ts);
    p.out.trim().to_string()
}
