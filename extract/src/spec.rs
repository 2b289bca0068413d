//! Contract files.
use std::collections::{BTreeMap, HashMap};

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub ret: String,
    pub props: Vec<String>,
    pub uses: Vec<String>,
    pub trusted: bool,
    pub attrs: String,
    pub spec: String,
    pub loops: HashMap<usize, String>,
    /// start, end, loop K start, loop K end, before K, after K
    pub ins: BTreeMap<String, String>,
    pub nloops: Option<usize>,
}

#[derive(Default)]
pub struct Specs {
    pub fns: BTreeMap<String, FnSpec>,
    /// raw text put into an impl, trait or module
    pub inside: BTreeMap<String, String>,
    /// raw text at crate level
    pub top: String,
    pub inline: Vec<String>,
    /// modules, impls and functions left out of the extraction
    pub drop: Vec<String>,
    /// the text of each file for `pub mod specs`: (module name, text)
    pub tops: Vec<(String, String)>,
}

pub fn load(files: &[String]) -> Specs {
    let mut s = Specs::default();
    for f in files {
        let text = std::fs::read_to_string(f).unwrap_or_else(|e| panic!("{}: {}", f, e));
        let mut key = String::new();
        let mut sect = String::from("none");
        let stem = std::path::Path::new(f).file_stem().unwrap().to_string_lossy().to_string();
        for line in text.lines() {
            if let Some(rest) = line.strip_prefix("@@ ") {
                // @@ path (ret) props=.. uses=..
                let mut parts = rest.split_whitespace();
                key = parts.next().unwrap().to_string();
                let e = s.fns.entry(key.clone()).or_default();
                e.ret = "r".into();
                for p in parts {
                    if let Some(x) = p.strip_prefix("props=") {
                        e.props = x.split(',').map(String::from).collect();
                    } else if let Some(x) = p.strip_prefix("uses=") {
                        e.uses = x.split(',').map(String::from).collect();
                    } else if let Some(x) = p.strip_prefix("loops=") {
                        e.nloops = x.parse().ok();
                    } else if p == "trusted" {
                        e.trusted = true;
                    } else if p.starts_with('(') {
                        e.ret = p.trim_matches(|c| c == '(' || c == ')').to_string();
                    } else {
                        panic!("{}: bad header word {}", f, p);
                    }
                }
                sect = "spec".into();
            } else if let Some(rest) = line.strip_prefix("@inside ") {
                key = rest.trim().to_string();
                sect = "inside".into();
            } else if line.trim() == "@top" {
                sect = "top".into();
            } else if let Some(rest) = line.strip_prefix("@drop ") {
                s.drop.push(rest.trim().to_string());
                sect = "none".into();
            } else if let Some(rest) = line.strip_prefix("@inline ") {
                s.inline.push(rest.trim().to_string());
            } else if let Some(rest) = line.strip_prefix('@') {
                sect = rest.trim().to_string();
            } else if line.starts_with("//!") {
            } else {
                let t = format!("{}\n", line);
                match sect.as_str() {
                    "top" if line.starts_with("use ") => s.top.push_str(&t),
                    "top" => {
                        if s.tops.last().map(|x| x.0 != stem).unwrap_or(true) {
                            s.tops.push((stem.clone(), String::new()));
                        }
                        s.tops.last_mut().unwrap().1.push_str(&t);
                    }
                    "inside" => s.inside.entry(key.clone()).or_default().push_str(&t),
                    "none" => assert!(line.trim().is_empty() || line.starts_with("//"), "{}: text outside a section: {}", f, line),
                    _ => {
                        let e = s.fns.get_mut(&key).unwrap();
                        if sect == "spec" {
                            e.spec.push_str(&t);
                        } else if sect == "attr" {
                            e.attrs.push_str(&t);
                        } else if let Some(k) = sect.strip_prefix("loop ").and_then(|k| k.trim().parse::<usize>().ok()) {
                            e.loops.entry(k).or_default().push_str(&t);
                        } else {
                            e.ins.entry(sect.clone()).or_default().push_str(&t);
                        }
                    }
                }
            }
        }
    }
    s
}
