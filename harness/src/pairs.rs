//! For tuning the generator: which features of a place in a route tree are
//! seldom or never generated together.  Not part of any check.

use crate::cfg::*;
use crate::gen::{self, Opts};
use crate::tape::{mix, Tape};
use std::collections::BTreeMap;

fn bucket(n: usize, edges: &[usize]) -> String {
    let mut last = 0;
    for (i, e) in edges.iter().enumerate() {
        if n >= *e {
            last = i;
        }
    }
    let hi = edges.get(last + 1).map(|e| e - 1);
    match hi {
        Some(h) if h == edges[last] => format!("{}", h),
        Some(h) => format!("{}-{}", edges[last], h),
        None => format!("{}+", edges[last]),
    }
}

fn features(path: &[(&Seg, &Node)], n: &Node, root: &Node, out: &mut Vec<Vec<String>>) {
    let parent = if path.len() > 1 { path[path.len() - 2].1 } else { root };
    let mut f = vec![];
    f.push(format!("depth {}", bucket(path.len(), &[0, 1, 2, 3, 4, 5, 7])));
    let statics: Vec<&String> = n.kids.iter().filter_map(|k| if let Seg::Static(s) = &k.0 { Some(s) } else { None }).collect();
    f.push(format!("statics below {}", bucket(statics.len(), &[0, 1, 2, 3, 5, 8])));
    f.push(format!("param below {}", n.kids.len() != statics.len()));
    f.push(format!("resources {}", n.res.len()));
    f.push(format!("redirects {}", bucket(n.res.iter().filter(|r| r.redirect).count(), &[0, 1, 2])));
    f.push(format!("query here {}", bucket(n.query.len(), &[0, 1, 2, 3, 5])));
    let inh: usize = root.query.len() + path.iter().rev().skip(1).map(|x| x.1.query.len()).sum::<usize>();
    f.push(format!("query above {}", if path.is_empty() { "0".to_string() } else { bucket(inh, &[0, 1, 2, 3, 5]) }));
    let params = path.iter().filter(|x| matches!(x.0, Seg::Param(_))).count();
    f.push(format!("params {}", bucket(params, &[0, 1, 2, 3, 4])));
    match path.last() {
        None => f.push("root".to_string()),
        Some((Seg::Static(s), _)) => {
            f.push(format!("static of {}", bucket(s.len(), &[1, 2, 5, 10, 32])));
            f.push(format!("ascii {}", s.is_ascii()));
            let mut rel = "none";
            for k in &parent.kids {
                if let Seg::Static(o) = &k.0 {
                    if o != s {
                        if o.starts_with(s.as_str()) {
                            rel = "is prefix";
                        } else if s.starts_with(o.as_str()) {
                            rel = "extends";
                        } else if rel == "none" && o.bytes().next() == s.bytes().next() {
                            rel = "same start";
                        }
                    }
                }
            }
            f.push(format!("sibling: {}", rel));
        }
        Some((Seg::Param(p), _)) => {
            f.push("param".to_string());
            f.push(format!("param name of {}", bucket(p.name.len(), &[1, 2, 3, 5, 9])));
            f.push(format!("type {}", if ["String", "u32", "i64", "u8", "bool"].contains(&p.typ.as_str()) { p.typ.clone() } else { "other".into() }));
        }
    }
    if !path.is_empty() {
        f.push(format!("siblings {}", bucket(parent.kids.len(), &[1, 2, 3, 5, 8])));
        f.push(format!("resources above {}", parent.res.len().min(2)));
        f.push(format!("param sibling {}", parent.kids.iter().any(|k| matches!(k.0, Seg::Param(_)))));
    }
    if !n.res.is_empty() {
        f.push(format!("modules {}", bucket(n.res.iter().map(|r| r.modules.len()).max().unwrap_or(0), &[0, 1, 2, 3, 4])));
        f.push(format!("own query {}", bucket(n.res.iter().map(|r| r.query.len()).max().unwrap_or(0), &[0, 1, 2, 3, 5])));
        let methods: Vec<String> = n.res.iter().map(|r| r.method.name().to_string()).collect();
        f.push(format!("get {}", methods.contains(&"GET".to_string())));
    }
    out.push(f);
}

pub fn print(count: usize, seed: u64, text: bool) {
    let mut one: BTreeMap<String, u64> = BTreeMap::new();
    let mut two: BTreeMap<(String, String), u64> = BTreeMap::new();
    for i in 0..count {
        let mut t = Tape::random(mix(seed, i as u64));
        let c = gen::config(&mut t, &Opts::new(text));
        let mut all = vec![];
        fn go<'a>(n: &'a Node, path: &mut Vec<(&'a Seg, &'a Node)>, root: &Node, out: &mut Vec<Vec<String>>) {
            features(path, n, root, out);
            for k in &n.kids {
                path.push((&k.0, &k.1));
                go(&k.1, path, root, out);
                path.pop();
            }
        }
        go(&c.root, &mut vec![], &c.root, &mut all);
        for f in all {
            for (i, a) in f.iter().enumerate() {
                *one.entry(a.clone()).or_insert(0) += 1;
                for b in &f[i + 1..] {
                    *two.entry((a.clone(), b.clone())).or_insert(0) += 1;
                }
            }
        }
    }
    for (k, n) in &one {
        println!("{:>8} {}", n, k);
    }
    let kind = |s: &str| s.trim_end_matches(|c: char| c != ' ').to_string();
    let names: Vec<&String> = one.keys().collect();
    for a in &names {
        for b in &names {
            if a < b && kind(a) != kind(b) {
                let n = two.get(&(a.to_string(), b.to_string())).or(two.get(&(b.to_string(), a.to_string()))).cloned().unwrap_or(0);
                if n < count as u64 / 1000 {
                    println!("{:>8} {} & {}", n, a, b);
                }
            }
        }
    }
}
