//! The reference model of routing, written from the documentation: walk the
//! path segment by segment; a static segment wins over a parameter; the
//! method picks the resource.

use crate::cfg::*;
use crate::types::{self, Value};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    NotFound,
    NotAllowed,
    Route { debug: String, path: String },
    Redirect { debug: String, path: String },
    Err { param: String, what: String },
    /// a parameter got bytes that are not text: anything but a panic
    NotText,
    /// only ever observed, or predicted for a known finding
    Panic,
}

/// What the walk went through, for classifying requests.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Trace {
    pub params: usize,
    pub statics: usize,
    /// went past a parameter beside a static segment (took the static)
    pub static_over_param: bool,
    /// took the parameter where there were static siblings
    pub param_beside_static: bool,
    pub empty_segment: bool,
    /// types and texts parsed, the refused one included
    pub asked: Vec<(String, String)>,
    /// known finding shapes met on the way
    pub k1: bool,
    pub k2: bool,
    pub k3: bool,
    pub k4: bool,
}

impl Trace {
    pub fn known(&self) -> bool {
        self.k1 || self.k2 || self.k3 || self.k4
    }
}

pub fn route_debug(r: &R, params: &[(String, Value)], query: &[String]) -> String {
    let mut s = String::new();
    for m in &r.modules {
        s.push_str(&caps(m));
        s.push('(');
    }
    let name = caps(&r.name);
    s.push_str(&name);
    s.push('(');
    s.push_str(&name);
    if !params.is_empty() || !query.is_empty() {
        s.push_str(" { ");
        let mut fields: Vec<String> = params.iter().map(|(n, v)| format!("{}: {}", n, v.debug)).collect();
        fields.extend(query.iter().map(|q| format!("{}: None", q)));
        s.push_str(&fields.join(", "));
        s.push_str(" }");
    }
    s.push(')');
    for _ in &r.modules {
        s.push(')');
    }
    s
}

/// The resource (not redirect) with that name: its path and its query parameters
pub fn find_action<'a>(root: &'a Node, modules: &[String], name: &str) -> Option<(Vec<&'a Seg>, Vec<String>)> {
    fn go<'a>(
        n: &'a Node,
        modules: &[String],
        name: &str,
        path: &mut Vec<&'a Seg>,
        inh: &[String],
    ) -> Option<(Vec<&'a Seg>, Vec<String>)> {
        let mut inh = inh.to_vec();
        inh.extend(n.query.iter().map(|q| q.name.clone()));
        for r in &n.res {
            if !r.redirect && r.name == name && r.modules == modules {
                let mut q = inh.clone();
                q.extend(r.query.iter().map(|q| q.name.clone()));
                return Some((path.clone(), q));
            }
        }
        for (s, k) in &n.kids {
            path.push(s);
            if let Some(x) = go(k, modules, name, path, &inh) {
                return Some(x);
            }
            path.pop();
        }
        None
    }
    go(root, modules, name, &mut vec![], &[])
}

fn resolve(root: &Node, n: &Node, method: &[u8], captured: &[(String, Value)]) -> Outcome {
    if n.res.is_empty() {
        return Outcome::NotFound;
    }
    for r in &n.res {
        if r.method.name().as_bytes() == method {
            // the struct is laid out by the resource's declaration, also for a redirect
            let (path, query) = find_action(root, &r.modules, &r.name).expect("redirect without target");
            let mut params = vec![];
            let mut text = String::new();
            for s in &path {
                text.push('/');
                match s {
                    Seg::Static(s) => text.push_str(s),
                    Seg::Param(p) => {
                        let v = captured.iter().find(|c| c.0 == p.name).expect("param").1.clone();
                        text.push_str(&v.display);
                        params.push((p.name.clone(), v));
                    }
                }
            }
            if text.is_empty() {
                text.push('/');
            }
            let debug = route_debug(r, &params, &query);
            return if r.redirect {
                Outcome::Redirect { debug, path: text }
            } else {
                Outcome::Route { debug, path: text }
            };
        }
    }
    Outcome::NotAllowed
}

/// The longest common prefix of the static segments, and whether it is one of them
pub fn common_prefix(statics: &[&str]) -> (Vec<u8>, bool) {
    let mut c = vec![];
    if statics.is_empty() {
        return (c, false);
    }
    let mut i = 0;
    loop {
        if statics.iter().any(|s| s.len() == i) {
            return (c, true);
        }
        let ch = statics[0].as_bytes()[i];
        if statics.iter().any(|s| s.as_bytes()[i] != ch) {
            return (c, false);
        }
        c.push(ch);
        i += 1;
    }
}

/// What the documentation says.
pub fn ideal(root: &Node, path: &[u8], method: &[u8]) -> (Outcome, Trace) {
    run(root, path, method, false)
}

/// The same with the known findings in it.
pub fn as_is(root: &Node, path: &[u8], method: &[u8]) -> (Outcome, Trace) {
    run(root, path, method, true)
}

fn run(root: &Node, path: &[u8], method: &[u8], known: bool) -> (Outcome, Trace) {
    let mut tr = Trace::default();
    let mut rest = match path.first() {
        Some(b'/') => &path[1..],
        _ => path,
    };
    let mut n = root;
    let mut captured: Vec<(String, Value)> = vec![];
    let mut first = true;
    loop {
        let param = n.kids.iter().find_map(|k| match &k.0 {
            Seg::Param(p) => Some((p, &k.1)),
            _ => None,
        });
        let statics: Vec<&str> = n
            .kids
            .iter()
            .filter_map(|k| match &k.0 {
                Seg::Static(s) => Some(s.as_str()),
                _ => None,
            })
            .collect();
        let (c, whole) = common_prefix(&statics);

        if rest.is_empty() {
            let k4 = first && n.res.is_empty() && param.is_some() && (statics.is_empty() || !c.is_empty());
            if k4 {
                tr.k4 = true;
            }
            if !(k4 && known) {
                return (resolve(root, n, method, &captured), tr);
            }
        }
        first = false;

        let end = rest.iter().position(|b| *b == b'/').unwrap_or(rest.len());
        let seg = &rest[..end];
        if seg.is_empty() {
            tr.empty_segment = true;
        }

        let mut next: Option<&Node> = None;
        let exact = n.kids.iter().find(|k| match &k.0 {
            Seg::Static(s) => s.as_bytes() == seg,
            _ => false,
        });
        let mut forced_param = false;
        if param.is_some() && !c.is_empty() {
            if whole {
                if rest.starts_with(&c) && exact.is_none() {
                    tr.k2 = true;
                    if known {
                        return (Outcome::NotFound, tr);
                    }
                }
            } else if exact.is_some() {
                tr.k1 = true;
                forced_param = known;
            }
        }
        if let (Some(k), false) = (exact, forced_param) {
            tr.statics += 1;
            if param.is_some() {
                tr.static_over_param = true;
            }
            next = Some(&k.1);
        }
        if next.is_none() {
            if let Some((p, k)) = param {
                tr.params += 1;
                if !statics.is_empty() {
                    tr.param_beside_static = true;
                }
                let text = match std::str::from_utf8(seg) {
                    Ok(t) => t,
                    Err(_) => {
                        tr.k3 = true;
                        return (if known { Outcome::Panic } else { Outcome::NotText }, tr);
                    }
                };
                tr.asked.push((p.typ.clone(), text.to_string()));
                match types::parse(&p.typ, text) {
                    Ok(v) => captured.push((p.name.clone(), v)),
                    Err(e) => return (Outcome::Err { param: p.name.clone(), what: e }, tr),
                }
                next = Some(k);
            }
        }
        n = match next {
            Some(k) => k,
            None => return (Outcome::NotFound, tr),
        };
        rest = if end < rest.len() { &rest[end + 1..] } else { &[] };
    }
}
