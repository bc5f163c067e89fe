//! The harness's own picture of a route configuration, independent of the
//! crate's structs, with conversions to both ways of writing one down.

use crate::tape::{Rng, Tape};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct P {
    pub name: String,
    pub typ: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum M {
    Get,
    Post,
    Put,
    Delete,
}

pub const METHODS: [M; 4] = [M::Get, M::Post, M::Put, M::Delete];

impl M {
    pub fn name(self) -> &'static str {
        match self {
            M::Get => "GET",
            M::Post => "POST",
            M::Put => "PUT",
            M::Delete => "DELETE",
        }
    }
    pub fn real(self) -> wayfinder::Method {
        match self {
            M::Get => wayfinder::Method::Get,
            M::Post => wayfinder::Method::Post,
            M::Put => wayfinder::Method::Put,
            M::Delete => wayfinder::Method::Delete,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct R {
    pub method: M,
    pub modules: Vec<String>,
    pub name: String,
    pub redirect: bool,
    pub query: Vec<P>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Seg {
    Static(String),
    Param(P),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Node {
    pub query: Vec<P>,
    pub res: Vec<R>,
    pub kids: Vec<(Seg, Node)>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Cfg {
    pub headers: Vec<String>,
    pub root: Node,
}

impl P {
    pub fn new(name: &str, typ: &str) -> P {
        P { name: name.into(), typ: typ.into() }
    }
    pub fn real(&self) -> wayfinder::Param {
        wayfinder::Param { name: self.name.clone(), typ: self.typ.clone() }
    }
}

impl R {
    pub fn real(&self) -> wayfinder::Resource {
        wayfinder::Resource {
            method: self.method.real(),
            modules: self.modules.clone(),
            name: self.name.clone(),
            is_redirect: self.redirect,
            query_parameters: self.query.iter().map(P::real).collect(),
        }
    }
}

impl Node {
    pub fn real(&self) -> wayfinder::Routes {
        wayfinder::Routes {
            resources: self.res.iter().map(R::real).collect(),
            routes: self
                .kids
                .iter()
                .map(|(s, n)| wayfinder::NestedRoutes {
                    path_segment: match s {
                        Seg::Static(s) => wayfinder::PathSegment::Static(s.clone()),
                        Seg::Param(p) => wayfinder::PathSegment::Dynamic(p.real()),
                    },
                    routes: n.real(),
                })
                .collect(),
            query_parameters: self.query.iter().map(P::real).collect(),
        }
    }

    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(|k| k.1.count()).sum::<usize>()
    }

    pub fn depth(&self) -> usize {
        self.kids.iter().map(|k| 1 + k.1.depth()).max().unwrap_or(0)
    }

    pub fn visit<'a>(&'a self, path: &mut Vec<&'a Seg>, f: &mut dyn FnMut(&[&'a Seg], &'a Node)) {
        f(path, self);
        for (s, n) in &self.kids {
            path.push(s);
            n.visit(path, f);
            path.pop();
        }
    }
}

impl Cfg {
    pub fn real(&self) -> wayfinder::RouteConfig {
        wayfinder::RouteConfig {
            headers: self.headers.iter().map(|h| wayfinder::Header { text: h.clone() }).collect(),
            routes: self.root.real(),
        }
    }
}

/// How a configuration is laid out as text.  The default is the style of the
/// documentation.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Layout {
    pub seed: u64,
    pub crlf: bool,
    /// LF and CRLF at random
    pub mixed: bool,
    /// blank lines before the first line
    pub lead: bool,
    /// out of 8, the chance of blank lines after each line
    pub blanks: u64,
    pub method_case: bool,
    pub spaces: bool,
}

impl Layout {
    pub fn gen(t: &mut Tape) -> Layout {
        if !t.chance(1, 2) {
            return Layout::default();
        }
        Layout {
            crlf: t.chance(1, 4),
            mixed: false,
            lead: false,
            blanks: *t.pick(&[0, 2, 4, 8]),
            method_case: t.chance(1, 3),
            spaces: t.chance(1, 3),
            seed: t.seed(),
        }
    }
}

struct Printer {
    out: String,
    layout: Layout,
    rng: Rng,
}

impl Printer {
    fn line(&mut self, level: usize, text: &str) {
        for _ in 0..level {
            self.out.push_str("  ");
        }
        self.out.push_str(text);
        self.end();
    }
    fn nl(&mut self) -> &'static str {
        if self.layout.mixed {
            ["\n", "\r\n"][(self.rng.next() % 2) as usize]
        } else if self.layout.crlf {
            "\r\n"
        } else {
            "\n"
        }
    }
    fn end(&mut self) {
        let nl = self.nl();
        self.out.push_str(nl);
        if self.layout.blanks > 0 && self.rng.next() % 8 < self.layout.blanks {
            let n = 1 + self.rng.next() % 3;
            for _ in 0..n {
                let nl = self.nl();
                self.out.push_str(nl);
            }
        }
    }
    fn sp(&mut self) -> &'static str {
        if !self.layout.spaces {
            return "";
        }
        ["", "", " ", "  "][(self.rng.next() % 4) as usize]
    }
    fn param(&mut self, p: &P) -> String {
        if !self.layout.spaces {
            return format!("{}: {}", p.name, p.typ);
        }
        let (a, b, c, d) = (self.sp(), self.sp(), self.sp(), self.sp());
        format!("{}{}{}:{}{}{}", a, p.name, b, c, p.typ, d)
    }
    fn method(&mut self, m: M) -> String {
        if !self.layout.method_case {
            return m.name().to_string();
        }
        match self.rng.next() % 3 {
            0 => m.name().to_lowercase(),
            1 => m.name().to_string(),
            _ => m
                .name()
                .chars()
                .map(|c| if self.rng.next() % 2 == 0 { c.to_ascii_lowercase() } else { c })
                .collect(),
        }
    }
    fn node(&mut self, level: usize, n: &Node) {
        for q in &n.query {
            let p = self.param(q);
            self.line(level, &format!("[{}]", p));
        }
        for r in &n.res {
            let mut s = self.method(r.method);
            s.push(' ');
            if r.redirect {
                if self.layout.spaces {
                    s.push_str(self.sp());
                }
                s.push_str("->");
                if self.layout.spaces {
                    s.push_str(self.sp());
                } else {
                    s.push(' ');
                }
            }
            for m in &r.modules {
                s.push_str(m);
                s.push_str(self.sp());
                s.push_str("::");
                s.push_str(self.sp());
            }
            s.push_str(&r.name);
            self.line(level, &s);
            for q in &r.query {
                let p = self.param(q);
                self.line(level + 1, &format!("[{}]", p));
            }
        }
        for (s, n) in &n.kids {
            match s {
                Seg::Static(s) => self.line(level, s),
                Seg::Param(p) => {
                    let p = self.param(p);
                    self.line(level, &format!("{{{}}}", p))
                }
            }
            self.node(level + 1, n);
        }
    }
}

/// Write a configuration as the text of a route file.
pub fn to_text(c: &Cfg, layout: &Layout) -> String {
    let mut p = Printer { out: String::new(), layout: layout.clone(), rng: Rng::new(layout.seed) };
    if layout.lead {
        for _ in 0..1 + p.rng.next() % 3 {
            let nl = p.nl();
            p.out.push_str(nl);
        }
    }
    for h in &c.headers {
        p.line(0, h);
    }
    if !c.headers.is_empty() && layout.seed == 0 {
        p.end();
    }
    p.line(0, "/");
    p.node(1, &c.root);
    p.out
}

// ---------------------------------------------------------------------
// names in the generated module

/// The name of the struct, or of the variant, for a resource or module.
pub fn caps(s: &str) -> String {
    s.split('_')
        .map(|w| {
            let mut cs = w.chars();
            match cs.next() {
                None => String::new(),
                Some(c) => {
                    let mut x = c.to_ascii_uppercase().to_string();
                    x.push_str(cs.as_str());
                    x
                }
            }
        })
        .collect()
}

/// The name of the module
pub fn snake(s: &str) -> String {
    let mut out = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_ascii_uppercase() && i > 0 {
            out.push('_');
        }
        out.push(c.to_ascii_lowercase());
    }
    out
}
