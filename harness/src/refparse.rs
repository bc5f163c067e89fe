//! A reference reading of route files, line by line, from the language
//! reference in the README.  Nothing here is shared with the crate's parser.

use crate::cfg::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Read {
    Accept(Cfg),
    /// Should be refused; the 1-based number of the line where reading stops
    /// (one past the last line if the text ends too early)
    Refuse(usize),
    /// The documentation does not settle it: if it is accepted, it says this
    /// (or anything, if None)
    Open(Option<Cfg>),
}

fn ident(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

#[derive(Clone, Debug)]
enum Line {
    Query(P),
    Res(R),
    Seg(Seg),
}

fn word(s: &str) -> (&str, &str) {
    let n = s.find(|c| !ident(c)).unwrap_or(s.len());
    s.split_at(n)
}

fn spaces(s: &str) -> &str {
    s.trim_start_matches(' ')
}

/// name : type, with spaces around each
fn param(s: &str) -> Option<(P, &str)> {
    let (name, s) = word(spaces(s));
    let s = spaces(s).strip_prefix(':')?;
    let (typ, s) = word(spaces(s));
    if name.is_empty() || typ.is_empty() {
        return None;
    }
    Some((P::new(name, typ), spaces(s)))
}

fn line(s: &str) -> Option<Line> {
    if let Some(s) = s.strip_prefix('[') {
        let (p, s) = param(s)?;
        return if s == "]" { Some(Line::Query(p)) } else { None };
    }
    if let Some(s) = s.strip_prefix('{') {
        let (p, s) = param(s)?;
        return if s == "}" { Some(Line::Seg(Seg::Param(p))) } else { None };
    }
    let (w, rest) = word(s);
    if w.is_empty() {
        return None;
    }
    if rest.is_empty() {
        return Some(Line::Seg(Seg::Static(w.to_string())));
    }
    let method = *METHODS.iter().find(|m| m.name().eq_ignore_ascii_case(w))?;
    let mut s = rest.strip_prefix(' ')?;
    let mut redirect = false;
    if let Some(r) = spaces(s).strip_prefix("->") {
        redirect = true;
        s = spaces(r);
    }
    let mut names = vec![];
    loop {
        let (w, r) = word(s);
        if w.is_empty() {
            return None;
        }
        names.push(w.to_string());
        if r.is_empty() {
            break;
        }
        s = spaces(spaces(r).strip_prefix("::")?);
    }
    let name = names.pop().unwrap();
    Some(Line::Res(R { method, modules: names, name, redirect, query: vec![] }))
}

struct Lines {
    /// number, level, what
    items: Vec<(usize, usize, Line)>,
    at: usize,
    end: usize,
}

impl Lines {
    fn peek(&self, level: usize) -> Option<&Line> {
        match self.items.get(self.at) {
            Some((_, l, x)) if *l == level => Some(x),
            _ => None,
        }
    }
    fn number(&self) -> usize {
        self.items.get(self.at).map(|x| x.0).unwrap_or(self.end)
    }
    fn block(&mut self, level: usize) -> Result<Node, usize> {
        let mut n = Node::default();
        while let Some(Line::Query(p)) = self.peek(level) {
            n.query.push(p.clone());
            self.at += 1;
        }
        while let Some(Line::Res(r)) = self.peek(level) {
            let mut r = r.clone();
            self.at += 1;
            while let Some(Line::Query(p)) = self.peek(level + 1) {
                r.query.push(p.clone());
                self.at += 1;
            }
            n.res.push(r);
        }
        while let Some(Line::Seg(s)) = self.peek(level) {
            let s = s.clone();
            self.at += 1;
            let inner = self.block(level + 1)?;
            n.kids.push((s, inner));
        }
        if n.res.is_empty() && n.kids.is_empty() {
            return Err(self.number());
        }
        Ok(n)
    }
}

pub fn read(text: &str) -> Read {
    let mut all: Vec<&str> = text.split('\n').collect();
    let unended = all.pop().expect("split gives one");
    let mut open = false;
    let mut lines: Vec<&str> = vec![];
    for l in &all {
        let l = l.strip_suffix('\r').unwrap_or(l);
        if l.contains('\r') {
            open = true;
        }
        if !l.is_empty() && l.chars().all(|c| c.is_whitespace()) {
            // is that a blank line?  The README does not say
            open = true;
        }
        lines.push(l);
    }
    if unended.contains('\r') {
        open = true;
    }
    let refuse = |n: usize| if open { Read::Open(None) } else { Read::Refuse(n) };

    // the header
    let mut headers = vec![];
    let mut at = 0;
    let mut root = None;
    while at < lines.len() {
        let l = lines[at];
        at += 1;
        if l.starts_with('/') && !l.starts_with("//") && !l.starts_with("/*") {
            root = Some(l);
            break;
        }
        if !l.is_empty() {
            headers.push(l.to_string());
        }
    }
    match root {
        None => return refuse(lines.len() + 1),
        Some("/") => {}
        Some(_) => return refuse(at),
    }

    // the hierarchy
    let mut items = vec![];
    let mut wrong = None;
    let mut foreign = false;
    // newlines inside braces, or around the arrow and the colons, are not
    // documented either way
    let mut broken = false;
    for (i, l) in lines.iter().enumerate().skip(at) {
        if l.is_empty() {
            continue;
        }
        if !l.is_ascii() || l.contains('\t') {
            foreign = true;
        }
        let t = l.trim();
        if t.ends_with(|c| "{[:>".contains(c)) || t.starts_with(|c| "}]:-".contains(c)) {
            broken = true;
        }
        let content = spaces(l);
        let indent = l.len() - content.len();
        match (indent % 2, line(content)) {
            (0, Some(x)) => items.push((i + 1, indent / 2, x)),
            _ => {
                if wrong.is_none() {
                    wrong = Some(i + 1);
                }
            }
        }
        if wrong.is_some() {
            continue;
        }
    }
    if unended.trim() != "" {
        return if open || broken { Read::Open(None) } else { Read::Refuse(lines.len() + 1) };
    }
    if unended != "" {
        return Read::Open(None);
    }
    if broken {
        return Read::Open(None);
    }
    if let Some(n) = wrong {
        // the structure may be wrong earlier
        let mut ls = Lines { items: items.into_iter().filter(|x| x.0 < n).collect(), at: 0, end: n };
        let m = match ls.block(1) {
            Err(m) => m,
            Ok(_) => ls.number(),
        };
        return if open || foreign { Read::Open(None) } else { Read::Refuse(m.min(n)) };
    }
    let end = lines.len() + 1;
    let mut ls = Lines { items, at: 0, end };
    match ls.block(1) {
        Ok(root) if ls.at == ls.items.len() => {
            let c = Cfg { headers, root };
            let odd = names(&c.root).iter().any(|n| n.starts_with(|c: char| c.is_numeric()));
            if open || foreign || odd {
                Read::Open(Some(c))
            } else {
                Read::Accept(c)
            }
        }
        Ok(_) => {
            let n = ls.number();
            if open || foreign {
                Read::Open(None)
            } else {
                Read::Refuse(n)
            }
        }
        Err(n) => {
            if open || foreign {
                Read::Open(None)
            } else {
                Read::Refuse(n)
            }
        }
    }
}

/// Names that end up as Rust identifiers
fn names(n: &Node) -> Vec<&str> {
    let mut out: Vec<&str> = vec![];
    n.visit(&mut vec![], &mut |path, n| {
        if let Some(Seg::Param(p)) = path.last() {
            out.push(&p.name);
            out.push(&p.typ);
        }
        for q in n.query.iter().chain(n.res.iter().flat_map(|r| r.query.iter())) {
            out.push(&q.name);
            out.push(&q.typ);
        }
        for r in &n.res {
            out.push(&r.name);
            for m in &r.modules {
                out.push(m);
            }
        }
    });
    out
}
