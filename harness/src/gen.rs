//! Generators of valid route configurations.

use crate::cfg::*;
use crate::tape::Tape;
use crate::types;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Debug)]
pub struct Opts {
    /// restrict to what a route file can express
    pub text: bool,
    /// most nodes in the tree
    pub max_nodes: usize,
    /// chance (of 16) that a node gets a parameter child
    pub param: u64,
    /// chance (of 16) of query parameters at each place
    pub query: u64,
    /// chance (of 16) of a redirect being added, tried a few times
    pub redirects: u64,
    /// chance of 16 for more modules
    pub modules: u64,
    /// extra header lines
    pub headers: bool,
    /// never a parameter and a static segment at the same position
    pub no_mixed: bool,
    /// root always without resources
    pub empty_root: bool,
    /// very deep or very wide
    pub extreme: bool,
    /// mostly parameter types of our own
    pub own_types: bool,
}

impl Opts {
    pub fn new(text: bool) -> Opts {
        Opts {
            text,
            max_nodes: 40,
            param: 6,
            query: 1,
            redirects: 4,
            modules: 8,
            headers: true,
            no_mixed: false,
            empty_root: false,
            extreme: false,
            own_types: false,
        }
    }
}

const RESERVED_ACTIONS: &[&str] = &[
    "Route", "Match", "Error", "String", "Option", "Result", "Some", "None", "Ok", "Err", "Box", "Self", "Even",
    // what headers import or define
    "Slug", "Hex", "Any", "Ipv4Addr", "Ipv6Addr", "IpAddr", "NonZeroU8", "UserId", "Name", "HashMap", "Rc", "Uuid",
    "ToOwned", "Cow", "Arc", "Cell",
    // what the generated code takes from the prelude
    "AsRef",
];

pub const KEYWORDS: &[&str] = &[
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in",
    "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "static", "struct", "super",
    "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box",
    "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen", "union",
];

const RESERVED_MODULES: &[&str] = &["fmt", "std", "core", "alloc", "routes", "str", "test"];

const ACTIONS: &[&str] = &[
    "Index", "Show", "New", "Create", "Edit", "Update", "Destroy", "List", "Search", "AsUsual", "Ball", "Bar", "Dyn",
    "update", "get_all", "HTTPInfo", "V2", "X", "Feed2", "log_in", "Step1a", "Users", "People", "a", "zeta",
    "IndexPage", "index_page2", "NotFound", "NotAllowed", "Redirect", "Params", "path", "len", "Größe", "Get", "Post",
    "Method", "Handler", "Routes", "start", "i", "S", "T", "W", "P", "M",
    "Send", "Copy", "Clone", "Default", "From", "Into", "Debug", "Display", "Drop", "Fn", "Vec", "ToString", "Eq", "PartialEq",
    "Sync", "Iterator", "FromStr", "Formatter", "Write", "ParseError",
];

const MODULES: &[&str] = &[
    "Foo", "People", "Users", "Admin", "Books", "Fomo", "Foosh", "API", "V1", "blog_posts", "comments", "UserAccounts",
    "A", "B2", "x", "Route", "Match", "Error", "Index", "Show", "HTTPProxy", "deep_module_name", "Support", "Zed",
];

const PARAMS: &[&str] = &[
    "id", "name", "slug", "a", "b", "q", "page", "lang", "user_id", "x1", "i", "len", "path", "method", "start", "text",
    "e", "route", "routes", "fmt", "param_value_of_len", "value", "s", "uuid", "t", "m", "p", "l", "n", "w", "r#x",
    "u8", "str", "string", "to_path", "err", "error", "param", "what", "f", "index", "show", "_id", "id2", "größe",
    "result", "seg", "segment", "rest", "pos", "end", "bytes", "ok", "some", "parse", "format", "std", "core", "none",
];

const STATICS: &[&str] = &[
    "users", "people", "new", "edit", "books", "foo", "bar", "user", "foobar", "fomo", "foosh", "a", "b", "ab", "abc",
    "api", "v1", "v2", "admin", "settings", "1", "42", "007", "Users", "NEW", "_", "x_y", "get", "post", "GET", "true",
    "posts", "post", "comments", "search", "news", "newest", "match", "self", "routes", "len", "deadbeef", "0", "z",
    "größe", "grüße", "日本", "日曜", "café", "cafè",
];

#[derive(Default)]
struct Names {
    /// per module path (raw names): the variant names used, and the raw modules inside
    caps: HashMap<Vec<String>, BTreeSet<String>>,
    snake: HashMap<Vec<String>, BTreeSet<String>>,
    modules: Vec<Vec<String>>,
}

struct Gen<'a> {
    o: &'a Opts,
    budget: usize,
    names: Names,
    types: BTreeSet<String>,
    force_modules: bool,
    seg_style: usize,
    /// while the children of the widest node are chosen: the letters they start with
    letters: Option<Vec<char>>,
    /// the type of most parameters
    favourite: Option<String>,
}

/// How many query parameters in one place: a few, and now and then many
fn several(t: &mut Tape) -> usize {
    if t.chance(1, 25) {
        t.range(5, 20)
    } else {
        1 + t.count(1, 3, 4)
    }
}

fn camel(t: &mut Tape) -> String {
    let mut s = String::new();
    let words = t.range(1, 3);
    for _ in 0..words {
        let n = t.range(1, 8);
        for i in 0..n {
            let c = b'a' + t.below(26) as u8;
            s.push(if i == 0 { c.to_ascii_uppercase() } else { c } as char);
        }
    }
    s
}

/// The same word with other letters in upper case
fn other_case(t: &mut Tape, name: &str) -> String {
    let n = name.chars().count();
    let at = if n > 1 { 1 + t.size(n - 1) } else { 0 };
    name.chars()
        .enumerate()
        .map(|(i, c)| match i == at {
            true if c.is_ascii_uppercase() => c.to_ascii_lowercase(),
            true => c.to_ascii_uppercase(),
            false => c,
        })
        .collect()
}

fn snake_name(t: &mut Tape) -> String {
    let mut s = String::new();
    let words = t.range(1, 3);
    for w in 0..words {
        if w > 0 {
            s.push('_');
        }
        let n = t.range(1, 6);
        for _ in 0..n {
            s.push((b'a' + t.below(26) as u8) as char);
        }
    }
    s
}

impl<'a> Gen<'a> {
    fn action_name(&mut self, t: &mut Tape, modules: &[String]) -> String {
        let mut name = match t.weighted(&[12, 3, 1, 1]) {
            0 => t.pick(ACTIONS).to_string(),
            1 => camel(t),
            2 => snake_name(t),
            // another name of this module, but for the case of its letters
            _ => match self.names.caps.get(modules).and_then(|u| u.iter().next_back()) {
                Some(other) => other_case(t, &other.clone()),
                None => camel(t),
            },
        };
        let base = name.clone();
        let mut n = 2;
        loop {
            let c = caps(&name);
            let used = self.names.caps.entry(modules.to_vec()).or_default();
            if !RESERVED_ACTIONS.contains(&c.as_str()) && !used.contains(&c) && !KEYWORDS.contains(&name.as_str()) {
                used.insert(c);
                return name;
            }
            name = format!("{}{}", base, n);
            n += 1;
        }
    }

    fn module_path(&mut self, t: &mut Tape) -> Vec<String> {
        if !t.chance(self.o.modules, 16) {
            return vec![];
        }
        if !self.names.modules.is_empty() && !t.chance(1, 3) {
            let i = t.size(self.names.modules.len());
            return self.names.modules[i].clone();
        }
        let mut path: Vec<String> = if !self.names.modules.is_empty() && t.chance(1, 3) {
            let i = t.size(self.names.modules.len());
            self.names.modules[i].clone()
        } else {
            vec![]
        };
        let more = 1 + t.count(1, 4, 3) + if t.chance(1, 60) { t.range(4, 16) } else { 0 };
        for _ in 0..more {
            let mut name = match t.weighted(&[12, 2, 2, 1]) {
                0 => t.pick(MODULES).to_string(),
                1 => camel(t),
                2 => snake_name(t),
                _ => match self.names.caps.get(&path).and_then(|u| u.iter().next()) {
                    Some(other) => other_case(t, &other.clone()),
                    None => camel(t),
                },
            };
            let base = name.clone();
            let mut n = 2;
            loop {
                let c = caps(&name);
                let s = snake(&name);
                let ok = !RESERVED_MODULES.contains(&s.as_str())
                    && !KEYWORDS.contains(&s.as_str())
                    && !self.names.caps.get(&path).map_or(false, |u| u.contains(&c))
                    && !self.names.snake.get(&path).map_or(false, |u| u.contains(&s));
                if ok {
                    self.names.caps.entry(path.clone()).or_default().insert(c);
                    self.names.snake.entry(path.clone()).or_default().insert(s);
                    break;
                }
                name = format!("{}{}", base, n);
                n += 1;
            }
            path.push(name);
            self.names.modules.push(path.clone());
        }
        path
    }

    fn typ(&mut self, t: &mut Tape) -> String {
        if self.o.own_types && t.chance(3, 4) {
            let typ = *t.pick(&["Even", "Slug", "Hex", "Any"]);
            self.types.insert(typ.to_string());
            return typ.to_string();
        }
        if self.favourite.is_some() && t.chance(2, 3) {
            return self.favourite.clone().unwrap();
        }
        let (typ, imported) = match t.weighted(&[6, 6, 6, if self.o.text { 0 } else { 3 }]) {
            0 => ("String", false),
            1 => (*t.pick(types::PRIMITIVE), false),
            2 => (t.pick(types::IMPORTED).0, true),
            _ => (*t.pick(types::PATHS), false),
        };
        if imported {
            self.types.insert(typ.to_string());
        }
        typ.to_string()
    }

    /// Nothing parses a query parameter, so there are more types for it
    fn query_param(&mut self, t: &mut Tape, scope: &[String]) -> P {
        let mut p = self.param(t, scope);
        if !self.o.text && t.chance(1, 6) {
            p.typ = t.pick(types::QUERY).0.to_string();
        }
        p
    }

    fn param(&mut self, t: &mut Tape, scope: &[String]) -> P {
        let base = match t.weighted(&[8, 1]) {
            0 => {
                let p = *t.pick(PARAMS);
                if p == "r#x" {
                    "x".to_string()
                } else {
                    p.to_string()
                }
            }
            _ => snake_name(t),
        };
        let mut name = base.clone();
        let mut n = 2;
        while scope.contains(&name) || KEYWORDS.contains(&name.as_str()) {
            name = format!("{}_{}", base, n);
            n += 1;
        }
        let typ = self.typ(t);
        P { name, typ }
    }

    fn static_seg(&mut self, t: &mut Tape, taken: &[String]) -> String {
        let mut s = self.static_seg_once(t, taken);
        let mut n = 0;
        while taken.contains(&s) || s.is_empty() {
            s.push((b'a' + (n % 26) as u8) as char);
            n += 1;
        }
        s
    }

    fn static_seg_once(&mut self, t: &mut Tape, taken: &[String]) -> String {
        if let Some(ref first) = self.letters {
            let c = first[if taken.len() < first.len() { taken.len() } else { t.size(first.len()) }];
            let mut s = c.to_string();
            for _ in 0..t.range(if taken.len() < first.len() { 0 } else { 1 }, 4) {
                s.push(*t.pick(&['a', 'b', 'e', 'n', 'z', '0']));
            }
            return s;
        }
        let alphabet: Vec<char> = if self.o.text {
            "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_éèßЖ日月"
        } else {
            "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-.~!$&'()*+,;=:@%\"\\{} <>|`#?[]^éèßЖ日月🦀"
        }
        .chars()
        .collect();
        let alphabet = &alphabet[..];
        let related = match self.seg_style {
            0 => 6,
            1 => 14,
            _ => 1,
        };
        if !taken.is_empty() && t.chance(related, 16) {
            // something like a sibling
            let base: Vec<char> = t.pick(taken).chars().collect();
            let mut s: String = base[..t.range(if base.len() > 1 { 1 } else { 0 }, base.len())].iter().collect();
            let more = t.range(0, 3);
            for _ in 0..more {
                s.push(*t.pick(alphabet));
            }
            return s;
        }
        match t.weighted(&[8, 3, 2, 1]) {
            0 => t.pick(STATICS).to_string(),
            1 => {
                // from a tiny alphabet, so that siblings meet
                let n = t.range(1, 4);
                let two: &[char] = if t.chance(1, 6) { &['é', 'è'] } else { &['a', 'b'] };
                (0..n).map(|_| *t.pick(two)).collect()
            }
            2 => {
                let n = t.range(1, 9);
                (0..n).map(|_| *t.pick(alphabet)).collect()
            }
            _ => {
                let n = *t.pick(&[10usize, 16, 17, 31, 32, 33, 64, 65, 70, 130]);
                let alphabet = if t.chance(1, 2) { &alphabet[..26] } else { alphabet };
                (0..n).map(|i| alphabet[(i * 5 + t.size(3)) % alphabet.len()]).collect()
            }
        }
    }

    fn node(&mut self, t: &mut Tape, depth: usize, scope: &[String], shape: &Shape, root: bool) -> Node {
        let mut node = Node::default();
        let mut scope: Vec<String> = scope.to_vec();

        if t.chance(self.o.query, 16) {
            let n = several(t);
            for _ in 0..n {
                let p = self.query_param(t, &scope);
                scope.push(p.name.clone());
                node.query.push(p);
            }
        }

        // children
        let want = shape.kids(t, depth, root);
        if let Shape::Letters(d, n) = *shape {
            if depth == d {
                let mut pool: Vec<char> = "abcdefghijklmnopqrstuvwxyz0123456789".chars().collect();
                let mut first = vec![];
                let distinct = t.range(n / 2, n).min(pool.len());
                for _ in 0..distinct {
                    first.push(pool.remove(t.size(pool.len())));
                }
                self.letters = Some(first);
            }
        }
        let mut has_param = false;
        let mut taken: Vec<String> = vec![];
        let mut kids: Vec<Seg> = vec![];
        for k in 0..want {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            let mixed_ok = !self.o.no_mixed || k == 0;
            if !has_param && mixed_ok && t.chance(self.o.param, 16) {
                has_param = true;
                kids.push(Seg::Param(self.param(t, &scope)));
                if self.o.no_mixed {
                    break;
                }
            } else {
                let s = self.static_seg(t, &taken);
                taken.push(s.clone());
                kids.push(Seg::Static(s));
            }
        }
        self.letters = None;

        // resources
        let min = if kids.is_empty() { 1 } else { 0 };
        let n = if root && self.o.empty_root && !kids.is_empty() {
            0
        } else {
            min + match t.weighted(&[8, 10, 4, 2, 2]) {
                0 => {
                    if min == 1 || !t.chance(1, 2) {
                        0
                    } else {
                        1
                    }
                }
                w => w,
            }
        };
        let n = n.min(4);
        let mut methods: Vec<M> = METHODS.to_vec();
        for _ in 0..n {
            let i = if t.chance(1, 2) { t.size(methods.len()) } else { 0 };
            let method = methods.remove(i);
            let modules = if self.force_modules && self.names.modules.is_empty() {
                let m = self.module_path(t);
                m
            } else {
                self.module_path(t)
            };
            let name = self.action_name(t, &modules);
            let mut query = vec![];
            if t.chance(self.o.query, 16) {
                let n = several(t);
                let mut inner = scope.clone();
                for _ in 0..n {
                    let p = self.query_param(t, &inner);
                    inner.push(p.name.clone());
                    query.push(p);
                }
            }
            node.res.push(R { method, modules, name, redirect: false, query });
        }

        for seg in kids {
            let mut inner = scope.clone();
            if let Seg::Param(ref p) = seg {
                inner.push(p.name.clone());
            }
            let child = self.node(t, depth + 1, &inner, shape, false);
            node.kids.push((seg, child));
        }
        node
    }
}

enum Shape {
    Small,
    Medium,
    Bushy,
    Deep(usize),
    Wide(usize),
    /// siblings for many first letters, at one depth, then more for the same letters
    Letters(usize, usize),
    /// many siblings, and again below one of them
    Ladder(usize),
}

impl Shape {
    fn kids(&self, t: &mut Tape, depth: usize, root: bool) -> usize {
        match self {
            Shape::Small => {
                if depth >= 3 {
                    0
                } else if root {
                    t.range(0, 3)
                } else {
                    t.count(1, 3, 2)
                }
            }
            Shape::Medium => {
                if depth >= 5 {
                    0
                } else if root {
                    t.range(1, 4)
                } else {
                    t.count(1, 2, 3)
                }
            }
            Shape::Bushy => {
                if depth >= 4 {
                    0
                } else {
                    t.range(1, 5)
                }
            }
            Shape::Deep(d) => {
                if depth >= *d {
                    0
                } else {
                    1 + t.count(1, 6, 2) + if t.chance(1, 16) { t.range(3, 9) } else { 0 }
                }
            }
            Shape::Letters(d, n) => {
                if depth == *d {
                    *n
                } else if depth < *d {
                    1
                } else {
                    t.count(1, 12, 1)
                }
            }
            // those who come first take what there is
            Shape::Ladder(d) => {
                if depth < *d && t.chance(2, 3) {
                    t.range(1, 9)
                } else {
                    0
                }
            }
            Shape::Wide(w) => {
                if depth == 0 {
                    *w
                } else if depth >= 3 {
                    0
                } else {
                    t.count(1, 6, 2)
                }
            }
        }
    }
}

/// A valid route configuration
pub fn config(t: &mut Tape, o: &Opts) -> Cfg {
    let shape = match t.weighted(&[30, 40, 10, 8, 12, 6, 8]) {
        _ if o.extreme => {
            if t.chance(1, 2) {
                Shape::Deep(t.range(20, 60))
            } else {
                Shape::Wide(t.range(40, 150))
            }
        }
        0 => Shape::Small,
        1 => Shape::Medium,
        2 => Shape::Bushy,
        3 => Shape::Deep(t.range(5, 14)),
        4 => Shape::Wide(t.range(4, 24)),
        5 => Shape::Letters(t.count(1, 4, 2), t.range(12, 40)),
        _ => Shape::Ladder(t.range(2, 9)),
    };
    let mut more = o.clone();
    if t.chance(1, 8) {
        more.query = (o.query * 4).min(10).max(o.query);
    }
    if o.redirects > 0 && t.chance(1, 8) {
        more.redirects = o.redirects.max(13);
    }
    let o = &more;
    let mut g = Gen {
        o,
        budget: if o.extreme {
            160
        } else if let Shape::Letters(_, n) = shape {
            n + 12
        } else if let Shape::Ladder(_) = shape {
            o.max_nodes
        } else { o.max_nodes.min(*t.pick(&[6, 8, 10, 12, 12, 14, 16, 20, 26, 45])) },
        names: Names::default(),
        types: BTreeSet::new(),
        force_modules: false,
        seg_style: t.weighted(&[6, 3, 2]),
        letters: None,
        favourite: if t.chance(1, 8) { Some(t.pick(types::PRIMITIVE).to_string()) } else { None },
    };
    let mut root = g.node(t, 0, &[], &shape, true);
    let tries = t.count(o.redirects, 16, 5);
    for _ in 0..tries {
        add_redirect(t, &mut root, o);
    }
    reorder(t, &mut root);

    let mut headers = vec![];
    let used = used_types(&root);
    for (typ, h) in types::IMPORTED {
        if used.contains(*typ) {
            headers.push(h.to_string());
        }
    }
    if o.headers {
        if t.chance(1, 4) {
            let extra: &[&str] = &[
                "use std::collections::HashMap;",
                "pub const MARK: u32 = 7;",
                "#[allow(unused)] use std::rc::Rc;",
                "  use std::sync::Arc;",
                "use std::borrow::{Cow, ToOwned};",
                "pub fn helper() -> &'static str { \"/ {} \\\\ 'x'\" }",
                "use std::convert::From as _;",
                "// routes of the application",
                "/* a block comment */ use std::cell::Cell;",
            ];
            let n = t.range(1, 2);
            for _ in 0..n {
                let h = t.pick(extra).to_string();
                if !headers.contains(&h) {
                    let i = t.size(headers.len() + 1);
                    headers.insert(i, h);
                }
            }
        }
        if headers.len() > 1 && t.chance(1, 2) {
            headers.reverse();
        }
    }
    Cfg { headers, root }
}

pub fn used_types(n: &Node) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    n.visit(&mut vec![], &mut |path, node| {
        if let Some(Seg::Param(p)) = path.last() {
            out.insert(p.typ.clone());
        }
        for q in &node.query {
            out.insert(q.typ.clone());
        }
        for r in &node.res {
            for q in &r.query {
                out.insert(q.typ.clone());
            }
        }
    });
    out
}

/// Declaration order is arbitrary: sometimes move children around.
fn reorder(t: &mut Tape, n: &mut Node) {
    if n.kids.len() > 1 && t.chance(1, 3) {
        let i = t.size(n.kids.len());
        let k = n.kids.remove(i);
        n.kids.push(k);
    }
    if n.res.len() > 1 && t.chance(1, 4) {
        n.res.reverse();
    }
    for k in &mut n.kids {
        reorder(t, &mut k.1);
    }
}

pub struct Target {
    pub path: Vec<Seg>,
    pub inherited: Vec<P>,
    pub res: R,
}

pub fn targets(root: &Node) -> Vec<Target> {
    let mut out = vec![];
    fn go(n: &Node, path: &mut Vec<Seg>, inherited: &[P], out: &mut Vec<Target>) {
        let mut inh = inherited.to_vec();
        inh.extend(n.query.iter().cloned());
        for r in &n.res {
            out.push(Target { path: path.clone(), inherited: inh.clone(), res: r.clone() });
        }
        for (s, k) in &n.kids {
            path.push(s.clone());
            go(k, path, &inh, out);
            path.pop();
        }
    }
    go(root, &mut vec![], &[], &mut out);
    out
}

/// The paths that have just these parameters, in some order
fn places(n: &Node, path: &mut Vec<Seg>, params: &[P], out: &mut Vec<Vec<Seg>>) {
    let of = |path: &[Seg]| path.iter().filter(|s| matches!(s, Seg::Param(_))).count();
    if of(path) == params.len() {
        out.push(path.clone());
    }
    for (s, kid) in &n.kids {
        let fits = match s {
            Seg::Param(p) => params.contains(p),
            Seg::Static(_) => true,
        };
        if fits {
            path.push(s.clone());
            places(kid, path, params, out);
            path.pop();
        }
    }
}

/// Add a redirect to an existing resource, at a new or an existing path that
/// has the same path parameters.
fn add_redirect(t: &mut Tape, root: &mut Node, o: &Opts) {
    let all: Vec<Target> = targets(root).into_iter().filter(|x| !x.res.redirect).collect();
    if all.is_empty() {
        return;
    }
    let target = &all[t.size(all.len())];
    let params: Vec<P> = target
        .path
        .iter()
        .filter_map(|s| match s {
            Seg::Param(p) => Some(p.clone()),
            _ => None,
        })
        .collect();
    let total: Vec<P> = target.inherited.iter().chain(target.res.query.iter()).cloned().collect();

    // where: the parameters in order (or reversed), with fresh statics between
    let mut order = params.clone();
    if t.chance(1, 3) {
        order.reverse();
    }
    let mut path: Vec<Seg> = vec![];
    let mut pool: Vec<&str> = vec!["old", "legacy", "go", "r", "users", "moved", "people", "x", "goto", "re"];
    let mut there = vec![];
    if t.chance(1, 3) {
        places(root, &mut vec![], &params, &mut there);
    }
    if there.len() > 0 {
        // a place there is
        path = there.swap_remove(t.size(there.len()));
    } else {
        let mut fixed = |t: &mut Tape| {
            let s = if pool.is_empty() { "more".to_string() } else { pool.remove(t.size(pool.len())).to_string() };
            Seg::Static(match t.weighted(&[12, 2, 1]) {
                0 => s,
                1 => t.pick(STATICS).to_string(),
                _ => format!("{}_{}", s, "long".repeat(*t.pick(&[2usize, 7, 8, 16]))),
            })
        };
        let lead = t.range(0, 2);
        for _ in 0..lead {
            path.push(fixed(t));
        }
        for p in order {
            path.push(Seg::Param(p));
            if t.chance(1, 3) {
                path.push(fixed(t));
            }
        }
    }

    // walk there, checking that it stays valid
    let mut inherited: Vec<P> = vec![];
    {
        let mut n: &Node = root;
        inherited.extend(n.query.iter().cloned());
        let mut lost = false;
        for s in &path {
            if lost {
                break;
            }
            match n.kids.iter().find(|k| &k.0 == s) {
                Some(k) => {
                    n = &k.1;
                    inherited.extend(n.query.iter().cloned());
                }
                None => {
                    if let Seg::Param(_) = s {
                        if n.kids.iter().any(|k| matches!(k.0, Seg::Param(_))) {
                            return;
                        }
                        if o.no_mixed && !n.kids.is_empty() {
                            return;
                        }
                    } else if o.no_mixed && n.kids.iter().any(|k| matches!(k.0, Seg::Param(_))) {
                        return;
                    }
                    lost = true;
                }
            }
        }
        if !lost && path.is_empty() && o.empty_root {
            return;
        }
        if !lost && n.res.len() >= 4 {
            return;
        }
    }
    if o.empty_root && path.is_empty() {
        return;
    }
    // inherited query parameters must all be the target's
    if !inherited.iter().all(|p| total.iter().any(|x| x.name == p.name)) {
        return;
    }
    let own: Vec<P> = total.iter().filter(|p| !inherited.iter().any(|x| x.name == p.name)).cloned().collect();

    let mut n: &mut Node = root;
    for s in path {
        let i = match n.kids.iter().position(|k| k.0 == s) {
            Some(i) => i,
            None => {
                n.kids.push((s, Node::default()));
                n.kids.len() - 1
            }
        };
        n = &mut n.kids[i].1;
    }
    let free: Vec<M> = METHODS.iter().cloned().filter(|m| !n.res.iter().any(|r| r.method == *m)).collect();
    if free.is_empty() {
        return;
    }
    let method = free[if t.chance(1, 3) { t.size(free.len()) } else { 0 }];
    n.res.push(R { method, modules: target.res.modules.clone(), name: target.res.name.clone(), redirect: true, query: own });
}
