//! An interpreter for the subset of Rust that generated routers are written
//! in.  It answers requests without a compiler run, so many more routers can
//! be looked at; what looks wrong here is compiled and run for real, and only
//! that counts.

use crate::batch::Obs;
use crate::requests::Req;
use crate::types;
use std::collections::HashMap;
use std::rc::Rc;

/// Why a program is not interpreted
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum No {
    /// something this interpreter does not know
    Unknown(String),
    /// something the compiler is not going to like
    Broken(String),
}

type R<T> = Result<T, No>;

fn unknown<T>(s: impl Into<String>) -> R<T> {
    Err(No::Unknown(s.into()))
}

fn broken<T>(s: impl Into<String>) -> R<T> {
    Err(No::Broken(s.into()))
}

// ---------------------------------------------------------------- programs

#[derive(Debug)]
enum E {
    Int(i128),
    Bool(bool),
    Bytes(Rc<[u8]>),
    Unit,
    Var(usize),
    Bin(Op, Box<E>, Box<E>),
    Not(Box<E>),
    Range(Box<E>, Option<Box<E>>, Option<Box<E>>, bool),
    At(Box<E>, Box<E>),
    Len(Box<E>),
    StartsWith(Box<E>, Box<E>),
    If(Box<E>, Box<E>, Option<Box<E>>),
    Match(Box<E>, Vec<(P, Option<E>, E)>),
    While(Box<E>, Box<E>),
    Block(Vec<S>, Option<Box<E>>),
    Assign(usize, Option<Op>, Box<E>),
    Return(Box<E>),
    Break,
    Continue,
    Utf8(Box<E>),
    Unwrap(Box<E>),
    /// the variable whose type it is
    Parse(Box<E>, usize),
    MapErr(Box<E>, String),
    Try(Box<E>),
    Variant(Rc<Def>, Box<E>),
    Struct(Rc<Def>, Vec<E>),
    None,
    Outcome(What, Option<Box<E>>),
    Good(Box<E>),
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum What {
    NotFound,
    NotAllowed,
    Route,
    Redirect,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Op {
    Add,
    Sub,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    And,
    Or,
}

#[derive(Debug)]
enum S {
    Let(usize, E),
    Do(E),
}

#[derive(Debug)]
enum P {
    Any,
    Bind(usize),
    Bytes(Rc<[u8]>),
    Int(i128),
    Bool(bool),
    Or(Vec<P>),
}

/// A struct, or a variant (with one field)
#[derive(Debug)]
struct Def {
    name: String,
    fields: Vec<(String, String)>,
    /// pieces of the path, and the field after each
    path: Vec<(String, Option<usize>)>,
    /// of structs in modules of the same name
    id: usize,
}

#[derive(Clone, Debug)]
enum V {
    Int(i128),
    Bool(bool),
    Unit,
    Bytes(Rc<[u8]>, usize, usize),
    /// a value a parameter was parsed to
    Val(Rc<types::Value>),
    Data(Rc<Def>, Rc<Vec<V>>),
    None,
    Res(Result<Rc<V>, Rc<V>>),
    /// what a parser says, and the parameter once it is known
    Fault(Option<String>, String),
    Outcome(What, Option<Rc<V>>),
}

enum Stop {
    Return(V),
    Break,
    Continue,
    Panic(String),
    Hang,
    No(No),
}

type X = Result<V, Stop>;

#[derive(Default)]
struct Module {
    structs: HashMap<String, Rc<Def>>,
    /// variant, and the type in it
    route: Option<Vec<(String, String)>>,
    modules: Vec<String>,
}

pub struct Program {
    body: E,
    slots: usize,
    path_slot: usize,
    method_slot: usize,
    /// types of the variables that parameters are parsed to
    typed: HashMap<usize, String>,
    modules: HashMap<Vec<String>, Module>,
}

const PRELUDE: &str = r##"
#[derive(PartialEq, Eq)]
pub enum Match<T> { NotFound, NotAllowed, Route(T), Redirect(T), }
impl<T: fmt::Debug> fmt::Debug for Match<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Match::NotFound => write!(f, "Match::NotFound"),
            Match::NotAllowed => write!(f, "Match::NotAllowed"),
            Match::Route(t) => write!(f, "Match::Route({:?})", t),
            Match::Redirect(t) => write!(f, "Match::Redirect({:?})", t),
        }
    }
}
pub struct Error { param: String, what: Box<dyn fmt::Debug>, }
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.debug_struct("wayfinder::Error")
            .field("param", &self.param)
            .field("what", &self.what)
            .finish()
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!( f, "Error parsing '{}' parameter {:?}", self.param, self.what )
    }
}
impl std::error::Error for Error {}
impl Error {
    pub fn fail<S: AsRef<str>, T: fmt::Debug + 'static>(param: S, what: T) -> Error {
        Error { param: param.as_ref().to_string(), what: Box::new(what), }
    }
}
"##;

// ---------------------------------------------------------------- tokens

#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    Id(&'a str),
    Life(&'a str),
    P(&'a str),
    Int(i128),
    Byte(u8),
    Bytes(Vec<u8>),
    Str(String),
    Other(&'a str),
}

fn escapes(s: &str) -> R<Vec<u8>> {
    let mut out = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'\\' {
            out.push(b[i]);
            i += 1;
            continue;
        }
        i += 2;
        match b[i - 1] {
            b'n' => out.push(b'\n'),
            b'r' => out.push(b'\r'),
            b't' => out.push(b'\t'),
            b'0' => out.push(0),
            c @ (b'\\' | b'\'' | b'"') => out.push(c),
            b'x' => match s.get(i..i + 2).and_then(|h| u8::from_str_radix(h, 16).ok()) {
                Some(c) => {
                    out.push(c);
                    i += 2;
                }
                None => return broken("escape"),
            },
            b'u' => match s[i..].find('}') {
                Some(n) if b[i] == b'{' => {
                    match u32::from_str_radix(&s[i + 1..i + n], 16).ok().and_then(char::from_u32) {
                        Some(c) => out.extend(c.to_string().into_bytes()),
                        None => return broken("escape"),
                    }
                    i += n + 1;
                }
                _ => return broken("escape"),
            },
            b'\n' => {
                while i < b.len() && b[i].is_ascii_whitespace() {
                    i += 1;
                }
            }
            _ => return broken("escape"),
        }
    }
    Ok(out)
}

/// Where the literal that ends with this quote ends
fn quoted(s: &str, from: usize, quote: u8) -> R<usize> {
    let b = s.as_bytes();
    let mut i = from;
    while i < b.len() {
        match b[i] {
            b'\\' => i += 2,
            c if c == quote => return Ok(i),
            _ => i += 1,
        }
    }
    broken("an open literal")
}

const PUNCTUATION: &[&str] = &[
    "..=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "..", "{", "}", "(", ")", "[", "]", ",", ";",
    ":", ".", "&", "*", "+", "-", "=", "<", ">", "!", "?", "#", "|", "_", "@", "$", "%", "^", "/", "~",
];

fn tokens(s: &str) -> R<Vec<T<'_>>> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    let word = |c: u8| c == b'_' || c.is_ascii_alphanumeric() || c >= 128;
    'outer: while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
        } else if s[i..].starts_with("//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if s[i..].starts_with("/*") {
            let mut depth = 1;
            i += 2;
            while depth > 0 {
                match s.as_bytes().get(i..i + 2) {
                    None => return broken("an open comment"),
                    Some(b"*/") => {
                        depth -= 1;
                        i += 2;
                    }
                    Some(b"/*") => {
                        depth += 1;
                        i += 2;
                    }
                    _ => i += 1,
                }
            }
        } else if c == b'"' {
            let z = quoted(s, i + 1, b'"')?;
            out.push(T::Str(String::from_utf8(escapes(&s[i + 1..z])?).map_err(|_| No::Broken("string".into()))?));
            i = z + 1;
        } else if s[i..].starts_with("b\"") {
            let z = quoted(s, i + 2, b'"')?;
            if !s[i + 2..z].is_ascii() {
                return broken("a byte string that is not ASCII");
            }
            out.push(T::Bytes(escapes(&s[i + 2..z])?));
            i = z + 1;
        } else if s[i..].starts_with("b'") {
            let z = quoted(s, i + 2, b'\'')?;
            match escapes(&s[i + 2..z])?[..] {
                [c] => out.push(T::Byte(c)),
                _ => return broken("byte"),
            }
            i = z + 1;
        } else if c == b'\'' {
            // a lifetime, or a character
            let mut z = i + 1;
            while z < b.len() && word(b[z]) {
                z += 1;
            }
            if z > i + 1 && b.get(z) != Some(&b'\'') {
                out.push(T::Life(&s[i + 1..z]));
                i = z;
            } else {
                let z = quoted(s, i + 1, b'\'')?;
                out.push(T::Other(&s[i..z + 1]));
                i = z + 1;
            }
        } else if c.is_ascii_digit() {
            let mut z = i;
            while z < b.len() && word(b[z]) {
                z += 1;
            }
            out.push(match s[i..z].replace('_', "").parse() {
                Ok(n) => T::Int(n),
                Err(_) => T::Other(&s[i..z]),
            });
            i = z;
        } else if word(c) && (c != b'_' || b.get(i + 1).map_or(false, |c| word(*c))) {
            let mut z = i;
            while z < b.len() && word(b[z]) {
                z += 1;
            }
            if matches!(b.get(z), Some(b'#') | Some(b'"')) {
                return unknown("a raw literal");
            }
            out.push(T::Id(&s[i..z]));
            i = z;
        } else {
            for p in PUNCTUATION {
                if s[i..].starts_with(p) {
                    out.push(T::P(p));
                    i += p.len();
                    continue 'outer;
                }
            }
            return broken(format!("character {:?}", s[i..].chars().next()));
        }
    }
    Ok(out)
}

/// Of every opening bracket, where it closes
fn brackets(ts: &[T]) -> R<Vec<usize>> {
    let mut out = vec![0; ts.len()];
    let mut open: Vec<(usize, &str)> = vec![];
    for (i, t) in ts.iter().enumerate() {
        match t {
            T::P("(") => open.push((i, ")")),
            T::P("[") => open.push((i, "]")),
            T::P("{") => open.push((i, "}")),
            T::P(p @ (")" | "]" | "}")) => match open.pop() {
                Some((k, q)) if q == *p => out[k] = i,
                _ => return broken("brackets"),
            },
            _ => {}
        }
    }
    if !open.is_empty() {
        return broken("an open bracket");
    }
    Ok(out)
}

fn shown(ts: &[T]) -> String {
    let mut out = String::new();
    for t in ts {
        match t {
            T::Id(s) | T::P(s) | T::Other(s) => out.push_str(s),
            T::Life(s) => {
                out.push('\'');
                out.push_str(s);
                out.push(' ');
            }
            T::Int(n) => out.push_str(&n.to_string()),
            t => out.push_str(&format!("{:?}", t)),
        }
    }
    out
}

// ---------------------------------------------------------------- reading

struct Reader<'a> {
    ts: Vec<T<'a>>,
    close: Vec<usize>,
    at: usize,
    modules: HashMap<Vec<String>, Module>,
    next_id: usize,
    scope: Vec<(String, usize)>,
    slots: usize,
    /// types of parsed locals, by slot
    typed: HashMap<usize, String>,
    /// parsed locals, whether or not their type is known
    parsed: Vec<usize>,
    loops: usize,
}

/// A range of tokens that are an item: attributes, visibility and all
struct Item {
    attrs: Vec<(usize, usize)>,
    start: usize,
    end: usize,
    all: usize,
}

/// A fault of the interpreter itself is something it does not know
fn guarded<X>(f: impl FnOnce() -> R<X>) -> R<X> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .unwrap_or_else(|_| Err(No::Unknown("the interpreter failed".into())))
}

pub fn read(code: &str) -> R<Program> {
    guarded(|| read_program(code))
}

fn read_program(code: &str) -> R<Program> {
    let ts = tokens(code)?;
    let close = brackets(&ts)?;
    let mut r = Reader {
        ts,
        close,
        at: 0,
        modules: HashMap::new(),
        next_id: 0,
        scope: vec![],
        slots: 0,
        typed: HashMap::new(),
        parsed: vec![],
        loops: 0,
    };
    let prelude = tokens(PRELUDE)?;
    let mut wanted: Vec<Vec<T>> = {
        let mut p = Reader {
            close: brackets(&prelude)?,
            ts: prelude.clone(),
            at: 0,
            modules: HashMap::new(),
            next_id: 0,
            scope: vec![],
            slots: 0,
            typed: HashMap::new(),
            parsed: vec![],
            loops: 0,
        };
        let end = p.ts.len();
        p.items(0, end)?.into_iter().map(|i| prelude[i.all..i.end].to_vec()).collect()
    };
    let end = r.ts.len();
    let mut routes = None;
    for i in r.items(0, end)? {
        match (&r.ts[i.start], r.ts.get(i.start + 1), r.ts.get(i.start + 2)) {
            (T::Id("mod"), Some(T::Id("routes")), Some(T::P("{"))) if routes.is_none() => routes = Some((i.start + 3, i.end - 1)),
            (T::Id("use"), ..) => {}
            _ => return unknown(format!("item {}", shown(&r.ts[i.start..(i.start + 4).min(i.end)]))),
        }
    }
    let (a, b) = match routes {
        Some(i) => i,
        None => return broken("no module routes"),
    };
    let mut main = None;
    let mut rest = vec![];
    for i in r.items(a, b)? {
        if r.ts[i.start] == T::Id("fn") && r.ts.get(i.start + 1) == Some(&T::Id("match_route")) {
            if main.is_some() {
                return broken("two functions match_route");
            }
            main = Some(i);
        } else if let Some(n) = wanted.iter().position(|w| w[..] == r.ts[i.all..i.end]) {
            wanted.remove(n);
        } else {
            rest.push(i);
        }
    }
    if !wanted.is_empty() {
        return unknown("another prelude");
    }
    r.module(&[], &rest)?;
    let f = match main {
        Some(f) => f,
        None => return broken("no match_route"),
    };
    let (path_slot, method_slot) = r.signature(f.start + 2)?;
    let body = r.block()?;
    if r.at != f.end {
        return unknown("match_route");
    }
    if let Some(s) = r.parsed.iter().find(|s| !r.typed.contains_key(s)) {
        return broken(format!("nothing says what type parameter {} is", s));
    }
    for t in r.typed.values() {
        if !types::known(t) {
            return unknown(format!("type {}", t));
        }
    }
    Ok(Program { body, slots: r.slots, path_slot, method_slot, typed: r.typed, modules: r.modules })
}

/// What a router declares in one of its modules
#[derive(Debug, PartialEq, Eq)]
pub struct Declared {
    pub module: Vec<String>,
    /// name, fields and their types, path with the names of fields in braces
    pub structs: Vec<(String, Vec<(String, String)>, String)>,
    /// variant, and the type in it
    pub route: Vec<(String, String)>,
}

/// All modules, in the order of their names
pub fn declared(p: &Program) -> Vec<Declared> {
    let mut out: Vec<Declared> = p
        .modules
        .iter()
        .map(|(module, m)| {
            let mut structs: Vec<_> = m
                .structs
                .values()
                .map(|d| {
                    let mut path = String::new();
                    for (lit, f) in &d.path {
                        path.push_str(lit);
                        if let Some(f) = f {
                            path.push_str(&format!("{{{}}}", d.fields[*f].0));
                        }
                    }
                    (d.name.clone(), d.fields.clone(), path)
                })
                .collect();
            structs.sort();
            let mut route = m.route.clone().unwrap_or_default();
            route.sort();
            Declared { module: module.clone(), structs, route }
        })
        .collect();
    out.sort_by(|a, b| a.module.cmp(&b.module));
    out
}

/// Pieces of a format string: literals and what is between braces
fn format_pieces(s: &str) -> Option<Vec<(String, Option<String>)>> {
    let mut out = vec![];
    let mut lit = String::new();
    let mut cs = s.chars().peekable();
    while let Some(c) = cs.next() {
        match c {
            '{' if cs.peek() == Some(&'{') => {
                cs.next();
                lit.push('{');
            }
            '}' if cs.peek() == Some(&'}') => {
                cs.next();
                lit.push('}');
            }
            '{' => {
                let mut name = String::new();
                loop {
                    match cs.next()? {
                        '}' => break,
                        c => name.push(c),
                    }
                }
                out.push((std::mem::replace(&mut lit, String::new()), Some(name)));
            }
            '}' => return None,
            c => lit.push(c),
        }
    }
    out.push((lit, None));
    Some(out)
}

const OPERATORS: &[(&str, Op, u8)] = &[
    ("||", Op::Or, 1),
    ("&&", Op::And, 2),
    ("==", Op::Eq, 3),
    ("!=", Op::Ne, 3),
    ("<", Op::Lt, 3),
    ("<=", Op::Le, 3),
    (">", Op::Gt, 3),
    (">=", Op::Ge, 3),
    ("+", Op::Add, 4),
    ("-", Op::Sub, 4),
];

impl<'a> Reader<'a> {
    fn peek(&self) -> Option<&T<'a>> {
        self.ts.get(self.at)
    }

    fn ahead(&self, n: usize) -> Option<&T<'a>> {
        self.ts.get(self.at + n)
    }

    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), Some(T::P(q)) if *q == p)
    }

    fn word(&self, p: &str) -> bool {
        matches!(self.peek(), Some(T::Id(q)) if *q == p)
    }

    fn eat(&mut self, p: &str) -> bool {
        let yes = self.is(p) || self.word(p);
        if yes {
            self.at += 1;
        }
        yes
    }

    fn need(&mut self, p: &str) -> R<()> {
        if self.eat(p) {
            return Ok(());
        }
        let near = shown(&self.ts[self.at.saturating_sub(3).min(self.ts.len())..(self.at + 5).min(self.ts.len())]);
        unknown(format!("no {} in {}", p, near))
    }

    fn id(&mut self) -> R<&'a str> {
        match self.peek() {
            Some(T::Id(s)) => {
                let s = *s;
                self.at += 1;
                Ok(s)
            }
            t => {
                let t = format!("a name, not {:?}", t);
                unknown(t)
            }
        }
    }

    fn items(&mut self, from: usize, to: usize) -> R<Vec<Item>> {
        let mut out = vec![];
        let mut i = from;
        while i < to {
            let all = i;
            let mut attrs = vec![];
            while self.ts[i] == T::P("#") {
                let inner = self.ts.get(i + 1) == Some(&T::P("!"));
                let open = i + 1 + inner as usize;
                if self.ts.get(open) != Some(&T::P("[")) {
                    return broken("attribute");
                }
                if !inner {
                    attrs.push((open + 1, self.close[open]));
                }
                i = self.close[open] + 1;
                if i >= to {
                    return if attrs.is_empty() { Ok(out) } else { broken("an attribute of nothing") };
                }
            }
            if self.ts[i] == T::Id("pub") {
                i += 1;
                if self.ts.get(i) == Some(&T::P("(")) {
                    i = self.close[i] + 1;
                }
            }
            let start = i;
            let semicolon = matches!(self.ts.get(i), Some(T::Id("use" | "type" | "const" | "static" | "extern")));
            let end = loop {
                if i >= to {
                    return broken("an item without an end");
                }
                match self.ts[i] {
                    T::P("{") => {
                        i = self.close[i];
                        if !semicolon {
                            break i + 1;
                        }
                    }
                    T::P("(") | T::P("[") => i = self.close[i],
                    T::P(";") => break i + 1,
                    _ => {}
                }
                i += 1;
            };
            i = end;
            out.push(Item { attrs, start, end, all });
        }
        Ok(out)
    }

    fn derives(&self, i: &Item) -> R<()> {
        let mut has = vec![];
        for (a, b) in &i.attrs {
            let s = shown(&self.ts[*a..*b]);
            match s.strip_prefix("derive(").and_then(|s| s.strip_suffix(")")) {
                Some(x) => has.extend(x.split(',').map(|s| s.to_string())),
                None => return unknown(format!("attribute {}", s)),
            }
        }
        for w in ["Debug", "PartialEq"] {
            if !has.iter().any(|x| x == w) {
                return broken(format!("no derived {}", w));
            }
        }
        Ok(())
    }

    /// A type, up to a comma or a bracket that closes
    fn typ(&mut self) -> String {
        let from = self.at;
        let mut angles = 0;
        loop {
            match self.peek() {
                Some(T::P("<")) => angles += 1,
                Some(T::P(">")) if angles > 0 => angles -= 1,
                Some(T::P("(")) | Some(T::P("[")) => self.at = self.close[self.at],
                Some(T::P(",")) if angles == 0 => break,
                Some(T::P(")" | "}" | "]" | "=" | ";" | ">" | "{")) | None => break,
                _ => {}
            }
            self.at += 1;
        }
        shown(&self.ts[from..self.at])
    }

    fn module(&mut self, at: &[String], items: &[Item]) -> R<()> {
        let mut m = Module::default();
        let mut impls = vec![];
        for i in items {
            let kind = match self.ts[i.start] {
                T::Id(k) => k,
                _ => return unknown("item"),
            };
            self.at = i.start + 1;
            match kind {
                "use" | "type" | "const" => {}
                "fn" if self.word("helper") => {}
                "struct" => {
                    self.derives(i)?;
                    let name = self.id()?.to_string();
                    let mut fields = vec![];
                    if self.eat("{") {
                        while !self.eat("}") {
                            self.eat("pub");
                            let n = self.id()?.to_string();
                            self.need(":")?;
                            let t = self.typ();
                            if !self.is("}") {
                                self.need(",")?;
                            }
                            if fields.iter().any(|f: &(String, String)| f.0 == n) {
                                return broken(format!("two fields {}", n));
                            }
                            fields.push((n, t));
                        }
                    } else {
                        self.need(";")?;
                    }
                    if self.at != i.end {
                        return unknown("struct");
                    }
                    if m.structs.contains_key(&name) {
                        return broken(format!("two structs {}", name));
                    }
                    self.next_id += 1;
                    m.structs.insert(name.clone(), Rc::new(Def { name, fields, path: vec![], id: self.next_id }));
                }
                "enum" if self.word("Route") => {
                    self.at += 1;
                    if m.route.is_some() {
                        return broken("two enums Route");
                    }
                    self.derives(i)?;
                    let mut vs: Vec<(String, String)> = vec![];
                    self.need("{")?;
                    while !self.eat("}") {
                        let n = self.id()?.to_string();
                        if vs.iter().any(|x| x.0 == n) {
                            return broken(format!("two variants {}", n));
                        }
                        self.need("(")?;
                        let t = self.typ();
                        self.need(")")?;
                        if !self.is("}") {
                            self.need(",")?;
                        }
                        vs.push((n, t));
                    }
                    m.route = Some(vs);
                }
                "impl" => impls.push(i),
                "mod" => {
                    let n = self.id()?.to_string();
                    if m.modules.contains(&n) {
                        return broken(format!("two modules {}", n));
                    }
                    let mut p = at.to_vec();
                    p.push(n.clone());
                    self.need("{")?;
                    let inner = self.items(self.at, i.end - 1)?;
                    self.module(&p, &inner)?;
                    m.modules.push(n);
                }
                k => return unknown(format!("item {}", k)),
            }
        }
        let mut route_path = false;
        for i in impls {
            self.at = i.start + 1;
            let ty = self.id()?.to_string();
            self.need("{")?;
            self.need("pub")?;
            for w in ["fn", "to_path", "(", "&", "self", ")", "->", "String", "{"] {
                self.need(w)?;
            }
            if ty == "Route" {
                route_path = true;
                self.route_path(m.route.as_ref())?;
            } else {
                let def = match m.structs.get(&ty) {
                    Some(d) => d.clone(),
                    None => return broken(format!("impl for {}", ty)),
                };
                if !def.path.is_empty() {
                    return broken(format!("two to_path for {}", ty));
                }
                let path = self.struct_path(&def)?;
                let def = Def { name: def.name.clone(), fields: def.fields.clone(), path, id: def.id };
                m.structs.insert(ty, Rc::new(def));
            }
            self.need("}")?;
            self.need("}")?;
            if self.at != i.end {
                return unknown("impl");
            }
        }
        if m.route.is_some() && !route_path {
            return broken("no to_path for Route");
        }
        for (n, d) in &m.structs {
            if d.path.is_empty() {
                return broken(format!("no to_path for {}", n));
            }
        }
        // the types in the variants are there
        for (_, ty) in m.route.iter().flatten() {
            let ok = match ty.strip_suffix("::Route") {
                Some(module) => m.modules.iter().any(|x| x == module),
                None => m.structs.contains_key(ty),
            };
            if !ok {
                return broken(format!("type {}", ty));
            }
        }
        self.modules.insert(at.to_vec(), m);
        Ok(())
    }

    fn route_path(&mut self, route: Option<&Vec<(String, String)>>) -> R<()> {
        let vs = match route {
            Some(v) => v,
            None => return broken("impl for Route"),
        };
        for w in ["match", "self", "{"] {
            self.need(w)?;
        }
        let mut seen: Vec<&str> = vec![];
        while !self.eat("}") {
            self.need("Route")?;
            self.need("::")?;
            let v = self.id()?;
            self.need("(")?;
            self.eat("ref");
            let n = self.id()?;
            for w in [")", "=>", n, ".", "to_path", "(", ")"] {
                self.need(w)?;
            }
            if !self.is("}") {
                self.need(",")?;
            }
            if seen.contains(&v) || !vs.iter().any(|x| x.0 == v) {
                return broken(format!("variant {}", v));
            }
            seen.push(v);
        }
        if seen.len() != vs.len() {
            return broken("not all variants");
        }
        Ok(())
    }

    fn struct_path(&mut self, def: &Def) -> R<Vec<(String, Option<usize>)>> {
        let mut names: Vec<&str> = vec![];
        if self.eat("let") {
            self.need(&def.name)?;
            self.need("{")?;
            let mut rest = false;
            while !self.eat("}") {
                if self.eat("..") {
                    rest = true;
                    continue;
                }
                self.eat("ref");
                let n = self.id()?;
                if !def.fields.iter().any(|x| x.0 == n) || names.contains(&n) {
                    return broken(format!("field {}", n));
                }
                names.push(n);
                if !self.is("}") {
                    self.need(",")?;
                }
            }
            if names.len() != def.fields.len() && !rest {
                return broken("not all fields");
            }
            for w in ["=", "self", ";"] {
                self.need(w)?;
            }
        }
        for w in ["format", "!", "("] {
            self.need(w)?;
        }
        let lit = match self.peek() {
            Some(T::Str(s)) => s.clone(),
            _ => return unknown("format!"),
        };
        self.at += 1;
        let mut args: Vec<&str> = vec![];
        while !self.eat(")") {
            self.need(",")?;
            if !self.is(")") {
                args.push(self.id()?);
            }
        }
        let pieces = match format_pieces(&lit) {
            Some(p) => p,
            None => return broken("format string"),
        };
        let mut out = vec![];
        let mut next = 0;
        for (lit, arg) in pieces {
            let field = match arg {
                None => None,
                Some(n) => {
                    let n = if n.is_empty() {
                        next += 1;
                        match args.get(next - 1) {
                            Some(p) => p.to_string(),
                            None => return broken("format arguments"),
                        }
                    } else {
                        n
                    };
                    if !names.contains(&&n[..]) {
                        return broken(format!("{} in to_path", n));
                    }
                    Some(def.fields.iter().position(|f| f.0 == n).expect("a field"))
                }
            };
            out.push((lit, field));
        }
        if next != args.len() {
            return broken("format arguments");
        }
        Ok(out)
    }

    /// From after the name to before the body; the slots of the arguments
    fn signature(&mut self, at: usize) -> R<(usize, usize)> {
        self.at = at;
        let mut bounds: Vec<&str> = vec![];
        self.need("<")?;
        while !self.eat(">") {
            bounds.push(self.id()?);
            for w in [":", "AsRef", "<", "[", "u8", "]", ">"] {
                self.need(w)?;
            }
            if !self.is(">") {
                self.need(",")?;
            }
        }
        self.need("(")?;
        let mut slots = vec![];
        while !self.eat(")") {
            let n = self.id()?.to_string();
            self.need(":")?;
            let t = self.id()?;
            if !bounds.contains(&t) {
                return unknown("signature");
            }
            bounds.retain(|b| *b != t);
            slots.push(self.bind(&n));
            if !self.is(")") {
                self.need(",")?;
            }
        }
        for w in ["->", "Result", "<", "Match", "<", "Route", ">", ",", "Error", ">"] {
            self.need(w)?;
        }
        match slots[..] {
            [p, m] => Ok((p, m)),
            _ => unknown("signature"),
        }
    }

    fn bind(&mut self, name: &str) -> usize {
        self.scope.push((name.to_string(), self.slots));
        self.slots += 1;
        self.slots - 1
    }

    fn var(&self, name: &str) -> Option<usize> {
        self.scope.iter().rev().find(|s| s.0 == name).map(|s| s.1)
    }

    fn block(&mut self) -> R<E> {
        self.need("{")?;
        let depth = self.scope.len();
        let mut out = vec![];
        let mut last = None;
        while !self.eat("}") {
            if self.eat(";") {
                continue;
            }
            if self.eat("let") {
                self.eat("mut");
                let name = if self.eat("_") { "_" } else { self.id()? };
                let mut slot = self.slots;
                self.slots += 1;
                if self.eat(":") {
                    let t = self.typ();
                    if t == "usize" && !matches!(self.ahead(1), Some(T::Id("text"))) {
                        // a position
                    } else {
                        self.typed.insert(slot, t);
                    }
                }
                self.need("=")?;
                let e = self.expr(true, Some(slot))?;
                self.need(";")?;
                if let E::Var(s) = e {
                    // another name for it
                    if self.parsed.contains(&s) {
                        slot = s;
                    }
                }
                self.scope.push((name.to_string(), slot));
                out.push(S::Let(slot, e));
                continue;
            }
            let blocky = matches!(self.peek(), Some(T::Id("if" | "match" | "while" | "loop")) | Some(T::P("{")));
            let e = if blocky { self.prefix(true, None)? } else { self.expr(true, None)? };
            if self.eat(";") {
                out.push(S::Do(e));
            } else if self.is("}") {
                last = Some(Box::new(e));
            } else if blocky {
                out.push(S::Do(e));
            } else {
                self.need(";")?;
            }
        }
        self.scope.truncate(depth);
        Ok(E::Block(out, last))
    }

    fn definition(&self, path: &[&str]) -> R<Rc<Def>> {
        let (name, at) = path.split_last().expect("a path");
        let v: Vec<String> = at.iter().map(|s| s.to_string()).collect();
        match self.modules.get(&v).and_then(|m| m.structs.get(*name)) {
            Some(d) => Ok(d.clone()),
            None => broken(format!("no struct {}", path.join("::"))),
        }
    }

    fn boxed(&mut self, structs: bool) -> R<Box<E>> {
        Ok(Box::new(self.expr(structs, None)?))
    }

    fn expr(&mut self, structs: bool, slot: Option<usize>) -> R<E> {
        let left = self.binary(structs, slot, 0)?;
        let op = if self.eat("=") {
            None
        } else if self.eat("+=") {
            Some(Op::Add)
        } else if self.eat("-=") {
            Some(Op::Sub)
        } else {
            return Ok(left);
        };
        let right = self.boxed(structs)?;
        match left {
            E::Var(s) => Ok(E::Assign(s, op, right)),
            _ => unknown("assignment"),
        }
    }

    fn binary(&mut self, structs: bool, slot: Option<usize>, above: u8) -> R<E> {
        let mut left = self.prefix(structs, slot)?;
        loop {
            let op = match self.peek() {
                Some(T::P(p)) => match OPERATORS.iter().find(|o| o.0 == *p) {
                    Some(o) if o.2 > above => *o,
                    _ => return Ok(left),
                },
                _ => return Ok(left),
            };
            self.at += 1;
            let right = self.binary(structs, None, op.2)?;
            left = E::Bin(op.1, Box::new(left), Box::new(right));
        }
    }

    fn prefix(&mut self, structs: bool, slot: Option<usize>) -> R<E> {
        if self.eat("&") || self.eat("&&") || self.eat("*") {
            return self.prefix(structs, slot);
        }
        if self.eat("!") {
            return Ok(E::Not(Box::new(self.prefix(structs, None)?)));
        }
        let e = self.primary(structs)?;
        self.postfix(e, slot)
    }

    fn postfix(&mut self, mut e: E, slot: Option<usize>) -> R<E> {
        loop {
            if self.eat("?") {
                e = E::Try(Box::new(e));
            } else if self.is("[") {
                self.at += 1;
                let lo = if self.is("..") || self.is("..=") { None } else { Some(self.boxed(true)?) };
                e = if self.is("..") || self.is("..=") {
                    let closed = self.is("..=");
                    self.at += 1;
                    let hi = if self.is("]") { None } else { Some(self.boxed(true)?) };
                    E::Range(Box::new(e), lo, hi, closed)
                } else {
                    match lo {
                        Some(i) => E::At(Box::new(e), i),
                        None => return unknown("index"),
                    }
                };
                self.need("]")?;
            } else if self.is(".") {
                self.at += 1;
                let name = self.id()?;
                let mut turbofish = None;
                if self.eat("::") {
                    self.need("<")?;
                    turbofish = Some(self.typ());
                    self.need(">")?;
                }
                if !self.is("(") {
                    return unknown(format!("field {}", name));
                }
                let end = self.close[self.at];
                self.at += 1;
                let empty = self.at == end;
                e = match (name, empty) {
                    ("as_ref", true) | ("clone", true) | ("as_bytes", true) => e,
                    ("len", true) => E::Len(Box::new(e)),
                    ("is_empty", true) => E::Bin(Op::Eq, Box::new(E::Len(Box::new(e))), Box::new(E::Int(0))),
                    ("starts_with", false) => {
                        let x = self.boxed(true)?;
                        E::StartsWith(Box::new(e), x)
                    }
                    ("unwrap", true) => E::Unwrap(Box::new(e)),
                    ("parse", true) => {
                        let slot = match slot {
                            Some(s) => s,
                            None => return unknown("parse"),
                        };
                        if let Some(t) = turbofish {
                            self.typed.insert(slot, t);
                        }
                        self.parsed.push(slot);
                        E::Parse(Box::new(e), slot)
                    }
                    ("map_err", false) => {
                        self.need("|")?;
                        let v = self.id()?;
                        for w in ["|", "Error", "::", "fail", "("] {
                            self.need(w)?;
                        }
                        let param = match self.peek() {
                            Some(T::Str(s)) => s.clone(),
                            _ => return unknown("map_err"),
                        };
                        self.at += 1;
                        for w in [",", v, ")"] {
                            self.need(w)?;
                        }
                        E::MapErr(Box::new(e), param)
                    }
                    _ => return unknown(format!("method {}", name)),
                };
                if self.at != end {
                    return unknown(format!("arguments of {}", name));
                }
                self.at += 1;
            } else {
                return Ok(e);
            }
        }
    }

    fn primary(&mut self, structs: bool) -> R<E> {
        let t = match self.peek() {
            Some(t) => t.clone(),
            None => return broken("the end"),
        };
        match t {
            T::Int(i) => {
                self.at += 1;
                Ok(E::Int(i))
            }
            T::Byte(i) => {
                self.at += 1;
                Ok(E::Int(i as i128))
            }
            T::Bytes(b) => {
                self.at += 1;
                Ok(E::Bytes(b.into()))
            }
            T::P("(") => {
                self.at += 1;
                if self.eat(")") {
                    return Ok(E::Unit);
                }
                let e = self.expr(true, None)?;
                self.need(")")?;
                Ok(e)
            }
            T::P("{") => self.block(),
            T::Id("true") | T::Id("false") => {
                self.at += 1;
                Ok(E::Bool(t == T::Id("true")))
            }
            T::Id("if") => {
                self.at += 1;
                let c = self.boxed(false)?;
                let yes = Box::new(self.block()?);
                let no = if self.eat("else") {
                    Some(Box::new(if self.word("if") { self.primary(true)? } else { self.block()? }))
                } else {
                    None
                };
                Ok(E::If(c, yes, no))
            }
            T::Id("match") => {
                self.at += 1;
                let of = self.boxed(false)?;
                self.need("{")?;
                let mut arms = vec![];
                while !self.eat("}") {
                    let depth = self.scope.len();
                    let p = self.pattern()?;
                    let g = if self.eat("if") { Some(self.expr(true, None)?) } else { None };
                    self.need("=>")?;
                    let block = self.is("{");
                    let b = if block { self.block()? } else { self.expr(true, None)? };
                    self.scope.truncate(depth);
                    if !self.eat(",") && !block && !self.is("}") {
                        self.need(",")?;
                    }
                    arms.push((p, g, b));
                }
                if !arms.iter().any(|a| a.1.is_none() && matches!(a.0, P::Any | P::Bind(_))) {
                    return broken("a match without a default");
                }
                Ok(E::Match(of, arms))
            }
            T::Id(w @ ("while" | "loop")) => {
                self.at += 1;
                let c = if w == "while" { self.boxed(false)? } else { Box::new(E::Bool(true)) };
                self.loops += 1;
                let b = self.block()?;
                self.loops -= 1;
                Ok(E::While(c, Box::new(b)))
            }
            T::Id(w @ ("break" | "continue")) if self.loops > 0 => {
                self.at += 1;
                if !self.is(";") && !self.is("}") && !self.is(",") {
                    return unknown(w);
                }
                Ok(if w == "break" { E::Break } else { E::Continue })
            }
            T::Id("return") => {
                self.at += 1;
                Ok(E::Return(self.boxed(structs)?))
            }
            T::Id(first) => {
                let mut path = vec![first];
                self.at += 1;
                while self.eat("::") {
                    path.push(self.id()?);
                }
                while path.len() > 1 && path[0] == "self" {
                    path.remove(0);
                }
                if self.is("(") {
                    self.call(&path)
                } else if structs && self.is("{") {
                    self.literal(&path)
                } else {
                    if path.len() == 1 {
                        if let Some(s) = self.var(first) {
                            return Ok(E::Var(s));
                        }
                    }
                    match &path[..] {
                        ["None"] => return Ok(E::None),
                        ["Match", "NotFound"] => return Ok(E::Outcome(What::NotFound, None)),
                        ["Match", "NotAllowed"] => return Ok(E::Outcome(What::NotAllowed, None)),
                        _ => {}
                    }
                    match self.definition(&path) {
                        Ok(d) if d.fields.is_empty() => Ok(E::Struct(d, vec![])),
                        _ => broken(format!("no {}", path.join("::"))),
                    }
                }
            }
            t => unknown(format!("expression {:?}", t)),
        }
    }

    fn literal(&mut self, path: &[&str]) -> R<E> {
        let d = self.definition(path)?;
        self.need("{")?;
        let mut values: Vec<Option<E>> = d.fields.iter().map(|_| None).collect();
        while !self.eat("}") {
            let n = self.id()?;
            let at = match d.fields.iter().position(|x| x.0 == n) {
                Some(at) => at,
                None => return broken(format!("no field {}", n)),
            };
            if values[at].is_some() {
                return broken(format!("field {} twice", n));
            }
            let e = if self.eat(":") {
                self.expr(true, None)?
            } else {
                match self.var(n) {
                    Some(s) => E::Var(s),
                    None => return broken(format!("no {}", n)),
                }
            };
            if !self.is("}") {
                self.need(",")?;
            }
            let typ = &d.fields[at].1;
            match e {
                E::None if typ.starts_with("Option<") => {}
                E::None => return broken(format!("None for {}", n)),
                E::Var(s) if self.parsed.contains(&s) => match self.typed.get(&s) {
                    Some(t) if types::base(t) == types::base(typ) => {}
                    Some(_) => return broken(format!("{} is of another type", n)),
                    None => {
                        self.typed.insert(s, typ.clone());
                    }
                },
                E::Var(_) => return broken(format!("{} is of another type", n)),
                _ => return unknown("field"),
            }
            values[at] = Some(e);
        }
        let mut all = vec![];
        for (v, f) in values.into_iter().zip(&d.fields) {
            match v {
                Some(v) => all.push(v),
                None => return broken(format!("no value for {}", f.0)),
            }
        }
        Ok(E::Struct(d, all))
    }

    fn call(&mut self, path: &[&str]) -> R<E> {
        self.need("(")?;
        let e = self.boxed(true)?;
        self.eat(",");
        self.need(")")?;
        Ok(match path {
            ["Ok"] => E::Good(e),
            ["Match", "Route"] => E::Outcome(What::Route, Some(e)),
            ["Match", "Redirect"] => E::Outcome(What::Redirect, Some(e)),
            ["std", "str", "from_utf8"] | ["core", "str", "from_utf8"] => E::Utf8(e),
            [at @ .., "Route", v] => {
                let name = path.join("::");
                let at: Vec<String> = at.iter().map(|s| s.to_string()).collect();
                let ty = match self.modules.get(&at).and_then(|m| m.route.as_ref()) {
                    Some(vs) => match vs.iter().find(|x| x.0 == *v) {
                        Some(x) => x.1.clone(),
                        None => return broken(format!("no variant {}", name)),
                    },
                    None => return broken(format!("no {}", name)),
                };
                // the value is of the type the variant has
                let fits = match (&*e, ty.strip_suffix("::Route")) {
                    (E::Struct(d, _), None) => self.modules[&at].structs.get(&ty).map_or(false, |x| x.id == d.id),
                    (E::Variant(d, _), Some(m)) => {
                        let mut q = at.clone();
                        q.push(m.to_string());
                        d.path[0].0 == q.join("::")
                    }
                    _ => false,
                };
                if !fits {
                    return broken(format!("{} of something else", name));
                }
                let def = Def { name: v.to_string(), fields: vec![], path: vec![(at.join("::"), None)], id: 0 };
                E::Variant(Rc::new(def), e)
            }
            _ => return unknown(format!("call of {}", path.join("::"))),
        })
    }

    fn pattern(&mut self) -> R<P> {
        self.eat("|");
        let first = self.alternative()?;
        if !self.is("|") {
            return Ok(first);
        }
        let mut all = vec![first];
        while self.eat("|") {
            all.push(self.alternative()?);
        }
        if all.iter().any(|p| matches!(p, P::Bind(_))) {
            return unknown("pattern");
        }
        Ok(if all.iter().any(|p| matches!(p, P::Any)) { P::Any } else { P::Or(all) })
    }

    fn alternative(&mut self) -> R<P> {
        self.eat("&");
        let t = match self.peek() {
            Some(t) => t.clone(),
            None => return broken("the end"),
        };
        self.at += 1;
        Ok(match t {
            T::P("_") => P::Any,
            T::Bytes(b) => P::Bytes(b.into()),
            T::Byte(b) => P::Int(b as i128),
            T::Int(b) => P::Int(b),
            T::Id("true") => P::Bool(true),
            T::Id("false") => P::Bool(false),
            T::P("(") => {
                let p = self.pattern()?;
                self.need(")")?;
                p
            }
            T::Id(n) if !n.starts_with(char::is_uppercase) && !self.is("::") && !self.is("(") && !self.is("@") => P::Bind(self.bind(n)),
            t => return unknown(format!("pattern {:?}", t)),
        })
    }
}

// ---------------------------------------------------------------- running

struct Machine<'a> {
    slots: Vec<V>,
    steps: u64,
    typed: &'a HashMap<usize, String>,
}

fn panic<T>(s: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Panic(s.into()))
}

fn no<T>(s: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::No(No::Unknown(s.into())))
}

fn bytes(v: &V) -> Result<(&Rc<[u8]>, usize, usize), Stop> {
    match v {
        V::Bytes(b, lo, hi) => Ok((b, *lo, *hi)),
        _ => no("bytes expected"),
    }
}

const HIGH: i128 = u64::MAX as i128;

fn arithmetic(op: Op, a: i128, b: i128) -> X {
    let n = if op == Op::Add { a + b } else { a - b };
    if n < 0 || n > HIGH {
        return panic(format!("attempt to {} with overflow", if op == Op::Add { "add" } else { "subtract" }));
    }
    Ok(V::Int(n))
}

fn fits(p: &P, v: &V, slots: &mut Vec<V>) -> Result<bool, Stop> {
    Ok(match p {
        P::Any => true,
        P::Bind(s) => {
            slots[*s] = v.clone();
            true
        }
        P::Bytes(b) => {
            let (x, lo, hi) = bytes(v)?;
            x[lo..hi] == b[..]
        }
        P::Int(i) => match v {
            V::Int(j) => i == j,
            _ => return no("pattern"),
        },
        P::Bool(i) => match v {
            V::Bool(j) => i == j,
            _ => return no("pattern"),
        },
        P::Or(ps) => {
            for p in ps {
                if fits(p, v, slots)? {
                    return Ok(true);
                }
            }
            false
        }
    })
}

impl<'a> Machine<'a> {
    fn truth(&mut self, e: &E) -> Result<bool, Stop> {
        match self.eval(e)? {
            V::Bool(b) => Ok(b),
            _ => no("bool expected"),
        }
    }

    fn int(&mut self, e: &E) -> Result<i128, Stop> {
        match self.eval(e)? {
            V::Int(b) => Ok(b),
            _ => no("integer expected"),
        }
    }

    fn eval(&mut self, e: &E) -> X {
        Ok(match e {
            E::Int(i) => V::Int(*i),
            E::Bool(b) => V::Bool(*b),
            E::Bytes(b) => V::Bytes(b.clone(), 0, b.len()),
            E::Unit => V::Unit,
            E::None => V::None,
            E::Var(s) => self.slots[*s].clone(),
            E::Not(e) => V::Bool(!self.truth(e)?),
            E::Bin(Op::And, a, b) => V::Bool(self.truth(a)? && self.truth(b)?),
            E::Bin(Op::Or, a, b) => V::Bool(self.truth(a)? || self.truth(b)?),
            E::Bin(op, a, b) => {
                let (a, b) = (self.eval(a)?, self.eval(b)?);
                match (&a, &b) {
                    (V::Int(a), V::Int(b)) => match op {
                        Op::Add | Op::Sub => return arithmetic(*op, *a, *b),
                        Op::Eq => V::Bool(a == b),
                        Op::Ne => V::Bool(a != b),
                        Op::Lt => V::Bool(a < b),
                        Op::Le => V::Bool(a <= b),
                        Op::Gt => V::Bool(a > b),
                        _ => V::Bool(a >= b),
                    },
                    (V::Bytes(a, l, h), V::Bytes(b, m, i)) => match op {
                        Op::Eq => V::Bool(a[*l..*h] == b[*m..*i]),
                        Op::Ne => V::Bool(a[*l..*h] != b[*m..*i]),
                        _ => return no("operator"),
                    },
                    (V::Bool(a), V::Bool(b)) => match op {
                        Op::Eq => V::Bool(a == b),
                        Op::Ne => V::Bool(a != b),
                        _ => return no("operator"),
                    },
                    _ => return no("operator"),
                }
            }
            E::Range(of, lo, hi, closed) => {
                let of = self.eval(of)?;
                let (b, l, h) = bytes(&of)?;
                let len = (h - l) as i128;
                let a = match lo {
                    Some(e) => self.int(e)?,
                    None => 0,
                };
                let mut z = match hi {
                    Some(e) => self.int(e)?,
                    None => len,
                };
                if *closed {
                    z += 1;
                }
                if a > z {
                    return panic(format!("slice index starts at {} but ends at {}", a, z));
                }
                if z > len {
                    return panic(format!("range end index {} out of range for slice of length {}", z, len));
                }
                V::Bytes(b.clone(), l + a as usize, l + z as usize)
            }
            E::At(of, i) => {
                let of = self.eval(of)?;
                let i = self.int(i)?;
                let (b, l, h) = bytes(&of)?;
                let len = (h - l) as i128;
                if i >= len {
                    return panic(format!("index out of bounds: the len is {} but the index is {}", len, i));
                }
                V::Int(b[l + i as usize] as i128)
            }
            E::Len(e) => {
                let v = self.eval(e)?;
                let (_, l, h) = bytes(&v)?;
                V::Int((h - l) as i128)
            }
            E::StartsWith(a, b) => {
                let (a, b) = (self.eval(a)?, self.eval(b)?);
                let (a, l, h) = bytes(&a)?;
                let (b, m, i) = bytes(&b)?;
                V::Bool(a[l..h].starts_with(&b[m..i]))
            }
            E::If(c, t, f) => {
                if self.truth(c)? {
                    self.eval(t)?
                } else if let Some(f) = f {
                    self.eval(f)?
                } else {
                    V::Unit
                }
            }
            E::Match(of, arms) => {
                let v = self.eval(of)?;
                for (p, g, b) in arms {
                    if fits(p, &v, &mut self.slots)? {
                        if let Some(g) = g {
                            if !self.truth(g)? {
                                continue;
                            }
                        }
                        return self.eval(b);
                    }
                }
                return no("no arm");
            }
            E::While(c, b) => {
                while self.truth(c)? {
                    self.steps += 1;
                    if self.steps > 1_000_000 {
                        return Err(Stop::Hang);
                    }
                    match self.eval(b) {
                        Err(Stop::Break) => break,
                        Err(Stop::Continue) => continue,
                        Err(e) => return Err(e),
                        Ok(_) => {}
                    }
                }
                V::Unit
            }
            E::Block(ss, last) => {
                for s in ss {
                    match s {
                        S::Let(n, e) => {
                            let v = self.eval(e)?;
                            self.slots[*n] = v;
                        }
                        S::Do(e) => {
                            self.eval(e)?;
                        }
                    }
                }
                match last {
                    Some(e) => self.eval(e)?,
                    None => V::Unit,
                }
            }
            E::Assign(s, op, e) => {
                let v = self.eval(e)?;
                self.slots[*s] = match (op, &self.slots[*s], v) {
                    (None, _, v) => v,
                    (Some(op), V::Int(a), V::Int(b)) => arithmetic(*op, *a, b)?,
                    _ => return no("assignment"),
                };
                V::Unit
            }
            E::Return(e) => {
                let v = self.eval(e)?;
                return Err(Stop::Return(v));
            }
            E::Break => return Err(Stop::Break),
            E::Continue => return Err(Stop::Continue),
            E::Utf8(e) => {
                let v = self.eval(e)?;
                let (b, l, h) = bytes(&v)?;
                match std::str::from_utf8(&b[l..h]) {
                    Ok(_) => V::Res(Ok(Rc::new(v))),
                    Err(e) => V::Res(Err(Rc::new(V::Fault(None, format!("{:?}", e))))),
                }
            }
            E::Unwrap(e) => match self.eval(e)? {
                V::Res(Ok(v)) => (*v).clone(),
                V::Res(Err(_)) => return panic("called `Result::unwrap()` on an `Err` value"),
                _ => return no("unwrap"),
            },
            E::Parse(e, slot) => {
                let v = self.eval(e)?;
                let (b, l, h) = bytes(&v)?;
                let s = match std::str::from_utf8(&b[l..h]) {
                    Ok(s) => s,
                    Err(_) => return no("text expected"),
                };
                let typ = match self.typed.get(slot) {
                    Some(t) => t,
                    None => return no("type"),
                };
                match types::parse(typ, s) {
                    Ok(v) => V::Res(Ok(Rc::new(V::Val(Rc::new(v))))),
                    Err(e) => V::Res(Err(Rc::new(V::Fault(None, e)))),
                }
            }
            E::MapErr(e, param) => match self.eval(e)? {
                V::Res(Err(f)) => match &*f {
                    V::Fault(None, what) => V::Res(Err(Rc::new(V::Fault(Some(param.clone()), what.clone())))),
                    _ => return no("map_err"),
                },
                v @ V::Res(Ok(_)) => v,
                _ => return no("map_err"),
            },
            E::Try(e) => match self.eval(e)? {
                V::Res(Ok(v)) => (*v).clone(),
                v @ V::Res(Err(_)) => return Err(Stop::Return(v)),
                _ => return no("?"),
            },
            E::Variant(d, e) => {
                let v = self.eval(e)?;
                V::Data(d.clone(), Rc::new(vec![v]))
            }
            E::Struct(d, es) => {
                let mut vs = Vec::with_capacity(es.len());
                for e in es {
                    vs.push(self.eval(e)?);
                }
                V::Data(d.clone(), Rc::new(vs))
            }
            E::Outcome(w, e) => match e {
                Some(e) => {
                    let v = self.eval(e)?;
                    V::Outcome(*w, Some(Rc::new(v)))
                }
                None => V::Outcome(*w, None),
            },
            E::Good(e) => {
                let v = self.eval(e)?;
                V::Res(Ok(Rc::new(v)))
            }
        })
    }
}

fn debug(v: &V, out: &mut String) -> Result<(), No> {
    match v {
        V::None => out.push_str("None"),
        V::Val(v) => out.push_str(&v.debug),
        V::Data(d, vs) => {
            out.push_str(&d.name);
            if d.id == 0 {
                out.push('(');
                debug(&vs[0], out)?;
                out.push(')');
            } else if !d.fields.is_empty() {
                out.push_str(" { ");
                for (n, (f, v)) in d.fields.iter().zip(vs.iter()).enumerate() {
                    if n > 0 {
                        out.push_str(", ");
                    }
                    out.push_str(&f.0);
                    out.push_str(": ");
                    debug(v, out)?;
                }
                out.push_str(" }");
            }
        }
        _ => return unknown("a value of another kind"),
    }
    Ok(())
}

fn path_of(v: &V) -> Result<String, No> {
    match v {
        V::Data(d, vs) if d.id == 0 => path_of(&vs[0]),
        V::Data(d, vs) => {
            let mut s = String::new();
            for (lit, f) in &d.path {
                s.push_str(lit);
                if let Some(f) = f {
                    match &vs[*f] {
                        V::Val(v) => s.push_str(&v.display),
                        _ => return broken("a field that cannot be displayed"),
                    }
                }
            }
            Ok(s)
        }
        _ => unknown("a value of another kind"),
    }
}

enum Answer {
    Done(What, Option<String>, Option<String>),
    Failed(String, String),
    Panic(String),
    Hang,
}

impl Program {
    fn answer(&self, path: &[u8], method: &[u8]) -> Result<Answer, No> {
        let mut m = Machine { slots: vec![V::Unit; self.slots], steps: 0, typed: &self.typed };
        m.slots[self.path_slot] = V::Bytes(path.into(), 0, path.len());
        m.slots[self.method_slot] = V::Bytes(method.into(), 0, method.len());
        let v = match m.eval(&self.body) {
            Ok(v) | Err(Stop::Return(v)) => v,
            Err(Stop::Panic(s)) => return Ok(Answer::Panic(s)),
            Err(Stop::Hang) => return Ok(Answer::Hang),
            Err(Stop::No(n)) => return Err(n),
            Err(_) => return unknown("break"),
        };
        match v {
            V::Res(Ok(v)) => match &*v {
                V::Outcome(w, None) => Ok(Answer::Done(*w, None, None)),
                V::Outcome(w, Some(v)) => {
                    let mut d = String::new();
                    debug(v, &mut d)?;
                    Ok(Answer::Done(*w, Some(d), Some(path_of(v)?)))
                }
                _ => unknown("an outcome of another kind"),
            },
            V::Res(Err(f)) => match &*f {
                V::Fault(Some(p), what) => Ok(Answer::Failed(p.clone(), what.clone())),
                _ => unknown("an error of another kind"),
            },
            _ => broken("not a Result"),
        }
    }

    pub fn ask(&self, r: &Req) -> Result<Obs, No> {
        Ok(match self.answer(&r.path, &r.method)? {
            Answer::Panic(s) => Obs::Panic(s),
            Answer::Hang => Obs::Hang,
            Answer::Failed(p, w) => Obs::Err {
                display: format!("Error parsing '{}' parameter {}", p, w),
                debug: format!("wayfinder::Error {{ param: {:?}, what: {} }}", p, w),
            },
            Answer::Done(What::NotFound, ..) => Obs::NotFound,
            Answer::Done(What::NotAllowed, ..) => Obs::NotAllowed,
            Answer::Done(w, d, p) => {
                let (debug, path) = (d.unwrap_or_default(), p.unwrap_or_default());
                let back = match self.answer(path.as_bytes(), &r.method)? {
                    Answer::Panic(s) => return Ok(Obs::Panic(s)),
                    Answer::Hang => return Ok(Obs::Hang),
                    Answer::Done(What::Route, Some(ref d), _) if *d == debug => "=".to_string(),
                    Answer::Done(What::Route, d, _) => format!("Match::Route({})", d.unwrap_or_default()),
                    Answer::Done(What::Redirect, d, _) => format!("Match::Redirect({})", d.unwrap_or_default()),
                    Answer::Done(What::NotFound, ..) => "Match::NotFound".to_string(),
                    Answer::Done(What::NotAllowed, ..) => "Match::NotAllowed".to_string(),
                    Answer::Failed(p, w) => format!("wayfinder::Error {{ param: {:?}, what: {} }}", p, w),
                };
                if w == What::Route {
                    Obs::Route { debug, path, back }
                } else {
                    Obs::Redirect { debug, path, back }
                }
            }
        })
    }
}

impl Program {
    /// The answers of the router in this code
    pub fn run(&self, requests: &[Req]) -> Result<Vec<Obs>, No> {
        guarded(|| requests.iter().map(|r| self.ask(r)).collect())
    }
}

pub fn run(code: &str, requests: &[Req]) -> Result<Vec<Obs>, No> {
    read(code)?.run(requests)
}
