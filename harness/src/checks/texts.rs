//! Route files: reading, printing, reporting errors.

use crate::cfg::*;
use crate::engine::Notes;
use crate::gen::{self, Opts};
use crate::pipeline::{self, guarded, indent};
use crate::refparse::{self, Read};
use crate::report::hash_of;
use crate::tape::Tape;

pub fn text_cfg(t: &mut Tape) -> Cfg {
    let mut o = Opts::new(true);
    o.query = *t.pick(&[1, 3, 8]);
    o.redirects = 7;
    o.extreme = t.chance(1, 60);
    o.headers = true;
    let mut c = gen::config(t, &o);
    let n = match t.weighted(&[40, 19, 1]) {
        0 => 0,
        1 => t.range(1, 4),
        _ => t.range(5, 70),
    };
    for _ in 0..n {
        let h = match t.chance(1, 5) && !c.headers.is_empty() {
            true => t.pick(&c.headers).clone(),
            false => header_line(t),
        };
        let i = t.size(c.headers.len() + 1);
        c.headers.insert(i, h);
    }
    c
}

/// Any line of Rust (or nearly)
fn header_line(t: &mut Tape) -> String {
    match t.weighted(&[4, 2, 3]) {
        0 => t
            .pick(&[
                "use a::B;",
                "// a comment",
                "/* a comment",
                " * goes on */",
                "//",
                "/// documented",
                "#[derive(Debug)]",
                "  indented();",
                "}",
                "GET Index",
                "  GET Index",
                "[a: B]",
                "{a: B}",
                "users",
                "\tlet x = 1 / 2;",
                "trailing space ",
                "\" / \"",
                "größe: ü,",
                "x /",
                "\\n \\ \\\\",
                "{} {:?} %s",
            ])
            .to_string(),
        1 => "// ".to_string() + &"comment ".repeat(t.range(0, 30)),
        _ => {
            let n = t.range(1, 30);
            let mut s: String = (0..n).map(|_| (b' ' + t.below(95) as u8) as char).collect();
            if s.trim().is_empty() || (s.starts_with('/') && !s.starts_with("//") && !s.starts_with("/*")) {
                s.insert(0, 'x');
            }
            s
        }
    }
}

fn first_difference(a: &str, b: &str) -> String {
    for (i, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            return format!("line {}: {:?} / {:?}", i + 1, x, y);
        }
    }
    format!("{} / {} lines", a.lines().count(), b.lines().count())
}

fn what(c: &Cfg, notes: &mut Notes) {
    let d = c.root.depth();
    notes.label(if d == 0 {
        "config: only the root"
    } else if d <= 4 {
        "config: up to 4 levels"
    } else if d <= 7 {
        "config: 5-7 levels"
    } else {
        "config: over 7 levels"
    });
    if !c.headers.is_empty() {
        notes.label("config: headers");
    }
    if c.headers.iter().any(|h| h.starts_with('/')) {
        notes.label("config: a header that is a comment");
    }
    let t = gen::targets(&c.root);
    if t.iter().any(|t| t.res.redirect) {
        notes.label("config: redirects");
    }
    if t.iter().any(|t| !t.res.query.is_empty()) {
        notes.label("config: query parameters of resources");
    }
    if t.iter().any(|t| !t.inherited.is_empty()) {
        notes.label("config: query parameters of segments");
    }
}

// ---------------------------------------------------------------------

/// C14: stringify and parse
pub fn round_trip(t: &mut Tape, notes: &mut Notes) -> Option<String> {
    let c = text_cfg(t);
    what(&c, notes);
    if c.root.count() > 1 {
        notes.nontrivial.push(hash_of(&c));
    }
    let real = c.real();
    let text = match guarded(|| real.stringify()) {
        Ok(t) => t,
        Err(e) => return Some(format!("stringify panics: {}\n{}", e, indent(&to_text(&c, &Layout::default())))),
    };
    notes.samples.push(text.clone());
    let again = match pipeline::parse(&text) {
        Ok(c) => c,
        Err(e) => return Some(format!("what stringify wrote is refused:\n{}\n{}", e, indent(&text))),
    };
    if again != real {
        return Some(format!(
            "what stringify wrote parses to something else ({}):\n{}\nshould be\n{}",
            first_difference(&again.stringify(), &to_text(&c, &Layout::default())),
            indent(&text),
            indent(&to_text(&c, &Layout::default()))
        ));
    }
    let twice = again.stringify();
    if twice != text {
        return Some(format!("stringify of the parsed text differs: {}", first_difference(&text, &twice)));
    }
    // what it wrote is what a reader of the README sees in it
    match refparse::read(&text) {
        Read::Accept(x) | Read::Open(Some(x)) if x == c => None,
        Read::Open(None) => None,
        x => Some(format!("what stringify wrote reads as {:?}\n{}", x, indent(&text))),
    }
}

// ---------------------------------------------------------------------

/// C15: layout
pub fn layout(t: &mut Tape, notes: &mut Notes) -> Option<String> {
    let c = text_cfg(t);
    what(&c, notes);
    let l = Layout {
        crlf: t.chance(1, 3),
        mixed: t.chance(1, 4),
        blanks: *t.pick(&[0, 2, 4, 8]),
        lead: t.chance(1, 3),
        method_case: t.chance(1, 2),
        spaces: t.chance(1, 2),
        seed: t.seed(),
    };
    let plain = to_text(&c, &Layout::default());
    let text = to_text(&c, &l);
    for (on, name) in [
        (l.crlf, "layout: CRLF"),
        (l.mixed, "layout: mixed line endings"),
        (l.blanks > 0, "layout: blank lines"),
        (l.lead, "layout: blank lines first"),
        (l.method_case, "layout: letter case of methods"),
        (l.spaces, "layout: spaces"),
    ] {
        if on {
            notes.label(name);
        }
    }
    if text != plain {
        notes.nontrivial.push(hash_of(&text));
    }
    notes.samples.push(text.clone());
    let a = match pipeline::parse(&plain) {
        Ok(c) => c,
        Err(e) => return Some(format!("a plain route file is refused:\n{}\n{}", e, indent(&plain))),
    };
    let b = match pipeline::parse(&text) {
        Ok(c) => c,
        Err(e) => return Some(format!("refused with another layout:\n{}\n{}\nlaid out plainly:\n{}", e, indent(&text), indent(&plain))),
    };
    if a != b {
        return Some(format!(
            "another layout, another configuration ({}):\n{}\nlaid out plainly:\n{}",
            first_difference(&a.stringify(), &b.stringify()),
            indent(&text),
            indent(&plain)
        ));
    }
    if a != c.real() {
        return Some(format!("parses to something else:\n{}", indent(&plain)));
    }
    None
}

// ---------------------------------------------------------------------

const LINES: &[&str] = &[
    "GET Index", "post Foo::Bar", "PUT -> A", "DELETE X", "GET ->A::B", "get A :: B", "[q: String]", "[ a:B ]", "{id: Uuid}",
    "{ id : T }", "users", "new", "GET", "get", "GETX", "GET  A", "GET A ", "GET A B", "GET ::A", "GET A::", "GET A:B",
    "GET -> ", "GET - > A", "GET ->-> A", "GET A -> B", "PATCH A", "HEAD A", "[q: String", "q: String]", "[q String]", "[q:]",
    "[: T]", "[]", "[q: T]]", "[[q: T]", "[q: T] x", "[q: T, r: T]", "{id: T", "id: T}", "{id T}", "{id}", "{}", "{id: T}}", "{{id: T}", "{id: a::B}",
    "{id: Vec<T>}", "users/new", "user-s", "user.s", "users {id: T}", "*", "/", "//", "// x", "#", "GET\tA", "\tGET A", "users ", "GET A[q: T]", "GET Größe", "ü", "GET 1", "[1: T]",
];

/// A text out of lines at random levels
fn soup(t: &mut Tape) -> String {
    let mut s = String::new();
    if !t.chance(1, 20) {
        s.push_str("/\n");
    }
    let n = t.range(1, 9);
    let mut level = 1usize;
    for _ in 0..n {
        // mostly sensible
        let l = if t.chance(1, 4) { *t.pick(LINES) } else { LINES[t.size(12)] };
        let k = match t.weighted(&[10, 1, 1]) {
            0 => level * 2,
            1 => level * 2 + 1,
            _ => t.size(10),
        };
        s.push_str(&" ".repeat(k));
        s.push_str(l);
        s.push_str(["\n", "\n\n", "\r\n", "\n \n"][t.weighted(&[60, 8, 8, 1])]);
        let seg = l.starts_with('{') || !l.contains(|c| " :[".contains(c));
        if seg {
            level += 1;
        }
        match t.weighted(&[8, 2, 2]) {
            0 => {}
            1 => level = 1.max(level.saturating_sub(1)),
            _ => level = t.range(1, 4),
        }
    }
    s
}

const BITS: &[&str] = &[
    " ", "  ", "\n", "\r", "\t", "/", "{", "}", "[", "]", ":", "::", "->", "-", ">", "GET", "GET ", "a", "A", "_", "0", "é", "ß", "İ", "\u{2028}",
    "\u{feff}", "🦀", "\0", "\"", "\\", "#", "//", "/*", "?", ".", ",", "<", "K", "ſ", "\u{85}", "\u{a0}", "\u{200b}",
];

fn at_char(s: &str, mut i: usize) -> usize {
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// Damage a text
pub fn mutate(t: &mut Tape, s: &mut String) {
    let mut lines: Vec<String> = s.split_inclusive('\n').map(|l| l.to_string()).collect();
    let pick = |t: &mut Tape, lines: &Vec<String>| t.size(lines.len().max(1));
    match t.weighted(&[3, 2, 2, 2, 2, 4, 4, 3, 2, 2, 2, 1]) {
        0 => {
            // a line goes
            if !lines.is_empty() {
                let i = pick(t, &lines);
                lines.remove(i);
            }
        }
        1 => {
            if !lines.is_empty() {
                let i = pick(t, &lines);
                let l = lines[i].clone();
                let j = t.size(lines.len() + 1);
                lines.insert(j, l);
            }
        }
        2 => {
            if lines.len() > 1 {
                let i = t.size(lines.len() - 1);
                lines.swap(i, i + 1);
            }
        }
        3 => {
            // joined with the next one
            if !lines.is_empty() {
                let i = pick(t, &lines);
                let l = lines[i].trim_end_matches('\n').to_string();
                lines[i] = l;
            }
        }
        4 => {
            let l = format!("{}{}\n", " ".repeat(t.size(8)), t.pick(LINES));
            let j = t.size(lines.len() + 1);
            lines.insert(j, l);
        }
        5 => {
            if !lines.is_empty() {
                let i = pick(t, &lines);
                let k = t.range(1, 3);
                if t.chance(1, 2) {
                    lines[i] = " ".repeat(k) + &lines[i];
                } else {
                    let n = lines[i].len() - lines[i].trim_start_matches(' ').len();
                    lines[i] = lines[i][k.min(n)..].to_string();
                }
            }
        }
        6 => {
            // a bit goes in, or replaces a character
            let all: String = lines.concat();
            let i = at_char(&all, t.size(all.len() + 1));
            let bit = *t.pick(BITS);
            let mut out = all[..i].to_string();
            out.push_str(bit);
            let rest = &all[i..];
            let skip = if t.chance(1, 2) { rest.chars().next().map_or(0, |c| c.len_utf8()) } else { 0 };
            out.push_str(&rest[skip..]);
            *s = out;
            return;
        }
        7 => {
            // a stretch goes
            let all: String = lines.concat();
            let i = at_char(&all, t.size(all.len() + 1));
            let j = at_char(&all, (i + t.range(1, 4)).min(all.len()));
            *s = format!("{}{}", &all[..i], &all[j..]);
            return;
        }
        8 => {
            let all: String = lines.concat();
            let i = at_char(&all, t.size(all.len() + 1));
            *s = all[..i].to_string();
            return;
        }
        9 => {
            // the structural characters of a line
            if !lines.is_empty() {
                let i = pick(t, &lines);
                let (from, to) = *t.pick(&[
                    (":", ""),
                    ("}", ""),
                    ("]", ""),
                    ("{", ""),
                    ("[", ""),
                    ("::", ":"),
                    ("->", "-"),
                    ("->", ">"),
                    (" ", ""),
                    (" ", "  "),
                    ("{", "["),
                    ("]", "}"),
                    ("GET", "HEAD"),
                    ("GET", "GE"),
                    ("\n", " \n"),
                    ("\n", "\n\n"),
                    ("\n", ";\n"),
                    (":", "="),
                ]);
                lines[i] = lines[i].replacen(from, to, 1);
            }
        }
        10 => {
            // an interior block moves to another level
            if lines.len() > 2 {
                let i = pick(t, &lines);
                let n = t.range(1, 4).min(lines.len() - i);
                for l in &mut lines[i..i + n] {
                    *l = format!("  {}", l);
                }
            }
        }
        _ => {
            lines.push(t.pick(BITS).to_string());
        }
    }
    *s = lines.concat();
}

pub fn any_text(t: &mut Tape, notes: &mut Notes) -> String {
    let mut s = match t.weighted(&[10, 6]) {
        0 => {
            let c = if t.chance(1, 2) {
                text_cfg(t)
            } else {
                let mut o = Opts::new(true);
                o.max_nodes = 6;
                o.query = 4;
                gen::config(t, &o)
            };
            to_text(&c, &Layout::gen(t))
        }
        _ => {
            notes.label("text: lines at random");
            return soup(t);
        }
    };
    let n = t.weighted(&[2, 10, 4, 2]);
    notes.label(["text: well formed", "text: one mutation", "text: two mutations", "text: three mutations"][n]);
    for _ in 0..n {
        mutate(t, &mut s);
    }
    s
}

/// The crate's reading against the reference
fn agree(text: &str, notes: &mut Notes) -> Option<String> {
    let want = refparse::read(text);
    let got = pipeline::parse(text);
    match (want, got) {
        (_, Err(ref e)) if e.starts_with("PANIC") => Some(format!("parsing panics: {}\n{:?}", e, text)),
        (Read::Accept(c), Ok(r)) => {
            notes.label("reference: accepted");
            notes.nontrivial.push(hash_of(&text));
            if c.real() == r {
                None
            } else {
                Some(format!("parsed as something else:\n{}\nwas parsed as\n{}", indent(text), indent(&r.stringify())))
            }
        }
        (Read::Accept(_), Err(e)) => Some(format!("refused, though it follows the grammar:\n{}\n{}", e, indent(text))),
        (Read::Refuse(n), Ok(r)) => Some(format!(
            "accepted, though it is wrong at line {}:\n{}\nas\n{}",
            n,
            indent(text),
            indent(&r.stringify())
        )),
        (Read::Refuse(_), Err(_)) => {
            notes.label("reference: refused");
            notes.nontrivial.push(hash_of(&text));
            None
        }
        (Read::Open(Some(c)), Ok(r)) => {
            notes.label("reference: not settled, if accepted then as read");
            if c.real() == r {
                None
            } else {
                Some(format!("parsed as something else:\n{}\nwas parsed as\n{}", indent(text), indent(&r.stringify())))
            }
        }
        (Read::Open(_), _) => {
            notes.label("reference: not settled");
            None
        }
    }
}

/// C16: against the reference
pub fn faithful(t: &mut Tape, notes: &mut Notes) -> Option<String> {
    let s = any_text(t, notes);
    if notes.samples.len() < 2 {
        notes.samples.push(s.clone());
    }
    agree(&s, notes)
}

const SMALL: &[&str] = &["GET A", "PUT -> B::C", "[q: T]", "{p: T}", "s", "POST x", "GET", "[q: T", "s t"];

/// How many short texts there are with n lines
pub fn small_count(n: u32) -> u64 {
    ((SMALL.len() * 3) as u64).pow(n)
}

/// Every text of n lines out of a few, at levels 1 to 3
pub fn small(n: u32, mut k: u64, notes: &mut Notes) -> Option<String> {
    let mut s = String::from("/\n");
    for _ in 0..n {
        let i = k % (SMALL.len() * 3) as u64;
        k /= (SMALL.len() * 3) as u64;
        s.push_str(["  ", "    ", "      "][(i % 3) as usize]);
        s.push_str(SMALL[(i / 3) as usize]);
        s.push('\n');
    }
    agree(&s, notes)
}

// ---------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Place {
    pub line: usize,
    /// 1-based, in characters
    pub column: usize,
    pub message: String,
}

/// Show the errors for a text, and read the report.
pub fn report(text: &str, prefix: &str) -> Result<Vec<Place>, String> {
    let out = guarded(|| {
        let r = wayfinder::parse::route_config(text);
        let ok = r.is_ok();
        let mut out = vec![];
        wayfinder::parse::errors::show_errors(&mut out, text, r, prefix);
        (ok, out)
    });
    let (ok, out) = match out {
        Err(p) => return Err(format!("panics: {}", p)),
        Ok(x) => x,
    };
    let out = String::from_utf8(out).map_err(|_| "the report is not text".to_string())?;
    if ok {
        return if out.is_empty() { Ok(vec![]) } else { Err(format!("accepted, and yet reported:\n{}", out)) };
    }
    if out.is_empty() {
        return Err("refused without a report".to_string());
    }
    let lines: Vec<&str> = text.split('\n').collect();
    let mut shown: Vec<&str> = out.split('\n').collect();
    if shown.pop() != Some("") {
        return Err(format!("the report does not end its last line: {:?}", out));
    }
    let mut places = vec![];
    if shown.len() % 2 != 0 {
        return Err(format!("the report is not pairs of lines: {:?}", out));
    }
    for two in shown.chunks(2) {
        let bad = |why: &str| format!("{}: {:?} in the report\n{}", why, two, out);
        let (a, b) = match (two[0].strip_prefix(prefix), two[1].strip_prefix(prefix)) {
            (Some(a), Some(b)) => (a, b),
            _ => return Err(bad("no prefix")),
        };
        let colon = a.find(':').ok_or_else(|| bad("no line number"))?;
        let n: usize = a[..colon].trim_start().parse().map_err(|_| bad("no line number"))?;
        if n == 0 || n > lines.len() {
            return Err(bad("no such line"));
        }
        if lines[n - 1] != &a[colon + 1..] {
            return Err(bad("not that line"));
        }
        let caret = b.chars().position(|c| c != ' ').ok_or_else(|| bad("no marker"))?;
        if b.chars().nth(caret) != Some('^') {
            return Err(bad("no marker"));
        }
        // the marker's column, counted where the line's text starts
        let start = colon + 1;
        if caret < start || caret - start > lines[n - 1].chars().count() {
            return Err(bad("the marker is outside of the line"));
        }
        let message = b.chars().skip(caret + 1).collect::<String>();
        if message.trim().is_empty() {
            return Err(bad("no message"));
        }
        places.push(Place { line: n, column: caret - start + 1, message: message.trim().to_string() });
    }
    Ok(places)
}

pub fn wild(t: &mut Tape) -> String {
    let n = *t.pick(&[1usize, 3, 8, 20, 60, 200]);
    let n = t.range(0, n);
    let mut s = String::new();
    for _ in 0..n {
        match t.weighted(&[5, 2, 1]) {
            0 => s.push_str(*t.pick(BITS)),
            1 => s.push_str(*t.pick(LINES)),
            _ => s.push(char::from_u32(t.below(0x11_0000) as u32).unwrap_or('\u{fffd}')),
        }
    }
    s
}

fn large(t: &mut Tape) -> String {
    let n = *t.pick(&[2_000usize, 20_000, 200_000, 1_000_000]);
    let mut s = String::from(*t.pick(&["/\n", "", "use a::B;\n\n/\n"]));
    let unit = *t.pick(&["  GET A\n", "  a\n    GET A\n", "\n", "x\n", " ", "  {a: B}\n", "  [a: B]\n", "é", "\r\n", "/\n", "// c\n", "a", "  GET A::", "[", "{"]);
    while s.len() + unit.len() <= n {
        s.push_str(unit);
    }
    if t.chance(1, 2) {
        s.push_str("  GET Z\n");
    }
    s
}

fn deep(t: &mut Tape) -> String {
    let mut s = String::from("/\n");
    let d = *t.pick(&[50usize, 200, 500, 900]);
    for i in 1..=d {
        s.push_str(&"  ".repeat(i));
        s.push_str(*t.pick(&["a\n", "{p: T}\n", "b\n\n"]));
    }
    s.push_str(&"  ".repeat(d + 1));
    s.push_str(*t.pick(&["GET A\n", "GET A", "GET\n", "[a\n", "", "?\n"]));
    s
}

/// C17: nothing panics, and reports are true
pub fn total(t: &mut Tape, notes: &mut Notes) -> Option<String> {
    let s = match t.weighted(&[60, 60, 2, 1]) {
        0 => any_text(t, notes),
        1 => {
            notes.label("text: anything");
            wild(t)
        }
        2 => {
            notes.label("text: large");
            large(t)
        }
        _ => {
            notes.label("text: deep");
            deep(t)
        }
    };
    let prefix = *t.pick(&["", "", "cargo:warning=", "  ", "é"]);
    if s.len() < 200 {
        notes.samples.push(format!("{:?}", s));
    }
    if s.len() > 1 {
        notes.nontrivial.push(hash_of(&s));
    }
    let short = |s: &str| {
        if s.len() > 3000 {
            format!("{} bytes, {:?}...", s.len(), s.chars().take(200).collect::<String>())
        } else {
            format!("{:?}", s)
        }
    };
    match report(&s, prefix) {
        Ok(p) => {
            notes.label(if p.is_empty() { "accepted" } else { "refused" });
            if p.len() > 2 {
                notes.label("refused: more than two places");
            }
            None
        }
        Err(e) => Some(format!("{}\nfor the text {}", e, short(&s))),
    }
}

// ---------------------------------------------------------------------

/// C18: one damaged line, and the report on it
pub fn located(t: &mut Tape, notes: &mut Notes) -> Option<String> {
    let mut o = Opts::new(true);
    o.query = *t.pick(&[1, 4, 8]);
    o.headers = t.chance(1, 3);
    o.max_nodes = *t.pick(&[4, 10, 30]);
    let c = gen::config(t, &o);
    let l = if t.chance(1, 3) { Layout { blanks: 2, crlf: t.chance(1, 2), ..Layout::default() } } else { Layout::default() };
    let text = to_text(&c, &l);
    let mut lines: Vec<String> = text.split_inclusive('\n').map(|l| l.to_string()).collect();
    // not the header, which may be anything, and not a blank line
    let first = lines.iter().position(|l| l.trim_end() == "/").unwrap();
    let full: Vec<usize> = (first..lines.len()).filter(|i| !lines[*i].trim().is_empty()).collect();
    let i = *t.pick(&full);
    let old = lines[i].clone();
    let eol = &old[old.trim_end_matches(|c| "\r\n".contains(c)).len()..];
    let body = old[..old.len() - eol.len()].to_string();
    let mut said: Option<&str> = None;
    let kind;
    match t.size(8) {
        0 => {
            kind = "a colon is missing";
            if !body.contains(": ") {
                return None;
            }
            lines[i] = body.replacen(": ", " ", 1) + eol;
            said = Some("\":\"");
        }
        1 => {
            kind = "a closing brace or bracket is missing";
            match body.chars().last() {
                Some('}') => said = Some("\"}\""),
                Some(']') => said = Some("\"]\""),
                _ => return None,
            }
            lines[i] = body[..body.len() - 1].to_string() + eol;
        }
        2 => {
            kind = "the last newline is missing";
            if i + 1 != lines.len() {
                return None;
            }
            lines[i] = body.clone();
            let b = body.trim();
            if b.contains(' ') && !b.starts_with('{') {
                said = Some("newline");
            }
        }
        3 => {
            kind = "more on the line";
            let more = *t.pick(&[" x", " ", ";", " // why", " GET A", "}", "]", ":", "?", " {a: B}", "/"]);
            lines[i] = format!("{}{}{}", body, more, eol);
            if body.trim_start().contains(|c| c == ' ') && !body.trim_start().starts_with('{') {
                said = Some("newline");
            }
        }
        4 => {
            kind = "the indentation is off";
            let n = body.len() - body.trim_start().len();
            let m = *t.pick(&[1usize, 3, 4, 5, 6, 7, 8]);
            if m == n || (n == 0 && i == first) {
                return None;
            }
            lines[i] = " ".repeat(m) + body.trim_start() + eol;
        }
        5 => {
            kind = "the method is unknown";
            let b = body.trim_start();
            let ind = &body[..body.len() - b.len()];
            match b.split(' ').next() {
                Some(m) if METHODS.iter().any(|x| x.name() == m) => {
                    let rest = &b[m.len()..];
                    lines[i] = format!("{}{}{}{}", ind, t.pick(&["PATCH", "HEAD", "GE", "GETT", "PSOT", "-", "Ge_t", "OPTIONS"]), rest, eol);
                }
                _ => return None,
            }
        }
        6 => {
            kind = "a character is changed";
            let b = body.trim_start();
            let ind = body.len() - b.len();
            let at = ind + t.size(b.len());
            let at = at_char(&body, at);
            let next = body[at..].chars().next().unwrap().len_utf8();
            lines[i] = format!("{}{}{}{}", &body[..at], t.pick(&["?", "-", ".", "/", "\\", "#", "(", "]", "}", "{", "[", ";", "$", "\t", "\"", "🦀"]), &body[at + next..], eol);
        }
        _ => {
            kind = "another line instead";
            let b = body.trim_start();
            let ind = &body[..body.len() - b.len()];
            lines[i] = format!("{}{}{}", ind, t.pick(LINES), eol);
        }
    }
    let bad = lines.concat();
    let n = match refparse::read(&bad) {
        Read::Refuse(n) => n,
        _ => {
            notes.label("still well formed, or not settled");
            return None;
        }
    };
    notes.label(&format!("damage: {}", kind));
    notes.nontrivial.push(hash_of(&bad));
    let places = match report(&bad, "") {
        Ok(p) => p,
        Err(e) => return Some(format!("{}\nfor\n{}", e, indent(&bad))),
    };
    if places.is_empty() {
        return Some(format!("line {} is wrong ({}), and yet the text is accepted:\n{}", i + 1, kind, indent(&bad)));
    }
    let lines: Vec<&str> = bad.split('\n').collect();
    let show = |why: &str| Some(format!("{}\n{:#?}\nfor\n{}", why, places, indent(&bad)));
    // nothing after the mistake is blamed, if it is the only one
    let after = |k: usize| (k..lines.len()).find(|j| !lines[*j].trim().is_empty()).map(|j| j + 1).unwrap_or(lines.len());
    for p in &places {
        if p.line > n.max(i + 1) && p.line > after(n) {
            return show(&format!("line {} is shown, though reading cannot get past line {}", p.line, n));
        }
    }
    // from the outside in
    for w in places.windows(2) {
        if w[0].line > w[1].line {
            return show("the places are not in order");
        }
    }
    // what is said to be expected is not there
    for p in &places {
        let rest: String = lines[p.line - 1].chars().skip(p.column - 1).collect();
        let there = match p.message.as_str() {
            "Expected \":\"" => rest.trim_start().starts_with(':'),
            "Expected a \"}\"" => rest.trim_start().starts_with('}'),
            "Expected a \"]\"" => rest.trim_start().starts_with(']'),
            "Expected a newline" => rest.trim_end_matches('\r').is_empty() && p.line < lines.len(),
            _ => false,
        };
        if there {
            return show(&format!("{:?} at line {}, where it is", p.message, p.line));
        }
    }
    // where the report is precise: the root line, the query parameters of
    // the root, and the line after them
    let root = lines.iter().position(|l| l.starts_with('/') && !l.starts_with("//") && !l.starts_with("/*"));
    let lead = match root {
        Some(r) => (r + 1..lines.len())
            .find(|j| !lines[*j].trim().is_empty() && !lines[*j].starts_with("  ["))
            .unwrap_or(lines.len()),
        None => lines.len(),
    };
    let (precise, place) = match root {
        None => (true, "no root line"),
        Some(r) if n <= r + 1 => (true, "the root line"),
        Some(_) if n <= lead => (true, "a query parameter of the root"),
        Some(_) if n == lead + 1 => (true, "the first line of the hierarchy"),
        Some(_) => (false, "further down"),
    };
    notes.label(&format!("wrong: {}", place));
    if precise {
        if !places.iter().any(|p| p.line == n || p.line == after(n)) {
            return show(&format!("line {} is wrong ({}), and is not shown", n, kind));
        }
        notes.label(if places.iter().any(|p| p.line == n) { "shown: that line" } else { "shown: the line after it" });
        if let (Some(s), "a query parameter of the root", "a colon is missing") = (said, place, kind) {
            if !places.iter().any(|p| p.line == i + 1 && p.message.contains(s)) {
                return show(&format!("line {} is wrong ({}), and it is not said", i + 1, kind));
            }
            notes.label("said what is missing");
        }
    } else {
        // that line, or one of the block it is in, or of those around it:
        // not one nested deeper in a part that is done
        let mut fine = vec![n, after(n)];
        let level = |l: &str| l.len() - l.trim_start_matches(' ').len();
        let mut least = usize::MAX;
        for j in (0..n - 1).rev() {
            let l = lines[j];
            if l.trim().is_empty() {
                continue;
            }
            if level(l) <= least {
                least = level(l);
                fine.push(j + 1);
            }
        }
        if !places.iter().any(|p| fine.contains(&p.line)) {
            return show(&format!("line {} is wrong ({}), and neither that nor one of the lines it belongs to is shown", n, kind));
        }
        notes.label(if places.iter().any(|p| p.line == n) { "shown: that line" } else { "shown: a line of the blocks it is in" });
    }
    if bad.len() < 300 {
        notes.samples.push(format!("{} at line {}: {:?}\n{}", kind, i + 1, places, bad));
    }
    None
}
