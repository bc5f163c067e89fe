//! C37: the parts of a route file by themselves.

use crate::cfg::*;
use crate::checks::texts::text_cfg;
use crate::engine::Notes;
use crate::pipeline::{self, guarded};
use crate::report::hash_of;
use crate::tape::Tape;
use nom::types::CompleteStr;
use nom::IResult;
use std::fmt::Debug;
use wayfinder::parse;

/// A line that belongs to nothing before it: at most so many levels in
fn following(t: &mut Tape, levels: usize) -> String {
    let lines = [
        "users\n  GET X\n", "GET Index\n", "{id: u8}\n", "/\n", "GET -> A::B", "x", "// note\n", "put", "}", "!\n\n", "größe\n", "postbox\n", "\tusers\n", "\t  GET X\n", ": u8\n", "-> X\n",
    ];
    if t.chance(1, 4) {
        return String::new();
    }
    let mut s = " ".repeat(t.size(2 * levels + 1));
    s.push_str(t.pick(&lines));
    if t.chance(1, 3) {
        s.push_str("    [q: u8]\n");
    }
    s
}

/// At no level: a line that cannot be part of anything
fn foreign(t: &mut Tape) -> String {
    t.pick(&["", "/\n", "}", "!x\n", "# users\n  GET X\n", "\tx\n", "-> X\n", ": u8\n"]).to_string()
}

fn part<T: PartialEq + Debug>(what: &str, text: &str, tail: &str, value: &T, read: impl Fn(CompleteStr) -> IResult<CompleteStr, T>) -> Option<String> {
    let all = format!("{}{}", text, tail);
    let got = guarded(|| match read(CompleteStr(&all)) {
        Ok((rest, v)) => Ok((rest.0.to_string(), v)),
        Err(e) => Err(format!("{:?}", e).chars().take(500).collect::<String>()),
    });
    let wrong = match got {
        Err(e) => format!("panics: {}", e),
        Ok(Err(e)) => format!("is refused: {}", e),
        Ok(Ok((_, ref v))) if v != value => format!("is read as\n{:?}\nand not\n{:?}", v, value),
        Ok(Ok((rest, _))) if rest != tail => format!("leaves {:?}\nand not {:?}", rest, tail),
        _ => return None,
    };
    Some(format!("{} by itself\n{:?}\n{}", what, all, wrong))
}

pub fn alone(t: &mut Tape, notes: &mut Notes) -> Option<String> {
    if t.chance(1, 8) {
        return characters(t, notes);
    }
    let c = text_cfg(t);
    let mut nodes: Vec<(Option<Seg>, &Node)> = vec![];
    c.root.visit(&mut vec![], &mut |p, n| nodes.push((p.last().map(|s| (*s).clone()), n)));
    let (seg, node) = nodes[t.size(nodes.len())].clone();
    let level = *t.pick(&[0usize, 1, 2, 3, 5, 8, 17]);
    notes.label(&format!("level {}", level));
    notes.samples.push(node.real().stringify(level));
    let mut parts = 0;

    let routes = node.real();
    let tail = match level {
        0 => foreign(t),
        // anything less far in
        _ => following(t, level - 1),
    };
    if let Some(v) = part(&format!("a block of routes at level {}", level), &routes.stringify(level), &tail, &routes, |s| parse::routes(s, level)) {
        return Some(v);
    }
    parts += 1;
    if routes.routes.len() + routes.resources.len() > 1 {
        notes.nontrivial.push(hash_of(&(node, level, &tail)));
    }

    if let Some(seg) = seg {
        let nested = wayfinder::NestedRoutes {
            path_segment: match seg {
                Seg::Static(s) => wayfinder::PathSegment::Static(s),
                Seg::Param(p) => wayfinder::PathSegment::Dynamic(p.real()),
            },
            routes: routes.clone(),
        };
        let tail = following(t, level);
        let what = format!("a nested block at level {}", level);
        if let Some(v) = part(&what, &nested.stringify(level), &tail, &nested, |s| parse::nested_routes(s, level)) {
            return Some(v);
        }
        parts += 1;
    }

    for r in node.res.iter().take(3) {
        let r = r.real();
        let tail = following(t, level + 1);
        if let Some(v) = part(&format!("a resource at level {}", level), &r.stringify(level), &tail, &r, |s| parse::resource(s, level)) {
            return Some(v);
        }
        let mut word = r.method.to_string();
        if t.chance(1, 2) {
            word = word.chars().map(|c| if t.chance(1, 2) { c.to_ascii_lowercase() } else { c }).collect();
        }
        let tail = *t.pick(&["", " Index", "S", "\n", "é", "/", "GET"]);
        if let Some(v) = part("a method", &word, tail, &r.method, parse::method) {
            return Some(v);
        }
        parts += 2;
    }

    let params = node.query.iter().chain(node.res.iter().flat_map(|r| r.query.iter()));
    for p in params.take(3) {
        let tail = *t.pick(&["", "]", "}", "\n", " x", ": u8", "::X", "<u8>", "-"]);
        if let Some(v) = part("a parameter", &p.real().to_string(), tail, &p.real(), parse::param) {
            return Some(v);
        }
        parts += 1;
    }

    for h in c.headers.iter().take(3) {
        let text = format!("{}{}", h, t.pick(&["\n", "\n\n", "\r\n", "\n\n\n"]));
        let tail = *t.pick(&["", "/\n", "use a::B;\n", " x", "// y\n/\n"]);
        if let Some(v) = part("a header line", &text, tail, &wayfinder::Header { text: h.clone() }, parse::header) {
            return Some(v);
        }
        parts += 1;
    }
    notes.evaluations += parts;
    None
}

/// Which characters names are made of, and messages by number
fn characters(t: &mut Tape, notes: &mut Notes) -> Option<String> {
    let c = match t.weighted(&[4, 3, 2]) {
        0 => (b' ' + t.below(95) as u8) as char,
        1 => std::char::from_u32(t.below(0x3000) as u32).unwrap_or('x'),
        _ => std::char::from_u32(t.below(0x110000) as u32).unwrap_or('x'),
    };
    notes.label("a character");
    notes.nontrivial.push(hash_of(&c));
    let said = match guarded(|| parse::is_identifier_char(c)) {
        Ok(x) => x,
        Err(e) => return Some(format!("is_identifier_char({:?}) panics: {}", c, e)),
    };
    for text in [
        format!("/\n  a{}b\n    GET X\n", c),
        format!("/\n  GET X{}y\n", c),
        format!("/\n  {{a{}b: u8}}\n    GET X\n", c),
        format!("/\n  [a{}b: u8]\n  GET X\n", c),
        format!("/\n  [a: u{}8]\n  GET X\n", c),
        format!("/\n  GET A{}a::X\n", c),
    ] {
        notes.evaluations += 1;
        let taken = pipeline::parse(&text).is_ok();
        // a break, or space around a name, may be left to the layout
        if taken != said && !c.is_whitespace() && !(c == ':' && text.contains("::")) {
            return Some(format!(
                "is_identifier_char({:?}) is {}, but a route file with it in a name is {}:\n{:?}",
                c,
                said,
                if taken { "accepted" } else { "refused" },
                text
            ));
        }
    }
    if t.chance(1, 20) {
        let msg: &'static str = Box::leak(format!("Expected {:?} number {}", c, t.below(1000)).into_boxed_str());
        match parse::errors::def_error(msg) {
            nom::ErrorKind::Custom(n) => {
                if parse::errors::get_error(n).as_ref().map(|s| s.as_str()) != Some(msg) {
                    return Some(format!("the message {:?} is kept as {:?}", msg, parse::errors::get_error(n)));
                }
            }
            k => return Some(format!("a message is numbered {:?}", k)),
        }
        if let Some(m) = parse::errors::get_error(u32::max_value()) {
            return Some(format!("a number that was never given has the message {:?}", m));
        }
    }
    None
}
