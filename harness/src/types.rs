//! The parameter types generated configurations use, and what the reference
//! model knows about them: their own FromStr, Debug and Display.

use crate::support::*;
use crate::tape::Rng;
use std::fmt::{Debug, Display};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::str::FromStr;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Value {
    pub debug: String,
    pub display: String,
}

fn go<T: FromStr + Debug + Display>(s: &str) -> Result<Value, String>
where
    T::Err: Debug,
{
    match s.parse::<T>() {
        Ok(v) => Ok(Value { debug: format!("{:?}", v), display: format!("{}", v) }),
        Err(e) => Err(format!("{:?}", e)),
    }
}

/// Is this a type `parse` knows?
pub fn known(typ: &str) -> bool {
    query_only(typ).is_none()
        && (PRIMITIVE.contains(&base(typ))
            || ["Even", "Slug", "Hex", "Any", "Ipv4Addr", "Ipv6Addr", "IpAddr", "Uuid", "NonZeroU8"].contains(&base(typ)))
}

/// Parse text as the named type: its Debug and Display, or the error's Debug.
pub fn parse(typ: &str, s: &str) -> Result<Value, String> {
    if let Some(values) = query_only(typ) {
        return match values.iter().find(|v| v.0 == s) {
            Some(v) => Ok(Value { debug: v.1.to_string(), display: String::new() }),
            None => Err(String::new()),
        };
    }
    match base(typ) {
        "String" => go::<String>(s),
        "u8" => go::<u8>(s),
        "u16" => go::<u16>(s),
        "u32" => go::<u32>(s),
        "u64" => go::<u64>(s),
        "u128" => go::<u128>(s),
        "usize" => go::<usize>(s),
        "i8" => go::<i8>(s),
        "i16" => go::<i16>(s),
        "i32" => go::<i32>(s),
        "i64" => go::<i64>(s),
        "bool" => go::<bool>(s),
        "char" => go::<char>(s),
        "Even" => go::<Even>(s),
        "Slug" => go::<Slug>(s),
        "Hex" => go::<Hex>(s),
        "Any" => go::<Any>(s),
        "Ipv4Addr" => go::<Ipv4Addr>(s),
        "Ipv6Addr" => go::<Ipv6Addr>(s),
        "IpAddr" => go::<IpAddr>(s),
        "Uuid" => go::<crate::uuid::Uuid>(s),
        "NonZeroU8" => go::<std::num::NonZeroU8>(s),
        t => panic!("no such type {}", t),
    }
}

/// The type a name used in a configuration stands for.
pub fn base(typ: &str) -> &str {
    if query_only(typ).is_some() {
        return typ;
    }
    let t = typ.rsplit("::").next().unwrap();
    match t {
        "UserId" => "u32",
        "Name" => "String",
        t => t,
    }
}

/// Types usable without any header
pub const PRIMITIVE: &[&str] = &[
    "String", "u32", "u64", "bool", "i32", "u8", "char", "usize", "i64", "u16", "i8", "i16", "u128",
];

/// Types that need a header, and the header
pub const IMPORTED: &[(&str, &str)] = &[
    ("Even", "use crate::support::Even;"),
    ("Slug", "use crate::support::Slug;"),
    ("Hex", "use crate::support::Hex;"),
    ("Any", "use crate::support::Any;"),
    ("Ipv4Addr", "use std::net::Ipv4Addr;"),
    ("Ipv6Addr", "use std::net::Ipv6Addr;"),
    ("IpAddr", "use std::net::IpAddr;"),
    ("NonZeroU8", "use std::num::NonZeroU8;"),
    ("UserId", "pub type UserId = u32;"),
    ("Name", "type Name = String;"),
];

/// Types usable in structs (not in route files), without any header
pub const PATHS: &[&str] = &[
    "std::string::String",
    "std::net::Ipv4Addr",
    "crate::support::Even",
    "crate::support::Slug",
    "::std::net::IpAddr",
];

/// Types of query parameters (which nothing parses; not in route files), with
/// expressions for values and their Debug
pub const QUERY: &[(&str, &[(&str, &str)])] = &[
    ("std::vec::Vec<u8>", &[("vec![1, 2]", "[1, 2]"), ("vec![]", "[]"), ("vec![9]", "[9]")]),
    ("Option<u8>", &[("Some(7)", "Some(7)"), ("None", "None"), ("Some(0)", "Some(0)")]),
    ("Option<String>", &[("Some(\"x\".to_string())", "Some(\"x\")"), ("None", "None")]),
    ("std::option::Option<bool>", &[("Some(true)", "Some(true)"), ("None", "None")]),
    ("(u8, bool)", &[("(3, true)", "(3, true)"), ("(0, false)", "(0, false)")]),
    ("()", &[("()", "()")]),
    ("&'static str", &[("\"x\"", "\"x\""), ("\"\"", "\"\"")]),
    ("[u8; 3]", &[("[1, 2, 3]", "[1, 2, 3]"), ("[0; 3]", "[0, 0, 0]")]),
    ("std::collections::BTreeMap<u8, String>", &[("std::collections::BTreeMap::new()", "{}")]),
    ("Result<u8, std::string::String>", &[("Ok(4)", "Ok(4)"), ("Err(\"e\".to_string())", "Err(\"e\")")]),
    ("Box<u32>", &[("Box::new(5)", "5"), ("Box::new(6)", "6")]),
];

fn query_only(typ: &str) -> Option<&'static [(&'static str, &'static str)]> {
    QUERY.iter().find(|q| q.0 == typ).map(|q| q.1)
}

/// An expression for the value this text stands for
pub fn value_expr(typ: &str, text: &str, path: &str) -> String {
    match query_only(typ) {
        Some(_) => text.to_string(),
        None => format!("{:?}.parse::<{}>().unwrap()", text, path),
    }
}

fn pick<'a>(r: &mut Rng, xs: &[&'a str]) -> &'a str {
    xs[(r.next() % xs.len() as u64) as usize]
}

/// Text a parameter of this type accepts (and that is not empty, and has no slash)
pub fn valid_text(typ: &str, r: &mut Rng) -> String {
    if let Some(values) = query_only(typ) {
        return values[(r.next() % values.len() as u64) as usize].0.to_string();
    }
    let b = base(typ);
    match b {
        "String" | "Any" => match r.next() % 10 {
            0 => pick(r, &["é", "naïve", "日本語", "💥", "ß", "a b", "%2F", "?x=1", "#", "\u{0}", "..", "\n", "{}", "{id}", "\\", "\""]).to_string(),
            1 => {
                let n = 1 + r.next() % 200;
                (0..n).map(|i| (b'a' + ((i * 7) % 26) as u8) as char).collect()
            }
            _ => {
                let n = 1 + r.next() % 8;
                (0..n).map(|_| (b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-."[(r.next() % 45) as usize]) as char).collect()
            }
        },
        "bool" => pick(r, &["true", "false"]).to_string(),
        "char" => pick(r, &["a", "Z", "0", "é", "💥", "%", "_"]).to_string(),
        "Even" => match r.next() % 3 {
            0 => "0".into(),
            1 => format!("{}", (r.next() as u32) & !1),
            _ => format!("{}", 2 * (r.next() % 50)),
        },
        "Slug" => {
            let n = 1 + r.next() % 10;
            (0..n).map(|_| (b"abcdefghijklmnopqrstuvwxyz0123456789-"[(r.next() % 37) as usize]) as char).collect()
        }
        "Hex" => match r.next() % 3 {
            0 => "DeadBeef".into(),
            1 => format!("{:x}", r.next()),
            _ => format!("{:X}", r.next() % 4096),
        },
        "Ipv4Addr" => pick(r, &["127.0.0.1", "0.0.0.0", "255.255.255.255", "10.1.2.3"]).to_string(),
        "Ipv6Addr" => pick(r, &["::1", "::", "fe80::1", "2001:DB8::2"]).to_string(),
        "IpAddr" => pick(r, &["127.0.0.1", "::1", "10.0.0.9"]).to_string(),
        "NonZeroU8" => pick(r, &["1", "255", "17"]).to_string(),
        "Uuid" => match r.next() % 3 {
            0 => "12345678901234567890123456789012".to_string(),
            1 => format!("{:016x}{:016X}", r.next(), r.next()),
            _ => {
                let s = format!("{:016x}{:016x}", r.next(), r.next());
                format!("{}-{}-{}-{}-{}", &s[..8], &s[8..12], &s[12..16], &s[16..20], &s[20..])
            }
        },
        _ => {
            // integers
            let bits: u32 = match b {
                "usize" => 64,
                t => t[1..].parse().unwrap(),
            };
            let signed = b.starts_with('i');
            match r.next() % 6 {
                0 => "0".into(),
                1 => {
                    if signed {
                        format!("{}", (1i128 << (bits - 1)) - 1)
                    } else if bits == 128 {
                        format!("{}", u128::MAX)
                    } else {
                        format!("{}", (1u128 << bits) - 1)
                    }
                }
                2 if signed => format!("{}", -(1i128 << (bits - 1))),
                3 => "007".into(),
                4 => "+5".into(),
                _ => format!("{}", r.next() % 120),
            }
        }
    }
}

/// Text a parameter of this type refuses, if there is any
pub fn invalid_text(typ: &str, r: &mut Rng) -> Option<String> {
    if query_only(typ).is_some() {
        return None;
    }
    let b = base(typ);
    let s = match b {
        "String" | "Any" => return None,
        "bool" => pick(r, &["True", "1", "yes", "tru", "truee", "0"]).to_string(),
        "char" => pick(r, &["ab", "éé", "  "]).to_string(),
        "Even" => pick(r, &["1", "77", "-2", "x", "4294967296", "2 "]).to_string(),
        "Slug" => pick(r, &["A", "a b", "a_b", "é", "ok%", "a."]).to_string(),
        "Hex" => pick(r, &["g", "0x1", "-", "12345678901234567", "a b"]).to_string(),
        "Ipv4Addr" => pick(r, &["1.2.3", "256.1.1.1", "x", "1.2.3.4.5", "::1"]).to_string(),
        "Ipv6Addr" => pick(r, &["1.2.3.4", ":", "g::", "::1%"]).to_string(),
        "IpAddr" => pick(r, &["1.2.3", "localhost", ":::"]).to_string(),
        "NonZeroU8" => pick(r, &["0", "256", "-1", "one"]).to_string(),
        "Uuid" => pick(r, &["new", "ne", "neww", "edit", "1234567890123456789012345678901", "1234567890123456789012345678901g", "-"]).to_string(),
        _ => {
            if b.starts_with('u') {
                pick(r, &["-1", "abc", "1.5", "1e3", "340282366920938463463374607431768211456", " 1", "1 ", "0x1", "½", "-"]).to_string()
            } else {
                pick(r, &["abc", "1.5", "170141183460469231731687303715884105728", "--1", " 1", "1_000", "+"]).to_string()
            }
        }
    };
    debug_assert!(parse(typ, &s).is_err(), "{} {:?}", typ, s);
    Some(s)
}
