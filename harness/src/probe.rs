//! Client code for generated modules, written from the configuration.

use crate::cfg::*;
use crate::gen::Target;
use crate::types;

pub fn type_path(typ: &str) -> String {
    match types::base(typ) {
        t @ ("Even" | "Slug" | "Hex" | "Any") => format!("crate::support::{}", t),
        t @ ("Ipv4Addr" | "Ipv6Addr" | "IpAddr") => format!("std::net::{}", t),
        "NonZeroU8" => "std::num::NonZeroU8".to_string(),
        "String" => "String".to_string(),
        t => t.to_string(),
    }
}

pub fn module(modules: &[String]) -> String {
    let mut s = String::from("G::routes");
    for m in modules {
        s.push_str("::");
        s.push_str(&snake(m));
    }
    s
}

pub fn params(t: &Target) -> Vec<&P> {
    t.path
        .iter()
        .filter_map(|s| match s {
            Seg::Param(p) => Some(p),
            _ => None,
        })
        .collect()
}

pub fn query(t: &Target) -> Vec<&P> {
    t.inherited.iter().chain(t.res.query.iter()).collect()
}

pub fn lit(s: &str) -> String {
    format!("{:?}", s)
}

/// The struct, with the parameters parsed from the texts.  Query parameters
/// are None, or parsed from a text.
pub fn struct_expr(t: &Target, texts: &[String], queries: &[Option<String>], typed: bool) -> String {
    let ps = params(t);
    let qs = query(t);
    let mut s = format!("{}::{}", module(&t.res.modules), caps(&t.res.name));
    if ps.is_empty() && qs.is_empty() {
        return s;
    }
    let mut fields: Vec<String> = vec![];
    for (p, x) in ps.iter().zip(texts) {
        let of = if typed { format!("::<{}>", type_path(&p.typ)) } else { String::new() };
        fields.push(format!("{}: {}.parse{}().unwrap()", p.name, lit(x), of));
    }
    for (q, x) in qs.iter().zip(queries) {
        let of = type_path(&q.typ);
        fields.push(match x {
            None => format!("{}: Option::None::<{}>", q.name, of),
            Some(x) => format!("{}: Option::Some({})", q.name, types::value_expr(&q.typ, x, &of)),
        });
    }
    s.push_str(&format!(" {{ {} }}", fields.join(", ")));
    s
}

/// The route value around a struct, from the given depth of modules outwards
pub fn route_expr(t: &Target, inner: &str, outermost: usize) -> String {
    let ms = &t.res.modules;
    let mut s = format!("{}::Route::{}({})", module(ms), caps(&t.res.name), inner);
    for d in (outermost..ms.len()).rev() {
        s = format!("{}::Route::{}({})", module(&ms[..d]), caps(&ms[d]), s);
    }
    s
}

/// The declared path with the texts in place of the parameters
pub fn path_of(t: &Target, displays: &[String]) -> String {
    let mut s = String::new();
    let mut n = 0;
    for seg in &t.path {
        s.push('/');
        match seg {
            Seg::Static(x) => s.push_str(x),
            Seg::Param(_) => {
                s.push_str(&displays[n]);
                n += 1;
            }
        }
    }
    if s.is_empty() {
        s.push('/');
    }
    s
}

/// The module tree: per module (raw names) its actions and its modules
pub fn modules(all: &[Target]) -> Vec<(Vec<String>, Vec<String>, Vec<String>)> {
    let mut paths: Vec<Vec<String>> = vec![vec![]];
    for t in all {
        if t.res.redirect {
            continue;
        }
        for d in 1..=t.res.modules.len() {
            let p = t.res.modules[..d].to_vec();
            if !paths.contains(&p) {
                paths.push(p);
            }
        }
    }
    paths
        .iter()
        .map(|p| {
            let actions = all
                .iter()
                .filter(|t| !t.res.redirect && &t.res.modules == p)
                .map(|t| t.res.name.clone())
                .collect();
            let mods = paths
                .iter()
                .filter(|q| q.len() == p.len() + 1 && q.starts_with(p))
                .map(|q| q.last().unwrap().clone())
                .collect();
            (p.clone(), actions, mods)
        })
        .collect()
}

/// How a client prints a match
pub fn shown(o: &crate::model::Outcome) -> String {
    use crate::model::Outcome::*;
    match o {
        NotFound => "NotFound".to_string(),
        NotAllowed => "NotAllowed".to_string(),
        Route { debug, .. } => format!("Route({})", debug),
        Redirect { debug, .. } => format!("Redirect({})", debug),
        _ => "an error".to_string(),
    }
}
