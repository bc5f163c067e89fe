//! Programs that use the macros.

use crate::batch::scratch;
use crate::cfg::*;
use crate::engine::Notes;
use crate::gen::{self, Opts};
use crate::pipeline::{self, indent};
use crate::report::hash_of;
use crate::tape::Tape;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

struct Case {
    cfg: Cfg,
    /// Rust expressions for the configuration
    expr: String,
    text: String,
}

fn header(t: &mut Tape) -> String {
    t.pick(&[
        "use a::B;",
        "use a::b::C as D;",
        "use uuid::Uuid;",
        "use std::collections::{HashMap, HashSet};",
        "use crate::types::*;",
        "pub use self::x::Y;",
        "extern crate uuid;",
        "pub const MARK: u32 = 7;",
        "type Id = u32;",
        "use a::B; use c::D;",
        "mod inner;",
    ])
    .to_string()
}

fn tidy(n: &mut Node, t: &mut Tape) {
    for r in &mut n.res {
        // the macros have no query parameters for redirects
        if r.redirect {
            r.query.clear();
        } else if t.chance(1, 6) {
            let k = t.range(1, 3);
            for i in 0..k {
                r.query.push(P::new(
                    t.pick(&["q", "type", "param", "get", "_x", "größe", "page2", "A"]),
                    ["String", "u32", "Uuid", "T", "_T2", "bool"][(i + t.size(6)) % 6],
                ));
            }
        }
        if t.chance(1, 8) {
            r.name = t.pick(&["get", "post", "param", "index", "A", "a_b_c", "Größe", "type", "X9", "header"]).to_string();
        }
        if t.chance(1, 8) {
            let k = t.range(1, 5);
            r.modules = (0..k).map(|_| t.pick(&["A", "b", "get", "mod_x", "delete", "Z9"]).to_string()).collect();
        }
    }
    for k in &mut n.kids {
        tidy(&mut k.1, t);
    }
}

fn param_expr(p: &P, t: &mut Tape) -> String {
    match t.size(8) {
        7 => format!("Param::new({:?}, String::from({:?}))", p.name, p.typ),
        6 => format!("param! {{ {}:{} }}", p.name, p.typ),
        5 => format!("param![{} : {}]", p.name, p.typ),
        _ => format!("param!({}: {})", p.name, p.typ),
    }
}

fn res_expr(r: &R, t: &mut Tape) -> String {
    let mac = match r.method {
        M::Get => "get",
        M::Post => "post",
        M::Put => "put",
        M::Delete => "delete",
    };
    let mut s = String::new();
    if r.redirect {
        s.push_str(*t.pick(&["-> ", "->"]));
    }
    let sep = *t.pick(&["::", " :: "]);
    for m in &r.modules {
        s.push_str(m);
        s.push_str(sep);
    }
    s.push_str(&r.name);
    for q in &r.query {
        s.push_str(", ");
        s.push_str(&param_expr(q, t));
    }
    format!("{}!({})", mac, s)
}

fn node_expr(n: &Node, t: &mut Tape) -> String {
    let res: Vec<String> = n.res.iter().map(|r| res_expr(r, t)).collect();
    let kids: Vec<String> = n
        .kids
        .iter()
        .map(|(s, k)| {
            let seg = match s {
                Seg::Static(s) => match t.size(3) {
                    2 => format!("String::from({:?})", s),
                    1 => format!("&{:?}.to_string()", s),
                    _ => format!("{:?}", s),
                },
                Seg::Param(p) => param_expr(p, t),
            };
            format!("NestedRoutes::new({}, {})", seg, node_expr(k, t))
        })
        .collect();
    let query: Vec<String> = n.query.iter().map(|q| param_expr(q, t)).collect();
    let mut fields = vec![];
    let lazy = t.chance(1, 2);
    if !(lazy && res.is_empty()) {
        fields.push(format!("resources: vec![{}]", res.join(", ")));
    }
    if !(lazy && kids.is_empty()) {
        fields.push(format!("routes: vec![{}]", kids.join(", ")));
    }
    if !(lazy && query.is_empty()) {
        fields.push(format!("query_parameters: vec![{}]", query.join(", ")));
    }
    if lazy {
        fields.push("..Default::default()".into());
    }
    format!("Routes {{ {} }}", fields.join(", "))
}

fn case(t: &mut Tape) -> Case {
    let mut o = Opts::new(true);
    o.headers = false;
    o.max_nodes = *t.pick(&[6, 12, 30]);
    o.query = *t.pick(&[2, 6]);
    o.redirects = 8;
    let mut cfg = gen::config(t, &o);
    cfg.headers.clear();
    let n = t.count(1, 2, 4);
    for _ in 0..n {
        cfg.headers.push(header(t));
    }
    tidy(&mut cfg.root, t);
    let headers: Vec<String> = cfg.headers.iter().map(|h| format!("header!({})", h)).collect();
    let expr = format!(
        "RouteConfig {{ headers: vec![{}], routes: {} }}",
        headers.join(", "),
        node_expr(&cfg.root, t)
    );
    let text = to_text(&cfg, &Layout::gen(t));
    Case { cfg, expr, text }
}

/// The library as cargo built it for this harness
pub fn library() -> (PathBuf, PathBuf) {
    let me = std::env::current_exe().unwrap_or_else(|e| crate::die(&format!("{}", e)));
    let deps = me.parent().unwrap().join("deps");
    let mut best: Option<(std::time::SystemTime, PathBuf)> = None;
    for e in std::fs::read_dir(&deps).unwrap_or_else(|e| crate::die(&format!("{}", e))).flatten() {
        let n = e.file_name().to_string_lossy().to_string();
        if n.starts_with("libwayfinder-") && n.ends_with(".rlib") {
            if let Ok(m) = e.metadata().and_then(|m| m.modified()) {
                if best.as_ref().map_or(true, |b| b.0 < m) {
                    best = Some((m, e.path()));
                }
            }
        }
    }
    match best {
        Some((_, p)) => (p, deps),
        None => crate::die("no wayfinder library to compile against"),
    }
}

/// Compile the cases numbered; the ones at fault are told by the compiler
fn compile(dir: &Path, cases: &[Case], ids: &[usize], edition: &str) -> (Vec<(usize, String)>, Vec<usize>, PathBuf) {
    let (lib, deps) = library();
    for &k in ids {
        let s = format!(
            "use wayfinder::{{delete, get, header, param, post, put, NestedRoutes, Param, RouteConfig, Routes}};\npub fn config() -> RouteConfig {{\n    {}\n}}\n",
            cases[k].expr
        );
        std::fs::write(dir.join(format!("c{}.rs", k)), s).expect("write");
    }
    let exe = dir.join("main.exe");
    let mut good = ids.to_vec();
    let mut bad = vec![];
    while !good.is_empty() {
        let mut m = String::from("#![allow(warnings)]\n");
        for k in &good {
            m.push_str(&format!("mod c{};\n", k));
        }
        m.push_str("fn main() {\n");
        for k in &good {
            m.push_str(&format!("    println!(\"{{:?}}\", c{}::config());\n", k));
        }
        m.push_str("}\n");
        std::fs::write(dir.join("main.rs"), m).expect("write");
        let out = Command::new("rustc")
            .args(&["--edition", edition, "--crate-name", "macros", "-A", "warnings", "--cap-lints", "allow"])
            .args(&["-C", "debuginfo=0", "-C", "opt-level=0", "--color", "never", "--extern"])
            .arg(format!("wayfinder={}", lib.display()))
            .arg("-L")
            .arg(format!("dependency={}", deps.display()))
            .arg("-o")
            .arg(&exe)
            .arg(dir.join("main.rs"))
            .output()
            .unwrap_or_else(|e| crate::die(&format!("rustc: {}", e)));
        if out.status.success() {
            break;
        }
        let err = String::from_utf8_lossy(&out.stderr).to_string();
        let mut blamed = vec![];
        for l in err.lines() {
            if let Some(i) = l.find("--> ") {
                let f = l[i + 4..].rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("");
                if let Some(k) = f.strip_prefix('c').and_then(|f| f.strip_suffix(".rs")).and_then(|f| f.parse::<usize>().ok()) {
                    if good.contains(&k) && !blamed.contains(&k) {
                        blamed.push(k);
                    }
                }
            }
        }
        if blamed.is_empty() {
            if good.len() > 1 {
                // one by one
                for k in good.clone() {
                    let (b, _, _) = compile(dir, cases, &[k], edition);
                    blamed.extend(b.into_iter().map(|x| x.0));
                }
                if blamed.is_empty() {
                    eprintln!("{}", err.chars().take(4000).collect::<String>());
                    crate::die("rustc fails on a program of macro calls though not on any of them alone");
                }
            } else {
                blamed = good.clone();
            }
        }
        for k in &blamed {
            let tag = format!("c{}.rs:", k);
            let msg = err.split("\n\n").find(|b| b.contains(&tag)).unwrap_or(&err);
            bad.push((*k, msg.chars().take(1200).collect()));
        }
        good.retain(|k| !blamed.contains(k));
    }
    (bad, good, exe)
}

fn judge_some(cases: &[Case], ids: &[usize], edition: &str) -> Vec<(usize, Option<String>)> {
    let dir = scratch("macros");
    let (bad, good, exe) = compile(&dir, cases, ids, edition);
    let mut out: Vec<(usize, Option<String>)> = bad
        .into_iter()
        .map(|(k, e)| {
            let what = format!("does not compile (edition {}): {}\n{}\nfor\n{}", edition, cases[k].expr, e, indent(&cases[k].text));
            (k, Some(what))
        })
        .collect();
    if !good.is_empty() {
        let o = Command::new(&exe).output().unwrap_or_else(|e| crate::die(&format!("{}", e)));
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        let mut lines = text.lines();
        for k in good {
            let c = &cases[k];
            let got = lines.next();
            let want = match pipeline::parse(&c.text) {
                Ok(r) => format!("{:?}", r),
                Err(e) => {
                    out.push((k, Some(format!("the route file is refused: {}\n{}", e, indent(&c.text)))));
                    continue;
                }
            };
            out.push((
                k,
                if got == Some(&want[..]) {
                    None
                } else {
                    Some(format!(
                        "the macros build\n    {}\nthe route file parses to\n    {}\nexpression: {}\nroute file:\n{}",
                        got.unwrap_or("nothing: the program ended early"),
                        want,
                        c.expr,
                        indent(&c.text)
                    ))
                },
            ));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    out
}

/// C20
pub fn macros(tapes: Vec<Tape>) -> Vec<(Vec<u64>, Option<String>, Notes)> {
    let mut used = vec![];
    let mut cases = vec![];
    for mut t in tapes {
        let c = case(&mut t);
        used.push(t.used);
        cases.push(c);
    }
    let n = cases.len();
    let per = ((n + 7) / 8).max(1).min(40);
    let chunks: Vec<Vec<usize>> = (0..n).collect::<Vec<_>>().chunks(per).map(|c| c.to_vec()).collect();
    let next = AtomicUsize::new(0);
    let verdicts: Mutex<Vec<Option<String>>> = Mutex::new(vec![None; n]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= chunks.len() {
                    break;
                }
                let edition = ["2018", "2021"][i % 2];
                let vs = judge_some(&cases, &chunks[i], edition);
                let mut g = verdicts.lock().unwrap();
                for (k, v) in vs {
                    g[k] = v;
                }
            });
        }
    });
    let verdicts = verdicts.into_inner().unwrap();
    cases
        .into_iter()
        .zip(used)
        .zip(verdicts)
        .map(|((c, u), v)| {
            let mut notes = Notes::default();
            let all = gen::targets(&c.cfg.root);
            notes.evaluations = 1 + c.cfg.headers.len() as u64 + all.len() as u64;
            for x in &all {
                notes.label(match (x.res.redirect, x.res.query.len(), x.res.modules.len()) {
                    (true, _, _) => "call: a redirect",
                    (_, 0, 0) => "call: a name",
                    (_, 0, _) => "call: modules and a name",
                    (_, 1, _) => "call: one query parameter",
                    _ => "call: several query parameters",
                });
            }
            if all.len() > 1 {
                notes.nontrivial.push(hash_of(&c.cfg));
            }
            notes.samples.push(c.expr);
            (u, v, notes)
        })
        .collect()
}
