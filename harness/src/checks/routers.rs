//! Checks on compiled routers other than plain request/model agreement.

use crate::batch::{Built, Obs, Options, Unit};
use crate::cfg::*;
use crate::checks::routing::{agrees, shape_labels, show_obs};
use crate::engine::{BatchCheck, Notes};
use crate::interp::{self, Declared, Program};
use crate::gen::{self, Opts, Target};
use crate::model::{self, Outcome};
use crate::pipeline::{self, Source};
use crate::probe;
use crate::report::hash_of;
use crate::requests::{self, Req};
use crate::tape::{Rng, Tape};
use crate::types;
use std::collections::BTreeMap;

/// the same answer, whatever a panic says, and whatever the path of the
/// route would match again (which is another request)
pub fn same(a: &Obs, b: &Obs) -> bool {
    match (a, b) {
        (Obs::Panic(_), Obs::Panic(_)) => true,
        (Obs::Route { debug, path, .. }, Obs::Route { debug: d, path: p, .. })
        | (Obs::Redirect { debug, path, .. }, Obs::Redirect { debug: d, path: p, .. }) => debug == d && path == p,
        (a, b) => a == b,
    }
}

// ---------------------------------------------------------------------

/// C06: leading and trailing slashes
pub struct Slashes;

pub struct SlashCase {
    source: Source,
    groups: Vec<Vec<Req>>,
    /// with a slash too many
    extra: Vec<Req>,
}

fn strip(mut p: &[u8]) -> &[u8] {
    while p.first() == Some(&b'/') {
        p = &p[1..];
    }
    while p.last() == Some(&b'/') {
        p = &p[..p.len() - 1];
    }
    p
}

impl BatchCheck for Slashes {
    type Case = SlashCase;

    fn ahead(&self) -> usize {
        50
    }

    fn generate(&self, t: &mut Tape) -> SlashCase {
        let source = Source::gen(t, &|t, o| {
            o.headers = false;
            o.empty_root = t.chance(1, 4);
            o.param = 7;
        });
        let mut r = Rng::new(t.seed());
        let mut groups = vec![];
        let mut paths: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        // every segment, with resources or without
        let mut nodes: Vec<(Vec<&Seg>, &Node)> = vec![];
        source.cfg.root.visit(&mut vec![], &mut |p, n| nodes.push((p.to_vec(), n)));
        for (p, n) in &nodes {
            let segs = requests::instantiate(p, &mut r);
            paths.push((requests::join(&segs), requests::method(n, &mut r)));
        }
        for q in requests::generate(&source.cfg, 25, &mut r) {
            paths.push((q.path, q.method));
        }
        for (p, m) in paths {
            let base = strip(&p).to_vec();
            let mut g = vec![];
            let forms: Vec<(bool, bool)> = if base.is_empty() {
                vec![(false, false), (true, false)]
            } else {
                vec![(true, false), (false, false), (true, true), (false, true)]
            };
            for (lead, trail) in forms {
                let mut path = vec![];
                if lead {
                    path.push(b'/');
                }
                path.extend_from_slice(&base);
                if trail {
                    path.push(b'/');
                }
                g.push(Req { path, method: m.clone() });
            }
            groups.push(g);
        }
        let mut extra = vec![];
        for _ in 0..groups.len().min(30) {
            let g = &groups[(r.next() % groups.len() as u64) as usize];
            let mut q = g[(r.next() % g.len() as u64) as usize].clone();
            let slashes: Vec<usize> = (0..q.path.len()).filter(|i| q.path[*i] == b'/').collect();
            let at = match r.next() % 3 {
                0 => 0,
                1 => q.path.len(),
                _ if slashes.is_empty() => 0,
                _ => slashes[(r.next() % slashes.len() as u64) as usize],
            };
            q.path.insert(at, b'/');
            if !q.path.windows(2).any(|w| w == b"//") {
                q.path.insert(at, b'/');
            }
            extra.push(q);
        }
        SlashCase { source, groups, extra }
    }

    fn units(&self, c: &SlashCase) -> Result<Vec<Unit>, String> {
        Ok(match c.source.code() {
            Ok(code) => vec![Unit { code, requests: c.groups.concat().into_iter().chain(c.extra.iter().cloned()).collect(), probe: None }],
            Err(_) => vec![],
        })
    }

    fn judge(&self, c: &SlashCase, built: &[Built], notes: &mut Notes) -> Option<String> {
        let obs = match built.get(0) {
            Some(Built::Ran { obs, .. }) => obs,
            _ => {
                notes.label("no router");
                return None;
            }
        };
        shape_labels(&c.source.cfg, notes);
        let key = hash_of(&c.source.cfg);
        let mut at = 0;
        for g in &c.groups {
            let seen = match obs.get(at..at + g.len()) {
                Some(s) => s,
                None => break,
            };
            at += g.len();
            notes.evaluations += 1;
            notes.label(match seen[0] {
                Obs::NotFound => "group: not found",
                Obs::NotAllowed => "group: not allowed",
                Obs::Err { .. } => "group: parameter error",
                Obs::Panic(_) | Obs::Hang => "group: panic",
                _ => "group: route or redirect",
            });
            let (_, tr) = model::ideal(&c.source.cfg.root, &g[0].path, &g[0].method);
            if tr.params + tr.statics > 0 || g.len() == 2 {
                notes.nontrivial.push(hash_of(&(key, &g[0])));
                if notes.samples.is_empty() {
                    notes.samples.push(format!(
                        "{} ({} forms) => {}   in {}",
                        g[0].show(),
                        g.len(),
                        show_obs(&seen[0]),
                        to_text(&c.source.cfg, &Layout::default())
                    ));
                }
            }
            for (q, s) in g.iter().zip(seen).skip(1) {
                if !same(&seen[0], s) {
                    return Some(format!(
                        "request {} was answered {}\nrequest {} was answered {}\n{}",
                        g[0].show(),
                        show_obs(&seen[0]),
                        q.show(),
                        show_obs(s),
                        c.source.show()
                    ));
                }
            }
        }
        for (q, s) in c.extra.iter().zip(obs.iter().skip(at)) {
            let (o, tr) = model::ideal(&c.source.cfg.root, &q.path, &q.method);
            if tr.known() {
                continue;
            }
            notes.evaluations += 1;
            notes.label("a slash too many");
            if tr.params + tr.statics > 0 {
                notes.nontrivial.push(hash_of(&(key, q)));
            }
            if !agrees(&o, s) {
                return Some(format!(
                    "request {}\n  should be: {:?}\n  was:       {}\n{}",
                    q.show(),
                    o,
                    show_obs(s),
                    c.source.show()
                ));
            }
        }
        None
    }
}

// ---------------------------------------------------------------------

/// C09: the order of declarations
pub struct Order;

pub struct Pair {
    a: Source,
    b: Source,
    requests: Vec<Req>,
    note: String,
}

fn shuffle<T>(xs: &mut Vec<T>, r: &mut Rng) {
    for i in (1..xs.len()).rev() {
        let j = (r.next() % (i as u64 + 1)) as usize;
        xs.swap(i, j);
    }
}

fn shuffle_node(n: &mut Node, r: &mut Rng, how: u64) {
    match how {
        0 => {
            n.kids.reverse();
            n.res.reverse();
        }
        1 => {
            n.kids.sort_by_key(|k| format!("{:?}", k.0));
            n.res.sort_by_key(|k| k.name.clone());
        }
        _ => {
            shuffle(&mut n.kids, r);
            shuffle(&mut n.res, r);
        }
    }
    for k in &mut n.kids {
        shuffle_node(&mut k.1, r, how);
    }
}

impl BatchCheck for Order {
    type Case = Pair;

    fn ahead(&self) -> usize {
        50
    }

    fn generate(&self, t: &mut Tape) -> Pair {
        let a = Source::gen(t, &|_, o| o.headers = false);
        let mut cfg = a.cfg.clone();
        let how = t.below(5);
        let mut r = Rng::new(t.seed());
        shuffle_node(&mut cfg.root, &mut r, how);
        let b = if a.text.is_some() {
            let text = to_text(&cfg, &Layout::default());
            Source { cfg, text: Some(text) }
        } else {
            Source { cfg, text: None }
        };
        let requests = requests::generate(&a.cfg, 60, &mut r);
        Pair { a, b, requests, note: String::new() }
    }

    fn units(&self, c: &Pair) -> Result<Vec<Unit>, String> {
        two_units(c)
    }

    fn judge(&self, c: &Pair, built: &[Built], notes: &mut Notes) -> Option<String> {
        if c.a.cfg != c.b.cfg {
            notes.label("order changed");
        }
        compare(c, built, notes, |_| c.a.cfg != c.b.cfg, |_| true)
    }
}

fn two_units(c: &Pair) -> Result<Vec<Unit>, String> {
    let a = c.a.code();
    let b = c.b.code();
    match (a, b) {
        (Ok(a), Ok(b)) => Ok(vec![
            Unit { code: a, requests: c.requests.clone(), probe: None },
            Unit { code: b, requests: c.requests.clone(), probe: None },
        ]),
        (Err(_), Err(_)) => Ok(vec![]),
        (Err(e), _) => Err(format!("code generation fails for only one of the two: {}\n{}{}", e, c.a.show(), c.b.show())),
        (_, Err(e)) => Err(format!("code generation fails for only one of the two: {}\n{}{}", e, c.b.show(), c.a.show())),
    }
}

fn compare(
    c: &Pair,
    built: &[Built],
    notes: &mut Notes,
    nontrivial: impl Fn(&Req) -> bool,
    comparable: impl Fn(&Req) -> bool,
) -> Option<String> {
    let (a, b) = match (built.get(0), built.get(1)) {
        (Some(Built::Ran { obs: a, .. }), Some(Built::Ran { obs: b, .. })) => (a, b),
        (Some(Built::CompileError(e)), Some(Built::Ran { .. })) | (Some(Built::Ran { .. }), Some(Built::CompileError(e))) => {
            notes.evaluations += 1;
            return Some(format!("the code compiles for only one of the two:\n{}\n{}\n{}", e, c.a.show(), c.b.show()));
        }
        _ => {
            notes.label("no router");
            return None;
        }
    };
    let key = hash_of(&c.a.cfg);
    for ((q, x), y) in c.requests.iter().zip(a).zip(b) {
        if !comparable(q) {
            continue;
        }
        notes.evaluations += 1;
        if nontrivial(q) && !matches!(x, Obs::NotFound) {
            notes.nontrivial.push(hash_of(&(key, q)));
            if notes.samples.is_empty() {
                notes.samples.push(format!(
                    "{} => {} both in {} {} and in {}",
                    q.show(),
                    show_obs(x),
                    to_text(&c.a.cfg, &Layout::default()),
                    c.note,
                    to_text(&c.b.cfg, &Layout::default())
                ));
            }
        }
        if !same(x, y) {
            return Some(format!(
                "request {}\nis answered {}\n{}and {}\n{}{}",
                q.show(),
                show_obs(x),
                c.a.show(),
                show_obs(y),
                c.b.show(),
                c.note
            ));
        }
    }
    None
}

// ---------------------------------------------------------------------

/// C29: unrelated routes
pub struct Locality;

pub struct LocalCase {
    pair: Pair,
    at: Vec<usize>,
    what: Removed,
}

#[derive(Clone, Debug)]
enum Removed {
    Kid(usize),
    Res(usize),
}

/// The child indices a path walks through, and whether it ends at a node
fn walk(root: &Node, path: &[u8]) -> (Vec<usize>, bool) {
    let mut rest = match path.first() {
        Some(b'/') => &path[1..],
        _ => path,
    };
    let mut n = root;
    let mut out = vec![];
    loop {
        if rest.is_empty() {
            return (out, true);
        }
        let end = rest.iter().position(|b| *b == b'/').unwrap_or(rest.len());
        let seg = &rest[..end];
        let i = n
            .kids
            .iter()
            .position(|k| matches!(&k.0, Seg::Static(s) if s.as_bytes() == seg))
            .or_else(|| n.kids.iter().position(|k| matches!(k.0, Seg::Param(_))));
        match i {
            Some(i) => {
                out.push(i);
                n = &n.kids[i].1;
            }
            None => return (out, false),
        }
        rest = if end < rest.len() { &rest[end + 1..] } else { &[] };
    }
}

fn node_at<'a>(n: &'a mut Node, at: &[usize]) -> &'a mut Node {
    match at.split_first() {
        None => n,
        Some((i, rest)) => node_at(&mut n.kids[*i].1, rest),
    }
}

/// remove redirects whose target is gone; false if the rest is not valid
fn tidy(root: &mut Node) -> bool {
    let all: Vec<(Vec<String>, String)> =
        gen::targets(root).into_iter().filter(|t| !t.res.redirect).map(|t| (t.res.modules, t.res.name)).collect();
    let mut ok = true;
    let copy = root.clone();
    copy.visit(&mut vec![], &mut |_, n| {
        for r in &n.res {
            if r.redirect && !all.contains(&(r.modules.clone(), r.name.clone())) {
                ok = false;
            }
        }
        if n.res.is_empty() && n.kids.is_empty() {
            ok = false;
        }
    });
    ok
}

impl BatchCheck for Locality {
    type Case = LocalCase;

    fn ahead(&self) -> usize {
        50
    }

    fn generate(&self, t: &mut Tape) -> LocalCase {
        let a = Source::gen(t, &|t, o| {
            o.headers = false;
            o.redirects = if t.chance(1, 3) { 4 } else { 0 };
        });
        let mut options: Vec<(Vec<usize>, Removed)> = vec![];
        fn collect(n: &Node, at: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, Removed)>) {
            for i in 0..n.kids.len() {
                out.push((at.clone(), Removed::Kid(i)));
            }
            for i in 0..n.res.len() {
                out.push((at.clone(), Removed::Res(i)));
            }
            for (i, k) in n.kids.iter().enumerate() {
                at.push(i);
                collect(&k.1, at, out);
                at.pop();
            }
        }
        collect(&a.cfg.root, &mut vec![], &mut options);
        let mut b = a.cfg.clone();
        let mut at = vec![];
        let mut what = Removed::Res(usize::MAX);
        let mut note = "nothing removed".to_string();
        let start = t.size(options.len());
        for i in 0..options.len() {
            let (p, w) = options[(start + i) % options.len()].clone();
            let mut c = a.cfg.clone();
            {
                let n = node_at(&mut c.root, &p);
                match w {
                    Removed::Kid(i) => {
                        let k = n.kids.remove(i);
                        note = format!("without the block {:?}", k.0);
                    }
                    Removed::Res(i) => {
                        let k = n.res.remove(i);
                        note = format!("without the resource {} {}", k.method.name(), k.name);
                    }
                }
            }
            if tidy(&mut c.root) {
                b = c;
                at = p;
                what = w;
                break;
            }
            note = "nothing removed".to_string();
        }
        let mut r = Rng::new(t.seed());
        let mut requests = requests::generate(&a.cfg, 60, &mut r);
        requests.extend(requests::generate(&b, 30, &mut r));
        let b = match a.text {
            Some(_) => {
                let text = to_text(&b, &Layout::default());
                Source { cfg: b, text: Some(text) }
            }
            None => Source { cfg: b, text: None },
        };
        LocalCase { pair: Pair { a, b, requests, note }, at, what }
    }

    fn units(&self, c: &LocalCase) -> Result<Vec<Unit>, String> {
        two_units(&c.pair)
    }

    fn judge(&self, c: &LocalCase, built: &[Built], notes: &mut Notes) -> Option<String> {
        let a = &c.pair.a.cfg.root;
        let b = &c.pair.b.cfg.root;
        let mut excluded = 0u64;
        let counter = std::cell::Cell::new(0u64);
        let removed = !matches!(c.what, Removed::Res(usize::MAX));
        notes.label(match c.what {
            Removed::Kid(_) => "a block removed",
            Removed::Res(usize::MAX) => "nothing to remove",
            Removed::Res(_) => "a resource removed",
        });
        let comparable = |q: &Req| {
            let (steps, ends) = walk(a, &q.path);
            let touched = match c.what {
                Removed::Kid(i) => steps.len() > c.at.len() && steps[..c.at.len()] == c.at[..] && steps[c.at.len()] == i,
                Removed::Res(usize::MAX) => false,
                Removed::Res(i) => {
                    let mut n = a;
                    for s in &c.at {
                        n = &n.kids[*s].1;
                    }
                    steps == c.at && ends && (n.res.len() == 1 || n.res[i].method.name().as_bytes() == &q.method[..])
                }
            };
            if touched {
                return false;
            }
            // where a known finding decides, its shape may have changed
            let (_, ta) = model::as_is(a, &q.path, &q.method);
            let (_, tb) = model::as_is(b, &q.path, &q.method);
            let (_, ia) = model::ideal(a, &q.path, &q.method);
            let (_, ib) = model::ideal(b, &q.path, &q.method);
            if ta.known() || tb.known() || ia.known() || ib.known() {
                counter.set(counter.get() + 1);
                return false;
            }
            true
        };
        let res = compare(&c.pair, built, notes, |_| removed, comparable);
        excluded += counter.get();
        for _ in 0..excluded {
            notes.known.push("K1-K4 shapes, excluded here".to_string());
        }
        res
    }
}

// ---------------------------------------------------------------------

/// C10: to_path
pub struct ToPath {
    pub listed: Vec<String>,
}

pub struct ProbeCase {
    source: Source,
    requests: Vec<Req>,
    probe: String,
    expected: Vec<(String, String)>,
    /// what a listed finding makes of an expectation
    deviates: BTreeMap<usize, (&'static str, String)>,
}

/// Any text the type accepts, slashes and emptiness included
fn any_text(typ: &str, r: &mut Rng) -> String {
    match types::base(typ) {
        "String" | "Any" if r.next() % 6 == 0 => ["", "a/b", "/", " ", "{}", "{0}", "%s", "\"q\"", "\\"][(r.next() % 9) as usize].to_string(),
        _ => types::valid_text(typ, r),
    }
}

impl BatchCheck for ToPath {
    type Case = ProbeCase;

    fn ahead(&self) -> usize {
        75
    }

    fn suspect(&self, c: &ProbeCase, programs: &[Program], built: &[Built]) -> bool {
        odd_declarations(c, programs)
            || match built.get(0) {
                Some(Built::Ran { obs, .. }) => self.judge_paths(c, obs, &mut Notes::default()).is_some(),
                _ => true,
            }
    }

    fn generate(&self, t: &mut Tape) -> ProbeCase {
        let source = Source::gen(t, &|_, o| {
            o.headers = false;
            o.param = 8;
            o.modules = 9;
            o.query = 2;
        });
        let mut r = Rng::new(t.seed());
        let all = gen::targets(&source.cfg.root);
        let mut probe = String::from("pub fn probe(out: &mut Vec<String>) {\n");
        let mut expected = vec![];
        let mut deviates = BTreeMap::new();
        for x in all.iter().filter(|x| !x.res.redirect).take(40) {
            let texts: Vec<String> = probe::params(x).iter().map(|p| any_text(&p.typ, &mut r)).collect();
            let displays: Vec<String> = probe::params(x)
                .iter()
                .zip(&texts)
                .map(|(p, t)| types::parse(&p.typ, t).expect("valid text").display)
                .collect();
            let queries: Vec<Option<String>> = probe::query(x)
                .iter()
                .map(|p| if r.next() % 2 == 0 { None } else { Some(types::valid_text(&p.typ, &mut r)) })
                .collect();
            let path = probe::path_of(x, &displays);
            let inner = probe::struct_expr(x, &texts, &queries, false);
            probe.push_str(&format!("out.push({{ let v = {}; v.to_path() }});\n", inner));
            expected.push((format!("{}.to_path()", inner), path.clone()));
            for d in 0..=x.res.modules.len() {
                let e = probe::route_expr(x, &inner, d);
                probe.push_str(&format!("out.push({{ let v = {}; v.to_path() }});\n", e));
                expected.push((format!("{}.to_path()", e), path.clone()));
            }
            // and it matches back
            let values: Vec<(String, types::Value)> = probe::params(x)
                .iter()
                .zip(&texts)
                .map(|(p, t)| (p.name.clone(), types::parse(&p.typ, t).expect("valid text")))
                .collect();
            let qs = probe::query(x);
            let names: Vec<String> = qs.iter().map(|q| q.name.clone()).collect();
            let is = model::route_debug(&x.res, &values, &names);
            let method = x.res.method.name();
            let (o, _) = model::ideal(&source.cfg.root, path.as_bytes(), method.as_bytes());
            if matches!(&o, Outcome::Route { debug, .. } if *debug == is) && !displays.iter().any(|d| d.is_empty()) {
                let inner = probe::struct_expr(x, &texts, &vec![None; qs.len()], false);
                let e = probe::route_expr(x, &inner, 0);
                probe.push_str(&format!(
                    "out.push({{ let v = {}; match G::routes::match_route(v.to_path(), {:?}) {{ Ok(G::routes::Match::Route(ref r)) if *r == v => \"that\".to_string(), Ok(G::routes::Match::Route(r)) => format!(\"Route({{:?}})\", r), Ok(G::routes::Match::Redirect(r)) => format!(\"Redirect({{:?}})\", r), Ok(G::routes::Match::NotFound) => \"NotFound\".to_string(), Ok(G::routes::Match::NotAllowed) => \"NotAllowed\".to_string(), Err(_) => \"an error\".to_string() }} }});\n",
                    e, method
                ));
                let (k, tr) = model::as_is(&source.cfg.root, path.as_bytes(), method.as_bytes());
                let id = if tr.k1 { "K1" } else { "K2" };
                if k != o && (tr.k1 || tr.k2) && self.listed.iter().any(|l| l == id) {
                    deviates.insert(expected.len(), (id, probe::shown(&k)));
                }
                expected.push((format!("match_route({}.to_path(), {:?})", e, method), "that".to_string()));
            }
        }
        probe.push_str("}\n");
        let requests = requests::generate(&source.cfg, 40, &mut r);
        ProbeCase { source, requests, probe, expected, deviates }
    }

    fn units(&self, c: &ProbeCase) -> Result<Vec<Unit>, String> {
        probe_unit(c)
    }

    fn judge(&self, c: &ProbeCase, built: &[Built], notes: &mut Notes) -> Option<String> {
        let (obs, lines) = match ran(c, built, notes) {
            Ok(x) => x,
            Err(e) => return e,
        };
        if let Some(e) = probe_lines(c, lines, notes) {
            return Some(e);
        }
        self.judge_paths(c, obs, notes)
    }
}

impl ToPath {
    fn judge_paths(&self, c: &ProbeCase, obs: &[Obs], notes: &mut Notes) -> Option<String> {
        let root = &c.source.cfg.root;
        let key = hash_of(&c.source.cfg);
        for (q, s) in c.requests.iter().zip(obs) {
            let (o, tr) = model::ideal(root, &q.path, &q.method);
            let (want, p, back) = match (&o, s) {
                (Outcome::Route { path, .. }, Obs::Route { path: p, back, .. }) => (path, p, back),
                (Outcome::Redirect { path, .. }, Obs::Redirect { path: p, back, .. }) => (path, p, back),
                _ => continue,
            };
            if !agrees(&o, s) {
                continue;
            }
            notes.evaluations += 1;
            if tr.params > 0 {
                notes.nontrivial.push(hash_of(&(key, q)));
            }
            notes.label("path of a matched route");
            if want != p {
                return Some(format!(
                    "request {}: the path of the route is {:?}, should be {:?}\n{}",
                    q.show(),
                    p,
                    want,
                    c.source.show()
                ));
            }
            // does it lead back?
            if let Outcome::Route { debug, .. } = &o {
                let (again, tr2) = model::ideal(root, want.as_bytes(), &q.method);
                if tr2.empty_segment {
                    continue;
                }
                if matches!(&again, Outcome::Route { debug: d, .. } if d == debug) {
                    notes.label("matched back");
                    if back != "=" {
                        let (k, ktr) = model::as_is(root, want.as_bytes(), &q.method);
                        let kdebug = match &k {
                            Outcome::Route { debug, .. } => format!("Match::Route({})", debug),
                            Outcome::NotFound => "Match::NotFound".to_string(),
                            Outcome::NotAllowed => "Match::NotAllowed".to_string(),
                            Outcome::Redirect { debug, .. } => format!("Match::Redirect({})", debug),
                            _ => String::new(),
                        };
                        let listed = (ktr.k1 && self.listed.iter().any(|l| l == "K1")) || (ktr.k2 && self.listed.iter().any(|l| l == "K2"));
                        if listed && *back == kdebug {
                            notes.known.push(if ktr.k1 { "K1" } else { "K2" }.to_string());
                            continue;
                        }
                        return Some(format!(
                            "the path {:?} of the route for {} matches {} instead of that route\n{}",
                            p,
                            q.show(),
                            back,
                            c.source.show()
                        ));
                    }
                }
            }
        }
        None
    }
}

/// Does the code declare anything but what the configuration says?
fn odd_declarations(c: &ProbeCase, programs: &[Program]) -> bool {
    let squeeze = |s: &str| s.split_whitespace().collect::<String>();
    let all = gen::targets(&c.source.cfg.root);
    let mut want: Vec<Declared> = probe::modules(&all)
        .iter()
        .map(|(path, actions, mods)| {
            let module = path.iter().map(|m| snake(m)).collect();
            let mut structs: Vec<_> = all
                .iter()
                .filter(|x| !x.res.redirect && x.res.modules == *path)
                .map(|x| {
                    let mut fields: Vec<(String, String)> =
                        probe::params(x).iter().map(|p| (p.name.clone(), squeeze(&p.typ))).collect();
                    fields.extend(probe::query(x).iter().map(|q| (q.name.clone(), format!("Option<{}>", squeeze(&q.typ)))));
                    let names: Vec<String> = probe::params(x).iter().map(|p| format!("{{{}}}", p.name)).collect();
                    (caps(&x.res.name), fields, probe::path_of(x, &names))
                })
                .collect();
            structs.sort();
            let mut route: Vec<(String, String)> = actions.iter().map(|a| (caps(a), caps(a))).collect();
            route.extend(mods.iter().map(|m| (caps(m), format!("{}::Route", snake(m)))));
            route.sort();
            Declared { module, structs, route }
        })
        .collect();
    want.sort_by(|a, b| a.module.cmp(&b.module));
    let mut got = match programs.get(0) {
        Some(p) => interp::declared(p),
        None => return true,
    };
    for m in &mut got {
        for s in &mut m.structs {
            for f in &mut s.1 {
                f.1 = squeeze(&f.1);
            }
        }
    }
    if got != want && std::env::var("WF_VERBOSE").is_ok() {
        for (g, w) in got.iter().zip(&want) {
            if g != w {
                println!("declares {:?}\nshould    {:?}", g, w);
            }
        }
    }
    got != want
}

fn probe_unit(c: &ProbeCase) -> Result<Vec<Unit>, String> {
    match c.source.code() {
        Ok(code) => Ok(vec![Unit { code, requests: c.requests.clone(), probe: Some(c.probe.clone()) }]),
        Err(e) => Err(format!("no router for a valid configuration: {}\n{}", e, c.source.show())),
    }
}

fn ran<'a>(c: &ProbeCase, built: &'a [Built], notes: &mut Notes) -> Result<(&'a Vec<Obs>, &'a Vec<String>), Option<String>> {
    match built.get(0) {
        Some(Built::Ran { obs, probe }) => {
            shape_labels(&c.source.cfg, notes);
            Ok((obs, probe))
        }
        Some(Built::CompileError(e)) => {
            notes.evaluations += 1;
            Err(Some(format!(
                "the code (c*.rs: generated, x*.rs: a client written from the configuration) does not compile:\n{}\n{}",
                e,
                c.source.show()
            )))
        }
        None => Err(None),
    }
}

fn probe_lines(c: &ProbeCase, lines: &[String], notes: &mut Notes) -> Option<String> {
    let key = hash_of(&c.source.cfg);
    for (i, (what, want)) in c.expected.iter().enumerate() {
        notes.evaluations += 1;
        notes.nontrivial.push(hash_of(&(key, what)));
        notes.label("client expression");
        let got = lines.get(i).map(|s| s.as_str()).unwrap_or("nothing");
        if notes.samples.is_empty() && i > 0 {
            notes.samples.push(format!("{} => {}", what, got));
        }
        if got != want {
            if let Some((id, k)) = c.deviates.get(&i) {
                if got == k {
                    notes.known.push(id.to_string());
                    continue;
                }
            }
            return Some(format!("{}\n  should be {:?}\n  was       {:?}\n{}", what, want, got, c.source.show()));
        }
    }
    None
}

// ---------------------------------------------------------------------

/// C11: query parameters
pub struct Query {
    pub listed: Vec<String>,
}

impl BatchCheck for Query {
    type Case = ProbeCase;

    fn ahead(&self) -> usize {
        75
    }

    fn suspect(&self, c: &ProbeCase, programs: &[Program], built: &[Built]) -> bool {
        odd_declarations(c, programs)
            || match built.get(0) {
                Some(Built::Ran { obs, .. }) => judge_requests(c, obs, &mut Notes::default(), &self.listed).is_some(),
                _ => true,
            }
    }

    fn generate(&self, t: &mut Tape) -> ProbeCase {
        let source = Source::gen(t, &|t, o| {
            o.headers = false;
            o.query = if t.chance(1, 3) { 9 } else { 5 };
            o.redirects = 6;
        });
        let mut r = Rng::new(t.seed());
        let all = gen::targets(&source.cfg.root);
        let mut probe = String::from("pub fn probe(out: &mut Vec<String>) {\n");
        let mut expected = vec![];
        for x in all.iter().filter(|x| !x.res.redirect).take(40) {
            let texts: Vec<String> = probe::params(x).iter().map(|p| types::valid_text(&p.typ, &mut r)).collect();
            // every field given, of the declared type, some and none
            let qs = probe::query(x);
            for full in [true, false] {
                let queries: Vec<Option<String>> =
                    qs.iter().map(|p| if full { Some(types::valid_text(&p.typ, &mut r)) } else { None }).collect();
                let inner = probe::struct_expr(x, &texts, &queries, true);
                probe.push_str(&format!("out.push({{ let v = {}; v.to_path() }});\n", inner));
                let displays: Vec<String> = probe::params(x)
                    .iter()
                    .zip(&texts)
                    .map(|(p, t)| types::parse(&p.typ, t).expect("valid text").display)
                    .collect();
                expected.push((format!("{}.to_path()", inner), probe::path_of(x, &displays)));
                if !full {
                    // matching gives exactly this, with None everywhere
                    let path = probe::path_of(x, &texts);
                    let (o, _) = model::ideal(&source.cfg.root, path.as_bytes(), x.res.method.name().as_bytes());
                    let (k, _) = model::as_is(&source.cfg.root, path.as_bytes(), x.res.method.name().as_bytes());
                    if o == k && matches!(o, Outcome::Route { .. }) {
                        let mine = match &o {
                            Outcome::Route { debug, .. } => debug.contains(&caps(&x.res.name)),
                            _ => false,
                        };
                        if mine && model_is(&o, x, &texts) {
                            let e = probe::route_expr(x, &inner, 0);
                            probe.push_str(&format!(
                                "out.push(match G::routes::match_route({}, {:?}) {{ Ok(G::routes::Match::Route(ref r)) if *r == {} => \"that\".to_string(), o => format!(\"{{:?}}\", o) }});\n",
                                probe::lit(&path),
                                x.res.method.name(),
                                e
                            ));
                            expected.push((format!("match_route({:?}, {:?}) as {}", path, x.res.method.name(), e), "that".to_string()));
                        }
                    }
                }
            }
        }
        probe.push_str("}\n");
        // the path is not a query string
        let mut requests = vec![];
        let mut nodes: Vec<(Vec<&Seg>, &Node)> = vec![];
        source.cfg.root.visit(&mut vec![], &mut |p, n| nodes.push((p.to_vec(), n)));
        for (p, n) in &nodes {
            for form in 0..2 {
                let segs = requests::instantiate(p, &mut r);
                let mut path = requests::join(&segs);
                let name = gen::targets(n).first().and_then(|t| probe::query(t).first().map(|p| p.name.clone())).unwrap_or("x".into());
                match r.next() % 4 {
                    _ if form == 0 => {}
                    0 => path.extend_from_slice(format!("?{}=1", name).as_bytes()),
                    1 => path.extend_from_slice(b"?"),
                    2 => path.extend_from_slice(format!("/?{}=true&x=y", name).as_bytes()),
                    _ => path.extend_from_slice(b"&a=b;c#d"),
                }
                requests.push(Req { path, method: requests::method(n, &mut r) });
            }
        }
        ProbeCase { source, requests, probe, expected, deviates: BTreeMap::new() }
    }

    fn units(&self, c: &ProbeCase) -> Result<Vec<Unit>, String> {
        probe_unit(c)
    }

    fn judge(&self, c: &ProbeCase, built: &[Built], notes: &mut Notes) -> Option<String> {
        let (obs, lines) = match ran(c, built, notes) {
            Ok(x) => x,
            Err(e) => return e,
        };
        if let Some(e) = probe_lines(c, lines, notes) {
            return Some(e);
        }
        judge_requests(c, obs, notes, &self.listed)
    }
}

/// the model's route is for this resource with these texts
fn model_is(o: &Outcome, x: &Target, texts: &[String]) -> bool {
    let displays: Vec<String> = probe::params(x)
        .iter()
        .zip(texts)
        .map(|(p, t)| types::parse(&p.typ, t).expect("valid text").display)
        .collect();
    match o {
        Outcome::Route { path, .. } => *path == probe::path_of(x, &displays),
        _ => false,
    }
}

fn judge_requests(c: &ProbeCase, obs: &[Obs], notes: &mut Notes, listed: &[String]) -> Option<String> {
    let root = &c.source.cfg.root;
    let key = hash_of(&c.source.cfg);
    for (q, s) in c.requests.iter().zip(obs) {
        let (o, tr) = model::ideal(root, &q.path, &q.method);
        notes.evaluations += 1;
        if tr.params + tr.statics > 0 {
            notes.nontrivial.push(hash_of(&(key, q)));
        }
        if agrees(&o, s) {
            continue;
        }
        let (k, ktr) = model::as_is(root, &q.path, &q.method);
        if ktr.known() && agrees(&k, s) {
            if let Some(id) = known_id(&ktr, listed) {
                notes.known.push(id.to_string());
                continue;
            }
        }
        return Some(format!(
            "request {}\n  should be: {:?}\n  was:       {}\n{}",
            q.show(),
            o,
            show_obs(s),
            c.source.show()
        ));
    }
    None
}

/// the listed finding that the walk met
pub fn known_id(t: &model::Trace, listed: &[String]) -> Option<&'static str> {
    [(t.k1, "K1"), (t.k2, "K2"), (t.k4, "K4"), (t.k3, "K3")]
        .iter()
        .find(|(met, id)| *met && listed.iter().any(|l| l == id))
        .map(|x| x.1)
}

// ---------------------------------------------------------------------

/// C12: the generated module compiles
pub struct Compiles {
    pub edition: &'static str,
}

impl BatchCheck for Compiles {
    type Case = Source;

    fn ahead(&self) -> usize {
        50
    }

    fn generate(&self, t: &mut Tape) -> Source {
        Source::gen(t, &|t, o| {
            o.redirects = 6;
            o.query = *t.pick(&[1, 4]);
            o.param = *t.pick(&[6, 10]);
            o.extreme = t.chance(1, 24);
        })
    }

    fn units(&self, c: &Source) -> Result<Vec<Unit>, String> {
        match c.code() {
            Ok(code) => Ok(vec![Unit { code, requests: vec![], probe: None }]),
            Err(e) => Err(format!("no code for a valid configuration: {}\n{}", e, c.show())),
        }
    }

    fn judge(&self, c: &Source, built: &[Built], notes: &mut Notes) -> Option<String> {
        notes.evaluations += 1;
        shape_labels(&c.cfg, notes);
        notes.label(if c.text.is_some() { "config: from a route file" } else { "config: from structs" });
        if c.cfg.root.count() > 1 {
            notes.nontrivial.push(hash_of(&c.cfg));
            notes.samples.push(to_text(&c.cfg, &Layout::default()));
        }
        match built.get(0) {
            Some(Built::CompileError(e)) => Some(format!(
                "the generated code does not compile (edition {}):\n{}\n{}",
                self.edition,
                e,
                c.show()
            )),
            Some(Built::Ran { .. }) => match c.code() {
                Ok(code) if !code.trim_start().starts_with("pub mod routes") => {
                    Some(format!("the generated code is not a module named routes:\n{}", c.show()))
                }
                _ => None,
            },
            None => None,
        }
    }

    fn options(&self) -> Options {
        Options { edition: self.edition, chunk: 40, check_only: true, ..Options::default() }
    }
}

// ---------------------------------------------------------------------

/// C35: no warnings
pub struct Warnings {
    pub edition: &'static str,
}

impl BatchCheck for Warnings {
    type Case = Source;

    fn generate(&self, t: &mut Tape) -> Source {
        Source::gen(t, &|t, o| {
            o.headers = false;
            o.redirects = 6;
            o.query = *t.pick(&[1, 4]);
            o.param = *t.pick(&[6, 10]);
            o.extreme = t.chance(1, 40);
        })
    }

    fn units(&self, c: &Source) -> Result<Vec<Unit>, String> {
        Ok(match c.code() {
            Ok(code) => vec![Unit { code, requests: vec![], probe: None }],
            // the business of C12
            Err(_) => vec![],
        })
    }

    fn judge(&self, c: &Source, built: &[Built], notes: &mut Notes) -> Option<String> {
        notes.evaluations += 1;
        shape_labels(&c.cfg, notes);
        match built.get(0) {
            Some(Built::CompileError(e)) if e.contains("error[E") => {
                notes.label("does not compile");
                None
            }
            Some(Built::CompileError(e)) => Some(format!(
                "a warning in the generated code (edition {}):\n{}\n{}",
                self.edition,
                e,
                c.show()
            )),
            _ => {
                if c.cfg.root.count() > 1 {
                    notes.nontrivial.push(hash_of(&c.cfg));
                    notes.samples.push(to_text(&c.cfg, &Layout::default()));
                }
                None
            }
        }
    }

    fn options(&self) -> Options {
        Options { edition: self.edition, chunk: 40, check_only: true, deny: true, ..Options::default() }
    }
}

// ---------------------------------------------------------------------

/// C13: the types
pub struct Surface;

impl BatchCheck for Surface {
    type Case = ProbeCase;

    fn ahead(&self) -> usize {
        75
    }

    fn suspect(&self, c: &ProbeCase, programs: &[Program], _: &[Built]) -> bool {
        odd_declarations(c, programs)
    }

    fn generate(&self, t: &mut Tape) -> ProbeCase {
        let source = Source::gen(t, &|_, o| {
            o.headers = false;
            o.modules = 11;
            o.query = 3;
            o.param = 8;
            o.redirects = 6;
        });
        let mut r = Rng::new(t.seed());
        let all = gen::targets(&source.cfg.root);
        let mut p = String::from(
            "use std::fmt::{Debug, Display};
fn traits<T: Debug + PartialEq + Eq>(_: &T) {}
fn error<T: std::error::Error + Debug + Display + 'static>(_: &T) {}
fn all<A: AsRef<[u8]>, B: AsRef<[u8]>>(a: A, b: B) -> Result<G::routes::Match<G::routes::Route>, G::routes::Error> { G::routes::match_route(a, b) }
fn of<T>(_: &T) {}
",
        );
        let mut body = String::new();
        let mut expected = vec![];
        // the enums, exhaustively
        for (k, (path, actions, mods)) in probe::modules(&all).iter().enumerate() {
            let m = probe::module(path);
            p.push_str(&format!("#[allow(unused)] fn level{}(r: &{}::Route) -> String {{ match *r {{\n", k, m));
            for a in actions {
                p.push_str(&format!("  {m}::Route::{a}(ref v) => {{ let v: &{m}::{a} = v; format!(\"{a} {{:?}}\", v) }}\n", m = m, a = caps(a)));
            }
            for a in mods {
                let mut inner = path.clone();
                inner.push(a.clone());
                p.push_str(&format!(
                    "  {}::Route::{}(ref v) => {{ let v: &{}::Route = v; format!(\"{} {{:?}}\", v) }}\n",
                    m,
                    caps(a),
                    probe::module(&inner),
                    caps(a)
                ));
            }
            p.push_str("} }\n");
        }
        for x in all.iter().filter(|x| !x.res.redirect).take(30) {
            let ps = probe::params(x);
            let qs = probe::query(x);
            let texts: Vec<String> = ps.iter().map(|p| types::valid_text(&p.typ, &mut r)).collect();
            let queries: Vec<Option<String>> =
                qs.iter().map(|p| if r.next() % 2 == 0 { None } else { Some(types::valid_text(&p.typ, &mut r)) }).collect();
            let inner = probe::struct_expr(x, &texts, &queries, true);
            let name = format!("{}::{}", probe::module(&x.res.modules), caps(&x.res.name));
            // debug output shows the fields in order
            let mut fields: Vec<String> = vec![];
            for (p, t) in ps.iter().zip(&texts) {
                fields.push(format!("{}: {}", p.name, types::parse(&p.typ, t).unwrap().debug));
            }
            for (q, t) in qs.iter().zip(&queries) {
                fields.push(match t {
                    None => format!("{}: None", q.name),
                    Some(t) => format!("{}: Some({})", q.name, types::parse(&q.typ, t).unwrap().debug),
                });
            }
            let mut want = caps(&x.res.name);
            if !fields.is_empty() {
                want = format!("{} {{ {} }}", want, fields.join(", "));
            }
            body.push_str(&format!("out.push({{ let v: {} = {}; traits(&v); ", name, inner));
            if ps.len() + qs.len() > 0 {
                // taken apart, with all fields and their types
                let names: Vec<String> = ps.iter().chain(qs.iter()).map(|p| format!("{}: ref field_{}", p.name, p.name)).collect();
                body.push_str(&format!("{{ let {} {{ {} }} = v; ", name, names.join(", ")));
                for q in &ps {
                    body.push_str(&format!("of::<{}>(field_{}); ", probe::type_path(&q.typ), q.name));
                }
                for q in &qs {
                    body.push_str(&format!("of::<Option<{}>>(field_{}); ", probe::type_path(&q.typ), q.name));
                }
                body.push_str("} ");
            }
            body.push_str("format!(\"{:?}\", v) });\n");
            expected.push((format!("debug of {}", inner), want.clone()));

            // comparison: equal to itself, not to one with another field value
            let e = probe::route_expr(x, &inner, 0);
            body.push_str(&format!(
                "out.push({{ let a = {e}; let b = {e}; traits(&a); format!(\"{{}} {{}}\", a == b, a != b) }});\n",
                e = e
            ));
            expected.push((format!("{} == itself", e), "true false".to_string()));
            for (i, t) in texts.iter().enumerate() {
                let mut other = texts.clone();
                other[i] = types::valid_text(&ps[i].typ, &mut r);
                let same = types::parse(&ps[i].typ, t) == types::parse(&ps[i].typ, &other[i]);
                let e2 = probe::route_expr(x, &probe::struct_expr(x, &other, &queries, true), 0);
                body.push_str(&format!("out.push({{ let a = {}; let b = {}; format!(\"{{}}\", a == b) }});\n", e, e2));
                expected.push((format!("{} == {}", e, e2), format!("{}", same)));
            }
            for i in 0..queries.len() {
                let mut other = queries.clone();
                other[i] = match other[i] {
                    None => Some(types::valid_text(&qs[i].typ, &mut r)),
                    Some(_) => None,
                };
                let e2 = probe::route_expr(x, &probe::struct_expr(x, &texts, &other, true), 0);
                body.push_str(&format!("out.push({{ let a = {}; let b = {}; format!(\"{{}}\", a == b) }});\n", e, e2));
                expected.push((format!("{} == {}", e, e2), "false".to_string()));
            }
        }
        // match_route takes anything that is bytes
        for q in requests::generate(&source.cfg, 6, &mut r) {
            let (path, method) = match (std::str::from_utf8(&q.path), std::str::from_utf8(&q.method)) {
                (Ok(p), Ok(m)) => (p.to_string(), m.to_string()),
                _ => continue,
            };
            let (pl, ml) = (probe::lit(&path), probe::lit(&method));
            body.push_str(&format!(
                "out.push({{ let p = {p}; let m = {m};
    let a = format!(\"{{:?}}\", G::routes::match_route(p, m));
    let others = vec![
        format!(\"{{:?}}\", G::routes::match_route(p.to_string(), m.as_bytes())),
        format!(\"{{:?}}\", G::routes::match_route(p.as_bytes(), m.as_bytes().to_vec())),
        format!(\"{{:?}}\", G::routes::match_route(&p.to_string(), &m.to_string())),
        format!(\"{{:?}}\", G::routes::match_route(&p.as_bytes().to_vec(), m.to_string())),
        format!(\"{{:?}}\", all(p.as_bytes().to_vec().into_boxed_slice(), m)),
    ];
    match G::routes::match_route(p, m) {{
        Ok(ref x) => {{ traits(x); match x {{
            G::routes::Match::NotFound => {{}}
            G::routes::Match::NotAllowed => {{}}
            G::routes::Match::Route(ref r) => {{ let _: &G::routes::Route = r; level0(r); }}
            G::routes::Match::Redirect(ref r) => {{ let _: &G::routes::Route = r; level0(r); }}
        }} }}
        Err(ref e) => {{ error(e); let _: &G::routes::Error = e; }}
    }}
    others.iter().all(|o| *o == a).to_string() }});\n",
                p = pl,
                m = ml
            ));
            expected.push((format!("match_route gives the same for every kind of bytes: {} {}", pl, ml), "true".to_string()));
        }
        p.push_str(&format!("pub fn probe(out: &mut Vec<String>) {{\n{}}}\n", body));
        ProbeCase { source, requests: vec![], probe: p, expected, deviates: BTreeMap::new() }
    }

    fn units(&self, c: &ProbeCase) -> Result<Vec<Unit>, String> {
        probe_unit(c)
    }

    fn judge(&self, c: &ProbeCase, built: &[Built], notes: &mut Notes) -> Option<String> {
        let (_, lines) = match ran(c, built, notes) {
            Ok(x) => x,
            Err(e) => return e,
        };
        probe_lines(c, lines, notes)
    }
}

// ---------------------------------------------------------------------

/// C19 in compiled routers: below the mount point and elsewhere
pub struct Mounted {
    pub listed: Vec<String>,
}

pub struct MountCase {
    base: Source,
    mounted: Source,
    at: String,
    requests: Vec<Req>,
    // what to ask the combined router for each
    combined: Vec<Req>,
}

/// Actions of the two must not collide
fn rename(n: &mut Node, prefix: &str) {
    for r in &mut n.res {
        if r.modules.is_empty() {
            r.name = format!("{}{}", prefix, caps(&r.name));
        } else {
            r.modules[0] = format!("{}{}", prefix, caps(&r.modules[0]));
        }
    }
    for k in &mut n.kids {
        rename(&mut k.1, prefix);
    }
}

impl BatchCheck for Mounted {
    type Case = MountCase;

    fn ahead(&self) -> usize {
        50
    }

    fn generate(&self, t: &mut Tape) -> MountCase {
        let adjust = |t: &mut Tape, o: &mut Opts| {
            o.headers = t.chance(1, 4);
            o.max_nodes = 14;
            // query parameters of the base are inherited, and may collide
            o.query = 0;
        };
        let base = Source::gen(t, &adjust);
        let mut o = Opts::new(base.text.is_some());
        adjust(t, &mut o);
        o.query = 1;
        let mut cfg = gen::config(t, &o);
        rename(&mut cfg.root, "Sub");
        let mounted = Source::of(t, cfg, base.text.is_some());
        let mut at = t.pick(&["api", "v2", "a", "users", "admin", "x-y", "books", "new", "pe"]).to_string();
        while base.cfg.root.kids.iter().any(|k| matches!(&k.0, Seg::Static(s) if *s == at)) {
            at.push('m');
        }
        let mut r = Rng::new(t.seed());
        // first those for the mounted, then those for the base
        let mut requests = vec![];
        let mut combined = vec![];
        for q in requests::generate(&mounted.cfg, 50, &mut r) {
            if q.path.first() != Some(&b'/') {
                continue;
            }
            let mut path = format!("/{}", at).into_bytes();
            path.extend_from_slice(&q.path);
            requests.push(q.clone());
            combined.push(Req { path, method: q.method });
        }
        let n = requests.len();
        for q in requests::generate(&base.cfg, 30, &mut r) {
            let first = q.path.split(|b| *b == b'/').find(|s| !s.is_empty()).unwrap_or(b"");
            if first == at.as_bytes() {
                continue;
            }
            requests.push(q.clone());
            combined.push(q);
        }
        combined.push(Req { path: n.to_string().into_bytes(), method: vec![] });
        MountCase { base, mounted, at, requests, combined }
    }

    fn units(&self, c: &MountCase) -> Result<Vec<Unit>, String> {
        let split: usize = String::from_utf8(c.combined.last().unwrap().path.clone()).unwrap().parse().unwrap();
        let base = c.base.real();
        let mounted = c.mounted.real();
        let (base, mounted) = match (base, mounted) {
            (Ok(a), Ok(b)) => (a, b),
            _ => return Ok(vec![]),
        };
        let a = pipeline::codegen(&base);
        let b = pipeline::codegen(&mounted);
        let both = pipeline::guarded(|| base.clone().mount(&c.at, mounted.clone()));
        let both = both.and_then(|c| pipeline::codegen(&c));
        match (a, b, both) {
            (Ok(a), Ok(b), Ok(both)) => Ok(vec![
                Unit { code: b, requests: c.requests[..split].to_vec(), probe: None },
                Unit { code: a, requests: c.requests[split..].to_vec(), probe: None },
                Unit { code: both, requests: c.combined[..c.combined.len() - 1].to_vec(), probe: None },
            ]),
            (Ok(_), Ok(_), Err(e)) => Err(format!(
                "mounting fails: {}\nbase {}\nmounted at {} {}",
                e,
                c.base.show(),
                c.at,
                c.mounted.show()
            )),
            _ => Ok(vec![]),
        }
    }

    fn judge(&self, c: &MountCase, built: &[Built], notes: &mut Notes) -> Option<String> {
        let show = || format!("base {}\nmounted at {:?} {}", c.base.show(), c.at, c.mounted.show());
        let (b, a, both) = match (built.get(0), built.get(1), built.get(2)) {
            (Some(Built::Ran { obs: b, .. }), Some(Built::Ran { obs: a, .. }), Some(Built::Ran { obs, .. })) => (b, a, obs),
            (Some(Built::Ran { .. }), Some(Built::Ran { .. }), Some(Built::CompileError(e))) => {
                notes.evaluations += 1;
                return Some(format!("the code of the mounted configuration does not compile:\n{}\n{}", e, show()));
            }
            _ => {
                notes.label("no router");
                return None;
            }
        };
        let key = (hash_of(&c.base.cfg), hash_of(&c.mounted.cfg));
        // the combined configuration, as the model sees it, to tell where known findings decide
        let mut all = c.base.cfg.root.clone();
        all.kids.push((Seg::Static(c.at.clone()), c.mounted.cfg.root.clone()));
        let separate: Vec<&Obs> = b.iter().chain(a.iter()).collect();
        for (i, (s, x)) in separate.iter().zip(both).enumerate() {
            let q = &c.combined[i];
            let below = i < b.len();
            let root = if below { &c.mounted.cfg.root } else { &c.base.cfg.root };
            let own = &c.requests[i];
            let known = model::as_is(&all, &q.path, &q.method).1.known()
                || model::as_is(root, &own.path, &own.method).1.known()
                || model::ideal(&all, &q.path, &q.method).1.known()
                || model::ideal(root, &own.path, &own.method).1.known();
            if known {
                notes.known.push("K1-K4 shapes, excluded here".into());
                continue;
            }
            notes.evaluations += 1;
            notes.label(if below { "request below the mount point" } else { "request elsewhere" });
            if !matches!(s, Obs::NotFound) {
                notes.nontrivial.push(hash_of(&(key, q)));
                if notes.samples.is_empty() {
                    notes.samples.push(format!("{} => {} in {}", q.show(), show_obs(x), show()));
                }
            }
            let fits = match (*s, x) {
                (Obs::Route { debug: d, path: p, .. }, Obs::Route { debug: e, path: o, .. })
                | (Obs::Redirect { debug: d, path: p, .. }, Obs::Redirect { debug: e, path: o, .. }) => {
                    d == e
                        && if below {
                            // "/" is the root, or an empty parameter just below it
                            *o == format!("/{}{}", c.at, p) || (p == "/" && *o == format!("/{}", c.at))
                        } else {
                            o == p
                        }
                }
                (s, x) => same(s, x),
            };
            if !fits {
                return Some(format!(
                    "request {} in the combined router: {}\nrequest {} in its own router: {}\n{}",
                    q.show(),
                    show_obs(x),
                    own.show(),
                    show_obs(s),
                    show()
                ));
            }
        }
        let _ = &self.listed;
        None
    }
}
