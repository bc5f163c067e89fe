//! What must not depend on what happened before, how much there is of it,
//! or how it was put together.

use crate::batch::{Built, Unit};
use crate::cfg::*;
use crate::checks::routers::same;
use crate::checks::routing::{shape_labels, show_obs};
use crate::checks::texts;
use crate::engine::{BatchCheck, Notes};
use crate::gen::{self, Opts};
use crate::model::{self, Outcome};
use crate::pipeline::{self, guarded, Source};
use crate::report::hash_of;
use crate::requests::{self, Req};
use crate::tape::{Rng, Tape};
use crate::types;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::io::{self, Write};
use std::process::{Command, Stdio};
use wayfinder::{Header, Method, NestedRoutes, Param, PathSegment, Resource, RouteConfig, Routes};

// ---------------------------------------------------------------------

/// C31: matching has no memory
pub struct Memory;

pub struct Asked {
    source: Source,
    once: Vec<Req>,
    /// numbers of requests, in the order they are asked
    order: Vec<usize>,
    threads: String,
}

fn literal(b: &[u8]) -> String {
    let inner: String = b.iter().map(|b| format!("\\x{:02x}", b)).collect();
    format!("b\"{}\"", inner)
}

fn asked(once: &[Req]) -> String {
    let mut s = String::from("pub const ASKED: &[(&[u8], &[u8])] = &[\n");
    for q in once {
        s.push_str(&format!("    ({}, {}),\n", literal(&q.path), literal(&q.method)));
    }
    s.push_str("];\n");
    s
}

/// Four threads ask everything, each in an order of its own, and each with
/// path and method as another type
fn threads(once: &[Req], r: &mut Rng) -> String {
    let mut s = asked(once);
    s.push_str("const ORDERS: &[&[usize]] = &[\n");
    for _ in 0..4 {
        let mut order: Vec<usize> = (0..once.len()).chain(0..once.len()).collect();
        for i in (1..order.len()).rev() {
            order.swap(i, (r.next() % (i as u64 + 1)) as usize);
        }
        s.push_str(&format!("    &{:?},\n", order));
    }
    s.push_str(
        r##"];
static MEET: std::sync::Barrier = std::sync::Barrier::new(4);
struct Own(Vec<u8>);
impl AsRef<[u8]> for Own {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
fn answer(i: usize, form: usize) -> String {
    use std::str::from_utf8;
    let (p, m) = ASKED[i];
    match std::panic::catch_unwind(|| match (form, from_utf8(p), from_utf8(m)) {
        (1, Ok(p), Ok(m)) => G::routes::match_route(p, m),
        (1, _, Ok(m)) => G::routes::match_route(p, m),
        (2, Ok(p), Ok(m)) => G::routes::match_route(p.to_string(), m.to_string()),
        (2, Ok(p), _) => G::routes::match_route(p.to_string(), m.to_vec()),
        (3, _, Ok(m)) => G::routes::match_route(Own(p.to_vec()), &m),
        (_, _, _) if form > 0 => G::routes::match_route(p.to_vec(), Own(m.to_vec())),
        _ => G::routes::match_route(p, m),
    }) {
        Ok(Ok(x)) => format!("{:?}", x),
        Ok(Err(e)) => format!("{:?}", e),
        Err(_) => "panic".to_string(),
    }
}
pub fn probe(out: &mut Vec<String>) {
    let first: Vec<String> = (0..ASKED.len()).map(|i| answer(i, 0)).collect();
    let first = std::sync::Arc::new(first);
    let hands: Vec<_> = ORDERS
        .iter()
        .enumerate()
        .map(|(n, order)| {
            let first = first.clone();
            std::thread::spawn(move || {
                MEET.wait();
                // long enough for the threads to come between one another
                let times = 1 + 4000 / order.len().max(1);
                for _ in 0..times {
                    for i in order.iter() {
                        let a = answer(*i, n);
                        if a != first[*i] {
                            return Some((*i, a));
                        }
                    }
                }
                None
            })
        })
        .collect();
    for (n, h) in hands.into_iter().enumerate() {
        if let Some((i, a)) = h.join().unwrap() {
            out.push(format!("request {} was answered {} in thread {} (which gives path and method as another type), and {} by itself", i, a, n, first[i]));
            return;
        }
    }
    out.push("the same".to_string());
}
"##,
    );
    s
}

impl BatchCheck for Memory {
    type Case = Asked;

    fn generate(&self, t: &mut Tape) -> Asked {
        let source = Source::gen(t, &|_, o| o.headers = false);
        let n = *t.pick(&[4usize, 12, 30]);
        let len = *t.pick(&[10usize, 60, 150]);
        let mut r = Rng::new(t.seed());
        let mut once: Vec<Req> = vec![];
        for q in requests::generate(&source.cfg, n, &mut r) {
            if !once.contains(&q) {
                once.push(q);
            }
        }
        // a path again with other methods, and methods on other paths
        for i in 0..once.len().min(6) {
            let j = (r.next() % once.len() as u64) as usize;
            let q = Req { path: once[i].path.clone(), method: once[j].method.clone() };
            if !once.contains(&q) {
                once.push(q);
            }
        }
        let mut order: Vec<usize> = vec![];
        for _ in 0..len {
            let i = match order.last() {
                // the same again, at once or a little later
                Some(&i) if r.next() % 4 == 0 => i,
                Some(_) if r.next() % 4 == 0 => order[order.len() - order.len().min(3)],
                _ => (r.next() % once.len().max(1) as u64) as usize,
            };
            order.push(i);
        }
        if once.is_empty() {
            order.clear();
        }
        let threads = threads(&once, &mut r);
        Asked { source, once, order, threads }
    }

    fn units(&self, c: &Asked) -> Result<Vec<Unit>, String> {
        Ok(match c.source.code() {
            Ok(code) => vec![
                Unit { code: code.clone(), requests: c.once.clone(), probe: None },
                Unit {
                    code,
                    requests: c.order.iter().map(|i| c.once[*i].clone()).collect(),
                    probe: Some(c.threads.clone()),
                },
            ],
            // what cannot be generated is the business of C01 and C23
            Err(_) => vec![],
        })
    }

    fn judge(&self, c: &Asked, built: &[Built], notes: &mut Notes) -> Option<String> {
        let (once, again, probe) = match (built.get(0), built.get(1)) {
            (Some(Built::Ran { obs: a, .. }), Some(Built::Ran { obs: b, probe })) => (a, b, probe),
            _ => {
                notes.label("no router");
                return None;
            }
        };
        shape_labels(&c.source.cfg, notes);
        let key = hash_of(&c.source.cfg);
        let mut last: Option<usize> = None;
        for (n, (&i, b)) in c.order.iter().zip(again).enumerate() {
            let a = match once.get(i) {
                Some(a) => a,
                None => break,
            };
            notes.evaluations += 1;
            if !matches!(a, crate::batch::Obs::NotFound) {
                notes.nontrivial.push(hash_of(&(key, &c.once[i], last)));
            }
            if !same(a, b) {
                return Some(format!(
                    "request {} was answered {}\nafter {} other requests, the last of them {}, it was answered {}\n{}",
                    c.once[i].show(),
                    show_obs(a),
                    n,
                    last.map_or("none".to_string(), |l| c.once[l].show()),
                    show_obs(b),
                    c.source.show()
                ));
            }
            last = Some(i);
        }
        if let Some(q) = c.once.get(0) {
            notes.samples.push(format!(
                "{} requests, asked {} times in one order and at least {} in four threads, such as {}",
                c.once.len(),
                c.order.len(),
                8 * c.once.len(),
                q.show()
            ));
        }
        match probe.get(0).map(|s| s.as_str()) {
            Some("the same") => {
                notes.evaluations += 8 * c.once.len() as u64;
                notes.label("threads: the same");
                None
            }
            // an abort; the requests tell
            None => {
                notes.label("threads: none");
                None
            }
            Some(x) => Some(format!(
                "{}\nwith the requests {}\n{}",
                x,
                c.once.iter().enumerate().map(|(i, q)| format!("{}: {}", i, q.show())).collect::<Vec<_>>().join(", "),
                c.source.show()
            )),
        }
    }
}

// ---------------------------------------------------------------------

/// C36: matching does what the request calls for, and no more
pub struct Economy;

pub struct Watched {
    source: Source,
    requests: Vec<Req>,
}

impl BatchCheck for Economy {
    type Case = Watched;

    fn generate(&self, t: &mut Tape) -> Watched {
        let source = Source::gen(t, &|t, o| {
            o.headers = false;
            o.own_types = t.chance(3, 4);
            o.param = 10;
        });
        let n = *t.pick(&[20usize, 60, 120]);
        let mut r = Rng::new(t.seed());
        let requests = requests::generate(&source.cfg, n, &mut r);
        Watched { source, requests }
    }

    fn units(&self, c: &Watched) -> Result<Vec<Unit>, String> {
        let mut s = asked(&c.requests);
        s.push_str(
            r##"pub fn probe(out: &mut Vec<String>) {
    for &(p, m) in ASKED {
        let line = std::panic::catch_unwind(|| {
            crate::support::watch();
            let answer = G::routes::match_route(p, m);
            let (n, bytes, texts) = crate::support::watched();
            let shown = match answer {
                Ok(G::routes::Match::NotFound) => "N".to_string(),
                Ok(G::routes::Match::NotAllowed) => "A".to_string(),
                Ok(G::routes::Match::Route(x)) => format!("R{:?}", x),
                Ok(G::routes::Match::Redirect(x)) => format!("D{:?}", x),
                Err(e) => format!("E{}", e),
            };
            format!("{} {} {:?}\u{1}{}", n, bytes, texts, shown)
        });
        out.push(line.unwrap_or_default());
    }
}
"##,
        );
        Ok(match c.source.code() {
            Ok(code) => vec![Unit { code, requests: vec![], probe: Some(s) }],
            Err(_) => vec![],
        })
    }

    fn judge(&self, c: &Watched, built: &[Built], notes: &mut Notes) -> Option<String> {
        let lines = match built.get(0) {
            Some(Built::Ran { probe, .. }) => probe,
            _ => {
                notes.label("no router");
                return None;
            }
        };
        shape_labels(&c.source.cfg, notes);
        let key = hash_of(&c.source.cfg);
        for (q, line) in c.requests.iter().zip(lines) {
            let (o, tr) = model::ideal(&c.source.cfg.root, &q.path, &q.method);
            let (work, shown) = match line.split_once('\u{1}') {
                Some(x) if !tr.known() => x,
                // a panic or a listed finding
                _ => {
                    notes.label("left to other properties");
                    continue;
                }
            };
            let right = match &o {
                Outcome::NotFound => shown == "N",
                Outcome::NotAllowed => shown == "A",
                Outcome::Route { debug, .. } => shown.strip_prefix('R') == Some(debug),
                Outcome::Redirect { debug, .. } => shown.strip_prefix('D') == Some(debug),
                Outcome::Err { .. } => shown.starts_with('E'),
                _ => false,
            };
            if !right {
                notes.label("left to other properties");
                continue;
            }
            notes.evaluations += 1;
            if tr.params + tr.statics > 0 {
                notes.nontrivial.push(hash_of(&(key, q)));
            }
            let mut f = work.splitn(3, ' ');
            let taken: u64 = f.next().and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
            let bytes: u64 = f.next().and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
            let texts = f.next().unwrap_or("");
            let ours: Vec<(&str, &String)> =
                tr.asked.iter().map(|(t, x)| (types::base(t), x)).filter(|(t, _)| ["Even", "Slug", "Hex", "Any"].contains(t)).collect();
            let mut most: (u64, u64) = (0, 0);
            for (t, x) in &tr.asked {
                if ["String", "Slug", "Any"].contains(&types::base(t)) {
                    most.0 += 1;
                    most.1 += x.len() as u64;
                }
            }
            if let Outcome::Err { param, .. } = &o {
                // the error's own name and boxed cause, and what the cause holds
                most.0 += 3;
                most.1 += 64 + param.len() as u64 + tr.asked.last().map_or(0, |x| x.1.len() as u64);
            }
            notes.label(match (tr.asked.len(), &o) {
                (_, Outcome::Err { .. }) => "a parameter refused",
                (0, _) => "nothing to parse",
                (1, _) => "one parameter",
                _ => "several parameters",
            });
            if most.0 == 0 {
                notes.label("no memory to be taken");
            }
            if notes.samples.is_empty() && !ours.is_empty() {
                notes.samples.push(format!("{} takes {} allocations of {} bytes and parses {}", q.show(), taken, bytes, texts));
            }
            let wrong = if texts != format!("{:?}", ours) {
                format!("parsed {}\nand not     {:?}", texts, ours)
            } else if taken > most.0 || bytes > most.1 {
                format!("took {} allocations of {} bytes altogether, where {} of {} are called for", taken, bytes, most.0, most.1)
            } else {
                continue;
            };
            return Some(format!("request {}, which was answered {}\n{}\n{}", q.show(), shown, wrong, c.source.show()));
        }
        None
    }
}

// ---------------------------------------------------------------------

/// The configuration, or the report
fn reading(text: &str) -> String {
    let r = guarded(|| {
        let r = wayfinder::parse::route_config(text);
        match r {
            Ok((rest, c)) => format!("accepted {:?} {:?}", rest.0, c),
            e => {
                let mut out = vec![];
                wayfinder::parse::errors::show_errors(&mut out, text, e, "");
                String::from_utf8_lossy(&out).to_string()
            }
        }
    });
    r.unwrap_or_else(|p| format!("panic: {}", p))
}

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}

fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(b'?')).collect();
    String::from_utf8_lossy(&b).to_string()
}

/// `wfcheck __read`: reads the texts on standard input, one a line
pub fn child() {
    let mut s = String::new();
    let _ = io::Read::read_to_string(&mut io::stdin(), &mut s);
    let mut out = String::new();
    for l in s.lines() {
        out.push_str(&hex(&reading(&unhex(l))));
        out.push('\n');
    }
    let _ = io::stdout().write_all(out.as_bytes());
}

fn elsewhere(texts: &[&String]) -> Option<Vec<String>> {
    let mut c = Command::new(std::env::current_exe().ok()?)
        .arg("__read")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let input: String = texts.iter().map(|t| format!("{}\n", hex(t))).collect();
    let mut stdin = c.stdin.take()?;
    let writer = std::thread::spawn(move || {
        let _ = stdin.write_all(input.as_bytes());
    });
    let out = c.wait_with_output().ok()?;
    let _ = writer.join();
    Some(String::from_utf8_lossy(&out.stdout).lines().map(unhex).collect())
}

/// C32: parsing has no memory
pub fn parsing(t: &mut Tape, notes: &mut Notes) -> Option<String> {
    let n = t.range(2, 6);
    let mut all: Vec<String> = vec![];
    for _ in 0..n {
        all.push(match t.weighted(&[6, 3]) {
            0 => texts::any_text(t, notes),
            _ => texts::wild(t),
        });
    }
    let other_process = t.chance(1, 8);
    let order: Vec<usize> = (0..t.range(n, 3 * n)).map(|_| t.size(n)).collect();
    let first: Vec<String> = all.iter().map(|s| reading(s)).collect();
    for (s, f) in all.iter().zip(&first) {
        notes.label(if f.starts_with("accepted") { "accepted" } else { "refused" });
        if s.len() > 1 {
            notes.nontrivial.push(hash_of(s));
        }
    }
    notes.samples.push(format!("{:?}", all.iter().map(|s| s.chars().take(60).collect::<String>()).collect::<Vec<_>>()));
    let differs = |i: usize, other: &str, what: &str| {
        if other == first[i] {
            None
        } else {
            Some(format!("the text {:?}\nwas read as\n{}\nand {} as\n{}", all[i], first[i], what, other))
        }
    };
    for &i in &order {
        notes.evaluations += 1;
        if let Some(v) = differs(i, &reading(&all[i]), "later in the same process") {
            return Some(v);
        }
    }
    // in other threads at the same time
    let seen: Vec<Vec<(usize, String)>> = std::thread::scope(|s| {
        let hands: Vec<_> = (0..3usize)
            .map(|k| {
                let (all, order) = (&all, &order);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        order.iter().map(|i| (i + k) % all.len()).map(|i| (i, reading(&all[i]))).collect()
                    })
                    .expect("thread")
            })
            .collect();
        hands.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for (i, s) in seen.into_iter().flatten() {
        notes.evaluations += 1;
        if let Some(v) = differs(i, &s, "beside other threads") {
            return Some(v);
        }
    }
    if other_process {
        notes.label("in another process");
        let mut back: Vec<usize> = (0..n).rev().collect();
        let turn = t.size(n);
        back.rotate_left(turn);
        let told = elsewhere(&back.iter().map(|i| &all[*i]).collect::<Vec<_>>());
        let told = match told {
            Some(t) if t.len() == n => t,
            x => return Some(format!("another process ended while it read {:?}: {:?}", all, x)),
        };
        for (i, s) in back.iter().zip(&told) {
            notes.evaluations += 1;
            let before: Vec<usize> = back.iter().take_while(|j| *j != i).cloned().collect();
            let what = format!("in a new process, after the texts {:?},", before.iter().map(|i| &all[*i]).collect::<Vec<_>>());
            if let Some(v) = differs(*i, s, &what) {
                return Some(v);
            }
        }
    }
    None
}

// ---------------------------------------------------------------------

/// Counts lines, and gives up at a limit
struct Counter {
    lines: usize,
    bytes: usize,
}

const MOST: usize = 256 << 20;

impl Write for Counter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.bytes += b.len();
        self.lines += b.iter().filter(|b| **b == b'\n').count();
        if self.bytes > MOST {
            return Err(io::Error::new(io::ErrorKind::Other, "enough"));
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn in_module(n: &mut Node, module: &str) {
    for r in &mut n.res {
        r.modules.insert(0, module.to_string());
    }
    for k in &mut n.kids {
        in_module(&mut k.1, module);
    }
}

/// k copies side by side
fn copies(c: &Node, k: usize) -> Node {
    let mut n = Node::default();
    for i in 0..k {
        let mut copy = c.clone();
        in_module(&mut copy, &format!("part{:03}", i));
        n.kids.push((Seg::Static(format!("s{:03}", i)), copy));
    }
    n
}

/// at the end of a path of n segments, every other one a parameter if mixed,
/// with a resource at each
fn below(c: &Node, n: usize, how: usize) -> Node {
    let mut at = c.clone();
    in_module(&mut at, "part");
    for i in (0..n).rev() {
        let mut up = Node::default();
        let res = |name: String| R { method: M::Get, modules: vec!["way".to_string()], name, redirect: false, query: vec![] };
        up.res.push(res(format!("At{:03}", i)));
        match how {
            0 => up.kids.push((Seg::Static(format!("d{:03}", i)), at)),
            1 if i % 2 == 0 => up.kids.push((Seg::Param(P::new(&format!("way{:03}", i), "u8")), at)),
            1 => up.kids.push((Seg::Static(format!("d{:03}", i)), at)),
            // a parameter beside static segments, the way goes on through the parameter or one of them
            _ => {
                let end = |x: &str| Node { res: vec![res(format!("{}{:03}", x, i))], ..Node::default() };
                up.kids.push((Seg::Static(format!("e{:03}", i)), end("East")));
                if how == 2 {
                    up.kids.push((Seg::Static(format!("d{:03}", i)), end("Dead")));
                    up.kids.push((Seg::Param(P::new(&format!("way{:03}", i), "u8")), at));
                } else {
                    up.kids.push((Seg::Static(format!("d{:03}", i)), at));
                    up.kids.push((Seg::Param(P::new(&format!("way{:03}", i), "u8")), end("Dead")));
                }
            }
        }
        at = up;
    }
    at
}

/// The same with parameters and modules of its own
fn renumbered(n: &Node, i: usize) -> Node {
    let p = |p: &P| P { name: format!("{}_n{:03}", p.name, i), typ: p.typ.clone() };
    Node {
        query: n.query.iter().map(p).collect(),
        res: n.res.iter().map(|r| R { query: r.query.iter().map(p).collect(), ..r.clone() }).collect(),
        kids: n
            .kids
            .iter()
            .map(|(s, k)| {
                let s = match s {
                    Seg::Param(q) => Seg::Param(p(q)),
                    Seg::Static(s) => Seg::Static(s.clone()),
                };
                (s, renumbered(k, i))
            })
            .collect(),
    }
}

/// The block at one of the places, counted from the top
fn place<'a>(n: &'a mut Node, k: &mut usize) -> Option<&'a mut Node> {
    if *k == 0 {
        return Some(n);
    }
    *k -= 1;
    for (_, kid) in &mut n.kids {
        if let Some(x) = place(kid, k) {
            return Some(x);
        }
    }
    None
}

/// A path on which the same comes again and again: each time the way goes on
/// at one place in it, through a parameter or a static segment
fn ladder(c: &Node, n: usize, at: usize, param: bool) -> Node {
    let mut below: Option<Node> = None;
    for i in (0..n).rev() {
        let mut rung = renumbered(c, i);
        in_module(&mut rung, &format!("part{:03}", i));
        if let Some(b) = below {
            let seg = match param {
                true => Seg::Param(P::new(&format!("way{:03}", i), "u8")),
                false => Seg::Static(format!("d{:03}", i)),
            };
            let mut k = at;
            let to = match place(&mut rung, &mut k) {
                Some(x) => x,
                None => return rung,
            };
            match to.kids.iter_mut().find(|k| param && matches!(k.0, Seg::Param(_))) {
                // there is a parameter already: through that
                Some(k) => k.1.kids.push((Seg::Static("on_further".to_string()), b)),
                None => to.kids.push((seg, b)),
            }
        }
        below = Some(rung);
    }
    below.unwrap_or_default()
}

fn lines_of(c: &Cfg) -> Result<usize, String> {
    let text = to_text(c, &Layout::default());
    let real = pipeline::parse(&text).map_err(|e| format!("refused: {}", e))?;
    let again = real.stringify();
    if again.len() > 4 * text.len() + 1000 {
        return Err(format!("stringify made {} bytes of {}", again.len(), text.len()));
    }
    let mut w = Counter { lines: 0, bytes: 0 };
    match guarded(|| wayfinder::gen::codegen(&mut w, &real).map_err(|e| e.to_string())) {
        Ok(Ok(())) => Ok(w.lines),
        _ if w.bytes > MOST => Err(format!("more than {} bytes of code", MOST)),
        Ok(Err(e)) | Err(e) => Err(format!("no code: {}", e)),
    }
}

/// C33: cost in proportion
pub fn growth(t: &mut Tape, notes: &mut Notes) -> Option<String> {
    let mut o = Opts::new(true);
    o.max_nodes = *t.pick(&[2, 4, 8, 12]);
    o.redirects = 0;
    o.param = *t.pick(&[4, 10]);
    let mut c = gen::config(t, &o);
    c.headers.truncate(3);
    let kind = t.weighted(&[4, 4, 4]);
    let how = t.size(4);
    let at = t.size(c.root.count());
    let sizes: &[(usize, usize, usize)] = match kind {
        0 if t.chance(1, 10) => &[(50, 100, 200)],
        // the code is set in as deep as the path is long
        2 if c.root.count() > 12 => &[(2, 4, 8)],
        2 if c.root.count() > 4 => &[(2, 4, 8), (4, 8, 16)],
        _ => &[(2, 4, 8), (4, 8, 16), (10, 20, 40)],
    };
    let (a, b, d) = *t.pick(sizes);
    let make = |n: usize| Cfg {
        headers: c.headers.clone(),
        root: match kind {
            0 => copies(&c.root, n),
            1 => below(&c.root, n, how),
            _ => ladder(&c.root, n, at, how % 2 == 0),
        },
    };
    let what = match (kind, how) {
        (0, _) => "side by side",
        (1, 0) => "deep: static segments",
        (1, 1) => "deep: parameters and static segments",
        (1, 2) => "deep: parameters beside static segments",
        (1, _) => "deep: static segments beside parameters",
        (_, h) if h % 2 == 0 => "again and again: through a parameter",
        _ => "again and again: through a static segment",
    };
    notes.label(what);
    let mut seen = vec![];
    for n in [a, b, d] {
        match lines_of(&make(n)) {
            Ok(l) => seen.push(l),
            Err(e) => {
                return Some(format!(
                    "{} for {} times ({}) this configuration:\n{}",
                    e,
                    n,
                    what,
                    pipeline::indent(&to_text(&c, &Layout::default()))
                ))
            }
        }
    }
    if c.root.count() > 1 {
        notes.nontrivial.push(hash_of(&(&c, a, kind, how, at)));
    }
    let (x, y) = (seen[1].saturating_sub(seen[0]), seen[2].saturating_sub(seen[1]));
    notes.samples.push(format!("{:?} times: {:?} lines of code ({})", (a, b, d), seen, what));
    // twice as many more; a longer path has more parameters, too, each of
    // which is a line at every resource after it
    let most = if kind == 0 { 3 * x + 200 } else { 4 * x + 400 };
    if y > most {
        return Some(format!(
            "{}, {} and {} times ({}) this configuration is {:?} lines of code:\n{}",
            a,
            b,
            d,
            what,
            seen,
            pipeline::indent(&to_text(&c, &Layout::default()))
        ));
    }
    None
}

// ---------------------------------------------------------------------

fn string(t: &mut Tape) -> String {
    match t.weighted(&[4, 3, 3]) {
        0 => t
            .pick(&["users", "", " ", "{id: u32}", "id: u32", "->", "a::b", "r#type", "r#", "/", "a/b", "GET", "[q: u8]", "_", "a b", " a", "a ", "é", "日本", "\t", "\"", "\\", "{}", "Id", "ID", "id"])
            .to_string(),
        1 => (0..t.range(0, 12)).map(|_| (b' ' + t.below(95) as u8) as char).collect(),
        _ => (0..t.range(0, 5)).map(|_| char::from_u32(t.below(0x3000) as u32).unwrap_or('x')).collect(),
    }
}

fn hashed<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// One thing is changed, somewhere
fn change(c: &mut Cfg, t: &mut Tape) -> &'static str {
    fn node<'a>(n: &'a mut Node, t: &mut Tape) -> &'a mut Node {
        if n.kids.is_empty() || t.chance(1, 3) {
            return n;
        }
        let i = t.size(n.kids.len());
        node(&mut n.kids[i].1, t)
    }
    let k = t.size(9);
    let n = node(&mut c.root, t);
    match k {
        0 => {
            c.headers.push("use a::B;".to_string());
            "a header"
        }
        1 if !n.kids.is_empty() => {
            let i = t.size(n.kids.len());
            match n.kids[i].0 {
                Seg::Static(ref mut s) => s.push('x'),
                Seg::Param(ref mut p) => p.name.push('x'),
            }
            "a segment"
        }
        2 if !n.kids.is_empty() => {
            n.kids.pop();
            "a block less"
        }
        3 if !n.res.is_empty() => {
            let i = t.size(n.res.len());
            n.res[i].redirect = !n.res[i].redirect;
            "the redirect mark"
        }
        4 if !n.res.is_empty() => {
            let i = t.size(n.res.len());
            n.res[i].method = if n.res[i].method == M::Get { M::Put } else { M::Get };
            "a method"
        }
        5 if !n.res.is_empty() => {
            let i = t.size(n.res.len());
            n.res[i].modules.push("m".to_string());
            "a module"
        }
        6 if !n.res.is_empty() => {
            let i = t.size(n.res.len());
            n.res[i].name.push('x');
            "a name"
        }
        7 if !n.res.is_empty() => {
            let i = t.size(n.res.len());
            match n.res[i].query.last_mut() {
                Some(q) => q.typ.push('x'),
                None => n.res[i].query.push(P::new("q", "u8")),
            }
            "a query parameter of a resource"
        }
        _ => {
            n.query.push(P::new("added", "u8"));
            "a query parameter of a block"
        }
    }
}

/// Every line two spaces further in
fn further(s: &str, n: usize) -> String {
    s.split_inclusive('\n').map(|l| format!("{}{}", "  ".repeat(n), l)).collect()
}

/// C34: values are what they were made of
pub fn values(t: &mut Tape, notes: &mut Notes) -> Option<String> {
    let (s, n, y) = (string(t), string(t), string(t));
    let mut wrong: Vec<String> = vec![];
    macro_rules! must {
        ($what:expr, $e:expr) => {
            notes.evaluations += 1;
            if !$e {
                wrong.push(format!("{}: {}", $what, stringify!($e)));
            }
        };
    }
    let names = format!("{:?} {:?} {:?}", s, n, y);
    notes.nontrivial.push(hash_of(&(&s, &n, &y)));
    // the parts
    must!(names, Header::new(&s).text == s);
    must!(names, Header::new(s.clone()) == Header { text: s.clone() });
    must!(names, (Header::new(&s) == Header::new(&n)) == (s == n));
    must!(names, hashed(&Header::new(&s)) == hashed(&Header { text: s.clone() }));
    let p = Param::new(&n, &y);
    must!(names, p.name == n && p.typ == y);
    must!(names, p == Param { name: n.clone(), typ: y.clone() });
    must!(names, p.to_string() == format!("{}: {}", n, y));
    must!(names, (Param::new(&n, &y) == Param::new(&n, &s)) == (y == s));
    must!(names, (Param::new(&n, &y) == Param::new(&s, &y)) == (n == s));
    must!(names, PathSegment::from(&s) == PathSegment::Static(s.clone()));
    must!(names, PathSegment::from(s.as_str()) == PathSegment::Static(s.clone()));
    must!(names, PathSegment::from(s.clone()) == PathSegment::Static(s.clone()));
    must!(names, PathSegment::from(p.clone()) == PathSegment::Dynamic(p.clone()));
    must!(names, PathSegment::from(p.to_string()) != PathSegment::from(p.clone()));
    must!(names, PathSegment::from(&s).to_string() == s);
    must!(names, PathSegment::from(p.clone()).to_string() == p.to_string());
    // resources
    let handler: Vec<String> = (0..t.range(1, 5)).map(|_| string(t)).collect();
    let m = *t.pick(&METHODS);
    let redirect = t.chance(1, 2);
    let query: Vec<P> = (0..t.count(1, 2, 3)).map(|_| P { name: string(t), typ: string(t) }).collect();
    let query: Vec<Param> = query.iter().map(|q| q.real()).collect();
    let r = Resource::make(m.real(), handler.clone(), redirect, query.clone());
    let by_hand = Resource {
        method: m.real(),
        modules: handler[..handler.len() - 1].to_vec(),
        name: handler[handler.len() - 1].clone(),
        is_redirect: redirect,
        query_parameters: query,
    };
    let what = format!("{:?}", handler);
    must!(what, r == by_hand);
    must!(what, r.clone() == by_hand);
    must!(m.name(), m.real().to_string() == m.name());
    must!(m.name(), m.real().byte_str() == format!("b\"{}\"", m.name()));
    let all: Vec<Method> = METHODS.iter().map(|m| m.real()).collect();
    must!(m.name(), all.iter().filter(|x| **x == m.real()).count() == 1);
    // the whole
    must!("defaults", RouteConfig::default() == RouteConfig { headers: vec![], routes: Routes::default() });
    must!("defaults", Routes::default() == Routes { resources: vec![], routes: vec![], query_parameters: vec![] });
    let mut o = Opts::new(t.chance(1, 2));
    o.max_nodes = *t.pick(&[3, 12, 30]);
    o.query = *t.pick(&[1, 6]);
    let mut c = gen::config(t, &o);
    let real = c.real();
    let text = || pipeline::indent(&to_text(&c, &Layout::default()));
    must!(text(), real.clone() == real);
    must!(text(), c.real() == real);
    let routes = real.routes.clone();
    must!(names, NestedRoutes::new(&s, routes.clone()) == NestedRoutes { path_segment: PathSegment::Static(s.clone()), routes: routes.clone() });
    must!(names, NestedRoutes::new(p.clone(), routes.clone()) == NestedRoutes { path_segment: PathSegment::Dynamic(p.clone()), routes: routes.clone() });
    // printing a part is printing it further in or further out
    let level = t.range(0, 12);
    let mut parts: HashMap<&str, usize> = HashMap::new();
    fn all_parts<'a>(r: &'a Routes, f: &mut dyn FnMut(&'a Routes, Option<&'a NestedRoutes>)) {
        f(r, None);
        for n in &r.routes {
            f(r, Some(n));
            all_parts(&n.routes, f);
        }
    }
    let mut printed: Vec<(String, String, String)> = vec![];
    all_parts(&real.routes, &mut |r, n| match n {
        None => {
            printed.push(("routes".into(), r.stringify(0), r.stringify(level)));
            for x in &r.resources {
                printed.push(("resource".into(), x.stringify(0), x.stringify(level)));
            }
        }
        Some(n) => printed.push(("block".into(), n.stringify(0), n.stringify(level))),
    });
    for (kind, at_zero, at_level) in printed.iter().take(30) {
        *parts.entry(match kind.as_str() { "routes" => "printed: routes", "resource" => "printed: resource", _ => "printed: block" }).or_insert(0) += 1;
        must!(format!("{} printed at level {}:\n{}and at level 0:\n{}", kind, level, at_level, at_zero), further(at_zero, level) == *at_level);
    }
    must!(text(), real.stringify().ends_with(&real.routes.stringify(1)));
    for (k, _) in parts {
        notes.label(k);
    }
    // and only equal things are equal
    drop(text);
    let before = pipeline::indent(&to_text(&c, &Layout::default()));
    let what = change(&mut c, t);
    notes.label(what);
    must!(format!("after a change of {}, {}", what, before), c.real() != real);
    notes.samples.push(format!("{} and, changed in {}:\n{}", names, what, before));
    match wrong.is_empty() {
        true => None,
        false => Some(format!("does not hold for {}", wrong.join("\n"))),
    }
}
