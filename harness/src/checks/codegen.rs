//! The text of generated code: headers, documentation, determinism,
//! conflicts, faults while writing; and mounting as an operation on structs.

use crate::batch::{Built, Unit};
use crate::cfg::*;
use crate::engine::{BatchCheck, Notes};
use crate::gen::{self, Opts, Target};
use crate::pipeline::{self, guarded, indent, Source};
use crate::probe;
use crate::refparse::{self, Read};
use crate::report::hash_of;
use crate::tape::{Rng, Tape};
use std::io::{self, Write};
use std::process::Command;

fn plain(c: &Cfg) -> String {
    indent(&to_text(c, &Layout::default()))
}

fn generated(t: &mut Tape) -> Source {
    Source::gen(t, &|t, o| {
        o.redirects = 6;
        o.query = *t.pick(&[1, 4]);
        o.modules = *t.pick(&[8, 12]);
        o.param = *t.pick(&[6, 10]);
        o.extreme = t.chance(1, 40);
    })
}

// ---------------------------------------------------------------------

/// C21: headers that can be told apart, wherever they end up
pub struct Headers;

pub struct HeaderCase {
    source: Source,
    /// the names of the constants and their values, and for each value the
    /// number of the step that gave it
    consts: Vec<(String, usize)>,
    /// a type declared in a header and used for a parameter
    typed: bool,
}

fn marked(t: &mut Tape) -> (Cfg, Vec<(String, usize)>, bool) {
    let mut o = Opts::new(true);
    o.headers = false;
    o.modules = *t.pick(&[8, 13]);
    o.query = *t.pick(&[1, 4]);
    let mut c = gen::config(t, &o);
    let mut hs: Vec<String> = vec![];
    let mut consts = vec![];
    let n = t.range(1, 9);
    let mut step = 0;
    for k in 0..n {
        match t.weighted(&[4, 4, 2, 2, 1, 1, 2, 1, 2]) {
            0 => {
                step += 1;
                hs.push(format!("macro_rules! wf_step {{ () => {{ {} }} }}", step));
            }
            1 => {
                if step == 0 {
                    step = 1;
                    hs.push("macro_rules! wf_step { () => { 1 } }".to_string());
                }
                hs.push(format!("pub const WF_MARK_{}: usize = wf_step!();", k));
                consts.push((format!("WF_MARK_{}", k), step));
            }
            2 => hs.push(format!("// comment {}: / {{}} \"x\" 'y' \\", k)),
            3 => hs.push(format!("/* {} */", "-".repeat(k + 1))),
            4 => hs.push(format!("  pub fn wf_fn_{}() -> &'static str {{ \"/a/{{b}} // \" }}", k)),
            5 => hs.push(format!("// größe {} ü →", k)),
            // the same line more than once
            6 => {
                hs.push("#[allow(non_camel_case_types)]".to_string());
                hs.push(format!("pub type wf_type_{} = u8;", k));
            }
            8 => {
                // definitions inside of definitions: equal lines one after the other
                let depth = t.range(1, 3);
                for d in 0..depth {
                    hs.push(format!("pub mod wf_in_{}_{} {{", k, d));
                }
                if t.chance(1, 2) {
                    hs.push("#[allow(dead_code)]".to_string());
                    hs.push("#[allow(dead_code)]".to_string());
                }
                hs.push(format!("pub const WF_DEEP: usize = {};", k));
                for _ in 0..depth {
                    hs.push("}".to_string());
                }
            }
            _ => {
                // a definition over several lines
                hs.push(format!("pub fn wf_long_{}(", k));
                hs.push("    x: u8,".to_string());
                hs.push(") -> u8 {".to_string());
                hs.push("    x / 2".to_string());
                hs.push("}".to_string());
            }
        }
    }
    // a parameter type defined by a header
    let mut typed = false;
    if t.chance(1, 2) {
        typed = retype(&mut c.root, "WfAlias");
        if typed {
            let i = 0;
            hs.insert(i, "pub type WfAlias = u16;".to_string());
        }
    }
    let mut own = std::mem::take(&mut c.headers);
    if t.chance(1, 2) {
        own.extend(hs);
        c.headers = own;
    } else {
        hs.extend(own);
        c.headers = hs;
    }
    (c, consts, typed)
}

/// The first path parameters called "id" and such become this type
fn retype(n: &mut Node, typ: &str) -> bool {
    let mut any = false;
    for q in &mut n.query {
        if q.typ == "u16" || q.typ == "u32" {
            q.typ = typ.to_string();
            any = true;
        }
    }
    for (s, k) in &mut n.kids {
        if let Seg::Param(p) = s {
            if p.typ == "u16" || p.typ == "u32" || p.typ == "i32" {
                p.typ = typ.to_string();
                any = true;
            }
        }
        any |= retype(k, typ);
    }
    any
}

impl BatchCheck for Headers {
    type Case = HeaderCase;

    fn generate(&self, t: &mut Tape) -> HeaderCase {
        let (mut c, mut consts, mut typed) = marked(t);
        // redirects have to agree with their targets: none here
        drop_redirects(&mut c.root);
        if gen::targets(&c.root).is_empty() {
            let (d, e, f) = (Cfg::default(), vec![], false);
            c = d;
            consts = e;
            typed = f;
            c.root.res.push(R { method: M::Get, modules: vec![], name: "Only".into(), redirect: false, query: vec![] });
        }
        let text = !t.chance(1, 3);
        let source = Source::of(t, c, text);
        HeaderCase { source, consts, typed }
    }

    fn units(&self, c: &HeaderCase) -> Result<Vec<Unit>, String> {
        let code = c.source.code().map_err(|e| format!("no code for a valid configuration: {}\n{}", e, c.source.show()))?;
        let all = gen::targets(&c.source.cfg.root);
        let mut p = String::from("pub fn probe(out: &mut Vec<String>) {\n");
        for (ms, _, _) in probe::modules(&all) {
            for (name, _) in &c.consts {
                p.push_str(&format!(
                    "    out.push(format!(\"{} {} {{}}\", {}::{}));\n",
                    ms.join("::"),
                    name,
                    probe::module(&ms),
                    name
                ));
            }
            if c.typed {
                p.push_str(&format!("    let _: {}::WfAlias = 7u16;\n", probe::module(&ms)));
            }
        }
        p.push_str("}\n");
        Ok(vec![Unit { code, requests: vec![], probe: Some(p) }])
    }

    fn judge(&self, c: &HeaderCase, built: &[Built], notes: &mut Notes) -> Option<String> {
        let all = gen::targets(&c.source.cfg.root);
        let modules = probe::modules(&all);
        let key = hash_of(&c.source.cfg);
        notes.label(match modules.len() {
            1 => "modules: only the root",
            2 | 3 => "modules: 2-3",
            _ => "modules: 4 or more",
        });
        notes.label(match modules.iter().map(|m| m.0.len()).max().unwrap_or(0) {
            0 | 1 => "modules nested: no",
            _ => "modules nested: yes",
        });
        if c.typed {
            notes.label("a parameter type from a header");
        }
        // as text: every line, once per module, in order
        let code = c.source.code().ok()?;
        let heads: Vec<String> =
            c.source.cfg.headers.iter().map(|h| h.trim().to_string()).filter(|h| !h.is_empty()).collect();
        let lines: Vec<&str> = code.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
        let mut blocks = 0;
        let mut longest: (usize, Option<&str>) = (0, None);
        let mut at = 0;
        while at < lines.len() && !heads.is_empty() {
            let same = lines[at..].iter().zip(&heads).take_while(|(a, b)| **a == b.as_str()).count();
            if same == heads.len() {
                blocks += 1;
                at += same;
            } else {
                if same > longest.0 {
                    longest = (same, lines.get(at + same).copied());
                }
                at += 1;
            }
        }
        notes.evaluations += 1;
        if modules.len() > 1 {
            notes.nontrivial.push(key);
        }
        notes.samples.push(to_text(&c.source.cfg, &Layout::default()));
        if !heads.is_empty() && blocks != modules.len() {
            return Some(format!(
                "the header lines are in the generated code, one after the other, {} times, should be {}; after {} of them comes {:?}, should be {:?}\n{}",
                blocks,
                modules.len(),
                longest.0,
                longest.1,
                heads.get(longest.0),
                c.source.show()
            ));
        }
        match built.get(0) {
            Some(Built::CompileError(e)) => {
                Some(format!("what the headers define is not available everywhere:\n{}\n{}", e, c.source.show()))
            }
            Some(Built::Ran { probe: lines, .. }) => {
                let mut i = 0;
                for (ms, _, _) in &modules {
                    for (name, v) in &c.consts {
                        notes.evaluations += 1;
                        let want = format!("{} {} {}", ms.join("::"), name, v);
                        if lines.get(i) != Some(&want) {
                            return Some(format!(
                                "in module {:?} {}: {:?}, should be {:?}\n{}",
                                ms.join("::"),
                                name,
                                lines.get(i),
                                want,
                                c.source.show()
                            ));
                        }
                        i += 1;
                    }
                }
                None
            }
            None => None,
        }
    }
}

pub fn drop_redirects(n: &mut Node) {
    n.res.retain(|r| !r.redirect);
    for k in &mut n.kids {
        drop_redirects(&mut k.1);
    }
    n.kids.retain(|k| !k.1.res.is_empty() || !k.1.kids.is_empty());
}

// ---------------------------------------------------------------------

/// C22 in one process
pub fn deterministic(t: &mut Tape, notes: &mut Notes) -> Option<String> {
    let mut a = generated(t);
    if t.chance(1, 2) {
        a = wide(t);
    }
    let b = generated(t);
    let first = match a.code() {
        Ok(c) => c,
        Err(e) => return Some(format!("no code: {}\n{}", e, a.show())),
    };
    let actions = gen::targets(&a.cfg.root).len();
    notes.label(match actions {
        0..=3 => "resources: up to 3",
        4..=12 => "resources: 4-12",
        _ => "resources: over 12",
    });
    if actions > 3 {
        notes.nontrivial.push(hash_of(&a.cfg));
    }
    notes.samples.push(to_text(&a.cfg, &Layout::default()));
    let show = |what: &str, x: &str| {
        let line = first
            .lines()
            .zip(x.lines())
            .enumerate()
            .find(|(_, (p, q))| p != q)
            .map(|(i, (p, q))| format!("line {}: {:?} / {:?}", i + 1, p, q))
            .unwrap_or_else(|| "one is longer".to_string());
        Some(format!("different code {}: {}\n{}", what, line, a.show()))
    };
    // again, the same value
    let real = a.real().ok()?;
    for _ in 0..3 {
        match pipeline::codegen(&real) {
            Ok(x) if x == first => {}
            Ok(x) => return show("the second time", &x),
            Err(e) => return show("the second time", &e),
        }
    }
    // from structs and from a file
    let text = match guarded(|| real.stringify()) {
        Ok(s) => s,
        Err(e) => return show("after stringify", &e),
    };
    let other = match a.text {
        Some(_) => a.cfg.real(),
        None => match pipeline::parse(&text) {
            Ok(c) if c == real => c,
            // some structs cannot be written as a file
            _ => real.clone(),
        },
    };
    if other == real {
        notes.label("also: from structs and from a file");
        match pipeline::codegen(&other) {
            Ok(x) if x == first => {}
            Ok(x) => return show("from an equal configuration of other origin", &x),
            Err(e) => return show("from an equal configuration of other origin", &e),
        }
    }
    // after other code, and in another thread
    let _ = b.code();
    match std::thread::scope(|s| s.spawn(|| pipeline::codegen(&real)).join()) {
        Ok(Ok(x)) if x == first => None,
        Ok(Ok(x)) => show("in another thread, after other code", &x),
        Ok(Err(e)) => show("in another thread", &e),
        Err(_) => show("in another thread", "panic"),
    }
}

/// Many modules and actions side by side
fn wide(t: &mut Tape) -> Source {
    let n = t.range(2, 30);
    let mut c = Cfg::default();
    let mut seen = vec![];
    for i in 0..n {
        let depth = t.size(4);
        let modules: Vec<String> = (0..depth).map(|_| ["Alpha", "Beta", "Gamma", "Delta"][t.size(4)].to_string()).collect();
        let name = format!("{}{}", ["Show", "Edit", "List"][t.size(3)], t.size(12));
        if seen.contains(&(modules.clone(), name.clone())) {
            continue;
        }
        seen.push((modules.clone(), name.clone()));
        let mut node = Node::default();
        node.res.push(R { method: *t.pick(&METHODS), modules, name, redirect: false, query: vec![] });
        c.root.kids.push((Seg::Static(format!("s{}", i)), node));
    }
    let text = t.chance(1, 2);
    if text {
        let s = to_text(&c, &Layout::default());
        Source { cfg: c, text: Some(s) }
    } else {
        Source { cfg: c, text: None }
    }
}

pub fn exe_beside(name: &str) -> std::path::PathBuf {
    let me = std::env::current_exe().unwrap_or_else(|e| crate::die(&format!("{}", e)));
    let p = me.parent().unwrap().join(name);
    if !p.exists() {
        crate::die(&format!("{} is missing", p.display()));
    }
    p
}

/// C22 across processes
pub fn processes(t: &mut Tape, notes: &mut Notes) -> Option<String> {
    let text_form = |s: Source| match s.text {
        Some(_) => s,
        None => {
            let x = to_text(&s.cfg, &Layout::default());
            Source { cfg: s.cfg, text: Some(x) }
        }
    };
    let a = if t.chance(1, 2) {
        text_form(wide(t))
    } else {
        let mut o = Opts::new(true);
        o.modules = 12;
        let cfg = gen::config(t, &o);
        Source::of(t, cfg, true)
    };
    let first = match a.code() {
        Ok(c) => c,
        Err(e) => return Some(format!("no code: {}\n{}", e, a.show())),
    };
    if gen::targets(&a.cfg.root).len() > 3 {
        notes.nontrivial.push(hash_of(&a.cfg));
    }
    let dir = crate::batch::scratch("proc");
    let file = dir.join("app.routes");
    std::fs::write(&file, a.text.as_ref().unwrap()).expect("write");
    let mut verdict = None;
    for _ in 0..2 {
        notes.evaluations += 1;
        let out = Command::new(exe_beside("wfcmd")).arg(&file).env("RUST_BACKTRACE", "0").output().expect("wfcmd");
        let got = String::from_utf8_lossy(&out.stdout).to_string();
        if got != first {
            let line = first.lines().zip(got.lines()).enumerate().find(|(_, (p, q))| p != q);
            verdict = Some(format!(
                "another process generates different code (status {:?}, line {:?}): {}\n{}",
                out.status.code(),
                line,
                String::from_utf8_lossy(&out.stderr),
                a.show()
            ));
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    verdict
}

// ---------------------------------------------------------------------

/// Every node, by number
fn node_at<'a>(n: &'a mut Node, i: &mut usize) -> Option<&'a mut Node> {
    if *i == 0 {
        return Some(n);
    }
    *i -= 1;
    for k in &mut n.kids {
        if let Some(x) = node_at(&mut k.1, i) {
            return Some(x);
        }
    }
    None
}

fn res(m: M, modules: &[String], name: &str) -> R {
    R { method: m, modules: modules.to_vec(), name: name.to_string(), redirect: false, query: vec![] }
}

/// C23: a conflict is refused, and only a conflict
pub fn conflicts(t: &mut Tape, notes: &mut Notes) -> Option<String> {
    let text = !t.chance(1, 3);
    let mut o = Opts::new(text);
    o.extreme = t.chance(1, 60);
    o.query = 1;
    o.param = *t.pick(&[6, 10]);
    let cfg = gen::config(t, &o);
    let source = Source::of(t, cfg.clone(), text);
    if let Err(e) = source.code() {
        return Some(format!("refused, though nothing is in conflict: {}\n{}", e, source.show()));
    }
    // a fresh action cannot be in conflict with anything
    let mut c = cfg;
    let n = c.root.count();
    let mut at = t.size(n);
    let all: Vec<Target> = gen::targets(&c.root);
    let kind = t.size(6);
    let node = node_at(&mut c.root, &mut at)?;
    let what;
    match kind {
        // the same segment twice in a block, both with resources
        0 | 1 => {
            let i = t.size(node.kids.len());
            let seg = match node.kids.get(i) {
                Some((s, k)) if !k.res.is_empty() => s.clone(),
                _ => {
                    // put one there, unless a parameter is in the way
                    let s = Seg::Static("wfdup".into());
                    let mut k = Node::default();
                    k.res.push(res(*t.pick(&METHODS), &[], "WfFirst"));
                    node.kids.push((s.clone(), k));
                    s
                }
            };
            let mut k = Node::default();
            k.res.push(res(*t.pick(&METHODS), &[], "WfSecond"));
            if t.chance(1, 3) {
                let mut kk = Node::default();
                kk.res.push(res(M::Get, &[], "WfThird"));
                k.kids.push((Seg::Static("wfthird".into()), kk));
            }
            let j = t.size(node.kids.len() + 1);
            node.kids.insert(j, (seg, k));
            what = "the same path twice";
        }
        // the same name twice in a module
        2 => {
            let named: Vec<&Target> = all.iter().filter(|x| !x.res.redirect).collect();
            if named.is_empty() {
                notes.label("no conflict possible");
                return None;
            }
            let target = named[t.size(named.len())];
            let r = res(*t.pick(&METHODS), &target.res.modules, &target.res.name);
            if t.chance(1, 2) {
                let mut k = Node::default();
                k.res.push(r);
                let j = t.size(node.kids.len() + 1);
                node.kids.insert(j, (Seg::Static("wfdup".into()), k));
                what = "the same name twice in a module, on another path";
            } else {
                let free: Vec<M> = METHODS.iter().cloned().filter(|m| !node.res.iter().any(|r| r.method == *m)).collect();
                if free.is_empty() {
                    notes.label("no conflict possible");
                    return None;
                }
                node.res.push(R { method: free[t.size(free.len())], ..r });
                what = "the same name twice in a module, on a path in use";
            }
        }
        // the same method twice on a path
        3 | 4 => {
            let m = match node.res.get(t.size(node.res.len())) {
                Some(r) => r.method,
                None => {
                    node.res.push(res(M::Put, &[], "WfFirst"));
                    M::Put
                }
            };
            let mut r = res(m, &[], "WfSecond");
            let own = all.iter().find(|x| !x.res.redirect && x.path.iter().all(|s| matches!(s, Seg::Static(_))) && x.inherited.is_empty() && x.res.query.is_empty());
            if let (true, Some(target)) = (t.chance(1, 3), own) {
                r = res(m, &target.res.modules, &target.res.name);
                r.redirect = true;
            }
            let j = t.size(node.res.len() + 1);
            node.res.insert(j, r);
            what = "the same method twice on a path";
        }
        // two parameters at a position
        _ => {
            let mut p = P::new("wf_other", *t.pick(&["u32", "String"]));
            let has = node.kids.iter().find_map(|(s, _)| match s {
                Seg::Param(p) => Some(p.clone()),
                _ => None,
            });
            match has {
                Some(q) => {
                    // another name, or only another type
                    if t.chance(1, 2) {
                        p.name = q.name;
                        p.typ = if q.typ == "u8" { "u16".into() } else { "u8".into() };
                    }
                }
                None => {
                    let mut k = Node::default();
                    let r = res(M::Get, &[], "WfFirst");
                    if t.chance(1, 2) {
                        k.res.push(r);
                    } else {
                        let mut kk = Node::default();
                        kk.res.push(r);
                        k.kids.push((Seg::Static("wfx".into()), kk));
                    }
                    let j = t.size(node.kids.len() + 1);
                    node.kids.insert(j, (Seg::Param(P::new("wf_one", "u64")), k));
                }
            }
            let mut k = Node::default();
            let r = res(*t.pick(&METHODS), &[], "WfSecond");
            if t.chance(1, 2) {
                k.res.push(r);
            } else {
                let mut kk = Node::default();
                kk.res.push(r);
                k.kids.push((Seg::Static("wfy".into()), kk));
            }
            let j = t.size(node.kids.len() + 1);
            node.kids.insert(j, (Seg::Param(p), k));
            what = "two parameters at a position";
        }
    }
    notes.label(what);
    notes.nontrivial.push(hash_of(&c));
    let source = Source::of(t, c, text);
    if notes.samples.len() < 2 {
        notes.samples.push(format!("{}: {}", what, source.show()));
    }
    let real = match source.real() {
        Ok(r) => r,
        // refusing the file is refusing it
        Err(_) => return None,
    };
    match pipeline::codegen(&real) {
        Err(_) => None,
        Ok(_) => Some(format!("{}, and code is generated all the same\n{}", what, source.show())),
    }
}

// ---------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    /// the n-th write fails
    Call(usize),
    /// once n bytes are written, writes fail
    Byte(usize),
    /// as Byte, and says it wrote nothing
    Zero(usize),
    None,
}

struct Faulty {
    out: Vec<u8>,
    calls: usize,
    fault: Fault,
    kind: io::ErrorKind,
    failed: bool,
    short: Option<Rng>,
    interrupt: Option<Rng>,
}

impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if let Some(r) = &mut self.interrupt {
            if r.next() % 3 == 0 {
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
        }
        let n = self.calls;
        self.calls += 1;
        // fails once; writes after that would succeed
        if !self.failed {
            match self.fault {
                Fault::Call(k) if n == k => {
                    self.failed = true;
                    return Err(io::Error::new(self.kind, "planted"));
                }
                Fault::Byte(k) if self.out.len() >= k => {
                    self.failed = true;
                    return Err(io::Error::new(self.kind, "planted"));
                }
                Fault::Zero(k) if self.out.len() >= k => {
                    self.failed = true;
                    return Ok(0);
                }
                _ => {}
            }
        }
        let mut n = b.len();
        if let Some(r) = &mut self.short {
            n = 1 + (r.next() as usize) % n;
        }
        if let (Fault::Byte(k) | Fault::Zero(k), false) = (self.fault, self.failed) {
            n = n.min(k - self.out.len());
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

const KINDS: [io::ErrorKind; 5] = [
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::PermissionDenied,
];

/// C24: every point of failure
pub fn faults(t: &mut Tape, notes: &mut Notes) -> Option<String> {
    let mut o = Opts::new(true);
    o.max_nodes = 16;
    o.modules = 10;
    let cfg = gen::config(t, &o);
    let real = cfg.real();
    let full = match pipeline::codegen(&real) {
        Ok(c) => c.into_bytes(),
        Err(e) => return Some(format!("no code: {}\n{}", e, plain(&cfg))),
    };
    let mut r = Rng::new(t.seed());
    let mut go = |fault: Fault, kind: io::ErrorKind, short: bool, interrupt: bool, notes: &mut Notes| -> Result<usize, String> {
        notes.evaluations += 1;
        let mut w = Faulty {
            out: vec![],
            calls: 0,
            fault,
            kind,
            failed: false,
            short: if short { Some(Rng::new(r.next())) } else { None },
            interrupt: if interrupt { Some(Rng::new(r.next())) } else { None },
        };
        let res = guarded(|| wayfinder::gen::codegen(&mut w, &real));
        let ctx = |what: &str| {
            Err(format!(
                "{} (fault {:?} of kind {:?}, short writes {}, interrupts {}; {} of {} bytes written)\n{}",
                what,
                fault,
                kind,
                short,
                interrupt,
                w.out.len(),
                full.len(),
                plain(&cfg)
            ))
        };
        let res = match res {
            Ok(r) => r,
            Err(p) => return ctx(&format!("code generation panics: {}", p)),
        };
        if w.failed {
            match res {
                Ok(()) => return ctx("a write failed, and code generation reports success"),
                Err(e) => {
                    if let Fault::Zero(_) = fault {
                        if e.kind() != io::ErrorKind::WriteZero {
                            return ctx(&format!("the error is {:?}, not that of the write", e));
                        }
                    } else if e.kind() != kind || !e.to_string().contains("planted") {
                        return ctx(&format!("the error is {:?}, not that of the write", e));
                    }
                }
            }
            if !full.starts_with(&w.out) {
                return ctx("what was written is not the beginning of the full output");
            }
        } else {
            if let Err(e) = res {
                return ctx(&format!("no write failed, and code generation fails: {:?}", e));
            }
            if w.out != full {
                return ctx("the output is not complete");
            }
        }
        Ok(w.calls)
    };
    let calls = match go(Fault::None, io::ErrorKind::Other, false, false, notes) {
        Ok(n) => n,
        Err(e) => return Some(e),
    };
    notes.label("configurations");
    let key = hash_of(&cfg);
    notes.samples.push(format!("{} writes, {} bytes: {}", calls, full.len(), plain(&cfg)));
    let mut all: Vec<(Fault, bool, bool)> = vec![];
    for k in 0..calls {
        all.push((Fault::Call(k), false, false));
    }
    for _ in 0..120 {
        let b = t.size(full.len());
        all.push((Fault::Byte(b), t.chance(1, 2), t.chance(1, 2)));
    }
    for _ in 0..30 {
        let b = t.size(full.len());
        all.push((Fault::Zero(b), t.chance(1, 2), t.chance(1, 2)));
    }
    for b in [0, 1, full.len() - 1] {
        all.push((Fault::Byte(b), false, false));
        all.push((Fault::Zero(b), false, false));
    }
    for i in 0..8 {
        all.push((Fault::None, i % 4 != 1, i % 4 != 0));
    }
    for (f, s, i) in all {
        let kind = KINDS[t.size(KINDS.len())];
        match f {
            Fault::Call(_) => notes.label("fault: at a write, each in turn"),
            Fault::Byte(_) => notes.label("fault: after some bytes"),
            Fault::Zero(_) => notes.label("fault: a write of nothing"),
            Fault::None => notes.label("no fault: short or interrupted writes"),
        }
        notes.nontrivial.push(hash_of(&(key, format!("{:?}{}{}", f, s, i))));
        if let Err(e) = go(f, kind, s, i, notes) {
            return Some(e);
        }
    }
    None
}

// ---------------------------------------------------------------------

/// The listing in the documentation of a generated module
pub fn listing(code: &str) -> Result<String, String> {
    let mut lines = code.lines();
    if !lines.any(|l| l.trim() == "//! ```ignore") {
        return Err("no listing in the documentation".into());
    }
    let mut listing = String::new();
    for l in lines {
        let l = match l.trim_start().strip_prefix("//!") {
            Some(l) => l,
            None => break,
        };
        if l.trim() == "```" {
            return Ok(listing);
        }
        listing.push_str(l.strip_prefix(' ').unwrap_or(l));
        listing.push('\n');
    }
    Err("the listing in the documentation has no end".into())
}

/// C27: the documentation
pub fn documented(t: &mut Tape, notes: &mut Notes) -> Option<String> {
    let mut o = Opts::new(true);
    o.redirects = 6;
    o.query = *t.pick(&[1, 4, 8]);
    o.modules = *t.pick(&[8, 12]);
    o.param = *t.pick(&[6, 10]);
    o.extreme = t.chance(1, 40);
    let cfg = gen::config(t, &o);
    let text = t.chance(1, 2);
    let source = Source::of(t, cfg, text);
    let code = match source.code() {
        Ok(c) => c,
        Err(e) => return Some(format!("no code: {}\n{}", e, source.show())),
    };
    let bad = |what: String| Some(format!("{}\n{}", what, source.show()));
    if source.cfg.root.count() > 1 {
        notes.nontrivial.push(hash_of(&source.cfg));
    }
    // the listing
    let listing = match listing(&code) {
        Ok(l) => l,
        Err(e) => return bad(e),
    };
    notes.samples.push(listing.clone());
    let want = source.cfg.real().routes;
    match pipeline::parse(&listing) {
        Err(e) => return bad(format!("the listing in the documentation is refused:\n{}\n{}", e, indent(&listing))),
        Ok(c) => {
            if c.routes != want {
                return bad(format!("the listing in the documentation has other routes:\n{}", indent(&listing)));
            }
            if !c.headers.is_empty() {
                return bad(format!("the listing in the documentation has headers:\n{}", indent(&listing)));
            }
        }
    }
    match refparse::read(&listing) {
        Read::Accept(c) | Read::Open(Some(c)) if c.root == source.cfg.root => {}
        Read::Open(None) => {}
        x => return bad(format!("the listing in the documentation reads as {:?}", x)),
    }
    // the structs
    let mut stack: Vec<(usize, String)> = vec![];
    let mut doc: Vec<String> = vec![];
    let mut seen: Vec<(Vec<String>, String, Vec<String>)> = vec![];
    for l in code.lines().skip(1) {
        let depth = l.len() - l.trim_start().len();
        let s = l.trim();
        if let Some(d) = s.strip_prefix("///") {
            doc.push(d.trim().to_string());
            continue;
        }
        if s.starts_with("#[") {
            continue;
        }
        if let Some(m) = s.strip_prefix("pub mod ") {
            stack.push((depth, m.trim_end_matches(" {").to_string()));
        } else if let Some(n) = s.strip_prefix("pub struct ") {
            let name: String = n.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            seen.push((stack.iter().map(|x| x.1.clone()).collect(), name, std::mem::take(&mut doc)));
        } else if s == "}" && stack.last().map_or(false, |x| x.0 == depth) {
            stack.pop();
        }
        doc.clear();
    }
    for x in gen::targets(&source.cfg.root) {
        if x.res.redirect {
            continue;
        }
        notes.evaluations += 1;
        let ms: Vec<String> = x.res.modules.iter().map(|m| snake(m)).collect();
        let path: Vec<String> = probe::params(&x).iter().map(|p| format!("{{{}}}", p.name)).collect();
        let path = probe::path_of(&x, &path);
        let want = format!("{} {}", x.res.method.name(), path);
        match seen.iter().find(|s| s.0 == ms && s.1 == caps(&x.res.name)) {
            None => return bad(format!("no struct for {} {:?}", x.res.name, ms)),
            Some((_, _, doc)) => {
                // the whole of it, not the beginning of a longer path
                let fits = doc.iter().any(|d| {
                    d.match_indices(&want).any(|(i, _)| {
                        let after = d[i + want.len()..].chars().next();
                        let before = d[..i].chars().last();
                        before.map_or(true, |c| !c.is_alphanumeric()) && after.map_or(true, |c| c == '`' || c == '.' || c == ' ')
                    })
                });
                if !fits {
                    return bad(format!("the documentation of {} in {:?} is {:?}, and does not say {:?}", x.res.name, ms, doc, want));
                }
            }
        }
    }
    None
}

// ---------------------------------------------------------------------

/// C19 on structs: a history of mounts
pub fn mounts(t: &mut Tape, notes: &mut Notes) -> Option<String> {
    let mut pool: Vec<Cfg> = vec![];
    let mut shapes = vec![];
    let n = t.range(2, 4);
    for _ in 0..n {
        let mut o = Opts::new(t.chance(1, 2));
        o.max_nodes = 8;
        o.query = 2;
        let mut c = gen::config(t, &o);
        // header lines that several share, and some that are only alike
        let k = t.size(4);
        for _ in 0..k {
            let h = t.pick(&["use a::A;", "use a::B;", "use  a::A;", " use a::A;", "// c", "// C", ""]).to_string();
            let i = t.size(c.headers.len() + 1);
            c.headers.insert(i, h);
        }
        pool.push(c);
    }
    let mut reals: Vec<wayfinder::RouteConfig> = pool.iter().map(|c| c.real()).collect();
    let steps = t.range(1, 5);
    for _ in 0..steps {
        let a = t.size(pool.len());
        let b = t.size(pool.len());
        let at = t.pick(&["a", "b", "api", "x", "people", "größe", "a b"]).to_string();
        shapes.push(format!("{} mounts {} at {:?}", a, b, at));
        let (host, guest) = (pool[a].clone(), pool[b].clone());
        let mut want = host.clone();
        let mut headers: Vec<String> = vec![];
        for h in host.headers.iter().chain(guest.headers.iter()) {
            if !headers.contains(h) {
                headers.push(h.clone());
            }
        }
        want.headers = headers;
        want.root.kids.push((Seg::Static(at.clone()), guest.root.clone()));
        let (h, g) = (reals[a].clone(), reals[b].clone());
        let way = t.chance(1, 2);
        let got = match guarded(|| if way { h.mount(&at, g) } else { h.mount(at.clone(), g) }) {
            Ok(c) => c,
            Err(e) => return Some(format!("mount panics: {} ({})", e, shapes.join(", "))),
        };
        notes.evaluations += 1;
        if !guest.headers.is_empty() && guest.headers.iter().any(|h| host.headers.contains(h)) {
            notes.label("shared header lines");
        }
        if got != want.real() {
            return Some(format!(
                "mounting gives\n{}\nand should give\n{}\n({})",
                indent(&format!("{:#?}", got)),
                indent(&format!("{:#?}", want.real())),
                shapes.join(", ")
            ));
        }
        notes.nontrivial.push(hash_of(&want));
        if want.root.count() < 60 {
            pool[a] = want;
            reals[a] = got;
        }
    }
    notes.samples.push(shapes.join(", "));
    None
}
