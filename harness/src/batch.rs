//! Compile many generated routers at once, and put requests to them.

use crate::requests::Req;
use std::collections::BTreeSet;
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Default)]
pub struct Unit {
    /// the generated code
    pub code: String,
    pub requests: Vec<Req>,
    /// a function `pub fn probe(out: &mut Vec<String>)` and what it needs;
    /// the generated module is `G`
    pub probe: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Obs {
    NotFound,
    NotAllowed,
    /// back: what the path of the route matches with the same method
    Route { debug: String, path: String, back: String },
    Redirect { debug: String, path: String, back: String },
    Err { display: String, debug: String },
    Panic(String),
    Hang,
}

#[derive(Clone, Debug)]
pub enum Built {
    CompileError(String),
    Ran { obs: Vec<Obs>, probe: Vec<String> },
}

const SUPPORT: &str = include_str!("support.rs");

const RUNNER: &str = r##"
use std::io::{BufRead, Write};
use std::panic;
use std::sync::atomic::{AtomicU64, Ordering};

pub type Ask = fn(&[u8], &[u8]) -> String;

struct Counting;
fn count(n: usize) {
    let _ = crate::support::TAKEN.try_with(|t| t.set(t.get() + 1));
    let _ = crate::support::BYTES.try_with(|t| t.set(t.get() + n as u64));
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size());
        std::alloc::GlobalAlloc::alloc(&std::alloc::System, l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::GlobalAlloc::dealloc(&std::alloc::System, p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        count(n);
        std::alloc::GlobalAlloc::realloc(&std::alloc::System, p, l, n)
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;
pub type Probe = fn(&mut Vec<String>);

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

static STEP: AtomicU64 = AtomicU64::new(0);

fn ticks() -> u64 {
    let stat = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = stat.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let get = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    get(11) + get(12)
}

fn message(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    }
}

pub fn run(asks: &[Ask], probes: &[Option<Probe>]) {
    panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        let mut last = STEP.load(Ordering::SeqCst);
        let mut since = ticks();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = STEP.load(Ordering::SeqCst);
            if now != last { since = ticks(); last = now; }
            // twenty seconds of processor time on one request
            if now > 0 && ticks() > since + 2000 {
                println!("\nH\t{}", now);
                std::process::exit(3);
            }
        }
    });
    let out = std::io::stdout();
    for (k, p) in probes.iter().enumerate() {
        if let Some(p) = p {
            let p = *p;
            let lines = match panic::catch_unwind(panic::AssertUnwindSafe(|| { let mut v = vec![]; p(&mut v); v })) {
                Ok(v) => v,
                Err(e) => vec![format!("PANIC {}", message(&*e))],
            };
            let mut o = out.lock();
            for l in lines { writeln!(o, "Q\t{}\t{}", k, esc(&l)).unwrap(); }
        }
    }
    let input = std::io::stdin();
    for (n, line) in input.lock().lines().enumerate() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split('\t').collect();
        let k: usize = f[0].parse().unwrap();
        let (p, m) = (unhex(f[1]), unhex(f[2]));
        let a = asks[k];
        STEP.store(n as u64 + 1, Ordering::SeqCst);
        let s = match panic::catch_unwind(panic::AssertUnwindSafe(|| a(&p, &m))) {
            Ok(s) => s,
            Err(e) => format!("P\t{}", esc(&message(&*e))),
        };
        writeln!(out.lock(), "{}", s).unwrap();
    }
    std::process::exit(0);
}
"##;

fn dispatch(k: usize) -> String {
    format!(
        r##"use crate::c{k}::routes::{{match_route, Match, Route, Error}};
use crate::runner::esc;
fn back(p: &str, m: &[u8], r: &Route) -> String {{
    match match_route(p, m) {{
        Ok(Match::Route(ref s)) if s == r => "=".to_string(),
        Ok(o) => format!("{{:?}}", o),
        Err(e) => format!("{{:?}}", e),
    }}
}}
pub fn ask(p: &[u8], m: &[u8]) -> String {{
    let res: Result<Match<Route>, Error> = match_route(p, m);
    match res {{
        Ok(Match::NotFound) => "N".to_string(),
        Ok(Match::NotAllowed) => "A".to_string(),
        Ok(Match::Route(r)) => {{ let p = r.to_path(); format!("R\t{{}}\t{{}}\t{{}}", esc(&format!("{{:?}}", r)), esc(&p), esc(&back(&p, m, &r))) }}
        Ok(Match::Redirect(r)) => {{ let p = r.to_path(); format!("D\t{{}}\t{{}}\t{{}}", esc(&format!("{{:?}}", r)), esc(&p), esc(&back(&p, m, &r))) }}
        Err(e) => format!("E\t{{}}\t{{}}", esc(&e.to_string()), esc(&format!("{{:?}}", e))),
    }}
}}
"##,
        k = k
    )
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut cs = s.chars();
    while let Some(c) = cs.next() {
        if c == '\\' {
            match cs.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{:02x}", b)).collect()
}

static SERIAL: AtomicUsize = AtomicUsize::new(0);

pub fn scratch_root() -> PathBuf {
    std::env::temp_dir().join(format!("wfcheck-{}", std::process::id()))
}

/// A new empty directory below this process's scratch directory
pub fn scratch(name: &str) -> PathBuf {
    let d = scratch_root().join(format!("{}-{}", name, SERIAL.fetch_add(1, Ordering::SeqCst)));
    fs::create_dir_all(&d).expect("scratch directory");
    d
}

pub struct Compiled {
    /// cases left out, with what the compiler said
    pub bad: Vec<(usize, String)>,
    pub good: Vec<usize>,
    pub exe: Option<PathBuf>,
}

pub struct Options {
    pub edition: &'static str,
    pub chunk: usize,
    /// only type-check; nothing is run
    pub check_only: bool,
    /// provide a crate called uuid
    pub uuid: bool,
    /// warnings in the generated code are errors
    pub deny: bool,
}

impl Default for Options {
    fn default() -> Options {
        Options { edition: "2018", chunk: 24, check_only: false, uuid: false, deny: false }
    }
}

fn write(p: &Path, s: &str) {
    fs::write(p, s).expect("write to scratch directory");
}

/// A crate with a type Uuid, as far as routers need one
fn uuid_crate(dir: &Path) -> PathBuf {
    let lib = dir.join("libuuid.rlib");
    if !lib.exists() {
        write(&dir.join("uuid.rs"), UUID);
        let out = Command::new("rustc")
            .args(&["--edition", "2018", "--crate-type", "rlib", "--crate-name", "uuid", "-o"])
            .arg(&lib)
            .arg(dir.join("uuid.rs"))
            .current_dir(dir)
            .output()
            .expect("rustc");
        if !out.status.success() {
            crate::die(&format!("uuid: {}", String::from_utf8_lossy(&out.stderr)));
        }
    }
    lib
}

const UUID: &str = include_str!("uuid.rs");

fn compile(dir: &Path, units: &[Unit], ids: &[usize], opts: &Options) -> Compiled {
    write(&dir.join("support.rs"), SUPPORT);
    write(&dir.join("runner.rs"), RUNNER);
    for &k in ids {
        let u = &units[k];
        write(&dir.join(format!("c{}.rs", k)), &u.code);
        write(&dir.join(format!("d{}.rs", k)), &dispatch(k));
        if let Some(ref p) = u.probe {
            write(&dir.join(format!("x{}.rs", k)), &format!("#[allow(unused_imports)]\nuse crate::c{} as G;\n{}", k, p));
        }
    }
    let mut good: Vec<usize> = ids.to_vec();
    let mut bad: Vec<(usize, String)> = vec![];
    loop {
        if good.is_empty() {
            return Compiled { bad, good, exe: None };
        }
        let (all, ours) = if opts.deny { ("", "#[allow(warnings)] ") } else { ("#![allow(warnings)]\n", "") };
        let mut m = format!("{}{1}mod support;\n{1}mod runner;\n", all, ours);
        for &k in &good {
            m.push_str(&format!("mod c{0};\n{1}mod d{0};\n", k, ours));
            if units[k].probe.is_some() {
                m.push_str(&format!("{}mod x{};\n", ours, k));
            }
        }
        m.push_str("fn main() { runner::run(&[");
        for &k in &good {
            m.push_str(&format!("d{}::ask, ", k));
        }
        m.push_str("], &[");
        for &k in &good {
            if units[k].probe.is_some() {
                m.push_str(&format!("Some(x{}::probe), ", k));
            } else {
                m.push_str("None, ");
            }
        }
        m.push_str("]) }\n");
        write(&dir.join("main.rs"), &m);
        let exe = dir.join("main.exe");
        let mut rustc = Command::new("rustc");
        if opts.check_only {
            rustc.args(&["--emit", "metadata"]);
        }
        if opts.uuid {
            rustc.arg("--extern").arg(format!("uuid={}", uuid_crate(dir).display()));
        }
        let out = rustc
            .args(&["--edition", opts.edition, "--crate-name", "routers"])
            .args(if opts.deny { &["-D", "warnings"][..] } else { &["-A", "warnings", "--cap-lints", "allow"][..] })
            .args(&["-C", "debuginfo=0", "-C", "opt-level=0", "-C", "codegen-units=1", "--color", "never", "-o"])
            .arg(&exe)
            .arg(dir.join("main.rs"))
            .current_dir(dir)
            .output()
            .expect("rustc");
        if out.status.success() {
            return Compiled { bad, good, exe: Some(exe) };
        }
        let err = String::from_utf8_lossy(&out.stderr).to_string();
        let mut blamed: BTreeSet<usize> = BTreeSet::new();
        for line in err.lines() {
            if let Some(i) = line.find("--> ") {
                let f = line[i + 4..].rsplit('/').next().unwrap_or("");
                let f = f.split(':').next().unwrap_or("");
                if let Some(n) = f.strip_suffix(".rs") {
                    if n.starts_with('c') || n.starts_with('d') || n.starts_with('x') {
                        if let Ok(k) = n[1..].parse::<usize>() {
                            if good.contains(&k) {
                                blamed.insert(k);
                            }
                        }
                    }
                }
            }
        }
        if blamed.is_empty() {
            if good.len() == 1 {
                blamed.insert(good[0]);
            } else {
                // nobody named: try each alone
                let all = good.clone();
                for k in all {
                    let sub = scratch("alone");
                    let c = compile(&sub, units, &[k], opts);
                    let _ = fs::remove_dir_all(&sub);
                    if c.exe.is_none() {
                        blamed.insert(k);
                    }
                }
                if blamed.is_empty() {
                    eprintln!("{}", &err[..err.len().min(4000)]);
                    crate::die("rustc fails on a batch though not on any router in it");
                }
            }
        }
        for k in &blamed {
            let mut msg = String::new();
            // the first error that mentions the case
            let tag = [format!("c{}.rs:", k), format!("d{}.rs:", k), format!("x{}.rs:", k)];
            for block in err.split("\n\n") {
                if good.len() == 1 || tag.iter().any(|t| block.contains(t.as_str())) {
                    msg = block.chars().take(1500).collect();
                    break;
                }
            }
            bad.push((*k, msg));
        }
        good.retain(|k| !blamed.contains(k));
    }
}

fn execute(exe: &Path, units: &[Unit], good: &[usize], out: &Mutex<Vec<Option<Built>>>) {
    let mut input = String::new();
    let mut index: Vec<(usize, usize)> = vec![];
    for (slot, &k) in good.iter().enumerate() {
        for (n, r) in units[k].requests.iter().enumerate() {
            input.push_str(&format!("{}\t{}\t{}\n", slot, hex(&r.path), hex(&r.method)));
            index.push((k, n));
        }
    }
    let mut obs: Vec<(usize, Vec<Obs>, Vec<String>)> = good.iter().map(|k| (*k, vec![], vec![])).collect();
    let mut child = Command::new(exe)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("run routers");
    let mut stdin = child.stdin.take().unwrap();
    let writer = std::thread::spawn(move || {
        let _ = stdin.write_all(input.as_bytes());
    });
    let output = child.wait_with_output().expect("run routers");
    let _ = writer.join();
    let text = String::from_utf8_lossy(&output.stdout).to_string();
    let mut at = 0;
    let slot_of = |k: usize, good: &[usize]| good.iter().position(|g| *g == k).unwrap();
    for line in text.lines() {
        let f: Vec<&str> = line.split('\t').collect();
        if f[0] == "Q" {
            let slot: usize = f[1].parse().unwrap();
            obs[slot].2.push(unesc(f[2]));
            continue;
        }
        let o = match f[0] {
            "N" => Obs::NotFound,
            "A" => Obs::NotAllowed,
            "R" => Obs::Route { debug: unesc(f[1]), path: unesc(f[2]), back: unesc(f[3]) },
            "D" => Obs::Redirect { debug: unesc(f[1]), path: unesc(f[2]), back: unesc(f[3]) },
            "E" => Obs::Err { display: unesc(f[1]), debug: unesc(f[2]) },
            "P" => Obs::Panic(unesc(f[1])),
            "H" => Obs::Hang,
            _ => continue,
        };
        if at < index.len() {
            let slot = slot_of(index[at].0, good);
            obs[slot].1.push(o);
            at += 1;
        }
    }
    // whatever ended the process early (an abort, a hang) did so on the next request
    if at < index.len() && output.status.code() != Some(3) {
        let slot = slot_of(index[at].0, good);
        obs[slot].1.push(Obs::Panic(format!("the process ended: {:?}", output.status)));
    }
    let mut out = out.lock().unwrap();
    for (k, o, p) in obs {
        out[k] = Some(Built::Ran { obs: o, probe: p });
    }
}

/// Compile and run all the units.
pub fn run(units: &[Unit], opts: &Options) -> Vec<Built> {
    let results: Mutex<Vec<Option<Built>>> = Mutex::new(vec![None; units.len()]);
    let next = AtomicUsize::new(0);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    // even chunks, by code size
    let mut chunks: Vec<Vec<usize>> = vec![];
    let per = (units.len() + threads - 1) / threads;
    let size = per.max(1).min(opts.chunk);
    let mut cur = vec![];
    let mut bytes = 0;
    for (k, u) in units.iter().enumerate() {
        cur.push(k);
        bytes += u.code.len() + u.probe.as_ref().map_or(0, |p| p.len());
        if cur.len() >= size || bytes > 900_000 {
            chunks.push(std::mem::take(&mut cur));
            bytes = 0;
        }
    }
    if !cur.is_empty() {
        chunks.push(cur);
    }
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= chunks.len() {
                    break;
                }
                let dir = scratch("batch");
                let c = compile(&dir, units, &chunks[i], opts);
                {
                    let mut r = results.lock().unwrap();
                    for (k, e) in c.bad {
                        r[k] = Some(Built::CompileError(e));
                    }
                }
                if opts.check_only {
                    let mut r = results.lock().unwrap();
                    for k in c.good {
                        r[k] = Some(Built::Ran { obs: vec![], probe: vec![] });
                    }
                } else if let Some(exe) = c.exe {
                    execute(&exe, units, &c.good, &results);
                }
                if std::env::var("WF_KEEP").is_err() {
                    let _ = fs::remove_dir_all(&dir);
                }
            });
        }
    });
    results.into_inner().unwrap().into_iter().map(|r| r.expect("a result for every unit")).collect()
}
