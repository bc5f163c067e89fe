//! The builder and the command line tool, as processes in scratch directories.

use crate::batch::scratch;
use crate::cfg::*;
use crate::checks::codegen::exe_beside;
use crate::checks::texts;
use crate::engine::Notes;
use crate::gen::{self, Opts};
use crate::pipeline::{self, indent};
use crate::refparse::{self, Read};
use crate::report::hash_of;
use crate::tape::Tape;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::fs;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::net::UnixStream;
use std::os::fd::OwnedFd;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// What the child does: `wfcheck __build STEP...`
pub fn child(steps: &[String]) {
    use wayfinder::build::Builder;
    let _ = std::panic::take_hook();
    let mut b: Option<Builder> = None;
    for s in steps {
        let (word, rest) = match s.find('=') {
            Some(i) => (&s[..i], &s[i + 1..]),
            None => (&s[..], ""),
        };
        b = Some(match (word, b.take()) {
            ("new", _) => Builder::new(),
            ("env", _) => Builder::from_env(),
            ("in", Some(b)) => b.input_file(rest),
            ("cfg", Some(b)) => {
                let text = fs::read_to_string(rest).expect("config");
                match refparse::read(&text) {
                    Read::Accept(c) | Read::Open(Some(c)) => b.input_config(c.real()),
                    x => panic!("config: {:?}", x),
                }
            }
            ("out", Some(b)) => b.output_file(rest),
            ("stdout", Some(b)) => b.output_stdout(),
            ("build", Some(b)) => {
                b.build();
                return;
            }
            _ => panic!("step {}", s),
        });
    }
}

struct Place {
    root: PathBuf,
    manifest: PathBuf,
    out: PathBuf,
    cwd: PathBuf,
}

fn place() -> Place {
    let root = scratch("build");
    let p = Place { manifest: root.join("the crate"), out: root.join("out"), cwd: root.join("cwd"), root };
    for d in [&p.manifest, &p.out, &p.cwd] {
        fs::create_dir_all(d.join("sub/dir")).expect("dir");
    }
    p
}

/// Every file below, with its contents
fn snapshot(dir: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    let mut m = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in fs::read_dir(&d).expect("read dir").flatten() {
            let p = e.path();
            if p.is_dir() {
                m.insert(p.clone(), None);
                todo.push(p);
            } else {
                m.insert(p.clone(), fs::read(&p).ok());
            }
        }
    }
    m
}

fn difference(a: &BTreeMap<PathBuf, Option<Vec<u8>>>, b: &BTreeMap<PathBuf, Option<Vec<u8>>>) -> Vec<String> {
    let mut out = vec![];
    for (k, v) in b {
        match a.get(k) {
            None => out.push(format!("{} is new", k.display())),
            Some(w) if w != v => out.push(format!("{} changed", k.display())),
            _ => {}
        }
    }
    for k in a.keys() {
        if !b.contains_key(k) {
            out.push(format!("{} is gone", k.display()));
        }
    }
    out
}

struct Done {
    code: Option<i32>,
    stdout: Vec<u8>,
    stderr: String,
}

struct Call {
    steps: Vec<String>,
    wfcmd: bool,
    env: Vec<(&'static str, Option<OsString>)>,
}

impl Call {
    fn command(&self, p: &Place) -> Command {
        let mut c = if self.wfcmd {
            Command::new(exe_beside("wfcmd"))
        } else {
            let mut c = Command::new(exe_beside("wfcheck"));
            c.arg("__build");
            c
        };
        c.args(&self.steps);
        c.current_dir(&p.cwd);
        c.env_remove("CARGO_MANIFEST_DIR").env_remove("OUT_DIR").env("RUST_BACKTRACE", "0");
        for (k, v) in &self.env {
            match v {
                Some(v) => c.env(k, v),
                None => c.env_remove(k),
            };
        }
        c.stdin(Stdio::null());
        c
    }

    fn run(&self, p: &Place) -> Done {
        let o = self.command(p).output().unwrap_or_else(|e| crate::die(&format!("child: {}", e)));
        Done { code: o.status.code(), stdout: o.stdout, stderr: String::from_utf8_lossy(&o.stderr).to_string() }
    }

    fn show(&self) -> String {
        format!(
            "{} {:?} with {:?}",
            if self.wfcmd { "wayfinder-cmd" } else { "builder" },
            self.steps,
            self.env.iter().map(|(k, v)| format!("{}={:?}", k, v)).collect::<Vec<_>>()
        )
    }
}

fn small_cfg(t: &mut Tape) -> Cfg {
    let mut o = Opts::new(true);
    o.max_nodes = *t.pick(&[8, 8, 40]);
    o.headers = t.chance(1, 2);
    gen::config(t, &o)
}

fn name(t: &mut Tape, ext: &str) -> String {
    let stem = *t.pick(&["app", "sub/app", "sub/dir/app", "./app", "../app", "sub/../app", "with space", "größe", ".hidden", "a.b.c"]);
    format!("{}{}", stem, ext)
}

fn env_of(p: &Place) -> Vec<(&'static str, Option<OsString>)> {
    vec![
        ("CARGO_MANIFEST_DIR", Some(p.manifest.clone().into_os_string())),
        ("OUT_DIR", Some(p.out.clone().into_os_string())),
    ]
}

/// "cargo:rerun-if-changed=" lines at the start, and the rest
fn cargo_lines(s: &str) -> (Vec<String>, &str) {
    let mut rest = s;
    let mut out = vec![];
    while rest.starts_with("cargo:") {
        let i = rest.find('\n').map(|i| i + 1).unwrap_or(rest.len());
        out.push(rest[..i].trim_end().to_string());
        rest = &rest[i..];
    }
    (out, rest)
}

/// C25: what a successful build writes
pub fn builds(t: &mut Tape, notes: &mut Notes) -> Option<String> {
    let p = place();
    let v = builds_in(t, notes, &p);
    let _ = fs::remove_dir_all(&p.root);
    v
}

fn builds_in(t: &mut Tape, notes: &mut Notes, p: &Place) -> Option<String> {
    let cfg = small_cfg(t);
    let layout = Layout::gen(t);
    let text = to_text(&cfg, &layout);
    let want = match pipeline::codegen(&cfg.real()) {
        Ok(c) => c,
        Err(e) => return Some(format!("no code: {}\n{}", e, indent(&text))),
    };
    let wfcmd = t.chance(1, 4);
    let from_env = !wfcmd && t.chance(1, 2);
    let by_file = wfcmd || t.chance(2, 3);
    let to_file = !wfcmd && t.chance(2, 3);
    let in_name = name(t, ".routes");
    let out_name = name(t, ".rs");
    let (in_base, out_base) = if from_env { (&p.manifest, &p.out) } else { (&p.cwd, &p.cwd) };
    let in_abs = in_base.join(&in_name);
    let out_abs = out_base.join(&out_name);
    let mut steps = vec![];
    let mut tail = vec![];
    if by_file {
        fs::write(&in_abs, &text).expect("write");
        let given = if t.chance(1, 4) { in_abs.display().to_string() } else { in_name.clone() };
        if wfcmd {
            steps.push(given);
        } else {
            tail.push(format!("in={}", given));
        }
    } else {
        let f = p.root.join("config.txt");
        fs::write(&f, to_text(&cfg, &Layout::default())).expect("write");
        tail.push(format!("cfg={}", f.display()));
    }
    let mut previous = "none";
    if to_file {
        let given = if t.chance(1, 4) { out_abs.display().to_string() } else { out_name.clone() };
        tail.push(format!("out={}", given));
        previous = *t.pick(&["none", "longer", "shorter", "same length", "binary", "the same"]);
        let old: Option<Vec<u8>> = match previous {
            "longer" => Some(b"// stale\n".repeat(want.len() / 4)),
            "shorter" => Some(b"x".to_vec()),
            "same length" => Some(vec![b'}'; want.len()]),
            "binary" => Some((0..=255u8).cycle().take(5000).collect()),
            "the same" => Some(want.clone().into_bytes()),
            _ => None,
        };
        if let Some(old) = old {
            fs::write(&out_abs, old).expect("write");
        }
    } else {
        tail.push("stdout".into());
    }
    if !wfcmd {
        if t.chance(1, 2) {
            tail.reverse();
        }
        // what is given last counts: other inputs and outputs before it
        let mut superseded = vec![];
        while t.chance(1, 3) && superseded.len() < 3 {
            superseded.push(match t.size(4) {
                0 => format!("in={}", t.pick(&["no such.routes", "sub", "other.routes"])),
                1 => {
                    let f = p.root.join("superseded.txt");
                    fs::write(&f, "/\n  GET Superseded\n").expect("write");
                    format!("cfg={}", f.display())
                }
                2 => format!("out={}", t.pick(&["superseded.rs", "sub", "no/such/dir/x.rs"])),
                _ => "stdout".into(),
            });
        }
        if !superseded.is_empty() {
            notes.label("input or output given more than once");
        }
        superseded.extend(tail);
        let mut tail = superseded;
        if t.chance(1, 3) {
            let again = tail[tail.len() - 1].clone();
            tail.push(again);
        }
        steps.push(if from_env { "env".into() } else { "new".into() });
        steps.extend(tail);
        steps.push("build".into());
    }
    // without the environment, whatever it says must not matter
    let mut env = if from_env || t.chance(1, 3) { env_of(p) } else { vec![] };
    if t.chance(1, 5) {
        // a directory given in relation to the working directory
        for (_, v) in &mut env {
            let near = v.as_ref().map(|v| Path::new("..").join(Path::new(v).file_name().unwrap()).into_os_string());
            if t.chance(2, 3) {
                *v = near;
            }
        }
    }
    let call = Call { steps, wfcmd, env };
    notes.label(&format!(
        "{}: {} to {}",
        if wfcmd {
            "tool"
        } else if from_env {
            "builder from the environment"
        } else {
            "builder"
        },
        if by_file { "file" } else { "structs" },
        if to_file { "file" } else { "standard output" }
    ));
    if to_file {
        notes.label(&format!("previous output: {}", previous));
    }
    notes.nontrivial.push(hash_of(&(&cfg, &call.steps.join(" ").replace(&p.root.display().to_string(), "ROOT"), previous)));
    notes.samples.push(format!("{}, previous output: {}", call.show(), previous));
    let before = snapshot(&p.root);
    let done = call.run(p);
    let after = snapshot(&p.root);
    let bad = |what: String| {
        Some(format!(
            "{}\n{} (previous output: {})\nexit status {:?}\nstandard error: {}\n{}",
            what,
            call.show(),
            previous,
            done.code,
            done.stderr.chars().take(500).collect::<String>(),
            indent(&text)
        ))
    };
    if done.code != Some(0) {
        return bad("a valid build fails".into());
    }
    let stdout = String::from_utf8_lossy(&done.stdout).to_string();
    let (cargo, rest) = cargo_lines(&stdout);
    let mut changed = difference(&before, &after);
    if to_file {
        if !rest.is_empty() {
            return bad(format!("unexpected on standard output: {:?}", rest.chars().take(300).collect::<String>()));
        }
        match fs::read(&out_abs) {
            Err(e) => return bad(format!("there is no output file {}: {} ({:?})", out_abs.display(), e, changed)),
            Ok(b) if b == want.as_bytes() => {}
            Ok(b) => {
                return bad(format!(
                    "the output file has {} bytes, the code generated for its input {} ({})",
                    b.len(),
                    want.len(),
                    if b.starts_with(want.as_bytes()) { "followed by something else" } else { "different" }
                ))
            }
        }
        let real = fs::canonicalize(&out_abs).expect("output");
        let new = format!("{} is new", real.display());
        let old = format!("{} changed", real.display());
        changed.retain(|c| *c != new && *c != old);
    } else if rest != want {
        return bad(format!(
            "standard output has {} bytes, the code generated for its input {}",
            rest.len(),
            want.len()
        ));
    }
    if !changed.is_empty() {
        return bad(format!("other files are touched: {:?}", changed));
    }
    if from_env && by_file {
        let files: Vec<PathBuf> = cargo
            .iter()
            .filter_map(|l| l.strip_prefix("cargo:").map(|l| l.trim_start_matches(':')))
            .filter_map(|l| l.strip_prefix("rerun-if-changed="))
            .map(|f| p.cwd.join(f))
            .collect();
        let real = fs::canonicalize(&in_abs).expect("input");
        if !files.iter().any(|f| fs::canonicalize(f).ok().as_ref() == Some(&real)) {
            return bad(format!("the input file {} is not printed as rerun-if-changed: {:?}", in_abs.display(), cargo));
        }
    } else if !from_env && !cargo.is_empty() {
        return bad(format!("printed without Cargo: {:?}", cargo));
    }
    None
}

/// A text every reader refuses
fn malformed(t: &mut Tape) -> Option<String> {
    let c = small_cfg(t);
    let good = to_text(&c, &Layout::gen(t));
    for _ in 0..6 {
        let mut s = good.clone();
        match t.size(3) {
            0 => s = s.lines().take(t.size(s.lines().count())).map(|l| format!("{}\n", l)).collect(),
            _ => {
                let n = t.range(1, 2);
                for _ in 0..n {
                    texts::mutate(t, &mut s);
                }
            }
        }
        if let Read::Refuse(_) = refparse::read(&s) {
            return Some(s);
        }
    }
    None
}

/// C26: what a failed build leaves behind
pub fn fails(t: &mut Tape, notes: &mut Notes) -> Option<String> {
    let p = place();
    let v = fails_in(t, notes, &p);
    let _ = fs::remove_dir_all(&p.root);
    v
}

fn fails_in(t: &mut Tape, notes: &mut Notes, p: &Place) -> Option<String> {
    let kind = *t.pick(&[
        "malformed input",
        "missing input",
        "input is a directory",
        "input is not UTF-8",
        "no source",
        "no target",
        "CARGO_MANIFEST_DIR missing",
        "OUT_DIR missing",
        "CARGO_MANIFEST_DIR not Unicode",
        "OUT_DIR not Unicode",
        "output directory missing",
        "output is a directory",
        "conflicting routes",
        "no argument",
    ]);
    // most of the weight on malformed input
    let kind = if t.chance(1, 2) { "malformed input" } else { kind };
    if kind == "no argument" {
        // the command line tool says how it is used, and does nothing
        let in_name = name(t, ".routes");
        fs::write(p.cwd.join(&in_name), to_text(&small_cfg(t), &Layout::default())).expect("write");
        notes.label(kind);
        let call = Call { steps: vec![], wfcmd: true, env: vec![] };
        let before = snapshot(&p.root);
        let done = call.run(p);
        let changed = difference(&before, &snapshot(&p.root));
        let what = if done.code.is_none() {
            "is ended by a signal"
        } else if !done.stdout.is_empty() {
            "writes to standard output"
        } else if !changed.is_empty() {
            "touches files"
        } else if !done.stderr.to_lowercase().contains("usage") {
            "does not say how it is used"
        } else {
            return None;
        };
        return Some(format!("the command line tool without an argument {}\n{}\nstandard error: {}", what, call.show(), done.stderr));
    }
    let about_input = matches!(kind, "conflicting routes" | "malformed input" | "missing input" | "input is a directory" | "input is not UTF-8");
    let about_env = kind.contains("_DIR");
    let wfcmd = about_input && t.chance(1, 4);
    let from_env = about_env || (!wfcmd && t.chance(1, 2));
    let in_name = name(t, ".routes");
    let out_name = name(t, ".rs");
    let (in_base, out_base) = if from_env { (&p.manifest, &p.out) } else { (&p.cwd, &p.cwd) };
    let in_abs = in_base.join(&in_name);
    let out_abs = out_base.join(&out_name);
    let mut out_given = out_name.clone();
    let cfg = small_cfg(t);
    let mut text = to_text(&cfg, &Layout::gen(t)).into_bytes();
    if kind == "malformed input" {
        match malformed(t) {
            Some(s) => text = s.into_bytes(),
            None => {
                notes.label("no malformed text found");
                return None;
            }
        }
    }
    if kind == "input is not UTF-8" {
        let i = t.size(text.len() + 1);
        text.insert(i, 0xff);
    }
    if kind == "conflicting routes" {
        let mut s = to_text(&cfg, &Layout::default());
        s.push_str(t.pick(&[
            "  wfdup\n    GET WfOne\n  wfdup\n    GET WfTwo\n",
            "  wfone\n    GET WfOne\n  wftwo\n    GET WfOne\n",
            "  wfone\n    GET WfOne\n    GET WfTwo\n",
            "  wfone\n    {a: u8}\n      GET WfOne\n    {b: u8}\n      GET WfTwo\n",
        ]));
        text = s.into_bytes();
    }
    match kind {
        "missing input" => {}
        "input is a directory" => fs::create_dir_all(&in_abs).expect("dir"),
        _ => fs::write(&in_abs, &text).expect("write"),
    }
    let to_file = !wfcmd && (kind.starts_with("output") || t.chance(3, 4));
    let mut existed = false;
    match kind {
        "output directory missing" => {
            out_given = format!("nowhere/{}", out_name.trim_start_matches("../").trim_start_matches("./"));
        }
        "output is a directory" => fs::create_dir_all(&out_abs).expect("dir"),
        _ => {
            if to_file && t.chance(2, 3) {
                existed = true;
                fs::write(&out_abs, b"// what was there before\n").expect("write");
            }
        }
    }
    let mut steps = vec![];
    if wfcmd {
        steps.push(in_name.clone());
    } else {
        let mut tail = vec![];
        if kind != "no source" {
            tail.push(format!("in={}", in_name));
        }
        if kind != "no target" {
            tail.push(if to_file { format!("out={}", out_given) } else { "stdout".into() });
        }
        if t.chance(1, 2) {
            tail.reverse();
        }
        steps.push(if from_env { "env".into() } else { "new".into() });
        steps.extend(tail);
        steps.push("build".into());
    }
    let mut env = if from_env { env_of(p) } else { vec![] };
    for (k, v) in &mut env {
        if kind.starts_with(*k) {
            *v = if kind.ends_with("missing") { None } else { Some(OsString::from_vec(b"/tmp/\xff\xfe".to_vec())) };
        }
    }
    let call = Call { steps, wfcmd, env };
    notes.label(kind);
    if existed {
        notes.label("with a previous output");
    }
    notes.nontrivial.push(hash_of(&(kind, &text, call.steps.len(), &in_name, &out_name, existed)));
    if notes.samples.len() < 2 {
        notes.samples.push(format!("{}: {}", kind, call.show()));
    }
    let before = snapshot(&p.root);
    let done = call.run(p);
    let after = snapshot(&p.root);
    let shown = String::from_utf8_lossy(&text).to_string();
    let bad = |what: String| {
        Some(format!(
            "{} ({})\n{}\nexit status {:?}\nstandard error: {}\ninput:\n{}",
            what,
            kind,
            call.show(),
            done.code,
            done.stderr.chars().take(500).collect::<String>(),
            indent(&shown)
        ))
    };
    if done.code == Some(0) {
        return bad("the build succeeds".into());
    }
    if done.code.is_none() {
        return bad("the build is ended by a signal".into());
    }
    if kind == "conflicting routes" {
        // found while generating, when the output is already being replaced
        if done.stderr.trim().is_empty() {
            return bad("the build fails without a word".into());
        }
        return None;
    }
    let changed = difference(&before, &after);
    if !changed.is_empty() {
        return bad(format!("a failed build touches files: {:?}", changed));
    }
    let stdout = String::from_utf8_lossy(&done.stdout).to_string();
    let (_, rest) = cargo_lines(&stdout);
    if !rest.is_empty() {
        return bad(format!("a failed build writes to standard output: {:?}", rest.chars().take(200).collect::<String>()));
    }
    let lower = done.stderr.to_lowercase();
    let file = |n: &str| Path::new(n).file_name().unwrap().to_string_lossy().to_string();
    let named = match kind {
        "no source" => lower.contains("source") || lower.contains("input"),
        "no target" => lower.contains("target") || lower.contains("output"),
        k if k.starts_with("CARGO_MANIFEST_DIR") => done.stderr.contains("CARGO_MANIFEST_DIR"),
        k if k.starts_with("OUT_DIR") => done.stderr.contains("OUT_DIR"),
        k if k.starts_with("output") => done.stderr.contains(&file(&out_name)),
        _ => done.stderr.contains(&file(&in_name)),
    };
    if !named {
        return bad("the message does not name what is at fault".into());
    }
    if kind == "malformed input" {
        // the report of what is wrong follows
        let (report, _) = match pipeline::guarded(|| {
            let mut out = vec![];
            let s = String::from_utf8_lossy(&text).to_string();
            wayfinder::parse::errors::show_errors(&mut out, &s, wayfinder::parse::route_config(&s), "");
            String::from_utf8_lossy(&out).to_string()
        }) {
            Ok(r) => (r, ()),
            Err(_) => return None,
        };
        if !done.stderr.contains(report.trim_end()) {
            return bad(format!("the message lacks the report:\n{}", report));
        }
    }
    None
}

/// C24 for the builder: the device fills up, the reader goes away
pub fn full(t: &mut Tape, notes: &mut Notes) -> Option<String> {
    let p = place();
    let v = full_in(t, notes, &p);
    let _ = fs::remove_dir_all(&p.root);
    v
}

fn full_in(t: &mut Tape, notes: &mut Notes, p: &Place) -> Option<String> {
    let cfg = small_cfg(t);
    let want = match pipeline::codegen(&cfg.real()) {
        Ok(c) => c,
        Err(e) => return Some(format!("no code: {}", e)),
    };
    fs::write(p.cwd.join("app.routes"), to_text(&cfg, &Layout::default())).expect("write");
    let wfcmd = t.chance(1, 3);
    let how = *t.pick(&["full device", "reader gone", "file size limit"]);
    let to_file = !wfcmd && how != "reader gone" && t.chance(1, 2);
    let blocks = t.size((want.len() + 511) / 512);
    let steps = if wfcmd {
        vec!["app.routes".to_string()]
    } else {
        let out = if !to_file {
            "stdout".to_string()
        } else if how == "full device" {
            "out=/dev/full".to_string()
        } else {
            "out=app.rs".to_string()
        };
        vec!["new".into(), "in=app.routes".into(), out, "build".into()]
    };
    let call = Call { steps, wfcmd, env: vec![] };
    let mut c = call.command(p);
    let mut kept = None;
    match how {
        "full device" => {
            if !to_file {
                c.stdout(fs::OpenOptions::new().write(true).open("/dev/full").unwrap_or_else(|e| crate::die(&format!("/dev/full: {}", e))));
            }
        }
        "reader gone" => {
            let (a, b) = UnixStream::pair().expect("pair");
            drop(b);
            c.stdout(Stdio::from(OwnedFd::from(a)));
        }
        _ => {
            // a limit on the size of files, in blocks of 512 bytes
            let program = c.get_program().to_os_string();
            let args: Vec<OsString> = c.get_args().map(|a| a.to_os_string()).collect();
            let mut sh = Command::new("/bin/dash");
            sh.arg("-c").arg(format!("trap '' XFSZ; ulimit -f {}; exec \"$@\"", blocks)).arg("dash").arg(program).args(args);
            sh.current_dir(&p.cwd).env_remove("CARGO_MANIFEST_DIR").env_remove("OUT_DIR").env("RUST_BACKTRACE", "0");
            sh.stdin(Stdio::null());
            c = sh;
            if !to_file {
                let f = p.cwd.join("app.rs");
                c.stdout(fs::File::create(&f).expect("create"));
            }
            kept = Some(p.cwd.join("app.rs"));
        }
    }
    // unread: whatever is printed there must not get in the way
    let err = p.root.join("stderr");
    let o = c.stderr(Stdio::piped());
    let out = o.spawn().and_then(|c| c.wait_with_output()).unwrap_or_else(|e| crate::die(&format!("child: {}", e)));
    let _ = err;
    notes.label(&format!("{}, {}", how, if to_file { "file" } else { "standard output" }));
    notes.nontrivial.push(hash_of(&(&cfg, how, to_file, blocks, wfcmd)));
    if notes.samples.len() < 2 {
        notes.samples.push(format!("{} ({} blocks of {} bytes): {}", how, blocks, want.len(), call.show()));
    }
    let stderr = String::from_utf8_lossy(&out.stderr).to_string();
    let bad = |what: &str| {
        Some(format!(
            "{} ({}, {} blocks of {} bytes)\n{}\nexit status {:?}\nstandard error: {}\n{}",
            what,
            how,
            blocks,
            want.len(),
            call.show(),
            out.status,
            stderr.chars().take(500).collect::<String>(),
            indent(&to_text(&cfg, &Layout::default()))
        ))
    };
    if out.status.success() {
        return bad("writing the output failed, and the build succeeds");
    }
    if out.status.code().is_none() {
        return bad("writing the output failed, and the build is ended by a signal");
    }
    if stderr.trim().is_empty() {
        return bad("writing the output failed, and nothing is said about it");
    }
    if let Some(f) = kept {
        let b = fs::read(&f).unwrap_or_default();
        if !want.as_bytes().starts_with(&b) {
            return bad("what was written is not the beginning of the output");
        }
    }
    None
}
