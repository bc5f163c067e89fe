//! Drive a check: generate, decide, shrink, report.

use crate::batch::{self, Built, Unit};
use crate::interp::Program;
use crate::report::Run;
use crate::tape::{candidates, hash_str, mix, Tape};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What judging a case adds to the record.
#[derive(Default)]
pub struct Notes {
    pub evaluations: u64,
    pub labels: Vec<String>,
    pub nontrivial: Vec<u64>,
    pub samples: Vec<String>,
    pub known: Vec<String>,
}

impl Notes {
    pub fn label(&mut self, l: &str) {
        self.labels.push(l.to_string());
    }
    pub fn merge_into(self, run: &mut Run) {
        run.evaluations += self.evaluations;
        for l in self.labels {
            run.label(&l);
        }
        for h in self.nontrivial {
            run.nontrivial(&h);
        }
        for s in self.samples {
            run.sample(|| s);
        }
        for k in self.known {
            *run.known.entry(k).or_insert(0) += 1;
        }
    }
}

/// A check that needs generated code compiled.
pub trait BatchCheck: Sync {
    type Case: Send + Sync;
    fn generate(&self, t: &mut Tape) -> Self::Case;
    /// The code to compile, or what is already wrong
    fn units(&self, c: &Self::Case) -> Result<Vec<Unit>, String>;
    /// What is wrong, if anything
    fn judge(&self, c: &Self::Case, built: &[Built], notes: &mut Notes) -> Option<String>;
    fn options(&self) -> batch::Options {
        batch::Options::default()
    }
    /// How many cases to look at with the interpreter for each one compiled
    fn ahead(&self) -> usize {
        0
    }
    /// Is a case worth compiling, going by the interpreter's answers?
    fn suspect(&self, c: &Self::Case, _programs: &[Program], built: &[Built]) -> bool {
        self.judge(c, built, &mut Notes::default()).is_some()
    }
}

/// What the interpreter made of many cases
#[derive(Default)]
struct Ahead {
    read: u64,
    requests: u64,
    unknown: u64,
    suspects: Vec<(usize, Vec<u64>)>,
    strange: Vec<(usize, Vec<u64>)>,
    why: std::collections::BTreeMap<String, u64>,
}

impl Ahead {
    /// What does the interpreter think of this case?
    fn glance<C: BatchCheck>(&mut self, check: &C, i: usize, t: &mut Tape) {
        let case = check.generate(t);
        let mut built = vec![];
        let mut programs = vec![];
        let mut verdict = None;
        match check.units(&case) {
            Err(_) => verdict = Some(true),
            Ok(units) => {
                for u in &units {
                    let ran = crate::interp::read(&u.code).and_then(|p| p.run(&u.requests).map(|o| (p, o)));
                    match ran {
                        Ok((p, obs)) => {
                            self.requests += obs.len() as u64;
                            programs.push(p);
                            built.push(Built::Ran { obs, probe: vec![] });
                        }
                        Err(crate::interp::No::Broken(why)) => {
                            *self.why.entry(why).or_insert(0) += 1;
                            verdict = Some(true)
                        }
                        Err(crate::interp::No::Unknown(why)) => {
                            *self.why.entry(why).or_insert(0) += 1;
                            verdict = verdict.or(Some(false))
                        }
                    }
                }
            }
        }
        self.read += 1;
        let verdict = match verdict {
            None => check.suspect(&case, &programs, &built).then_some(true),
            v => v,
        };
        match verdict {
            Some(true) => self.suspects.push((i, t.used.clone())),
            Some(false) => {
                self.unknown += 1;
                self.strange.push((i, t.used.clone()));
            }
            None => {}
        }
    }
}

fn look_ahead<C: BatchCheck>(check: &C, base: u64, from: usize, to: usize, all: &Mutex<Ahead>) {
    let next = std::sync::atomic::AtomicUsize::new(from);
    std::thread::scope(|s| {
        for _ in 0..8 {
            let next = &next;
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || loop {
                    let a = next.fetch_add(20, Ordering::SeqCst);
                    if a >= to {
                        break;
                    }
                    let mut mine = Ahead::default();
                    for i in a..(a + 20).min(to) {
                        let mut t = Tape::random(mix(base, i as u64));
                        mine.glance(check, i, &mut t);
                    }
                    let mut g = all.lock().unwrap();
                    g.read += mine.read;
                    g.requests += mine.requests;
                    g.unknown += mine.unknown;
                    g.suspects.extend(mine.suspects);
                    g.strange.extend(mine.strange);
                    for (k, n) in mine.why {
                        *g.why.entry(k).or_insert(0) += n;
                    }
                })
                .expect("thread");
        }
    });
}

/// Cases that look wrong to the interpreter, the shortest few
fn suspects<C: BatchCheck>(check: &C, run: &mut Run, base: u64, count: usize) -> Vec<Tape> {
    let all = Mutex::new(Ahead::default());
    let start = Instant::now();
    look_ahead(check, base, 0, count.min(800), &all);
    // where the code is written in a way the interpreter cannot read, it is no use
    let g = all.lock().unwrap();
    let useful = g.unknown * 2 < g.read;
    drop(g);
    if useful {
        look_ahead(check, base, 800.min(count), count, &all);
    }
    let mut all = all.into_inner().unwrap();
    run.add("interpreted: cases", all.read);
    run.add("interpreted: requests", all.requests);
    run.add("interpreted: cases it cannot read", all.unknown);
    run.add("interpreted: suspects", all.suspects.len() as u64);
    if std::env::var("WF_VERBOSE").is_ok() {
        println!("interpreted {} cases in {:?}: {} suspects, {} unreadable", all.read, start.elapsed(), all.suspects.len(), all.unknown);
        for (k, n) in &all.why {
            println!("  {:>6} {}", n, k);
        }
    }
    all.suspects.sort_by_key(|s| (s.1.len(), s.0));
    all.suspects.truncate(96);
    if useful && all.unknown * 5 < all.read {
        all.strange.sort_by_key(|s| (s.1.len(), s.0));
        all.strange.truncate(24);
        all.suspects.extend(all.strange);
    }
    all.suspects.into_iter().map(|s| Tape::replay(s.1)).collect()
}

fn evaluate<C: BatchCheck>(check: &C, tapes: Vec<Tape>) -> Vec<(Vec<u64>, Option<String>, Notes)> {
    let n = tapes.len();
    let slots: Mutex<Vec<Option<(Vec<u64>, C::Case, Result<Vec<Unit>, String>)>>> =
        Mutex::new((0..n).map(|_| None).collect());
    let work: Mutex<Vec<(usize, Tape)>> = Mutex::new(tapes.into_iter().enumerate().rev().collect());
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let item = work.lock().unwrap().pop();
                let (i, mut t) = match item {
                    Some(x) => x,
                    None => break,
                };
                let case = check.generate(&mut t);
                let units = check.units(&case);
                slots.lock().unwrap()[i] = Some((t.used, case, units));
            });
        }
    });
    let slots = slots.into_inner().unwrap();
    let mut units: Vec<Unit> = vec![];
    let mut spans: Vec<(usize, usize)> = vec![];
    let mut cases = vec![];
    for s in slots {
        let (tape, case, us) = s.expect("a generated case");
        let start = units.len();
        let early = match us {
            Ok(us) => {
                units.extend(us);
                None
            }
            Err(e) => Some(e),
        };
        spans.push((start, units.len()));
        cases.push((tape, case, early));
    }
    let built = batch::run(&units, &check.options());
    let told: Vec<Option<&'static str>> =
        if check.ahead() > 0 { compare(&units, &built) } else { units.iter().map(|_| None).collect() };
    let mut out = vec![];
    for ((tape, case, early), (a, b)) in cases.into_iter().zip(spans) {
        let mut notes = Notes::default();
        for l in told[a..b].iter().flatten() {
            notes.label(l);
        }
        let verdict = match early {
            Some(e) => {
                notes.evaluations += 1;
                Some(e)
            }
            None => check.judge(&case, &built[a..b], &mut notes),
        };
        out.push((tape, verdict, notes));
    }
    out
}

/// Do the interpreter and the compiled code give the same answers?
fn compare(units: &[Unit], built: &[Built]) -> Vec<Option<&'static str>> {
    use crate::interp::{self, No};
    let out: Mutex<Vec<Option<&'static str>>> = Mutex::new(vec![None; units.len()]);
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            let (out, next) = (&out, &next);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= units.len() {
                        break;
                    }
                    let word = match (interp::run(&units[i].code, &units[i].requests), &built[i]) {
                        (Err(No::Unknown(_)), _) => "interpreter against compiler: cannot read",
                        (Err(No::Broken(_)), Built::CompileError(_)) => "interpreter against compiler: both refuse",
                        (Err(No::Broken(_)), _) => "interpreter against compiler: refuses alone",
                        (Ok(_), Built::CompileError(_)) => "interpreter against compiler: accepts alone",
                        (Ok(mine), Built::Ran { obs, .. }) => {
                            let same = |a: &batch::Obs, b: &batch::Obs| match (a, b) {
                                (batch::Obs::Panic(_), batch::Obs::Panic(_)) => true,
                                (a, b) => a == b,
                            };
                            let differs = mine.iter().zip(obs).position(|(a, b)| !same(a, b));
                            if let (Some(n), true) = (differs, std::env::var("WF_VERBOSE").is_ok()) {
                                println!("{}: {:?} and {:?}", units[i].requests[n].show(), mine[n], obs[n]);
                            }
                            match differs {
                                None => "interpreter against compiler: the same answers",
                                Some(_) => "interpreter against compiler: other answers",
                            }
                        }
                    };
                    out.lock().unwrap()[i] = Some(word);
                })
                .expect("thread");
        }
    });
    out.into_inner().unwrap()
}

fn smaller(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

fn shrink(
    mut best: (Vec<u64>, String),
    width: usize,
    rounds: usize,
    mut attempt: impl FnMut(Vec<Vec<u64>>) -> Vec<(Vec<u64>, Option<String>)>,
) -> (Vec<u64>, String) {
    let start = Instant::now();
    let mut skip = 0;
    for round in 0..rounds {
        if start.elapsed() > Duration::from_secs(90) {
            break;
        }
        let all = candidates(&best.0, round as u64);
        if skip >= all.len() {
            break;
        }
        let some: Vec<Vec<u64>> = all.into_iter().skip(skip).take(width).collect();
        let n = some.len();
        let mut found = false;
        for (tape, verdict) in attempt(some) {
            if let Some(v) = verdict {
                if smaller(&tape, &best.0) {
                    best = (tape, v);
                    found = true;
                }
            }
        }
        if found {
            skip = 0;
        } else {
            skip += n;
        }
    }
    best
}

pub fn run_batch<C: BatchCheck>(check: &C, run: &mut Run, count: usize) {
    run_batch_salted(check, run, count, "")
}

pub fn run_batch_salted<C: BatchCheck>(check: &C, run: &mut Run, count: usize, salt: &str) {
    let part: Judge = &|ts| evaluate(check, ts);
    // for experiments: one way of searching alone
    let only = std::env::var("WF_ONLY").unwrap_or_default();
    let does = |what: &str| only.is_empty() || only == what;
    if does("compiled") {
        run_groups(run, count, 800, 96, salt, part);
    }
    if does("interpreted") && check.ahead() > 0 && run.violations.is_empty() {
        let base = mix(run.seed, hash_str(&format!("{}{} ahead", run.id, salt)));
        let tapes = suspects(check, run, base, count * check.ahead());
        run.add("interpreted: suspects compiled", tapes.len() as u64);
        conclude(run, tapes, 96, part);
    }
}

/// Judge many cases at once
pub type Judge<'a> = &'a dyn Fn(Vec<Tape>) -> Vec<(Vec<u64>, Option<String>, Notes)>;

pub fn run_groups(run: &mut Run, count: usize, group: usize, width: usize, salt: &str, judge: Judge) {
    let base = mix(run.seed, hash_str(&format!("{}{}", run.id, salt)));
    let mut done = 0;
    let mut failures: Vec<(Vec<u64>, String)> = vec![];
    while done < count && failures.is_empty() {
        let n = (count - done).min(group);
        let tapes = (0..n).map(|i| Tape::random(mix(base, (done + i) as u64))).collect();
        for (tape, verdict, notes) in judge(tapes) {
            notes.merge_into(run);
            if let Some(v) = verdict {
                failures.push((tape, v));
            }
        }
        done += n;
    }
    run.add("cases", done as u64);
    if failures.is_empty() {
        return;
    }
    fail(run, failures, width, judge)
}

/// Judge these, and report the failures
fn conclude(run: &mut Run, tapes: Vec<Tape>, width: usize, judge: Judge) {
    let mut failures = vec![];
    if tapes.is_empty() {
        return;
    }
    for (tape, verdict, notes) in judge(tapes) {
        notes.merge_into(run);
        if let Some(v) = verdict {
            failures.push((tape, v));
        }
    }
    if !failures.is_empty() {
        fail(run, failures, width, judge)
    }
}

fn fail(run: &mut Run, mut failures: Vec<(Vec<u64>, String)>, width: usize, judge: Judge) {
    run.add("failing cases", failures.len() as u64);
    if std::env::var("WF_FAILURES").is_ok() {
        for f in &failures {
            println!("--- {}", f.1);
        }
        return;
    }
    failures.sort_by_key(|f| f.0.len());
    let first = failures.remove(0);
    let best = shrink(first, width, 60, |ts| {
        judge(ts.into_iter().map(Tape::replay).collect())
            .into_iter()
            .map(|(t, v, _)| (t, v))
            .collect()
    });
    run.violation(&best.0, &best.1);
}

pub fn replay_batch<C: BatchCheck>(check: &C, run: &mut Run, tape: Vec<u64>) {
    replay_groups(run, tape, &|ts| evaluate(check, ts))
}

pub fn replay_groups(run: &mut Run, tape: Vec<u64>, judge: Judge) {
    for (tape, verdict, notes) in judge(vec![Tape::replay(tape)]) {
        notes.merge_into(run);
        if let Some(v) = verdict {
            run.violation(&tape, &v);
        }
    }
}

/// Ends the process, as an error, if a case takes a minute of processor time.
struct Watch {
    slots: std::sync::Arc<Vec<Slot>>,
}

#[derive(Default)]
struct Slot {
    // case number + 1, or 0
    case: AtomicU64,
    task: AtomicU64,
}

fn task_ticks(task: u64) -> u64 {
    let stat = std::fs::read_to_string(format!("/proc/self/task/{}/stat", task)).unwrap_or_default();
    let rest = stat.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let get = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    get(11) + get(12)
}

impl Watch {
    /// base: for the property that every case returns, where its cases come from
    fn start(n: usize, what: String, total: Option<(Run, u64)>) -> Watch {
        let mut total = total;
        let slots: std::sync::Arc<Vec<Slot>> = std::sync::Arc::new((0..n).map(|_| Slot::default()).collect());
        let weak = std::sync::Arc::downgrade(&slots);
        std::thread::spawn(move || {
            let mut seen: Vec<(u64, u64)> = vec![(0, 0); n];
            loop {
                std::thread::sleep(Duration::from_secs(2));
                let slots = match weak.upgrade() {
                    Some(s) => s,
                    None => return,
                };
                for (i, s) in slots.iter().enumerate() {
                    let case = s.case.load(Ordering::SeqCst);
                    let ticks = task_ticks(s.task.load(Ordering::SeqCst));
                    if case == 0 || seen[i].0 != case {
                        seen[i] = (case, ticks);
                    } else if ticks.saturating_sub(seen[i].1) > 6000 {
                        let msg = format!("no answer from case {} of {} in a minute of processor time", case - 1, what);
                        match total.take() {
                            Some((mut run, base)) => {
                                run.evaluations = case;
                                run.violation(&[u64::MAX, mix(base, case - 1)], &msg);
                                run.write_evidence();
                                std::process::exit(1)
                            }
                            None => crate::die(&msg),
                        }
                    }
                }
            }
        });
        Watch { slots }
    }

    fn at(&self, me: usize, case: u64) {
        let s = &self.slots[me];
        if s.task.load(Ordering::Relaxed) == 0 {
            let task = std::fs::read_link("/proc/thread-self")
                .ok()
                .and_then(|p| p.file_name().and_then(|f| f.to_str().and_then(|f| f.parse().ok())))
                .unwrap_or(0);
            s.task.store(task, Ordering::SeqCst);
        }
        s.case.store(case + 1, Ordering::SeqCst);
    }

    fn done(&self, me: usize) {
        self.slots[me].case.store(0, Ordering::SeqCst);
    }
}

/// Every number below n
pub fn run_range<F>(run: &mut Run, n: u64, f: F)
where
    F: Fn(u64, &mut Notes) -> Option<String> + Sync,
{
    let shared: Mutex<(&mut Run, Option<(u64, String)>)> = Mutex::new((run, None));
    let next = AtomicU64::new(0);
    let watch = Watch::start(8, "an enumeration".to_string(), None);
    std::thread::scope(|s| {
        for me in 0..8 {
            let (next, shared, f, watch) = (&next, &shared, &f, &watch);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || loop {
                    let a = next.fetch_add(500, Ordering::SeqCst);
                    if a >= n || shared.lock().unwrap().1.is_some() {
                        break;
                    }
                    let mut notes = Notes::default();
                    let mut bad = None;
                    for i in a..(a + 500).min(n) {
                        notes.evaluations += 1;
                        watch.at(me, i);
                        if let Some(v) = f(i, &mut notes) {
                            bad = Some((i, v));
                            break;
                        }
                    }
                    watch.done(me);
                    let mut g = shared.lock().unwrap();
                    notes.merge_into(g.0);
                    if let Some(b) = bad {
                        if g.1.as_ref().map_or(true, |x| b.0 < x.0) {
                            g.1 = Some(b);
                        }
                    }
                })
                .expect("thread");
        }
    });
    let (run, failure) = shared.into_inner().unwrap();
    if let Some((i, v)) = failure {
        run.violation(&[i], &v);
    }
}

pub fn run_inline_salted<F>(run: &mut Run, count: usize, salt: &str, f: F)
where
    F: Fn(&mut Tape, &mut Notes) -> Option<String> + Sync,
{
    let base = mix(run.seed, hash_str(&format!("{}{}", run.id, salt)));
    let total = if run.id == "C17" || run.id == "C33" { Some((Run::new(&run.id, run.tier, run.seed), base)) } else { None };
    let watch = Watch::start(8, format!("{} {} base {}", run.id, salt, base), total);
    let shared: Mutex<(&mut Run, Option<(usize, Vec<u64>, String)>)> = Mutex::new((run, None));
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for me in 0..8 {
            let (next, shared, f, watch) = (&next, &shared, &f, &watch);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || loop {
                    let a = next.fetch_add(50, std::sync::atomic::Ordering::SeqCst);
                    if a >= count {
                        break;
                    }
                    if shared.lock().unwrap().1.is_some() {
                        break;
                    }
                    let mut notes = Notes::default();
                    let mut bad = None;
                    for i in a..(a + 50).min(count) {
                        let mut t = Tape::random(mix(base, i as u64));
                        notes.evaluations += 1;
                        watch.at(me, i as u64);
                        if let Some(v) = f(&mut t, &mut notes) {
                            bad = Some((i, t.used, v));
                            break;
                        }
                    }
                    watch.done(me);
                    let mut g = shared.lock().unwrap();
                    notes.merge_into(g.0);
                    if let Some(b) = bad {
                        let better = match g.1 {
                            None => true,
                            Some((i, _, _)) => b.0 < i,
                        };
                        if better {
                            g.1 = Some(b);
                        }
                    }
                })
                .expect("thread");
        }
    });
    let (run, failure) = shared.into_inner().unwrap();
    if let Some((_, tape, v)) = failure {
        let began = std::time::Instant::now();
        let best = shrink((tape, v), 2000, 400, |ts| {
            ts.into_iter()
                .map(|t| {
                    if began.elapsed().as_secs() > 90 {
                        return (t, None);
                    }
                    let mut t = Tape::replay(t);
                    let v = f(&mut t, &mut Notes::default());
                    (t.used, v)
                })
                .collect()
        });
        run.violation(&best.0, &best.1);
    }
}

pub fn replay_inline<F>(run: &mut Run, tape: Vec<u64>, f: F)
where
    F: Fn(&mut Tape, &mut Notes) -> Option<String>,
{
    let total = match (run.id.as_str(), tape.get(0), tape.get(1)) {
        // case 0 of this base stands for it, see Watch
        ("C17", Some(&u64::MAX), Some(_)) | ("C33", Some(&u64::MAX), Some(_)) => Some((Run::new(&run.id, run.tier, run.seed), 0)),
        _ => None,
    };
    let watch = Watch::start(1, format!("replay of {}", run.id), total);
    watch.at(0, 0);
    let mut t = Tape::replay(tape);
    let mut notes = Notes::default();
    notes.evaluations += 1;
    let v = f(&mut t, &mut notes);
    watch.done(0);
    notes.merge_into(run);
    if let Some(v) = v {
        run.violation(&t.used, &v);
    }
}
