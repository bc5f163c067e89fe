//! Property-based checks of wayfinder.  See ../DESIGN.md.

mod batch;
mod cfg;
mod checks;
mod engine;
mod gen;
mod interp;
mod meta;
mod model;
mod pairs;
mod pipeline;
mod probe;
mod refparse;
mod report;
mod requests;
mod support;
mod tape;
mod types;
#[allow(dead_code)]
mod uuid;

use checks::{build, codegen, history, programs, repository, routers, texts};
use checks::routing::{Prop, Routing};
use report::{Run, Tier};

pub fn die(what: &str) -> ! {
    eprintln!("ERROR: {}", what);
    let _ = std::fs::remove_dir_all(batch::scratch_root());
    std::process::exit(2)
}

fn listed(run: &Run) -> Vec<String> {
    run.findings.iter().filter(|f| f.property == run.id).map(|f| f.id.clone()).collect()
}

fn check(run: &mut Run, tape: Option<(String, Vec<u64>)>) {
    macro_rules! routing {
        ($prop:expr, $n:expr, $m:expr) => {{
            let c = Routing::new($prop, run);
            match tape {
                Some((_, t)) => engine::replay_batch(&c, run, t),
                None => {
                    checks::routing::replay_findings(run);
                    let n = run.n($n, $m);
                    engine::run_batch(&c, run, n)
                }
            }
        }};
    }
    macro_rules! batch {
        ($c:expr, $n:expr, $m:expr) => {
            batch!("", $c, $n, $m)
        };
        ($part:expr, $c:expr, $n:expr, $m:expr) => {{
            let c = $c;
            match tape {
                Some((ref part, ref t)) => {
                    if part == $part {
                        run.part = part.clone();
                        engine::replay_batch(&c, run, t.clone())
                    }
                }
                None => {
                    if run.part.is_empty() || run.part == "structs" || run.id == "C30" {
                        checks::routing::replay_findings(run);
                    }
                    run.part = $part.to_string();
                    let n = run.n($n, $m);
                    engine::run_batch_salted(&c, run, n, $part)
                }
            }
        }};
    }
    #[allow(unused_macros)]
    macro_rules! inline {
        ($part:expr, $f:expr, $n:expr, $m:expr) => {{
            match tape {
                Some((ref part, ref t)) => {
                    if part == $part {
                        run.part = part.clone();
                        engine::replay_inline(run, t.clone(), $f)
                    }
                }
                None => {
                    run.part = $part.to_string();
                    let n = run.n($n, $m);
                    engine::run_inline_salted(run, n, $part, $f)
                }
            }
        }};
    }
    macro_rules! range {
        ($part:expr, $top:expr, $count:expr, $f:expr) => {{
            match tape {
                Some((ref part, ref t)) => {
                    if part == $part {
                        run.part = part.clone();
                        let mut notes = engine::Notes::default();
                        let mut k = t.get(0).cloned().unwrap_or(0);
                        let mut n = 1;
                        while k >= $count(n) {
                            k -= $count(n);
                            n += 1;
                        }
                        if let Some(v) = $f(n, k, &mut notes) {
                            run.violation(t, &v);
                        }
                    }
                }
                None => {
                    run.part = $part.to_string();
                    let total: u64 = (1..=$top).map($count).sum();
                    run.add("enumerated completely", total);
                    engine::run_range(run, total, |mut k, notes| {
                        let mut n = 1;
                        while k >= $count(n) {
                            k -= $count(n);
                            n += 1;
                        }
                        $f(n, k, notes)
                    })
                }
            }
        }};
    }
    match run.id.clone().as_str() {
        "C01" => routing!(Prop::Declared, 1600, 30000),
        "C02" => routing!(Prop::NotFound, 1300, 30000),
        "C03" => routing!(Prop::Method, 1300, 30000),
        "C04" => routing!(Prop::Capture, 1300, 30000),
        "C05" => routing!(Prop::BadParam, 1300, 30000),
        "C06" => batch!(routers::Slashes, 1200, 25000),
        "C07" => routing!(Prop::Total, 1200, 30000),
        "C08" => routing!(Prop::Redirect, 1300, 30000),
        "C09" => batch!(routers::Order, 700, 15000),
        "C10" => batch!(routers::ToPath { listed: listed(run) }, 1000, 20000),
        "C11" => batch!(routers::Query { listed: listed(run) }, 1000, 20000),
        "C12" => {
            batch!("2018", routers::Compiles { edition: "2018" }, 1400, 40000);
            batch!("2021", routers::Compiles { edition: "2021" }, 500, 10000);
            batch!("2015", routers::Compiles { edition: "2015" }, 300, 10000);
        }
        "C13" => batch!(routers::Surface, 900, 20000),
        "C14" => inline!("", texts::round_trip, 60000, 2_000_000),
        "C15" => inline!("", texts::layout, 60000, 2_000_000),
        "C16" => {
            inline!("", texts::faithful, 2_000_000, 40_000_000);
            range!("small", if run.quick() { 4 } else { 5 }, texts::small_count, texts::small);
        }
        "C18" => inline!("", texts::located, 100_000, 2_000_000),
        "C17" => inline!("", texts::total, 100_000, 2_000_000),
        "C19" => {
            inline!("structs", codegen::mounts, 40_000, 1_000_000);
            batch!("routers", routers::Mounted { listed: listed(run) }, 500, 12000);
        }
        "C20" => match tape {
            Some((_, t)) => engine::replay_groups(run, t, &programs::macros),
            None => {
                let n = run.n(2400, 40000);
                engine::run_groups(run, n, 320, 32, "", &programs::macros)
            }
        },
        "C21" => batch!(codegen::Headers, 1200, 20000),
        "C22" => {
            inline!("", codegen::deterministic, 10_000, 200_000);
            inline!("processes", codegen::processes, 2000, 30_000);
        }
        "C23" => inline!("", codegen::conflicts, 60_000, 1_000_000),
        "C24" => {
            inline!("", codegen::faults, 400, 6000);
            inline!("devices", build::full, 4000, 60_000);
        }
        "C25" => inline!("", build::builds, 12_000, 200_000),
        "C26" => inline!("", build::fails, 12_000, 200_000),
        "C27" => inline!("", codegen::documented, 30_000, 600_000),
        "C28" => routing!(Prop::Precedence, 1300, 30000),
        "C29" => batch!(routers::Locality, 700, 15000),
        "C35" => {
            batch!("2018", routers::Warnings { edition: "2018" }, 800, 15000);
            batch!("2021", routers::Warnings { edition: "2021" }, 400, 8000);
        }
        "C31" => batch!(history::Memory, 500, 10000),
        #[cfg(feature = "parts")]
        "C37" => inline!("", checks::parts::alone, 60_000, 1_000_000),
        "C36" => batch!(history::Economy, 700, 15000),
        "C32" => inline!("", history::parsing, 8_000, 200_000),
        "C33" => inline!("", history::growth, 6_000, 60_000),
        "C34" => inline!("", history::values, 40_000, 1_000_000),
        "C30" => {
            batch!("goal", repository::Goal { listed: listed(run) }, 40, 800);
            let apps = if tape.is_none() || run.part == "examples" || matches!(tape, Some((ref p, _)) if p == "examples") {
                Some(repository::Examples::build())
            } else {
                None
            };
            if let Some(apps) = apps {
                inline!("examples", |t: &mut tape::Tape, n: &mut engine::Notes| apps.ask(t, n), 4000, 40_000);
            }
        }
        id => die(&format!("no check for {}", id)),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        die("usage: wfcheck ID | wfcheck replay FILE");
    }
    if args[1] == "__build" {
        return checks::build::child(&args[2..]);
    }
    if args[1] == "__pairs" {
        return pairs::print(20_000, 1, true);
    }
    if args[1] == "__read" {
        std::panic::set_hook(Box::new(|_| {}));
        return checks::history::child();
    }
    if std::env::var("WF_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (id, tape) = if args[1] == "replay" {
        let text = std::fs::read_to_string(&args[2]).unwrap_or_else(|e| die(&format!("{}", e)));
        let mut id = None;
        let mut tape = None;
        let mut part = String::new();
        for l in text.lines() {
            if let Some(x) = l.strip_prefix("property: ") {
                id = Some(x.to_string());
            }
            if let Some(x) = l.strip_prefix("tape: ") {
                tape = Some(x.split(',').filter_map(|v| v.trim().parse().ok()).collect::<Vec<u64>>());
            }
            if let Some(x) = l.strip_prefix("part: ") {
                part = x.to_string();
            }
            if l.is_empty() {
                break;
            }
        }
        (id.unwrap_or_else(|| die("no property in the replay file")), Some((part, tape.unwrap_or_default())))
    } else {
        (args[1].clone(), None)
    };
    let mut run = Run::new(&id, tier, seed);
    let replaying = tape.is_some();
    check(&mut run, tape);
    if std::env::var("WF_KEEP").is_err() {
        let _ = std::fs::remove_dir_all(batch::scratch_root());
    }
    if !replaying {
        run.write_evidence();
    }
    println!(
        "{} {:?} seed={}: {} evaluations, {} distinct non-trivial, {} violation(s)",
        run.id,
        run.tier,
        run.seed,
        run.evaluations,
        run.distinct(),
        run.violations.len()
    );
    if std::env::var("WF_VERBOSE").is_ok() {
        for (k, v) in &run.labels {
            println!("  {:>9}  {}", v, k);
        }
        for (k, v) in &run.known {
            println!("  {:>9}  known {}", v, k);
        }
    }
    std::process::exit(if run.violations.is_empty() { 0 } else { 1 });
}
