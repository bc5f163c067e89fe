//! What is checked in: the goal crate's router and the example applications.

use crate::batch::{scratch, Built, Obs, Options, Unit};
use crate::cfg::*;
use crate::checks::codegen::listing;
use crate::checks::routers::{known_id, same};
use crate::checks::routing::{agrees, show_obs};
use crate::engine::{BatchCheck, Notes};
use crate::model::{self, Outcome};
use crate::pipeline;
use crate::refparse::{self, Read};
use crate::report::hash_of;
use crate::requests::{self, Req};
use crate::tape::{Rng, Tape};
use std::path::PathBuf;
use std::process::Command;

fn read(what: &str, text: &str) -> Result<Cfg, String> {
    match refparse::read(text) {
        Read::Accept(c) => Ok(c),
        x => Err(format!("{} reads as {:?}", what, x)),
    }
}

/// An empty segment somewhere: what parameters make of that is not for the
/// hand-kept router to say
fn gaps(path: &[u8]) -> bool {
    let p = path.strip_prefix(b"/").unwrap_or(path);
    let p = p.strip_suffix(b"/").unwrap_or(p);
    path == b"//" || p.split(|b| *b == b'/').any(|s| s.is_empty()) && !p.is_empty()
}

/// C30: the goal crate
pub struct Goal {
    pub listed: Vec<String>,
}

pub struct GoalCase {
    requests: Vec<Req>,
}

fn goal() -> Result<(String, Cfg), String> {
    let code = std::fs::read_to_string("/repo/wayfinder-goal/src/routes.rs").map_err(|e| format!("the goal router: {}", e))?;
    let text = listing(&code)?;
    let mut cfg = read("the listing of the goal router", &text)?;
    cfg.headers = vec!["use uuid::Uuid;".to_string()];
    Ok((code, cfg))
}

impl BatchCheck for Goal {
    type Case = GoalCase;

    fn generate(&self, t: &mut Tape) -> GoalCase {
        let n = t.range(1, 1000);
        let mut r = Rng::new(t.seed());
        let requests = match goal() {
            Ok((_, c)) => requests::generate(&c, n, &mut r).into_iter().filter(|q| !gaps(&q.path)).collect(),
            Err(_) => vec![],
        };
        GoalCase { requests }
    }

    fn units(&self, c: &GoalCase) -> Result<Vec<Unit>, String> {
        let (code, cfg) = goal()?;
        let own = pipeline::codegen(&cfg.real())?;
        Ok(vec![
            Unit { code, requests: c.requests.clone(), probe: None },
            Unit { code: own, requests: c.requests.clone(), probe: None },
        ])
    }

    fn judge(&self, c: &GoalCase, built: &[Built], notes: &mut Notes) -> Option<String> {
        let (a, b) = match (built.get(0), built.get(1)) {
            (Some(Built::Ran { obs: a, .. }), Some(Built::Ran { obs: b, .. })) => (a, b),
            (Some(Built::CompileError(e)), _) => return Some(format!("the goal router does not compile:\n{}", e)),
            (_, Some(Built::CompileError(e))) => return Some(format!("the router generated from its listing does not compile:\n{}", e)),
            _ => return None,
        };
        let (_, cfg) = goal().ok()?;
        for (q, (x, y)) in c.requests.iter().zip(a.iter().zip(b)) {
            notes.evaluations += 1;
            let (want, trace) = model::ideal(&cfg.root, &q.path, &q.method);
            let (_, trace2) = model::as_is(&cfg.root, &q.path, &q.method);
            let _ = known_id(&trace, &self.listed);
            if !matches!(x, Obs::NotFound) {
                notes.nontrivial.push(hash_of(q));
            }
            notes.label(match x {
                Obs::NotFound => "goal: NotFound",
                Obs::NotAllowed => "goal: NotAllowed",
                Obs::Route { .. } => "goal: a route",
                Obs::Redirect { .. } => "goal: a redirect",
                Obs::Err { .. } => "goal: an error",
                _ => "goal: something else",
            });
            notes.samples.push(format!("{} => {}", q.show(), show_obs(x)));
            if !same(x, y) {
                return Some(format!(
                    "request {}\nthe goal router:        {}\na generated router:     {}",
                    q.show(),
                    show_obs(x),
                    show_obs(y)
                ));
            }
            if !trace.known() && !trace2.known() && !agrees(&want, x) {
                return Some(format!("request {}\nboth routers:  {}\nthe routes say: {:?}", q.show(), show_obs(x), want));
            }
        }
        None
    }

    fn options(&self) -> Options {
        Options { chunk: 4, uuid: true, ..Options::default() }
    }
}

// ---------------------------------------------------------------------

/// C30: the example applications
pub struct Examples {
    cli: PathBuf,
    structured: PathBuf,
    routes: Cfg,
    table: Cfg,
    problem: Option<String>,
}

impl Examples {
    pub fn build() -> Examples {
        let dir = scratch("examples");
        let out = Command::new("cargo")
            .args(&["build", "--offline", "--locked", "--manifest-path", "/repo/Cargo.toml", "-p", "router-cli", "-p", "structured", "--target-dir"])
            .arg(&dir)
            .env_remove("RUSTFLAGS")
            .output()
            .unwrap_or_else(|e| crate::die(&format!("cargo: {}", e)));
        let mut problem = None;
        if !out.status.success() {
            problem = Some(format!("the examples do not build:\n{}", String::from_utf8_lossy(&out.stderr)));
        }
        let text = std::fs::read_to_string("/repo/example.routes").unwrap_or_default();
        let routes = read("example.routes", &text).unwrap_or_else(|e| {
            problem = Some(e);
            Cfg::default()
        });
        // the structured example keeps its own table; its documentation is in
        // the code generated for it
        let mut table = Cfg::default();
        let mut found = vec![];
        if let Ok(rd) = std::fs::read_dir(dir.join("debug/build")) {
            for e in rd.flatten() {
                let f = e.path().join("out/routes.rs");
                if e.file_name().to_string_lossy().starts_with("structured-") && f.exists() {
                    found.push(f);
                }
            }
        }
        if problem.is_none() {
            match found.get(0).and_then(|f| std::fs::read_to_string(f).ok()) {
                None => problem = Some("the structured example has no generated routes".into()),
                Some(code) => match listing(&code).and_then(|l| read("the listing of the structured example", &l)) {
                    Ok(c) => table = c,
                    Err(e) => problem = Some(e),
                },
            }
        }
        Examples { cli: dir.join("debug/router-cli"), structured: dir.join("debug/structured"), routes, table, problem }
    }

    pub fn ask(&self, t: &mut Tape, notes: &mut Notes) -> Option<String> {
        if let Some(p) = &self.problem {
            return Some(p.clone());
        }
        // the same declarations, but for the redirect at /users
        let strip = |n: &Node| {
            let mut n = n.clone();
            n.kids.retain(|k| k.0 != Seg::Static("users".into()));
            n
        };
        if strip(&self.routes.root) != strip(&self.table.root) {
            return Some(format!(
                "the structs of the structured example are not the routes of the other:\n{:?}\n{:?}",
                strip(&self.table.root),
                strip(&self.routes.root)
            ));
        }
        let mut r = Rng::new(t.seed());
        let cfg = if t.chance(1, 2) { &self.routes } else { &self.table };
        let n = 1 + t.size(30);
        let q = requests::generate(cfg, n, &mut r).pop()?;
        let path = match String::from_utf8(q.path.clone()) {
            Ok(p) if !p.contains('\0') => p,
            _ => {
                notes.label("path not fit for a command line");
                return None;
            }
        };
        for (exe, root) in [(&self.cli, &self.routes.root), (&self.structured, &self.table.root)] {
            let o = Command::new(exe).arg(&path).output().unwrap_or_else(|e| crate::die(&format!("example: {}", e)));
            let out = String::from_utf8_lossy(&o.stdout).to_string();
            let (want, a) = model::ideal(root, path.as_bytes(), b"GET");
            let (_, b) = model::as_is(root, path.as_bytes(), b"GET");
            if a.known() || b.known() {
                notes.known.push("K1-K4 shapes, excluded here".into());
                continue;
            }
            let says = match &want {
                Outcome::NotFound => "No matching route.".to_string(),
                Outcome::NotAllowed => "Route does not support method.".to_string(),
                Outcome::Route { path, .. } => format!("Route to {}\n", path),
                Outcome::Redirect { path, .. } => format!("Redirect to {}\n", path),
                _ => "Error: ".to_string(),
            };
            notes.evaluations += 1;
            notes.label(&format!("examples: {}", says.split_whitespace().next().unwrap_or("")));
            if !matches!(want, Outcome::NotFound) {
                notes.nontrivial.push(hash_of(&path));
            }
            if o.status.code() != Some(0) || !out.contains(&says) {
                return Some(format!(
                    "{} {:?} should print {:?}\nand prints {:?} (status {:?})",
                    exe.display(),
                    path,
                    says,
                    out,
                    o.status.code()
                ));
            }
        }
        None
    }
}
