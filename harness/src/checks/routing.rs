//! Compiled routers against the reference model.

use crate::batch::{Built, Obs, Unit};
use crate::cfg::*;
use crate::engine::{BatchCheck, Notes};
use crate::gen::{self, Opts};
use crate::model::{self, Outcome, Trace};
use crate::pipeline::{self, Source};
use crate::report::{hash_of, Run};
use crate::requests::{self, Req};
use crate::tape::{Rng, Tape};

pub struct Case {
    pub source: Source,
    pub requests: Vec<Req>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Prop {
    Declared,
    NotFound,
    Method,
    Capture,
    BadParam,
    Total,
    Redirect,
    Precedence,
}

/// Does what was seen agree with what the model says?
pub fn agrees(o: &Outcome, s: &Obs) -> bool {
    match (o, s) {
        (Outcome::NotFound, Obs::NotFound) => true,
        (Outcome::NotAllowed, Obs::NotAllowed) => true,
        (Outcome::Route { debug, .. }, Obs::Route { debug: d, .. }) => debug == d,
        (Outcome::Redirect { debug, .. }, Obs::Redirect { debug: d, .. }) => debug == d,
        (Outcome::Err { param, what }, Obs::Err { display, debug }) => names(param, display) && display.contains(what.as_str()) && debug.contains(what.as_str()),
        (Outcome::NotText, Obs::Panic(_)) | (Outcome::NotText, Obs::Hang) => false,
        (Outcome::NotText, _) => true,
        (Outcome::Panic, Obs::Panic(_)) => true,
        _ => false,
    }
}

/// the message names the parameter as a word of its own
pub fn names(param: &str, display: &str) -> bool {
    display
        .split(|c: char| !(c.is_alphanumeric() || c == '_'))
        .any(|w| w == param)
}

pub fn show_obs(o: &Obs) -> String {
    match o {
        Obs::Panic(s) => format!("panic: {}", s),
        Obs::Hang => "no answer within a minute".into(),
        o => format!("{:?}", o),
    }
}

pub struct Routing {
    pub prop: Prop,
    pub per_config: usize,
    /// known finding ids listed for this property
    pub listed: Vec<String>,
}

impl Routing {
    pub fn new(prop: Prop, run: &Run) -> Routing {
        Routing {
            prop,
            per_config: if run.quick() { 90 } else { 160 },
            listed: run.findings.iter().filter(|f| f.property == run.id).map(|f| f.id.clone()).collect(),
        }
    }

    fn adjust(&self, t: &mut Tape, o: &mut Opts) {
        let p = self.prop;
        o.headers = t.chance(1, 8);
        match p {
            Prop::Capture | Prop::BadParam | Prop::Total => o.param = 8,
            Prop::Precedence => o.param = 10,
            Prop::Redirect => o.redirects = 13,
            Prop::NotFound => o.empty_root = t.chance(1, 3),
            _ => {}
        }
        if matches!(p, Prop::Redirect) {
            o.query = 3;
        }
    }

    fn relevant(&self, r: &Req, o: &Outcome, tr: &Trace) -> bool {
        let canonical = r.path.first() == Some(&b'/') && (r.path.len() == 1 || r.path.last() != Some(&b'/'));
        match self.prop {
            Prop::Declared => canonical && !tr.empty_segment && matches!(o, Outcome::Route { .. } | Outcome::Redirect { .. }),
            Prop::NotFound => matches!(o, Outcome::NotFound),
            Prop::Method => matches!(o, Outcome::NotAllowed | Outcome::Route { .. } | Outcome::Redirect { .. }),
            Prop::Capture => tr.params > 0 && matches!(o, Outcome::Route { .. } | Outcome::Redirect { .. }),
            Prop::BadParam => true,
            Prop::Total => true,
            Prop::Redirect => matches!(o, Outcome::Redirect { .. } | Outcome::Route { .. }),
            Prop::Precedence => tr.static_over_param || tr.param_beside_static,
        }
    }

    fn holds(&self, o: &Outcome, s: &Obs) -> bool {
        match self.prop {
            Prop::Total => !matches!(s, Obs::Panic(_) | Obs::Hang),
            // errors exactly where they belong
            Prop::BadParam => match o {
                Outcome::Err { .. } => agrees(o, s),
                Outcome::NotText => true,
                _ => !matches!(s, Obs::Err { .. }),
            },
            Prop::Redirect => match (o, s) {
                (Outcome::Redirect { .. }, s) => agrees(o, s),
                (_, Obs::Redirect { .. }) => false,
                _ => true,
            },
            _ => agrees(o, s),
        }
    }

    fn interesting(&self, o: &Outcome, tr: &Trace) -> bool {
        match self.prop {
            Prop::Declared => true,
            Prop::NotFound => tr.params + tr.statics > 0,
            Prop::Method => true,
            Prop::Capture => true,
            Prop::BadParam => matches!(o, Outcome::Err { .. }),
            Prop::Total => tr.params + tr.statics > 0 || tr.k3,
            Prop::Redirect => matches!(o, Outcome::Redirect { .. }),
            Prop::Precedence => true,
        }
    }
}

fn class(o: &Outcome) -> &'static str {
    match o {
        Outcome::NotFound => "not found",
        Outcome::NotAllowed => "not allowed",
        Outcome::Route { .. } => "route",
        Outcome::Redirect { .. } => "redirect",
        Outcome::Err { .. } => "parameter error",
        Outcome::NotText => "not text",
        Outcome::Panic => "panic",
    }
}

/// Requests aimed at what the property is about, among the general ones
fn aim(prop: Prop, c: &Cfg, rs: &mut Vec<Req>, r: &mut Rng) {
    let mut nodes: Vec<(Vec<&Seg>, &Node)> = vec![];
    c.root.visit(&mut vec![], &mut |p, n| nodes.push((p.to_vec(), n)));
    if matches!(prop, Prop::Capture | Prop::Total) && r.next() % 3 == 0 {
        // a segment longer than sixteen bits can count
        let any = |s: &&Seg| matches!(s, Seg::Param(p) if ["String", "Any", "Slug"].contains(&crate::types::base(&p.typ)));
        let roomy: Vec<_> = nodes.iter().filter(|n| !n.1.res.is_empty() && n.0.iter().any(|s| any(&s))).collect();
        for _ in 0..roomy.len().min(2) {
            let (p, n) = roomy[(r.next() % roomy.len() as u64) as usize];
            let mut segs = requests::instantiate(p, r);
            let places: Vec<usize> = (0..p.len()).filter(|i| any(&p[*i])).collect();
            let i = places[(r.next() % places.len() as u64) as usize];
            let size = [65_535usize, 65_536, 65_540, 80_000][(r.next() % 4) as usize];
            segs[i] = (0..size).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect();
            rs.push(Req { path: requests::join(&segs), method: n.res[0].method.name().as_bytes().to_vec() });
        }
    }
    match prop {
        Prop::Method => {
            let served: Vec<_> = nodes.iter().filter(|n| !n.1.res.is_empty()).collect();
            for _ in 0..rs.len() / 2 {
                let (p, _) = served[(r.next() % served.len() as u64) as usize];
                let segs = requests::instantiate(p, r);
                let method = if r.next() % 2 == 0 {
                    METHODS[(r.next() % 4) as usize].name().as_bytes().to_vec()
                } else {
                    requests::OTHER_METHODS[(r.next() % requests::OTHER_METHODS.len() as u64) as usize].to_vec()
                };
                let mut path = requests::join(&segs);
                if r.next() % 4 == 0 {
                    path.push(b'/');
                }
                rs.push(Req { path, method });
            }
        }
        Prop::NotFound => {
            // paths of segments without resources, and beyond every leaf
            for (p, n) in &nodes {
                let mut segs = requests::instantiate(p, r);
                if !n.res.is_empty() {
                    segs.push("nothing-here".into());
                }
                let mut path = requests::join(&segs);
                if r.next() % 3 == 0 {
                    path.push(b'/');
                }
                rs.push(Req { path, method: requests::method(n, r) });
            }
        }
        Prop::Total => {
            for _ in 0..rs.len() {
                let i = (r.next() % rs.len() as u64) as usize;
                let mut q = rs[i].clone();
                for _ in 0..1 + r.next() % 3 {
                    let at = (r.next() % (q.path.len() as u64 + 1)) as usize;
                    match r.next() % 4 {
                        0 => q.path.truncate(at),
                        1 => q.path.insert(at, (r.next() % 256) as u8),
                        2 => q.path.insert(at, b'/'),
                        _ => {
                            if at < q.path.len() {
                                q.path.remove(at);
                            }
                        }
                    }
                }
                rs.push(q);
            }
            let size = if r.next() % 4 == 0 { 70_000 } else { 5000 };
            let long: Vec<u8> = (0..size).map(|i| if i % 50 == 0 { b'/' } else { b'a' }).collect();
            rs.push(Req { path: long, method: b"GET".to_vec() });
            rs.push(Req { path: vec![b'/'; 300], method: b"GET".to_vec() });
            rs.push(Req { path: b"/".to_vec(), method: vec![b'G'; 3000] });
        }
        Prop::Precedence => {
            // at each position with both, the static, its neighbours, and values
            for (p, n) in &nodes {
                let statics: Vec<&String> = n
                    .kids
                    .iter()
                    .filter_map(|k| match &k.0 {
                        Seg::Static(s) => Some(s),
                        _ => None,
                    })
                    .collect();
                let has_param = n.kids.iter().any(|k| matches!(k.0, Seg::Param(_)));
                if !has_param || statics.is_empty() {
                    continue;
                }
                for s in &statics {
                    for v in [s.to_string(), { let mut c = s.chars(); c.next_back(); c.as_str().to_string() }, format!("{}x", s), format!("{}{}", s, s), s.to_uppercase()] {
                        let mut segs = requests::instantiate(p, r);
                        segs.push(v);
                        // the rest of some path below
                        let mut at: &Node = *n;
                        let mut node: &Node = *n;
                        while let Some(k) = {
                            if at.kids.is_empty() {
                                None
                            } else {
                                at.kids.get((r.next() % at.kids.len() as u64) as usize)
                            }
                        } {
                            if !std::ptr::eq(at, *n) {
                                segs.push(requests::instantiate(&[&k.0], r).remove(0));
                            }
                            node = &k.1;
                            at = node;
                            if r.next() % 2 == 0 {
                                break;
                            }
                        }
                        rs.push(Req { path: requests::join(&segs), method: requests::method(node, r) });
                    }
                }
            }
            rs.truncate(400);
        }
        Prop::BadParam => {
            for (p, n) in &nodes {
                let ps: Vec<usize> = (0..p.len()).filter(|i| matches!(p[*i], Seg::Param(_))).collect();
                for i in &ps {
                    for _ in 0..2 {
                        let mut segs = requests::instantiate(p, r);
                        if let Seg::Param(q) = p[*i] {
                            if let Some(t) = crate::types::invalid_text(&q.typ, r) {
                                segs[*i] = t;
                            }
                        }
                        if r.next() % 4 == 0 {
                            segs.push("beyond".into());
                        }
                        rs.push(Req { path: requests::join(&segs), method: requests::method(n, r) });
                    }
                }
            }
            rs.truncate(400);
        }
        _ => {}
    }
}

impl BatchCheck for Routing {
    type Case = Case;

    fn ahead(&self) -> usize {
        match self.prop {
            // with very long paths
            Prop::Capture | Prop::Total => 15,
            _ => 50,
        }
    }

    fn generate(&self, t: &mut Tape) -> Case {
        let source = Source::gen(t, &|t, o| self.adjust(t, o));
        let mut r = Rng::new(t.seed());
        let mut requests = requests::generate(&source.cfg, self.per_config, &mut r);
        aim(self.prop, &source.cfg, &mut requests, &mut r);
        Case { source, requests }
    }

    fn units(&self, c: &Case) -> Result<Vec<Unit>, String> {
        let code = c.source.code();
        match code {
            Ok(code) => Ok(vec![Unit { code, requests: c.requests.clone(), probe: None }]),
            Err(e) if self.prop == Prop::Declared => {
                Err(format!("no router for a valid configuration: {}\n{}", e, c.source.show()))
            }
            Err(_) => Ok(vec![]),
        }
    }

    fn judge(&self, c: &Case, built: &[Built], notes: &mut Notes) -> Option<String> {
        let obs = match built.get(0) {
            None => {
                notes.label("no code generated");
                return None;
            }
            Some(Built::CompileError(e)) => {
                notes.evaluations += 1;
                notes.label("code does not compile");
                if self.prop == Prop::Declared {
                    return Some(format!(
                        "no router for a valid configuration: the generated code does not compile:\n{}\n{}",
                        e,
                        c.source.show()
                    ));
                }
                return None;
            }
            Some(Built::Ran { obs, .. }) => obs,
        };
        let key = hash_of(&c.source.cfg);
        shape_labels(&c.source.cfg, notes);
        notes.label(if c.source.text.is_some() { "config: from a route file" } else { "config: from structs" });
        let mut bad = None;
        for (r, s) in c.requests.iter().zip(obs) {
            let (o, tr) = model::ideal(&c.source.cfg.root, &r.path, &r.method);
            if !self.relevant(r, &o, &tr) {
                continue;
            }
            notes.evaluations += 1;
            notes.labels.push(format!("request: {}", class(&o)));
            if self.interesting(&o, &tr) {
                notes.nontrivial.push(hash_of(&(key, r)));
            }
            if notes.samples.is_empty() && self.interesting(&o, &tr) {
                notes.samples.push(format!("{} => {}   in {}", r.show(), show_obs(s), to_text(&c.source.cfg, &Layout::default())));
            }
            if self.holds(&o, s) {
                continue;
            }
            // a known finding?
            let (k, ktr) = model::as_is(&c.source.cfg.root, &r.path, &r.method);
            if ktr.known() && agrees(&k, s) {
                if let Some(id) = crate::checks::routers::known_id(&ktr, &self.listed) {
                    notes.known.push(id.to_string());
                    continue;
                }
            }
            if bad.is_none() {
                bad = Some(format!(
                    "request {}\n  should be: {:?}\n  was:       {}\n{}",
                    r.show(),
                    o,
                    show_obs(s),
                    c.source.show()
                ));
            }
        }
        bad
    }
}

pub fn shape_labels(c: &Cfg, notes: &mut Notes) {
    let n = c.root.count();
    notes.label(match n {
        1 => "config: only the root",
        2..=5 => "config: 2-5 segments",
        6..=15 => "config: 6-15 segments",
        _ => "config: over 15 segments",
    });
    if c.root.depth() > 6 {
        notes.label("config: deeper than 6");
    }
    let mut mixed = false;
    let mut prefix = false;
    let mut params = 0;
    let mut wide = false;
    c.root.visit(&mut vec![], &mut |_, n| {
        let st: Vec<&String> = n
            .kids
            .iter()
            .filter_map(|k| match &k.0 {
                Seg::Static(s) => Some(s),
                _ => None,
            })
            .collect();
        if st.len() < n.kids.len() {
            params += 1;
            if !st.is_empty() {
                mixed = true;
            }
        }
        if st.len() > 7 {
            wide = true;
        }
        for a in &st {
            for b in &st {
                if a != b && b.starts_with(a.as_str()) {
                    prefix = true;
                }
            }
        }
    });
    if mixed {
        notes.label("config: parameter beside a static segment");
    }
    if prefix {
        notes.label("config: a segment that is a prefix of its sibling");
    }
    if params > 1 {
        notes.label("config: several parameters");
    }
    if wide {
        notes.label("config: more than 7 static siblings");
    }
    let t = gen::targets(&c.root);
    if t.iter().any(|t| t.res.redirect) {
        notes.label("config: has redirects");
    }
    if t.iter().any(|t| t.res.modules.len() > 1) {
        notes.label("config: nested modules");
    }
    if t.iter().any(|t| !t.inherited.is_empty() || !t.res.query.is_empty()) {
        notes.label("config: has query parameters");
    }
}

/// Replay the listed findings of this property against the real code.
pub fn replay_findings(run: &mut Run) {
    let mine: Vec<usize> = (0..run.findings.len()).filter(|i| run.findings[*i].property == run.id).collect();
    if mine.is_empty() {
        return;
    }
    let units: Vec<Unit> = mine
        .iter()
        .map(|i| {
            let f = &run.findings[*i];
            let code = pipeline::parse(&f.config).and_then(|c| pipeline::codegen(&c)).unwrap_or_default();
            let requests = if f.observed == "does not compile" {
                vec![]
            } else {
                vec![Req { path: f.path.clone(), method: f.method.as_bytes().to_vec() }]
            };
            Unit { code, requests, probe: None }
        })
        .collect();
    let built = crate::batch::run(&units, &Default::default());
    for (i, b) in mine.iter().zip(built) {
        let f = &run.findings[*i];
        let seen = match &b {
            Built::CompileError(_) => "does not compile".to_string(),
            Built::Ran { obs, .. } => obs.get(0).map(brief).unwrap_or_default(),
        };
        if seen == f.observed {
            println!("KNOWN-FINDING: property={} {} {}", run.id, f.id, f.what);
        } else if std::env::var("WF_VERBOSE").is_ok() {
            println!("{} {}: listed {:?}, now {:?}", run.id, f.id, f.observed, seen);
        }
    }
}

pub fn brief(o: &Obs) -> String {
    match o {
        Obs::NotFound => "NotFound".into(),
        Obs::NotAllowed => "NotAllowed".into(),
        Obs::Route { debug, .. } => format!("Route {}", debug),
        Obs::Redirect { debug, .. } => format!("Redirect {}", debug),
        Obs::Err { display, .. } => format!("Err {}", display),
        Obs::Panic(_) => "panic".into(),
        Obs::Hang => "hang".into(),
    }
}
