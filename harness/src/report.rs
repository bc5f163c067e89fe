//! What a run covered, and what it says.

use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::time::Instant;

pub fn verif_dir() -> PathBuf {
    match std::env::var("WF_VERIF_DIR") {
        Ok(d) => PathBuf::from(d),
        Err(_) => PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf(),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Finding {
    pub property: String,
    pub id: String,
    pub config: String,
    pub method: String,
    pub path: Vec<u8>,
    pub observed: String,
    pub what: String,
}

pub struct Run {
    pub id: String,
    pub tier: Tier,
    pub part: String,
    pub seed: u64,
    pub evaluations: u64,
    distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, String)>,
    pub known: BTreeMap<String, u64>,
    pub findings: Vec<Finding>,
    start: Instant,
}

pub fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn unesc(s: &str) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() {
            match b[i + 1] {
                b'n' => o.push(b'\n'),
                b't' => o.push(b'\t'),
                b'x' => {
                    o.push(u8::from_str_radix(&s[i + 2..i + 4], 16).unwrap());
                    i += 2;
                }
                c => o.push(c),
            }
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

pub fn load_findings() -> Vec<Finding> {
    let file = verif_dir().join("known_findings.txt");
    let text = match fs::read_to_string(&file) {
        Ok(t) => t,
        Err(_) => return vec![],
    };
    let mut out = vec![];
    for line in text.lines() {
        let f: Vec<&str> = line.split('\t').collect();
        if f[0] != "finding" || f.len() < 8 {
            continue;
        }
        out.push(Finding {
            property: f[1].to_string(),
            id: f[2].to_string(),
            config: String::from_utf8(unesc(f[3])).unwrap(),
            method: f[4].to_string(),
            path: unesc(f[5]),
            observed: f[6].to_string(),
            what: f[7].to_string(),
        });
    }
    out
}

impl Run {
    pub fn new(id: &str, tier: Tier, seed: u64) -> Run {
        Run {
            id: id.to_string(),
            tier,
            part: String::new(),
            seed,
            evaluations: 0,
            distinct: HashSet::new(),
            labels: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            known: BTreeMap::new(),
            findings: load_findings(),
            start: Instant::now(),
        }
    }

    /// Is this finding listed for this property?
    pub fn listed(&self, k: &str) -> bool {
        self.findings.iter().any(|f| f.property == self.id && f.id == k)
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// n in the quick tier, m in the thorough one
    pub fn n(&self, n: usize, m: usize) -> usize {
        let k = match std::env::var("WF_SCALE") {
            Ok(s) => s.parse::<f64>().unwrap_or(1.0),
            Err(_) => 1.0,
        };
        let n = if self.quick() { n } else { m };
        ((n as f64 * k) as usize).max(1)
    }

    pub fn label(&mut self, l: &str) {
        self.add(l, 1);
    }

    pub fn add(&mut self, l: &str, n: u64) {
        *self.labels.entry(l.to_string()).or_insert(0) += n;
    }

    pub fn nontrivial<T: Hash>(&mut self, x: &T) -> bool {
        self.distinct.insert(hash_of(x))
    }

    pub fn distinct(&self) -> usize {
        self.distinct.len()
    }

    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 6 {
            let s = s();
            self.samples.push(s);
        }
    }

    /// Record a violation: writes the replay file
    pub fn violation(&mut self, tape: &[u64], what: &str) {
        let dir = verif_dir().join("replay");
        let _ = fs::create_dir_all(&dir);
        let n = self.violations.len();
        let file = dir.join(format!("{}-{}-{}.txt", self.id, self.seed, n));
        let mut s = format!("property: {}\n", self.id);
        if !self.part.is_empty() {
            s.push_str(&format!("part: {}\n", self.part));
        }
        s.push_str(&format!("seed: {}\n", self.seed));
        s.push_str(&format!(
            "tape: {}\n",
            tape.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")
        ));
        s.push_str("\n");
        s.push_str(what);
        s.push('\n');
        let _ = fs::write(&file, &s);
        println!("{}", what);
        println!("VIOLATION property={} replay={}", self.id, file.display());
        self.violations.push((file.display().to_string(), what.to_string()));
    }

    pub fn write_evidence(&self) {
        let mut o = String::from("{\n");
        o.push_str(&format!(" \"property\": {},\n", json(&self.id)));
        o.push_str(&format!(" \"tier\": \"{}\",\n", if self.quick() { "quick" } else { "thorough" }));
        o.push_str(&format!(" \"seed\": {},\n", self.seed));
        let level = match self.id.as_str() {
            "C24" => "fault_enumeration",
            _ => "exploration",
        };
        o.push_str(&format!(" \"level\": \"{}\",\n", level));
        o.push_str(" \"coverage\": {\n");
        o.push_str(&format!("  \"evaluations\": {},\n", self.evaluations));
        o.push_str(&format!("  \"distinct_nontrivial\": {},\n", self.distinct.len()));
        o.push_str(&format!("  \"rule\": {},\n", json(crate::meta::rule(&self.id))));
        o.push_str("  \"classes\": {");
        let mut first = true;
        for (k, v) in &self.labels {
            if !first {
                o.push(',');
            }
            first = false;
            o.push_str(&format!("\n   {}: {}", json(k), v));
        }
        o.push_str("\n  },\n");
        o.push_str("  \"known_finding_hits\": {");
        let mut first = true;
        for (k, v) in &self.known {
            if !first {
                o.push(',');
            }
            first = false;
            o.push_str(&format!("\n   {}: {}", json(k), v));
        }
        o.push_str("\n  },\n");
        o.push_str("  \"samples\": [");
        for (i, s) in self.samples.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(&format!("\n   {}", json(s)));
        }
        o.push_str("\n  ]\n },\n");
        o.push_str(" \"assumptions\": [");
        for (i, s) in crate::meta::assumptions(&self.id).iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(&format!("\n  {}", json(s)));
        }
        o.push_str("\n ],\n");
        o.push_str(&format!(" \"wall_s\": {:.1},\n", self.start.elapsed().as_secs_f64()));
        o.push_str(&format!(" \"violations\": {}\n}}\n", self.violations.len()));
        let dir = verif_dir().join("evidence");
        let _ = fs::create_dir_all(&dir);
        fs::write(dir.join(format!("{}.json", self.id)), o).expect("evidence file");
    }
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
