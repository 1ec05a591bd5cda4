//! Outcome of one check: evidence file, VIOLATION / KNOWN-FINDING lines, replay files.
use crate::util::{fnv, json};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable identification of the failing input, call site or history.
    pub key: String,
    pub what: String,
    /// Contents of the replay file (key: value lines, then free text).
    pub replay: String,
}

pub struct Report {
    pub prop: String,
    pub tier: String,
    pub t0: Instant,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub evaluations: u64,
    pub exhaustive: Option<bool>,
    pub counts: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, String>,
    pub samples: Vec<String>,
    pub assumptions: Vec<String>,
    pub violations: Vec<Violation>,
    /// keys of known findings that were exercised and did not fail
    pub rule: String,
}

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()))
}
pub fn build_dir() -> PathBuf {
    PathBuf::from(std::env::var("MC_BUILD").expect("MC_BUILD"))
}
pub fn repo() -> PathBuf {
    PathBuf::from(std::env::var("MC_REPO").unwrap_or_else(|_| "/repo".into()))
}

impl Report {
    pub fn new(prop: &str, tier: &str) -> Report {
        Report {
            prop: prop.into(),
            tier: tier.into(),
            t0: Instant::now(),
            states: 0,
            transitions: 0,
            traces: 0,
            evaluations: 0,
            exhaustive: None,
            counts: BTreeMap::new(),
            notes: BTreeMap::new(),
            samples: vec![],
            assumptions: vec![],
            violations: vec![],
            rule: String::new(),
        }
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.into()).or_insert(0) += n;
    }
    pub fn violate(&mut self, key: impl Into<String>, what: impl Into<String>, replay: impl Into<String>) {
        self.violations.push(Violation { key: key.into(), what: what.into(), replay: replay.into() });
    }

    /// Writes evidence, prints the verdict lines, returns the exit status.
    pub fn finish(self) -> i32 {
        let v = verif();
        let known: Vec<(String, String)> = std::fs::read_to_string(v.join("known-findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let l = l.strip_prefix("finding: property=")?;
                let (p, r) = l.split_once(' ')?;
                let r = r.strip_prefix("key=")?;
                let (k, d) = r.split_once(' ').unwrap_or((r, ""));
                if p == self.prop {
                    Some((k.to_string(), d.to_string()))
                } else {
                    None
                }
            })
            .collect();
        let mut real: Vec<&Violation> = vec![];
        let mut found: Vec<String> = vec![];
        for x in &self.violations {
            match known.iter().find(|k| k.0 == x.key.replace(' ', "_")) {
                Some(k) => {
                    if !found.contains(&k.0) {
                        found.push(k.0.clone());
                        println!("KNOWN-FINDING: property={} {} [{}]", self.prop, k.1, k.0);
                    }
                }
                None => real.push(x),
            }
        }
        let mut c = String::new();
        let mut first = true;
        let mut put = |k: &str, val: String| {
            if !first {
                c.push_str(",\n    ");
            }
            first = false;
            c.push_str(&format!("{}: {}", json(k), val));
        };
        put("states", self.states.to_string());
        put("transitions", self.transitions.to_string());
        put("traces_validated_against_impl", self.traces.to_string());
        if self.evaluations > 0 {
            put("evaluations", self.evaluations.to_string());
        }
        if let Some(e) = self.exhaustive {
            put("exhaustive", e.to_string());
        }
        if !self.rule.is_empty() {
            put("rule", json(&self.rule));
        }
        for (k, n) in &self.counts {
            put(k, n.to_string());
        }
        for (k, n) in &self.notes {
            put(k, json(n));
        }
        put("known_findings_seen", format!("[{}]", found.iter().map(|x| json(x)).collect::<Vec<_>>().join(", ")));
        put("samples", format!("[{}]", self.samples.iter().map(|x| json(x)).collect::<Vec<_>>().join(",\n      ")));
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let e = format!(
            "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n    {}\n  }},\n  \"assumptions\": [{}],\n  \"violations\": {},\n  \"wall_s\": {:.2}\n}}\n",
            json(&self.prop),
            json(&self.tier),
            seed,
            c,
            self.assumptions.iter().map(|x| json(x)).collect::<Vec<_>>().join(", "),
            real.len(),
            self.t0.elapsed().as_secs_f64()
        );
        let _ = std::fs::create_dir_all(v.join("evidence"));
        std::fs::write(v.join("evidence").join(format!("{}.json", self.prop)), e).expect("evidence file");
        println!(
            "{} {}: states={} transitions={} traces={} evaluations={} violations={} known={} in {:.1}s",
            self.prop,
            self.tier,
            self.states,
            self.transitions,
            self.traces,
            self.evaluations,
            real.len(),
            found.len(),
            self.t0.elapsed().as_secs_f64()
        );
        for (k, n) in &self.counts {
            println!("  {} = {}", k, n);
        }
        for (k, n) in &self.notes {
            println!("  {}: {}", k, n);
        }
        if real.is_empty() {
            return 0;
        }
        let rd = v.join("replays");
        let _ = std::fs::create_dir_all(&rd);
        for (i, x) in real.iter().enumerate() {
            if i >= 5 {
                println!("... and {} more", real.len() - i);
                break;
            }
            let f = rd.join(format!("{}-{:016x}.txt", self.prop, fnv(format!("{}{}", x.key, x.what).as_bytes())));
            let body = format!("property: {}\ntier: {}\nkey: {}\nwhat: {}\n{}", self.prop, self.tier, x.key, x.what.replace('\n', "\\n"), x.replay);
            let _ = std::fs::write(&f, body);
            println!("{}", x.what.chars().take(1500).collect::<String>());
            println!("VIOLATION property={} replay={}", self.prop, f.display());
        }
        1
    }
}
