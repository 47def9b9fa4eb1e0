//! Evidence, violations, known findings.
use crate::comp::{build_dir, verif};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Job {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub t0: Instant,
}

impl Job {
    /// `q` or `t`, depending on the tier
    pub fn tier<T>(&self, q: T, t: T) -> T {
        if self.thorough {
            t
        } else {
            q
        }
    }
    pub fn dir(&self) -> std::path::PathBuf {
        build_dir().join("work").join(&self.id)
    }
}

#[derive(Default, Debug)]
pub struct Cov {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub rule: String,
    pub samples: Vec<String>,
    pub extra: BTreeMap<String, Value>,
    pub classes: BTreeMap<String, u64>,
    pub assumptions: Vec<String>,
    pub exhaustive: bool,
}

/// A failing case
#[derive(Clone, Debug)]
pub struct Bad {
    /// identifies what fails, for the known findings
    pub key: String,
    pub message: String,
    pub replay: Value,
}

fn known(id: &str) -> Vec<(String, String)> {
    let p = verif().join("known-findings.json");
    let Ok(s) = std::fs::read_to_string(&p) else { return vec![] };
    let v: Value = serde_json::from_str(&s).unwrap_or(Value::Null);
    v["findings"]
        .as_array()
        .into_iter()
        .flatten()
        .filter(|f| f["property"] == id)
        .map(|f| (f["key"].as_str().unwrap_or("").to_string(), f["what"].as_str().unwrap_or("").to_string()))
        .collect()
}

/// Write the evidence, say what was found, and end.
pub fn finish(job: &Job, cov: Cov, bad: Vec<Bad>) -> ! {
    let known = known(&job.id);
    let (old, new): (Vec<_>, Vec<_>) = bad.into_iter().partition(|b| known.iter().any(|k| k.0 == b.key));
    let mut c = serde_json::Map::new();
    c.insert("evaluations".into(), json!(cov.evaluations));
    c.insert("distinct_nontrivial".into(), json!(cov.nontrivial));
    c.insert("rule".into(), json!(cov.rule));
    c.insert("samples".into(), json!(cov.samples));
    if cov.exhaustive {
        c.insert("exhaustive".into(), json!(true));
    }
    if !cov.classes.is_empty() {
        c.insert("classes".into(), json!(cov.classes));
    }
    for (k, v) in cov.extra {
        c.insert(k, v);
    }
    let ev = json!({
        "property": job.id,
        "tier": if job.thorough { "thorough" } else { "quick" },
        "seed": job.seed,
        "level": "exploration",
        "coverage": c,
        "assumptions": cov.assumptions,
        "wall_s": job.t0.elapsed().as_secs_f64(),
        "violations": new.len(),
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", job.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        crate::comp::die(&format!("evidence: {e}"));
    }
    println!(
        "{}: {} cases, {} non-trivial, {:.1} s",
        job.id,
        cov.evaluations,
        cov.nontrivial,
        job.t0.elapsed().as_secs_f64()
    );
    for (k, w) in &known {
        if old.iter().any(|b| b.key == *k) {
            println!("KNOWN-FINDING: property={} {w}", job.id);
        }
    }
    if new.is_empty() {
        std::process::exit(0);
    }
    let dir = build_dir().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    for (i, b) in new.iter().enumerate().take(3) {
        let p = dir.join(format!("{}-{}.json", job.id, i));
        let mut r = b.replay.clone();
        r["property"] = json!(job.id);
        r["message"] = json!(b.message);
        r["key"] = json!(b.key);
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&r).unwrap() + "\n");
        println!("--- {}", b.message);
        println!("VIOLATION property={} replay={}", job.id, p.display());
    }
    std::process::exit(1)
}
