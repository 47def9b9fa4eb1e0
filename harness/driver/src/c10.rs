//! C10: concurrent calls.  The search itself is in harness/conc, which is
//! built against mockall with its yield points (`--cfg mockall_verif`).
use crate::comp::{build_dir, die, parallel, verif, STABLE};
use crate::report::*;
use serde_json::{json, Value};
use std::path::PathBuf;
use std::process::Command;

pub fn build() -> Result<PathBuf, String> {
    let target = build_dir().join("conc");
    let out = Command::new("cargo")
        .current_dir(verif().join("harness/conc"))
        .env("RUSTUP_TOOLCHAIN", STABLE)
        .env("CARGO_TARGET_DIR", &target)
        .env("CARGO_NET_OFFLINE", "true")
        .env("CARGO_INCREMENTAL", "0")
        .env("RUSTFLAGS", "--cfg mockall_verif")
        .env_remove("RUSTC_WRAPPER")
        .args(["build", "--offline", "-q"])
        .output()
        .map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(format!("building harness/conc failed: {}", String::from_utf8_lossy(&out.stderr)));
    }
    Ok(target.join("debug/conc"))
}

fn unesc(s: &str) -> String {
    s.replace("\\n", "\n").replace("\\\\", "\\")
}

pub fn check(job: &Job, cov: &mut Cov) -> Vec<Bad> {
    let exe = build().unwrap_or_else(|e| die(&e));
    let total = job.tier(40_000u64, 1_600_000);
    let chunk = job.tier(1_000, 4_000);
    let seed = job.seed;
    let limit = std::time::Duration::from_secs(job.tier(100, 800));
    let t0 = job.t0;
    let res = parallel((0..total / chunk).collect(), 8, |k| {
        if t0.elapsed() > limit {
            return (k, None);
        }
        let out = Command::new("timeout").arg("120").arg(&exe).arg("run").args([seed, k * chunk, chunk].map(|n| n.to_string())).output();
        (k, out.ok())
    });
    cov.rule = "a call of the same function by at least two threads, with at least one switch between threads at a point where the one that ran could have gone on".into();
    let mut bad = vec![];
    let mut failed = String::new();
    for (k, out) in res {
        let Some(out) = out else { continue };
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        if !out.status.success() {
            failed = format!("conc run {seed} {} {chunk}: {}\n{text}\n{}", k * chunk, out.status, String::from_utf8_lossy(&out.stderr));
            continue;
        }
        let mut what = String::new();
        for l in text.lines() {
            let (a, b) = l.split_once(' ').unwrap_or((l, ""));
            match a {
                "STAT" => {
                    let (n, k) = b.split_once(' ').unwrap_or(("0", ""));
                    let n: u64 = n.parse().unwrap_or(0);
                    match k {
                        "cases" => cov.evaluations += n,
                        "nontrivial" => cov.nontrivial += n,
                        "steps" => *cov.classes.entry("scheduling steps".into()).or_default() += n,
                        _ => *cov.classes.entry(k.trim_start_matches("class ").into()).or_default() += n,
                    }
                }
                "SAMPLE" if cov.samples.len() < 6 => cov.samples.push(unesc(b)),
                "TEXT" => what = unesc(b),
                "FAIL" if bad.len() < 3 => bad.push(Bad {
                    key: what.clone(),
                    message: format!("no sequential order of the calls explains what the threads saw:\n{what}"),
                    replay: json!({ "engine": "conc", "choices": b, "case": what }),
                }),
                _ => {}
            }
        }
    }
    if bad.is_empty() && !failed.is_empty() {
        // it dies (abort, stack overflow) or hangs
        bad.push(Bad { key: "died".into(), message: failed.clone(), replay: json!({ "engine": "conc", "run": [seed, 0, total], "case": failed }) });
    }
    cov.assumptions.push("Threads switch only before accesses to the atomics of mockall/src/lib.rs, in closures of the user, at locks, and between calls; memory orderings weaker than sequential consistency are not explored.".into());
    bad
}

pub fn replay(v: &Value) -> bool {
    let exe = build().unwrap_or_else(|e| die(&e));
    let mut c = Command::new("timeout");
    c.arg("600").arg(&exe);
    if let Some(s) = v["choices"].as_str() {
        c.args(["replay", s]);
    } else {
        c.arg("run").args(v["run"].as_array().into_iter().flatten().map(|n| n.to_string()));
    }
    let out = c.output().unwrap_or_else(|e| die(&e.to_string()));
    print!("{}", String::from_utf8_lossy(&out.stdout));
    !out.status.success()
}
