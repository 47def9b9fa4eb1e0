mod c10;
mod c13;
mod c15;
mod c17;
mod c18;
mod c19;
mod c21;
mod c22;
mod mutants;
mod c25;
mod vis;
mod cases;
mod child;
mod comp;
mod emit;
mod engine;
mod g;
mod gen;
mod hist;
mod props;
mod report;
mod ty;

use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use report::*;
use std::time::{Duration, Instant};

pub fn runner(seed: u64, salt: u64) -> TestRunner {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    b[8..16].copy_from_slice(&salt.to_le_bytes());
    b[16] = 0x5a;
    let cfg = Config { failure_persistence: None, ..Config::default() };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &b))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("replay") => replay(&a[2]),
        Some("deps") => {
            for n in [false, true] {
                comp::deps(n, None).unwrap_or_else(|e| comp::die(&e));
            }
            c10::build().unwrap_or_else(|e| comp::die(&e));
        }
        Some("dump") => dump(&a),
        _ => comp::die("usage: driver check ID | replay FILE | dump SEED COUNT [n]"),
    }
}

fn check(id: &str) {
    let job = Job {
        id: id.into(),
        thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        t0: Instant::now(),
    };
    let mut cov = Cov::default();
    let mut bad = vec![];
    if let Some(ps) = props::plans(id, job.thorough) {
        for p in ps.into_iter().filter(|_| std::env::var("CASES_ONLY").is_err()) {
            bad.extend(engine::check(&job, p, &mut cov));
        }
        if id == "C13" {
            for p in c13::plans() {
                bad.extend(cases::check(&job, p, 1, &mut cov));
            }
        }
    } else if let Some(ps) = case_plans(id) {
        for (k, p) in ps.into_iter().enumerate() {
            bad.extend(cases::check(&job, p, k as u64 + 1, &mut cov));
        }
        if id == "C22" {
            bad.extend(mutants::check(&job, &mut cov));
        }
    } else if id == "C10" {
        bad.extend(c10::check(&job, &mut cov));
    } else if id == "C18" {
        bad.extend(c18::check(&job, &mut cov));
    } else if id == "C25" {
        bad.extend(c25::check(&job, &mut cov));
    } else {
        comp::die(&format!("no check for {id}"));
    }
    finish(&job, cov, bad)
}

fn case_plans(id: &str) -> Option<Vec<cases::CasePlan>> {
    Some(match id {
        "C15" => c15::plans(),
        "C17" => c17::plans(),
        "C19" => c19::plans(),
        "C21" => c21::plans(),
        "C22" => c22::plans(),
        _ => return None,
    })
}

fn replay(f: &str) {
    let s = std::fs::read_to_string(f).unwrap_or_else(|e| comp::die(&format!("{f}: {e}")));
    let v: serde_json::Value = serde_json::from_str(&s).unwrap_or_else(|e| comp::die(&format!("{f}: {e}")));
    let bad = match v["engine"].as_str() {
        Some("mutant") => mutants::replay(&v),
        Some("conc") => c10::replay(&v),
        Some("expand") => c18::replay(&v),
        Some("original") => c25::replay(&v),
        Some("history") => engine::replay(&v),
        Some("compile") => engine::replay_compile(&v),
        Some("case") => cases::replay(&v),
        e => comp::die(&format!("unknown engine {e:?}")),
    };
    if bad {
        println!("VIOLATION property={} replay={f}", v["property"].as_str().unwrap_or("?"));
        std::process::exit(1);
    }
    println!("the case passes");
}

fn dump(a: &[String]) {
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let count: usize = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(40);
    let nightly = a.get(4).map_or(false, |s| s == "n");
    let d = comp::deps(nightly, None).unwrap_or_else(|e| comp::die(&e));
    let dir = comp::build_dir().join("dump");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let opts = gen::Opts { nightly, max_funcs: 5, deco: 20, twins: true, places: false, e2024: false, frag: 20 };
    let st = proptest::collection::vec(proptest::num::u32::ANY, 400);
    let mut jobs = vec![];
    let pairs = engine::pairs(gen::SPOTS, &gen::KINDS);
    for i in 0..count {
        let (spot, kind) = pairs[i % pairs.len()];
        let mut r = runner(seed, i as u64);
        let v = st.new_tree(&mut r).unwrap().current();
        let u = gen::unit(i, kind, spot, &v, &opts);
        jobs.push((i, u));
    }
    let res = comp::parallel(jobs, 8, |(i, u)| {
        let text = emit::unit_text(&u, i);
        let sub = dir.join(format!("p{i}"));
        std::fs::create_dir_all(&sub).unwrap();
        std::fs::write(sub.join(format!("u{i}.rs")), &text).unwrap();
        std::fs::write(sub.join("main.rs"), emit::main_text(&[i])).unwrap();
        let r = comp::rustc(&d, &sub.join("main.rs"), comp::Out::Meta(&sub.join("main.rmeta")), &[], Duration::from_secs(60)).unwrap();
        (i, u.kind, u.spot, r)
    });
    let mut bad = 0;
    for (i, k, s, r) in res {
        if !r.ok || !r.diags.is_empty() {
            bad += 1;
            println!("== u{i} {k:?} {s:?}");
            for d in r.diags.iter().filter(|d| d.level == "error").take(2) {
                println!("{}", d.rendered);
            }
        }
    }
    println!("{bad} of {count} bad");
}
