//! C18: expansions of the same declarations, compared between processes,
//! orders and repetitions.
use crate::comp::*;
use crate::engine::{self, ALL_KINDS};
use crate::g::G;
use crate::gen::*;
use crate::report::*;
use crate::{emit, runner};
use proptest::strategy::{Strategy, ValueTree};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;
use std::time::Duration;

pub fn unit_text(u: &Unit) -> String {
    format!(
        "#![allow(warnings)]\nuse mockall::*;\nuse rt::*;\nuse std::{{path::Path, ffi::{{OsStr, CStr}}}};\n{}",
        emit::decl(u)
    )
}

/// The program: all declarations in that order, twice
fn write(dir: &Path, texts: &[String], order: &[usize]) {
    let mut main = String::from("#![allow(warnings)]\n");
    for (m, rev) in [("first", false), ("other", true)] {
        let d = dir.join(m);
        std::fs::create_dir_all(&d).unwrap();
        main += &format!("pub mod {m} {{\n");
        let o: Vec<usize> = if rev { order.iter().rev().copied().collect() } else { order.to_vec() };
        for i in o {
            std::fs::write(d.join(format!("d{i}.rs")), texts[i].replace("$C", &format!("crate::first::d{i}"))).unwrap();
            main += &format!("#[path = \"{}\"]\npub mod d{i};\n", d.join(format!("d{i}.rs")).display());
        }
        main += "}\n";
    }
    main += "fn main() {}\n";
    std::fs::write(dir.join("main.rs"), main).unwrap();
}

/// The expansions of each declaration in one process
pub fn expansions(d: &Deps, dir: &Path, texts: &[String], order: &[usize], k: usize) -> Result<BTreeMap<(usize, usize), String>, String> {
    let _ = std::fs::remove_dir_all(dir);
    write(dir, texts, order);
    let out = dir.join("out.rs");
    let name = format!("krate{k}");
    let r = rustc(d, &dir.join("main.rs"), Out::Expanded(&out), &["--crate-name", &name, "--cfg", "test", "-A", "explicit_builtin_cfgs_in_flags", "--cap-lints", "allow"], Duration::from_secs(200))?;
    let Ok(s) = std::fs::read_to_string(&out) else {
        return Err(r.died.unwrap_or(r.raw));
    };
    if let Some(w) = r.died {
        return Err(w);
    }
    let mut res = BTreeMap::new();
    let mut copy = 0;
    let mut cur: Option<(usize, String)> = None;
    for l in s.lines() {
        if l.starts_with("pub mod first {") {
            copy = 1;
        } else if l.starts_with("pub mod other {") {
            copy = 2;
        } else if let Some((i, t)) = &mut cur {
            if l == "    }" {
                res.insert((*i, copy), t.clone());
                cur = None;
            } else {
                t.push_str(l);
                t.push('\n');
            }
        } else if let Some(i) = l.strip_prefix("    pub mod d").and_then(|r| r.split(' ').next()).and_then(|n| n.parse::<usize>().ok()) {
            if !l.ends_with('}') {
                cur = Some((i, String::new()));
            }
        }
    }
    Ok(res)
}

fn orders(n: usize, procs: usize, salt: u64) -> Vec<Vec<usize>> {
    (0..procs)
        .map(|k| {
            let mut o: Vec<usize> = (0..n).collect();
            let mut x = salt.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (k as u64 + 1).wrapping_mul(0xD1B5_4A32_D192_ED03);
            if k > 0 {
                for i in (1..n).rev() {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    o.swap(i, (x >> 33) as usize % (i + 1));
                }
            }
            o
        })
        .collect()
}

/// The first difference, if there is any: which declaration, and both texts
fn differ(d: &Deps, dir: &Path, texts: &[String], procs: usize, salt: u64) -> (BTreeMap<usize, String>, Option<(usize, String)>) {
    let os = orders(texts.len(), procs, salt);
    let rs = parallel(os.into_iter().enumerate().collect(), 8, |(k, o)| expansions(d, &dir.join(format!("p{k}")), texts, &o, k));
    let mut base: BTreeMap<usize, (String, String)> = BTreeMap::new();
    let mut bad = None;
    for (k, r) in rs.into_iter().enumerate() {
        let r = match r {
            Ok(r) => r,
            Err(e) => die(&format!("expansion failed: {e}")),
        };
        for ((i, copy), t) in r {
            let who = format!("process {k}, copy {copy}");
            match base.get(&i) {
                None => {
                    base.insert(i, (t, who));
                }
                Some((b, w)) if *b != t => {
                    let mut s = String::new();
                    for (x, y) in b.lines().zip(t.lines()) {
                        if x != y {
                            s += &format!("{w}:\n    {x}\n{who}:\n    {y}\n");
                            break;
                        }
                    }
                    if s.is_empty() {
                        s = format!("{w}: {} lines, {who}: {} lines\n", b.lines().count(), t.lines().count());
                    }
                    if bad.is_none() {
                        bad = Some((i, s));
                    }
                }
                _ => {}
            }
        }
    }
    (base.into_iter().map(|(i, (t, _))| (i, t)).collect(), bad)
}

enum Src {
    U(Unit),
    T(String),
}

impl Src {
    fn text(&self) -> String {
        match self {
            Src::U(u) => unit_text(u),
            Src::T(t) => t.clone(),
        }
    }
}

pub fn check(job: &Job, cov: &mut Cov) -> Vec<Bad> {
    let d = deps(false, None).unwrap_or_else(|e| die(&e));
    let dir = job.dir().join("expand");
    let procs = job.tier(6, 12);
    let mut bads = vec![];
    cov.rule = "a declaration with at least three lines of generated code, expanded twice in each of several processes with different orders of declarations and different crate names, with equal expansions throughout".into();
    let mut evals = 0u64;
    let mut seen = std::collections::HashSet::new();
    for round in 0..job.tier(1, 8) as u64 {
        let mut src: Vec<Src> = vec![];
        let opts = Opts { deco: 45, max_funcs: 6, twins: false, places: true, e2024: false, nightly: false, frag: 0 };
        for u in engine::units(job, SPOTS, &ALL_KINDS, 150, &opts, 18 + round) {
            src.push(Src::U(u));
        }
        for (k, p) in [crate::c15::plans(), crate::c17::plans()].concat().into_iter().enumerate() {
            if p.name == "names" {
                continue;
            }
            let st = proptest::collection::vec(proptest::num::u32::ANY, 300);
            for i in 0..30 {
                let mut r = runner(job.seed, 77_000 + round * 1000 + (k * 100 + i) as u64);
                let v = st.new_tree(&mut r).unwrap().current();
                src.push(Src::T((p.gen)(&mut G::new(&v), i).text));
            }
        }
        let texts: Vec<String> = src.iter().map(|s| s.text()).collect();
        let (base, bad) = differ(&d, &dir, &texts, procs, job.seed + round);
        evals += (base.len() * procs * 2) as u64;
        for (i, t) in &base {
            if t.lines().count() > texts[*i].lines().count() + 2 && bad.as_ref().map_or(true, |b| b.0 != *i) && seen.insert(texts[*i].clone()) {
                cov.nontrivial += 1;
                if cov.samples.len() < 4 && i % 31 == 0 {
                    cov.samples.push(texts[*i].clone());
                }
            }
        }
        *cov.classes.entry("declarations".into()).or_default() += texts.len() as u64;
        if base.len() < texts.len() {
            die(&format!("{} expansions of {} were found", base.len(), texts.len()));
        }
        if let Some((i, mut why)) = bad {
            // alone?
            let mut keep: Vec<Src> = vec![];
            let mut texts = texts;
            let one = |t: &[String]| differ(&d, &dir, t, 12, 5).1;
            if let Some((_, w)) = one(&texts[i..=i]) {
                why = w;
                keep.push(src.remove(i));
                if let Src::U(u) = &mut keep[0] {
                    let mut k = 0;
                    while u.funcs.len() > 1 && k < u.funcs.len() {
                        let mut v = u.clone();
                        v.funcs.remove(k);
                        match one(&[unit_text(&v)]) {
                            Some((_, w)) => {
                                *u = v;
                                why = w;
                            }
                            None => k += 1,
                        }
                    }
                }
                texts = vec![keep[0].text()];
            } else {
                // with one of the others?
                for j in 0..texts.len() {
                    if j != i {
                        let t = vec![texts[i].clone(), texts[j].clone()];
                        if let Some((_, w)) = differ(&d, &dir, &t, 4, 5).1 {
                            why = w;
                            texts = t;
                            break;
                        }
                    }
                }
            }
            bads.push(Bad {
                key: "expansions differ".into(),
                message: format!("{}\nexpansions of this differ:\n{why}", texts.first().filter(|_| texts.len() < 3).cloned().unwrap_or_default()),
                replay: json!({ "engine": "expand", "texts": texts }),
            });
            break;
        }
    }
    cov.evaluations += evals;
    let _ = std::fs::remove_dir_all(&dir);
    bads
}

pub fn replay(v: &Value) -> bool {
    let d = deps(false, None).unwrap_or_else(|e| die(&e));
    let dir = build_dir().join("work/replay");
    let texts: Vec<String> = v["texts"].as_array().into_iter().flatten().map(|s| s.as_str().unwrap().to_string()).collect();
    let r = differ(&d, &dir, &texts, 12, 5).1;
    let _ = std::fs::remove_dir_all(&dir);
    if let Some((_, w)) = &r {
        println!("{w}");
    }
    r.is_some()
}
