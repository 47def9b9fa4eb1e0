//! Checks by generated programs that judge themselves: each case is a module
//! with a `pub fn run()`, which must compile (perhaps without warnings) and
//! return, or one that must be refused by the compiler.
use crate::comp::*;
use crate::g::G;
use crate::report::*;
use crate::runner;
use proptest::strategy::{Strategy, ValueTree};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::Path;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    /// compiles, and run() returns
    Runs,
    /// the same, and no warnings
    Clean,
    /// a compile error inside of these lines (1-based) of the text
    Refused(usize, usize),
    /// any answer, but the compiler must give one
    Answer,
}

#[derive(Clone, Debug)]
pub struct Case {
    /// `$C` is the path of the module
    pub text: String,
    pub expect: Expect,
    pub nontrivial: bool,
    pub classes: Vec<String>,
    /// of a case of a plan that is gone through in full: which one it is
    pub key: Option<String>,
}

#[derive(Clone)]
pub struct CasePlan {
    pub name: &'static str,
    pub gen: fn(&mut G, usize) -> Case,
    pub n: usize,
    pub nightly: bool,
    pub args: Vec<String>,
    pub rule: &'static str,
    /// compile each case in both of these ways
    pub group: usize,
}

#[derive(Clone, Debug)]
pub struct Verdict {
    pub bad: Option<(String, String)>,
}

fn main_rs(idx: &[usize]) -> String {
    let mut s = String::from("#![allow(dead_code)]\n");
    for i in idx {
        s += &format!("#[path = \"c{i}.rs\"]\npub mod c{i};\n");
    }
    s += "fn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n";
    for i in idx {
        s += &format!(
            "    match std::panic::catch_unwind(c{i}::run) {{\n        Ok(()) => println!(\"ok {i}\"),\n        Err(e) => println!(\"FAIL {i} {{:?}}\", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))),\n    }}\n"
        );
    }
    s + "}\n"
}

fn put(dir: &Path, i: usize, c: &Case) {
    std::fs::write(dir.join(format!("c{i}.rs")), c.text.replace("$C", &format!("crate::c{i}"))).unwrap();
}

fn own(f: &str) -> Option<usize> {
    Path::new(f).file_stem().and_then(|s| s.to_str()).and_then(|s| s.strip_prefix('c')).and_then(|s| s.parse().ok())
}

fn first_line(s: &str) -> String {
    s.lines().next().unwrap_or("").to_string()
}

/// Judge cases that must run, together in one program
fn judge_runs(d: &Deps, dir: &Path, cases: &[(usize, &Case)], args: &[String]) -> BTreeMap<usize, (String, String)> {
    let mut bad: BTreeMap<usize, (String, String)> = BTreeMap::new();
    std::fs::create_dir_all(dir).unwrap();
    for (i, c) in cases {
        put(dir, *i, c);
    }
    let mut idx: Vec<usize> = cases.iter().map(|c| c.0).collect();
    let by: BTreeMap<usize, &Case> = cases.iter().copied().collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let bin = dir.join("main");
    let mut rounds = 0;
    loop {
        if idx.is_empty() {
            return bad;
        }
        rounds += 1;
        std::fs::write(dir.join("main.rs"), main_rs(&idx)).unwrap();
        let r = rustc(d, &dir.join("main.rs"), Out::Bin(&bin), &args, Duration::from_secs(300)).unwrap_or_else(|e| die(&e));
        let mut found: BTreeMap<usize, String> = BTreeMap::new();
        for dg in r.diags.iter().filter(|d| r.ok || d.level == "error") {
            if let Some(i) = dg.span.as_ref().and_then(|s| own(&s.0)) {
                let e = found.entry(i).or_default();
                if e.len() < 3000 {
                    *e += &dg.rendered;
                }
            }
        }
        if r.ok {
            for (i, w) in found {
                if by.get(&i).map_or(false, |c| c.expect == Expect::Clean) {
                    bad.insert(i, (format!("warning: {}", first_line(&w)), format!("compiles with warnings:\n{w}")));
                }
            }
            break;
        }
        found.retain(|i, _| idx.contains(i));
        if found.is_empty() || rounds > 8 {
            if idx.len() == 1 {
                let why = r.died.clone().unwrap_or_else(|| r.diags.iter().map(|d| d.rendered.clone()).collect());
                bad.insert(idx[0], (first_line(&why), format!("does not compile:\n{why}")));
                return bad;
            }
            // one by one
            for i in idx {
                bad.extend(judge_runs(d, &dir.join(format!("s{i}")), &[(i, by[&i])], &args.iter().map(|s| s.to_string()).collect::<Vec<_>>()));
            }
            return bad;
        }
        idx.retain(|i| !found.contains_key(i));
        for (i, w) in found {
            bad.insert(i, (first_line(&w), format!("does not compile:\n{w}")));
        }
    }
    let (out, how) = run_bin(&bin, &[], Duration::from_secs(60));
    let mut seen = HashSet::new();
    for l in out.lines() {
        let mut it = l.splitn(3, ' ');
        match (it.next(), it.next().and_then(|s| s.parse::<usize>().ok()), it.next()) {
            (Some("ok"), Some(i), _) => {
                seen.insert(i);
            }
            (Some("FAIL"), Some(i), m) => {
                seen.insert(i);
                let m = m.unwrap_or("").to_string();
                bad.entry(i).or_insert((format!("run: {m}"), format!("fails when run: {m}")));
            }
            _ => {}
        }
    }
    if let Some(i) = idx.iter().find(|i| !seen.contains(i)) {
        bad.entry(*i).or_insert(("the program ended".into(), format!("ended the program: {how}")));
    }
    bad
}

/// Run a program: its output, and how it ended
pub fn run_bin(bin: &Path, args: &[&str], limit: Duration) -> (String, String) {
    use std::process::{Command, Stdio};
    let mut ch = Command::new(bin)
        .args(args)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| die(&e.to_string()));
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let a = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = std::io::Read::read_to_end(&mut so, &mut v);
        String::from_utf8_lossy(&v).to_string()
    });
    let b = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = std::io::Read::read_to_end(&mut se, &mut v);
        String::from_utf8_lossy(&v).to_string()
    });
    let t0 = Instant::now();
    let how = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s.to_string(),
            Ok(None) if t0.elapsed() > limit => {
                let _ = ch.kill();
                let _ = ch.wait();
                break "no end within the time limit".into();
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(5)),
            Err(e) => die(&e.to_string()),
        }
    };
    let out = a.join().unwrap_or_default();
    let err = b.join().unwrap_or_default();
    (out, format!("{how} {}", err.chars().take(2000).collect::<String>()))
}

fn judge_refused(d: &Deps, dir: &Path, i: usize, c: &Case, args: &[String]) -> Option<(String, String)> {
    std::fs::create_dir_all(dir).unwrap();
    put(dir, i, c);
    std::fs::write(dir.join("main.rs"), format!("#[path = \"c{i}.rs\"]\npub mod c{i};\nfn main() {{}}\n")).unwrap();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let r = rustc(d, &dir.join("main.rs"), Out::Meta(&dir.join("main.rmeta")), &args, Duration::from_secs(60)).unwrap_or_else(|e| die(&e));
    if let Some(w) = &r.died {
        return Some((format!("died: {w}"), format!("the compiler gave no answer: {w}\n{}", r.raw)));
    }
    match c.expect {
        Expect::Refused(a, b) => {
            if r.ok {
                return Some(("accepted".into(), "is accepted".into()));
            }
            let inside = r.diags.iter().filter(|d| d.level == "error").any(|d| d.span.as_ref().map_or(false, |s| own(&s.0) == Some(i) && s.1 >= a && s.2 <= b));
            if !inside {
                let w: String = r.diags.iter().map(|d| d.rendered.clone()).collect();
                return Some(("elsewhere".into(), format!("is refused, but not where it is (lines {a} to {b}):\n{w}")));
            }
            None
        }
        _ => None,
    }
}

/// Judge all cases
pub fn judge(d: &Deps, dir: &Path, cases: &[Case], plan: &CasePlan) -> Vec<Verdict> {
    let runs: Vec<(usize, &Case)> = cases.iter().enumerate().filter(|c| matches!(c.1.expect, Expect::Runs | Expect::Clean)).collect();
    let refused: Vec<(usize, &Case)> = cases.iter().enumerate().filter(|c| !matches!(c.1.expect, Expect::Runs | Expect::Clean)).collect();
    let mut out: BTreeMap<usize, (String, String)> = BTreeMap::new();
    let per = plan.group.min((runs.len() + 7) / 8).max(1);
    let chunks: Vec<Vec<(usize, &Case)>> = runs.chunks(per).map(|c| c.to_vec()).collect();
    for m in parallel(chunks.into_iter().enumerate().collect(), 8, |(k, c)| judge_runs(d, &dir.join(format!("g{k}")), &c, &plan.args)) {
        out.extend(m);
    }
    for (i, b) in parallel(refused, 8, |(i, c)| (i, judge_refused(d, &dir.join(format!("r{i}")), i, c, &plan.args))) {
        if let Some(b) = b {
            out.insert(i, b);
        }
    }
    (0..cases.len()).map(|i| Verdict { bad: out.remove(&i) }).collect()
}

pub fn vectors(job: &Job, salt: u64, n: usize, len: usize) -> Vec<Vec<u32>> {
    let st = proptest::collection::vec(proptest::num::u32::ANY, len);
    (0..n)
        .map(|i| {
            let mut r = runner(job.seed, salt * 1_000_000 + i as u64);
            st.new_tree(&mut r).unwrap().current()
        })
        .collect()
}

/// Shrink a choice sequence: `bad` judges candidates (several at once) and
/// says which of them still fail
pub fn shrink<R: Clone>(v: Vec<u32>, r: R, limit: Duration, mut bad: impl FnMut(&[Vec<u32>]) -> Vec<Option<R>>) -> (Vec<u32>, R) {
    let t0 = Instant::now();
    let mut best = (v, r);
    // a shorter sequence first (what is missing reads as 0), then zeros
    let mut size = best.0.len() / 2;
    while size >= 1 && t0.elapsed() < limit {
        let mut progress = false;
        let mut at = 0;
        while at < best.0.len() && t0.elapsed() < limit {
            let mut cands = vec![];
            let mut k = at;
            while cands.len() < 8 && k < best.0.len() {
                let end = (k + size).min(best.0.len());
                if best.0[k..end].iter().any(|x| *x != 0) {
                    let mut z = best.0.clone();
                    z[k..end].fill(0);
                    cands.push(z);
                    let mut z = best.0.clone();
                    z.drain(k..end);
                    cands.push(z);
                }
                k = end;
            }
            at = k;
            if cands.is_empty() {
                continue;
            }
            let res = bad(&cands);
            if let Some((c, r)) = cands.into_iter().zip(res).find_map(|(c, r)| r.map(|r| (c, r))) {
                best = (c, r);
                progress = true;
                at = at.saturating_sub(8 * size);
            }
        }
        if !progress {
            size /= 2;
        }
    }
    while best.0.last() == Some(&0) {
        best.0.pop();
    }
    best
}

fn mk0(plan: &CasePlan) -> Case {
    (plan.gen)(&mut G::new(&[]), 0)
}

pub fn check(job: &Job, plan: CasePlan, salt: u64, cov: &mut Cov) -> Vec<Bad> {
    let d = deps(plan.nightly, None).unwrap_or_else(|e| die(&e));
    let dir = job.dir().join(plan.name);
    let _ = std::fs::remove_dir_all(&dir);
    // a plan that is gone through in full has no more in the thorough tier
    let full = mk0(&plan).key.is_some();
    let n = if full { plan.n } else { job.tier(plan.n, plan.n * 6) };
    let vs = vectors(job, salt, n, 300);
    let mk = |v: &[u32], i: usize| (plan.gen)(&mut G::new(v), i);
    let mut bads = vec![];
    let mut done = 0;
    let mut seen = HashSet::new();
    // in portions, so that a violation is told soon
    for (k, part) in vs.chunks(800).enumerate() {
        let cases: Vec<Case> = part.iter().enumerate().map(|(j, v)| mk(v, k * 800 + j)).collect();
        let ver = judge(&d, &dir, &cases, &plan);
        done += cases.len();
        for (c, v) in cases.iter().zip(&ver) {
            for k in &c.classes {
                *cov.classes.entry(k.clone()).or_default() += 1;
            }
            if c.nontrivial && v.bad.is_none() && seen.insert(c.text.clone()) {
                cov.nontrivial += 1;
                if cov.samples.len() < 4 && seen.len() % 7 == 1 {
                    cov.samples.push(c.text.clone());
                }
            }
        }
        if std::env::var("CASES_DEBUG").is_ok() {
            let mut h: BTreeMap<String, Vec<usize>> = BTreeMap::new();
            for (j, v) in ver.iter().enumerate() {
                if let Some(b) = &v.bad {
                    h.entry(if b.0 == "accepted" { format!("accepted: {} {j}", cases[j].classes[0]) } else { b.0.clone() }).or_default().push(j);
                }
            }
            let _ = std::fs::create_dir_all("/tmp/x/cases");
            for (k, js) in h {
                let j = *js.iter().min_by_key(|j| cases[**j].text.len()).unwrap();
                println!("{} x {k}   [{j}]", js.len());
                let _ = std::fs::write(format!("/tmp/x/cases/{j}.rs"), format!("{}\n/*\n{}\n*/\n", cases[j].text, ver[j].bad.as_ref().unwrap().1));
            }
            continue;
        }
        for (c, v) in cases.iter().zip(&ver) {
            if let (Some(k), Some(b)) = (&c.key, &v.bad) {
                bads.push(Bad {
                    key: format!("{}: {k}", plan.name),
                    message: format!("{}\n[{}] {k}: this {}", c.text, plan.name, b.1),
                    replay: json!({ "engine": "case", "nightly": plan.nightly, "args": plan.args, "text": c.text, "expect": enc(&c.expect) }),
                });
            }
        }
        if full {
            continue;
        }
        if let Some(j) = (0..cases.len()).filter(|j| ver[*j].bad.is_some()).min_by_key(|j| cases[*j].text.len()) {
            let i = k * 800 + j;
            let sd = dir.join("shrink");
            let r0 = (cases[j].clone(), ver[j].bad.clone().unwrap());
            // is it so again, alone?
            let again = judge(&d, &sd, &[cases[j].clone()], &plan);
            if again[0].bad.is_none() {
                die(&format!("not reproducible alone: {}\n{}", r0.1 .1, r0.0.text));
            }
            let (_, (c, b)) = shrink(part[j].clone(), r0, Duration::from_secs(45), |cs| {
                let cases: Vec<Case> = cs.iter().map(|v| mk(v, i)).collect();
                let one = CasePlan { group: 1, ..plan.clone() };
                let ver = judge(&d, &sd, &cases, &one);
                cases.into_iter().zip(ver).map(|(c, v)| v.bad.map(|b| (c, b))).collect()
            });
            bads.push(Bad {
                key: format!("{}: {}", plan.name, b.0),
                message: format!("{}\n[{}] this {}", c.text, plan.name, b.1),
                replay: json!({ "engine": "case", "nightly": plan.nightly, "args": plan.args, "text": c.text, "expect": enc(&c.expect) }),
            });
            break;
        }
    }
    cov.evaluations += done as u64;
    cov.rule = if cov.rule.is_empty() { plan.rule.to_string() } else { format!("{}; {}", cov.rule, plan.rule) };
    let _ = std::fs::remove_dir_all(&dir);
    bads
}

fn enc(e: &Expect) -> Value {
    match e {
        Expect::Runs => json!("runs"),
        Expect::Clean => json!("clean"),
        Expect::Answer => json!("answer"),
        Expect::Refused(a, b) => json!([a, b]),
    }
}

pub fn replay(v: &Value) -> bool {
    let d = deps(v["nightly"] == true, None).unwrap_or_else(|e| die(&e));
    let dir = build_dir().join("work/replay");
    let _ = std::fs::remove_dir_all(&dir);
    let expect = match &v["expect"] {
        Value::Array(a) => Expect::Refused(a[0].as_u64().unwrap() as usize, a[1].as_u64().unwrap() as usize),
        x if x == "clean" => Expect::Clean,
        x if x == "answer" => Expect::Answer,
        _ => Expect::Runs,
    };
    let c = Case { text: v["text"].as_str().unwrap().into(), expect, nontrivial: false, classes: vec![], key: None };
    let plan = CasePlan {
        name: "replay",
        gen: |_, _| unreachable!(),
        n: 1,
        nightly: v["nightly"] == true,
        args: v["args"].as_array().into_iter().flatten().map(|s| s.as_str().unwrap().to_string()).collect(),
        rule: "",
        group: 1,
    };
    let r = judge(&d, &dir, &[c], &plan);
    if let Some(b) = &r[0].bad {
        println!("{}", b.1);
    }
    r[0].bad.is_some()
}
