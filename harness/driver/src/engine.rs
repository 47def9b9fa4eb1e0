//! Checks by histories: generates mocked declarations, compiles them, runs
//! random histories on them against the model, shrinks what fails.
use crate::child::*;
use crate::comp::*;
use crate::gen::*;
use crate::hist::*;
use crate::report::*;
use crate::{emit, runner};
use proptest::strategy::{Strategy, ValueTree};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Plan {
    pub spots: Vec<Spot>,
    pub kinds: Vec<Kind>,
    pub nightly: bool,
    /// of the generated programs
    pub edition: &'static str,
    pub profs: Vec<Prof>,
    pub diag: bool,
    /// percentage of histories over two declarations
    pub pair: u32,
    /// a history counts as non-trivial if it met one of these classes
    pub classes: &'static [&'static str],
    pub rule: &'static str,
    pub opts: Opts,
    pub units: usize,
    pub histories: usize,
    pub deadlock_is_violation: bool,
    /// a declaration that does not compile breaks the property
    pub compile_bad: bool,
    /// so does one that compiles with warnings
    pub warn_bad: bool,
}

pub const ALL_KINDS: [Kind; 6] = KINDS;

/// (spot, kind) pairs of the plan, each kind of each spot before repeating
pub fn pairs(spots: &[Spot], kinds: &[Kind]) -> Vec<(Spot, Kind)> {
    let mut v = vec![];
    for r in 0..6 {
        for s in spots {
            let ks: Vec<Kind> = kinds_of(*s).iter().copied().filter(|k| kinds.contains(k)).collect();
            if r < ks.len() {
                v.push((*s, ks[r]));
            }
        }
    }
    v
}

pub fn units(job: &Job, spots: &[Spot], kinds: &[Kind], n: usize, opts: &Opts, salt: u64) -> Vec<Unit> {
    let ps = pairs(spots, kinds);
    let st = proptest::collection::vec(proptest::num::u32::ANY, 400);
    // spread evenly over the pairs, beginning somewhere
    let stride = if n < ps.len() { ps.len() as f64 / n as f64 } else { 1.0 };
    (0..n)
        .map(|i| {
            let at = (i as f64 * stride) as usize + job.seed as usize;
            let (s, k) = ps[at % ps.len()];
            let mut r = runner(job.seed, salt * 100_000 + i as u64);
            let v = st.new_tree(&mut r).unwrap().current();
            unit(i, k, s, &v, opts)
        })
        .collect()
}

pub struct Group {
    pub bin: PathBuf,
    /// indices of units, in the binary's order
    pub units: Vec<usize>,
    /// warnings
    pub warned: Vec<(usize, String)>,
}

pub fn write_group(dir: &Path, us: &[Unit], idx: &[usize]) {
    std::fs::create_dir_all(dir).unwrap();
    for i in idx {
        std::fs::write(dir.join(format!("u{i}.rs")), emit::unit_text(&us[*i], *i)).unwrap();
    }
    std::fs::write(dir.join("main.rs"), emit::main_text(idx)).unwrap();
}

pub fn build_group(d: &Deps, dir: &Path, us: &[Unit], mut idx: Vec<usize>) -> (Option<Group>, Vec<(usize, String)>) {
    let mut dropped = vec![];
    for _ in 0..6 {
        if idx.is_empty() {
            return (None, dropped);
        }
        write_group(dir, us, &idx);
        let bin = dir.join("main");
        let r = match rustc(d, &dir.join("main.rs"), Out::Bin(&bin), &["--cap-lints", "warn"], Duration::from_secs(300)) {
            Ok(r) => r,
            Err(e) => die(&e),
        };
        let mut bad: BTreeMap<usize, String> = BTreeMap::new();
        for dg in r.diags.iter().filter(|d| r.ok || d.level == "error") {
            if let Some((f, ..)) = &dg.span {
                if let Some(i) = Path::new(f).file_stem().and_then(|s| s.to_str()).and_then(|s| s.strip_prefix('u')).and_then(|s| s.parse().ok()) {
                    bad.entry(i).or_insert(dg.rendered.clone());
                }
            }
        }
        if r.ok {
            return (Some(Group { bin, units: idx, warned: bad.into_iter().collect() }), dropped);
        }
        bad.retain(|i, _| idx.contains(i));
        if bad.is_empty() {
            let why = r.died.clone().unwrap_or_else(|| r.diags.first().map(|d| d.rendered.clone()).unwrap_or(r.raw.clone()));
            dropped.extend(idx.drain(..).map(|i| (i, why.clone())));
        } else {
            idx.retain(|i| !bad.contains_key(i));
            dropped.extend(bad);
        }
    }
    dropped.extend(idx.into_iter().map(|i| (i, "gave up".to_string())));
    (None, dropped)
}

#[derive(Clone, Debug)]
struct Found {
    /// (positions in the group, rows)
    histories: Vec<(Vec<usize>, Vec<Row>)>,
    ans: Ans,
    group: usize,
}

fn line(which: &[usize], flags: u32, rows: &[Row]) -> String {
    format!("R {} {flags} {}", which.iter().map(|w| w.to_string()).collect::<Vec<_>>().join("+"), encode(rows))
}

/// Run histories in a fresh process: the first bad answer
fn fresh(bin: &Path, hs: &[(Vec<usize>, Vec<Row>)], flags: u32) -> Ans {
    let mut r = match Runner::new(bin) {
        Ok(r) => r,
        Err(e) => die(&e),
    };
    let mut last = Ans::Ok { steps: 0, classes: vec![], trace: String::new() };
    for (w, rows) in hs {
        last = r.ask(&line(w, flags, rows));
        if !matches!(last, Ans::Ok { .. }) {
            return last;
        }
    }
    last
}

struct Stats {
    evaluations: u64,
    steps: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<(Vec<usize>, Vec<Row>)>,
}

fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn explore(job: &Job, plan: &Plan, g: &Group, gi: usize, stop: &AtomicBool) -> (Stats, Option<Found>) {
    let mut st = Stats { evaluations: 0, steps: 0, nontrivial: HashSet::new(), classes: BTreeMap::new(), samples: vec![] };
    let flags = plan.diag as u32;
    let mut run = match Runner::new(&g.bin) {
        Ok(r) => r,
        Err(e) => die(&e),
    };
    let strategies: Vec<_> = plan.profs.iter().map(history).collect();
    let mut sent: Vec<(Vec<usize>, Vec<Row>)> = vec![];
    for (pos, ui) in g.units.iter().enumerate() {
        let mut r = runner(job.seed, 7_000_000 + *ui as u64);
        let mut sampled = false;
        for h in 0..plan.histories {
            if stop.load(Ordering::Relaxed) {
                return (st, None);
            }
            let mut tree = strategies[h % strategies.len()].new_tree(&mut r).unwrap();
            let rows = tree.current();
            let mut which = vec![pos];
            if g.units.len() > 1 && (hash(&(h, ui)) % 100) < plan.pair as u64 {
                which.push((pos + 1 + (h % (g.units.len() - 1))) % g.units.len());
            }
            sent.push((which.clone(), rows.clone()));
            let ans = run.ask(&line(&which, flags, &rows));
            st.evaluations += 1;
            match &ans {
                Ans::Ok { steps, classes, .. } => {
                    st.steps += steps;
                    let mut non = false;
                    for (k, n) in classes {
                        *st.classes.entry(k.clone()).or_default() += n;
                        non |= plan.classes.contains(&k.as_str());
                    }
                    if non {
                        st.nontrivial.insert(hash(&(ui, encode(&rows))));
                        if !sampled && st.samples.len() < 2 {
                            sampled = true;
                            st.samples.push((which.clone(), rows.clone()));
                        }
                    }
                    continue;
                }
                Ans::Hang => die(&format!("no answer to {}", line(&which, flags, &rows))),
                Ans::Deadlock if !plan.deadlock_is_violation => die("the runner is deadlocked"),
                _ => {}
            }
            stop.store(true, Ordering::Relaxed);
            // does it fail alone?
            let alone = vec![(which.clone(), rows.clone())];
            let a1 = fresh(&g.bin, &alone, flags);
            if !a1.bad() {
                // it takes what went before
                let mut hs = sent.clone();
                let a = fresh(&g.bin, &hs, flags);
                if !a.bad() {
                    die(&format!("not reproducible: {} on {}", ans.text(), line(&which, flags, &rows)));
                }
                let mut n = hs.len() / 2;
                let t0 = Instant::now();
                while n >= 1 && t0.elapsed() < Duration::from_secs(60) {
                    let mut i = 0;
                    while i < hs.len() {
                        let mut c = hs.clone();
                        c.drain(i..(i + n).min(hs.len()));
                        if !c.is_empty() && fresh(&g.bin, &c, flags).bad() {
                            hs = c;
                        } else {
                            i += n;
                        }
                    }
                    n /= 2;
                }
                let ans = fresh(&g.bin, &hs, flags);
                return (st, Some(Found { histories: hs, ans, group: gi }));
            }
            // shrink
            let t0 = Instant::now();
            let mut best = (rows.clone(), a1);
            let mut child = Runner::new(&g.bin).unwrap_or_else(|e| die(&e));
            let mut steps = 0;
            if tree.simplify() {
                loop {
                    steps += 1;
                    if steps > 4000 || t0.elapsed() > Duration::from_secs(40) || matches!(best.1, Ans::Deadlock) {
                        break;
                    }
                    let cur = tree.current();
                    let a = child.ask(&line(&which, flags, &cur));
                    if !matches!(a, Ans::Ok { .. } | Ans::Fail { .. }) {
                        let _ = child.restart();
                    }
                    if a.bad() {
                        best = (cur, a);
                        if !tree.simplify() {
                            break;
                        }
                    } else if !tree.complicate() {
                        break;
                    }
                }
            }
            let hs = vec![(which.clone(), best.0.clone())];
            let a = fresh(&g.bin, &hs, flags);
            if a.bad() {
                return (st, Some(Found { histories: hs, ans: a, group: gi }));
            }
            let a = fresh(&g.bin, &alone, flags);
            return (st, Some(Found { histories: alone, ans: a, group: gi }));
        }
    }
    (st, None)
}

/// Keep only the functions in use; None if it no longer fails
fn reduce(d: &Deps, dir: &Path, us: &[Unit], g: &Group, f: &Found, flags: u32) -> Option<(Vec<Unit>, Vec<Row>, Ans)> {
    if f.histories.len() != 1 {
        return None;
    }
    let (which, rows) = &f.histories[0];
    let orig: Vec<&Unit> = which.iter().map(|w| &us[g.units[*w]]).collect();
    let mut table = vec![];
    for (k, u) in orig.iter().enumerate() {
        for s in emit::slots(u) {
            table.push((k, s.func, s.cls, s.m));
        }
    }
    let h = &rows[0];
    let get = |i: usize| h.get(i).copied().unwrap_or(0) as usize;
    let base = get(1) % table.len();
    let mut focus = vec![base];
    for i in 0..get(0) % 8 {
        focus.push((base + get(2 + i)) % table.len());
    }
    // used steps
    let used: BTreeSet<usize> = rows[1..].iter().map(|r| focus[r.get(1).copied().unwrap_or(0) as usize % focus.len()]).collect();
    let mut keep_units: Vec<usize> = used.iter().map(|s| table[*s].0).collect::<BTreeSet<_>>().into_iter().collect();
    if keep_units.is_empty() {
        keep_units.push(0);
    }
    let mut small = vec![];
    let mut names: Vec<BTreeSet<usize>> = vec![];
    for k in &keep_units {
        let mut u = orig[*k].clone();
        let fs: BTreeSet<usize> = used.iter().filter(|s| table[**s].0 == *k).map(|s| table[*s].1).collect();
        if fs.is_empty() {
            return None;
        }
        let mut i = 0;
        u.funcs.retain(|_| {
            i += 1;
            fs.contains(&(i - 1))
        });
        names.push(fs);
        small.push(u);
    }
    let mut new_table = vec![];
    for (j, u) in small.iter().enumerate() {
        let fs: Vec<usize> = names[j].iter().copied().collect();
        for s in emit::slots(u) {
            new_table.push((keep_units[j], fs[s.func], s.cls, s.m));
        }
    }
    let ns = new_table.len();
    let at = |slot: usize| new_table.iter().position(|x| *x == table[slot]);
    // every focus slot must exist; unused ones become the first
    let first = at(*used.iter().next().unwrap_or(&base))?;
    let nf: Vec<usize> = focus.iter().map(|s| at(*s).unwrap_or(first)).collect();
    let mut nh = vec![(nf.len() - 1) as u16, nf[0] as u16];
    for x in &nf[1..] {
        nh.push(((x + ns - nf[0] % ns) % ns) as u16);
    }
    let mut nrows = rows.clone();
    nrows[0] = nh;
    let idx: Vec<usize> = (0..small.len()).collect();
    let (gr, _) = build_group(d, dir, &small, idx);
    let gr = gr?;
    if gr.units.len() != small.len() {
        return None;
    }
    let w: Vec<usize> = (0..small.len()).collect();
    let a = fresh(&gr.bin, &[(w, nrows.clone())], flags);
    if a.bad() {
        Some((small, nrows, a))
    } else {
        None
    }
}

/// Why a unit does not compile (or has warnings), on its own
fn refuses(d: &Deps, dir: &Path, u: &Unit, warn: bool) -> Option<String> {
    std::fs::create_dir_all(dir).unwrap();
    std::fs::write(dir.join("u0.rs"), emit::unit_text(u, 0)).unwrap();
    std::fs::write(dir.join("main.rs"), emit::main_text(&[0])).unwrap();
    let r = rustc(d, &dir.join("main.rs"), Out::Meta(&dir.join("main.rmeta")), &["--cap-lints", "warn"], Duration::from_secs(120)).unwrap_or_else(|e| die(&e));
    if r.ok && !warn || r.ok && r.diags.is_empty() {
        return None;
    }
    Some(r.died.or(r.diags.iter().find(|d| r.ok || d.level == "error").map(|d| d.rendered.clone())).unwrap_or(r.raw))
}

/// A unit that does not compile: keep what it takes
fn compile_bad(d: &Deps, dir: &Path, u: &Unit, warn: bool) -> Option<Bad> {
    let mut why = refuses(d, dir, u, warn)?;
    let mut u = u.clone();
    let singles: Vec<Unit> = (0..u.funcs.len())
        .map(|i| {
            let mut v = u.clone();
            v.funcs = vec![u.funcs[i].clone()];
            v
        })
        .collect();
    let res = parallel(singles.into_iter().enumerate().collect(), 8, |(i, v)| refuses(d, &dir.join(format!("s{i}")), &v, warn).map(|w| (v, w)));
    if let Some((v, w)) = res.into_iter().flatten().next() {
        u = v;
        why = w;
    }
    // leave out arguments
    loop {
        let mut cand = vec![];
        for (k, f) in u.funcs.iter().enumerate() {
            for i in 0..f.args.len() {
                let mut v = u.clone();
                v.funcs[k].args.remove(i);
                for (j, a) in v.funcs[k].args.iter_mut().enumerate() {
                    a.pat = a.pat.replace(&a.name, &format!("a{j}"));
                    a.name = format!("a{j}");
                }
                cand.push(v);
            }
        }
        let first = |w: &str| w.lines().next().unwrap_or("").to_string();
        let res = parallel(cand.into_iter().enumerate().collect(), 8, |(i, v)| refuses(d, &dir.join(format!("s{i}")), &v, warn).map(|w| (v, w)));
        match res.into_iter().flatten().find(|(_, w)| first(w) == first(&why)) {
            Some((v, w)) => {
                u = v;
                why = w;
            }
            None => break,
        }
    }
    Some(Bad {
        key: why.lines().next().unwrap_or("").to_string(),
        message: format!("{}\n{}\nthis supported declaration {}:\n{why}", emit::decl(&u), emit::twins(&u), if warn { "compiles with warnings" } else { "does not compile" }),
        replay: json!({ "engine": "compile", "nightly": u.nightly, "edition": d.edition, "warn": warn, "text": emit::unit_text(&u, 0) }),
    })
}

fn of(v: &Value) -> Deps {
    let mut d = deps(v["nightly"] == true, None).unwrap_or_else(|e| die(&e));
    if let Some(e) = v["edition"].as_str() {
        d.edition = e.into();
    }
    d
}

pub fn replay_compile(v: &Value) -> bool {
    let d = of(v);
    let dir = build_dir().join("work/replay");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("u0.rs"), v["text"].as_str().unwrap()).unwrap();
    std::fs::write(dir.join("main.rs"), emit::main_text(&[0])).unwrap();
    let r = rustc(&d, &dir.join("main.rs"), Out::Meta(&dir.join("main.rmeta")), &["--cap-lints", "warn"], Duration::from_secs(120)).unwrap_or_else(|e| die(&e));
    for d in &r.diags {
        println!("{}", d.rendered);
    }
    !r.ok || v["warn"] == true && !r.diags.is_empty()
}

pub fn check(job: &Job, plan: Plan, cov: &mut Cov) -> Vec<Bad> {
    let mut d = deps(plan.nightly, None).unwrap_or_else(|e| die(&e));
    d.edition = plan.edition.into();
    let dir = job.dir();
    let _ = std::fs::remove_dir_all(&dir);
    let us = units(job, &plan.spots, &plan.kinds, plan.units, &plan.opts, if plan.edition == "2021" { 1 } else { 24 });
    let ng = (plan.units + 5) / 6;
    let ng = ng.max(8.min(plan.units));
    let groups: Vec<Vec<usize>> = (0..ng).map(|g| (0..us.len()).filter(|i| i % ng == g).collect()).collect();
    let built = parallel(groups.into_iter().enumerate().collect(), 8, |(i, g)| build_group(&d, &dir.join(format!("g{i}")), &us, g));
    let mut groups = vec![];
    let mut dropped = vec![];
    for (g, dr) in built {
        groups.extend(g);
        dropped.extend(dr);
    }
    let t_built = job.t0.elapsed().as_secs_f64();
    if plan.compile_bad || plan.warn_bad {
        let mut suspects: Vec<(usize, bool)> = if plan.compile_bad { dropped.iter().map(|d| (d.0, false)).collect() } else { vec![] };
        if plan.warn_bad {
            suspects.extend(groups.iter().flat_map(|g| g.warned.iter().map(|w| (w.0, true))));
        }
        suspects.sort_by_key(|(i, _)| us[*i].funcs.iter().map(|f| 1 + f.args.len()).sum::<usize>());
        for (i, w) in suspects.into_iter().take(6) {
            if let Some(b) = compile_bad(&d, &dir.join("bad"), &us[i], w) {
                cov.evaluations += us.len() as u64;
                cov.rule = plan.rule.to_string();
                return vec![b];
            }
        }
    }
    if dropped.len() * 2 > us.len() {
        die(&format!("{} of {} generated declarations do not compile: {}", dropped.len(), us.len(), dropped[0].1));
    }
    let stop = AtomicBool::new(false);
    let res = parallel((0..groups.len()).collect(), 8, |i| explore(job, &plan, &groups[i], i, &stop));
    let mut bad = vec![];
    let mut founds = vec![];
    let mut steps = 0;
    for (i, (st, f)) in res.into_iter().enumerate() {
        cov.evaluations += st.evaluations;
        steps += st.steps;
        cov.nontrivial += st.nontrivial.len() as u64;
        for (k, n) in st.classes {
            *cov.classes.entry(k).or_default() += n;
        }
        if cov.samples.len() < 3 {
            for (w, rows) in st.samples {
                let a = fresh(&groups[i].bin, &[(w.clone(), rows)], 2);
                let decls: String = w.iter().map(|p| emit::decl(&us[groups[i].units[*p]])).collect();
                cov.samples.push(format!("{decls}\n{}", a.trace()));
                break;
            }
        }
        founds.extend(f);
    }
    if let Some(f) = founds.into_iter().min_by_key(|f| f.histories.iter().map(|h| h.1.len()).sum::<usize>()) {
        let g = &groups[f.group];
        let flags = plan.diag as u32;
        let red = reduce(&d, &dir.join("reduced"), &us, g, &f, flags);
        let (texts, decls, hist, ans) = match red {
            Some((small, rows, a)) => {
                let w: Vec<usize> = (0..small.len()).collect();
                (
                    small.iter().enumerate().map(|(i, u)| emit::unit_text(u, i)).collect::<Vec<_>>(),
                    small.iter().map(emit::decl).collect::<Vec<_>>(),
                    vec![(w, rows)],
                    a,
                )
            }
            None => {
                let used: Vec<usize> = f.histories.iter().flat_map(|h| h.0.clone()).collect::<BTreeSet<_>>().into_iter().collect();
                (
                    used.iter().enumerate().map(|(i, p)| emit::unit_text(&us[g.units[*p]], i)).collect(),
                    used.iter().map(|p| emit::decl(&us[g.units[*p]])).collect(),
                    f.histories.iter().map(|(w, r)| (w.iter().map(|x| used.iter().position(|u| u == x).unwrap()).collect(), r.clone())).collect(),
                    f.ans.clone(),
                )
            }
        };
        let msg = format!("{}\n{}\n{}", decls.join("\n"), ans.trace(), ans.text());
        bad.push(Bad {
            key: ans.text(),
            message: msg,
            replay: json!({
                "engine": "history",
                "nightly": plan.nightly,
                "edition": plan.edition,
                "units": texts,
                "lines": hist.iter().map(|(w, r)| line(w, flags, r)).collect::<Vec<_>>(),
            }),
        });
    }
    cov.rule = plan.rule.to_string();
    let add = |cov: &mut Cov, k: &str, n: u64| {
        let v = cov.extra.get(k).and_then(|v| v.as_u64()).unwrap_or(0) + n;
        cov.extra.insert(k.into(), json!(v));
    };
    add(cov, "declarations", (us.len() - dropped.len()) as u64);
    add(cov, "declarations_not_compiling", dropped.len() as u64);
    add(cov, "functions", us.iter().map(|u| u.funcs.len() as u64).sum());
    add(cov, "steps", steps);
    cov.extra.insert("build_s".into(), json!(t_built));
    let _ = std::fs::remove_dir_all(&dir);
    bad
}

pub fn replay(v: &Value) -> bool {
    let d = of(v);
    let dir = build_dir().join("work/replay");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let texts: Vec<&str> = v["units"].as_array().unwrap().iter().map(|t| t.as_str().unwrap()).collect();
    for (i, t) in texts.iter().enumerate() {
        std::fs::write(dir.join(format!("u{i}.rs")), t).unwrap();
    }
    std::fs::write(dir.join("main.rs"), emit::main_text(&(0..texts.len()).collect::<Vec<_>>())).unwrap();
    let bin = dir.join("main");
    let r = rustc(&d, &dir.join("main.rs"), Out::Bin(&bin), &["--cap-lints", "warn"], Duration::from_secs(300)).unwrap_or_else(|e| die(&e));
    if !r.ok {
        die(&format!("the program does not compile: {}", r.raw));
    }
    let mut run = Runner::new(&bin).unwrap_or_else(|e| die(&e));
    for l in v["lines"].as_array().unwrap() {
        let a = run.ask(l.as_str().unwrap());
        if a.bad() {
            println!("{}\n{}", a.trace(), a.text());
            return true;
        }
    }
    false
}
