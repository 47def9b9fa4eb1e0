//! Checks that concurrent calls are served as in some sequential order.
//!
//! conc run SEED FIRST COUNT: prints a line per statistic, sample and failure
//! conc replay CHOICES
mod case;
#[path = "../../driver/src/g.rs"]
#[allow(dead_code)]
mod g;
mod mocks;
mod sched;

use case::*;
use g::G;
use mocks::*;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn message(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".into()
    }
}

struct Res {
    case: Case,
    seen: Seen,
    trace: sched::Trace,
    ok: bool,
}

fn run(v: &[u32]) -> Res {
    let mut g = G::new(v);
    let case = generate(&mut g);
    let mut o = Objs::default();
    let c = Ctxs::new();
    let mut q = [mockall::Sequence::new(), mockall::Sequence::new()];
    for (slot, s) in &case.exps {
        expect(&mut o, &c, &mut q, *slot, s);
    }
    let n = case.threads.len();
    sched::prepare(n);
    let mut outs = vec![];
    let trace;
    {
        // not scoped: a deadlock must not keep us
        let o: &'static Objs = unsafe { &*(&o as *const Objs) };
        let hs: Vec<_> = case
            .threads
            .iter()
            .cloned()
            .enumerate()
            .map(|(i, calls)| {
                std::thread::Builder::new()
                    .stack_size(1 << 18)
                    .spawn(move || {
                        sched::enter(i);
                        let mut outs = vec![];
                        for (k, (slot, x)) in calls.iter().enumerate() {
                            if k > 0 {
                                sched::pause();
                            }
                            outs.push(match catch_unwind(AssertUnwindSafe(|| call(o, *slot, *x))) {
                                Ok(r) => Out::Served(r),
                                Err(e) => classify(&message(e)),
                            });
                        }
                        sched::leave(i);
                        outs
                    })
                    .unwrap()
            })
            .collect();
        trace = sched::run(n, |on, last| match last {
            Some(l) if !g.p(case.switch) => l,
            _ => on[g.n(on.len())],
        });
        if !trace.deadlock {
            outs = hs.into_iter().map(|h| h.join().unwrap()).collect();
        }
    }
    let mut ends = vec![];
    if trace.deadlock {
        std::mem::forget(o);
        std::mem::forget(c);
        return Res { case, seen: Seen { outs, ends }, trace, ok: false };
    }
    let mut used: Vec<(usize, usize)> = case.exps.iter().map(|(s, _)| (SLOTS[*s].1, if SLOTS[*s].1 == 0 { SLOTS[*s].2 } else { 0 })).collect();
    used.sort();
    used.dedup();
    for (k, f) in used {
        let r = catch_unwind(AssertUnwindSafe(|| if k == 0 { checkpoint_fn(&c, f) } else { checkpoint_obj(&mut o, k) }));
        ends.push((k, f, r.is_err()));
    }
    // leave nothing behind
    let _ = catch_unwind(AssertUnwindSafe(move || {
        let _o = o;
        let _c = c;
        std::panic::resume_unwind(Box::new(()));
    }));
    let seen = Seen { outs, ends };
    let ok = explain(&case, &seen);
    Res { case, seen, trace, ok }
}

fn nontrivial(r: &Res) -> bool {
    let shared = (0..SLOTS.len()).any(|s| r.case.threads.iter().filter(|t| t.iter().any(|c| c.0 == s)).count() > 1);
    shared && r.trace.preemptions > 0
}

fn describe(r: &Res) -> String {
    let mut s = r.case.text();
    s += &format!("schedule: {:?}\n", r.trace.order);
    if r.trace.deadlock {
        return s + "the threads wait for each other\n";
    }
    for (i, o) in r.seen.outs.iter().enumerate() {
        s += &format!("thread {i} saw: {o:?}\n");
    }
    for (k, f, bad) in &r.seen.ends {
        let what = SLOTS.iter().filter(|s| s.1 == *k && (*k != 0 || s.2 == *f)).map(|s| s.0).next().unwrap_or("?");
        s += &format!("checkpoint of {}{what}: {}\n", if *k == 0 { "" } else { "the object of " }, if *bad { "failed" } else { "passed" });
    }
    s
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u32 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        ((z ^ (z >> 31)) >> 16) as u32
    }
}

fn shrink(mut v: Vec<u32>) -> Vec<u32> {
    let fails = |v: &[u32]| !run(v).ok;
    let mut budget = 3000;
    let mut size = v.len() / 2;
    while size >= 1 {
        let mut i = 0;
        while i < v.len() && budget > 0 {
            let j = (i + size).min(v.len());
            // without it, then zero
            let mut w = v.clone();
            w.drain(i..j);
            budget -= 1;
            if fails(&w) {
                v = w;
                continue;
            }
            if v[i..j].iter().any(|x| *x != 0) {
                let mut w = v.clone();
                w[i..j].iter_mut().for_each(|x| *x = 0);
                budget -= 1;
                if fails(&w) {
                    v = w;
                }
            }
            i = j;
        }
        size /= 2;
    }
    v
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n")
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    mockall::verif::set_yield(sched::pause);
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" {
        let v: Vec<u32> = a[2].split(',').filter_map(|s| s.parse().ok()).collect();
        let r = run(&v);
        print!("{}", describe(&r));
        std::process::exit(if r.ok { 0 } else { 1 });
    }
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, first, count) = (num(2), num(3), num(4));
    let mut st: BTreeMap<String, u64> = BTreeMap::new();
    for i in first..first + count {
        let mut rng = Rng(seed.wrapping_mul(0x5851f42d4c957f2d).wrapping_add(i.wrapping_mul(0x14057b7ef767814f)));
        for _ in 0..4 {
            rng.next();
        }
        let v: Vec<u32> = (0..400).map(|_| rng.next()).collect();
        let r = run(&v);
        let mut add = |k: &str, n: u64| *st.entry(k.to_string()).or_default() += n;
        add("cases", 1);
        if nontrivial(&r) {
            add("nontrivial", 1);
        }
        add("steps", r.trace.steps as u64);
        add("class preemptions", r.trace.preemptions as u64);
        if r.trace.waits > 0 {
            add("class waited for a lock", 1);
        }
        for o in r.seen.outs.iter().flatten() {
            add(
                match o {
                    Out::Served(_) => "class call served",
                    Out::NoMatch => "class call without a match",
                    Out::Never | Out::Over(_) => "class call too many",
                    Out::Twice => "class FnOnce called twice",
                    Out::Sequence => "class sequence violation",
                    Out::Other(_) => "class other panic",
                },
                1,
            );
        }
        for s in r.case.threads.iter().flatten() {
            add(&format!("class call of {}", SLOTS[s.0].0), 1);
        }
        if i % (count / 2).max(1) == 3 && r.ok {
            println!("SAMPLE {}", esc(&describe(&r)));
        }
        if !r.ok {
            let w = if r.trace.deadlock { v } else { shrink(v) };
            // once more
            let r2 = if r.trace.deadlock { r } else { run(&w) };
            println!("TEXT {}", esc(&describe(&r2)));
            println!("FAIL {}", w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
            break;
        }
    }
    for (k, n) in st {
        println!("STAT {n} {k}");
    }
    std::process::exit(0);
}
