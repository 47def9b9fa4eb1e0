//! Cases, the sequential model, and the search for an order that explains what
//! happened.
use crate::g::G;
use crate::mocks::SLOTS;
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Times {
    Unset,
    N(usize),
    Range(usize, usize),
    AtMost(usize),
    AtLeast(usize),
}
impl Times {
    fn bounds(self) -> (usize, usize) {
        match self {
            Times::Unset => (0, usize::MAX),
            Times::N(n) => (n, n),
            Times::Range(a, b) => (a, b),
            Times::AtMost(n) => (0, n),
            Times::AtLeast(n) => (n, usize::MAX),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ret {
    Returning,
    Const,
    Once,
}
#[derive(Clone, Debug)]
pub struct Spec {
    pub id: u32,
    pub mask: Option<u32>,
    pub yields: bool,
    pub times: Times,
    pub seq: Option<usize>,
    pub ret: Ret,
}
#[derive(Clone, Debug)]
pub struct Case {
    pub exps: Vec<(usize, Spec)>,
    pub threads: Vec<Vec<(usize, u32)>>,
    pub switch: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Served(u32),
    NoMatch,
    Never,
    Over(usize),
    Twice,
    Sequence,
    Other(String),
}

pub fn classify(m: &str) -> Out {
    if m.ends_with("No matching expectation found") {
        Out::NoMatch
    } else if m.contains(": Method sequence violation\n") {
        Out::Sequence
    } else if m.ends_with("should not have been called") {
        Out::Never
    } else if let Some(i) = m.find(" called ").filter(|_| m.contains("more than the expected")) {
        Out::Over(m[i + 8..].split(' ').next().and_then(|n| n.parse().ok()).unwrap_or(0))
    } else if m.contains("called twice") {
        Out::Twice
    } else {
        Out::Other(m.to_string())
    }
}

pub fn generate(g: &mut G) -> Case {
    let nslots = g.w(&[(5, 1), (4, 2), (2, 3)]);
    let mut slots: Vec<usize> = vec![];
    while slots.len() < nslots {
        let s = match g.n(3) {
            // close to one that is there already
            0 if !slots.is_empty() => (slots[0] + 1 + g.n(2)) % SLOTS.len(),
            _ => g.n(SLOTS.len()),
        };
        slots.push(s);
    }
    let nthreads = g.w(&[(6, 2), (5, 3), (1, 4)]);
    let per: &[(u32, usize)] = if nthreads == 2 { &[(3, 1), (4, 2), (3, 3), (1, 4)] } else { &[(5, 1), (4, 2), (1, 3)] };
    let args = 1 + g.n(3) as u32;
    let threads: Vec<Vec<(usize, u32)>> = (0..nthreads)
        .map(|_| {
            let n = g.w(per);
            (0..n).map(|_| (*g.pick(&slots), g.n(args as usize) as u32)).collect()
        })
        .collect();
    let use_seq = g.n(3);
    let mut exps = vec![];
    for (k, slot) in slots.iter().enumerate() {
        if slots[..k].contains(slot) {
            continue;
        }
        let n = g.w(&[(3, 1), (6, 2), (5, 3), (2, 4), (1, 0)]);
        for _ in 0..n {
            let mut s = Spec {
                id: exps.len() as u32 + 100,
                mask: if g.p(45) { Some(g.n(1 << args) as u32 | if g.p(60) { 1 } else { 0 }) } else { None },
                yields: g.p(40),
                times: Times::N(1),
                seq: None,
                ret: g.w(&[(4, Ret::Returning), (2, Ret::Const), (1, Ret::Once)]),
            };
            if crate::mocks::returns_ref(*slot) {
                s.ret = Ret::Const;
            }
            if use_seq > 0 && g.p(60) {
                s.seq = Some(g.n(use_seq));
                s.times = Times::N(1 + g.w(&[(5, 0), (3, 1), (1, 2)]));
            } else {
                s.times = match g.n(10) {
                    0..=3 => Times::N(1),
                    4 => Times::N(2),
                    5 => Times::N(g.n(4)),
                    6 => Times::Unset,
                    7 => {
                        let a = g.n(3);
                        Times::Range(a, a + g.n(3))
                    }
                    8 => Times::AtMost(1 + g.n(2)),
                    _ => Times::AtLeast(g.n(3)),
                };
            }
            exps.push((*slot, s));
        }
    }
    // registered in any order
    for i in (1..exps.len()).rev() {
        if g.p(30) {
            let j = g.n(i + 1);
            exps.swap(i, j);
        }
    }
    let switch = g.w(&[(3, 30), (3, 60), (2, 10), (2, 90)]);
    Case { exps, threads, switch }
}

impl Case {
    pub fn text(&self) -> String {
        let mut s = String::new();
        for (slot, e) in &self.exps {
            s += &format!(
                "expect {}{} times {:?} {:?} -> {}{}\n",
                SLOTS[*slot].0,
                e.mask.map_or(String::new(), |m| format!(" with an argument of {:?}", (0..4).filter(|x| m >> x & 1 == 1).collect::<Vec<u32>>())),
                e.times,
                e.ret,
                e.id,
                e.seq.map_or(String::new(), |q| format!(" in sequence {q}"))
            );
        }
        for (i, t) in self.threads.iter().enumerate() {
            s += &format!("thread {i}: {}\n", t.iter().map(|(s, x)| format!("{} <- {x}", SLOTS[*s].0)).collect::<Vec<_>>().join(", "));
        }
        s
    }
}

#[derive(Clone, Debug)]
struct E {
    slot: usize,
    id: u32,
    mask: Option<u32>,
    min: usize,
    max: usize,
    count: usize,
    seq: Option<(usize, usize)>,
    once: bool,
    used: bool,
    poisoned: bool,
}
#[derive(Clone, Debug)]
pub struct Model {
    exps: Vec<E>,
    level: [usize; 2],
    dirty: BTreeSet<usize>,
    /// what follows is not specified
    pub void: bool,
}

impl Model {
    pub fn new(c: &Case) -> Self {
        let mut next = [0; 2];
        let exps = c
            .exps
            .iter()
            .map(|(slot, s)| {
                let (min, max) = s.times.bounds();
                E {
                    slot: *slot,
                    id: s.id,
                    mask: s.mask,
                    min,
                    max,
                    count: 0,
                    seq: s.seq.map(|q| {
                        next[q] += 1;
                        (q, next[q] - 1)
                    }),
                    once: s.ret == Ret::Once,
                    used: false,
                    poisoned: false,
                }
            })
            .collect();
        Model { exps, level: [0; 2], dirty: BTreeSet::new(), void: false }
    }

    /// None: anything goes
    fn call(&mut self, slot: usize, x: u32) -> Option<Out> {
        if self.void || self.dirty.contains(&SLOTS[slot].2) {
            return None;
        }
        let n = self.exps.iter().filter(|e| e.slot == slot).count();
        let Some(i) = self.exps.iter().position(|e| e.slot == slot && e.mask.map_or(true, |m| m >> x & 1 == 1) && (e.count < e.max || n == 1)) else {
            return Some(Out::NoMatch);
        };
        let e = &mut self.exps[i];
        e.count += 1;
        let out = if e.count > e.max {
            if e.max == 0 {
                Out::Never
            } else {
                Out::Over(e.count)
            }
        } else if e.seq.is_some_and(|(q, p)| self.level[q] != p) {
            self.void = true;
            return Some(Out::Sequence);
        } else {
            if let Some((q, _)) = e.seq.filter(|_| e.count == e.max) {
                self.level[q] += 1;
            }
            if e.poisoned {
                self.soil(slot);
                return None;
            }
            if e.once && e.used {
                e.poisoned = true;
                Out::Twice
            } else {
                e.used = true;
                Out::Served(e.id)
            }
        };
        if !matches!(out, Out::Served(_)) {
            self.soil(slot);
        }
        Some(out)
    }

    /// A panic below a static function's lock: its further calls fail
    fn soil(&mut self, slot: usize) {
        let (_, obj, f) = SLOTS[slot];
        if obj == 0 {
            self.dirty.insert(f);
            if self.exps.iter().any(|e| SLOTS[e.slot].2 == f && e.seq.is_some()) {
                self.void = true;
            }
        }
    }

    /// Does the checkpoint of this object (function, if 0) fail?
    fn unsatisfied(&self, obj: usize, f: usize) -> Option<bool> {
        if self.void || (obj == 0 && self.dirty.contains(&f)) {
            return None;
        }
        Some(self.exps.iter().any(|e| SLOTS[e.slot].1 == obj && (obj != 0 || SLOTS[e.slot].2 == f) && (e.count < e.min || e.count > e.max)))
    }
}

pub struct Seen {
    /// per thread
    pub outs: Vec<Vec<Out>>,
    /// (object, function, failed)
    pub ends: Vec<(usize, usize, bool)>,
}

/// Does some order of the calls explain what was seen?
pub fn explain(c: &Case, seen: &Seen) -> bool {
    fn go(c: &Case, seen: &Seen, at: &mut Vec<usize>, m: &Model) -> bool {
        if m.void {
            return true;
        }
        let mut any = false;
        for t in 0..at.len() {
            let Some((slot, x)) = c.threads[t].get(at[t]) else { continue };
            any = true;
            let mut m2 = m.clone();
            if m2.call(*slot, *x).map_or(true, |o| o == seen.outs[t][at[t]]) {
                at[t] += 1;
                let ok = go(c, seen, at, &m2);
                at[t] -= 1;
                if ok {
                    return true;
                }
            }
        }
        !any && seen.ends.iter().all(|(o, f, bad)| m.unsatisfied(*o, *f).map_or(true, |b| b == *bad))
    }
    go(c, seen, &mut vec![0; c.threads.len()], &Model::new(c))
}
