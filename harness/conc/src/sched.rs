//! Runs threads one at a time, switching between them only where they yield:
//! before every access to an atomic of mockall (`mockall::verif`), in the
//! closures of the case, and between calls.
//!
//! A thread may also block on a lock that a parked one holds; it is then seen
//! to sleep, and left alone until it comes back by itself.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU8, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const MAX: usize = 4;
const RUNNING: u8 = 0;
const PARKED: u8 = 1;
const DONE: u8 = 2;

struct Slot {
    state: AtomicU8,
    go: AtomicBool,
    who: Mutex<Option<(std::thread::Thread, String)>>,
}

#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Slot = Slot { state: AtomicU8::new(DONE), go: AtomicBool::new(false), who: Mutex::new(None) };
static T: [Slot; MAX] = [EMPTY; MAX];

thread_local!(static ME: Cell<Option<usize>> = const { Cell::new(None) });

pub fn pause() {
    let Some(i) = ME.with(|m| m.get()) else { return };
    T[i].state.store(PARKED, SeqCst);
    while !T[i].go.swap(false, SeqCst) {
        std::thread::park();
    }
}

/// To be called before the threads are started
pub fn prepare(n: usize) {
    for t in T.iter().take(n) {
        *t.who.lock().unwrap() = None;
        t.go.store(false, SeqCst);
        t.state.store(RUNNING, SeqCst);
    }
}

pub fn enter(i: usize) {
    let tid = std::fs::read_link("/proc/thread-self").map(|p| p.to_string_lossy().to_string()).unwrap_or_default();
    *T[i].who.lock().unwrap() = Some((std::thread::current(), format!("/proc/{tid}/stat")));
    ME.with(|m| m.set(Some(i)));
    pause();
}

pub fn leave(i: usize) {
    ME.with(|m| m.set(None));
    T[i].state.store(DONE, SeqCst);
}

fn sleeps(path: &str) -> bool {
    match std::fs::read_to_string(path) {
        Ok(s) => s.rsplit(") ").next().is_some_and(|s| s.starts_with('S')),
        Err(_) => false,
    }
}

/// Until every thread waits for us, for a lock, or is done
fn settle(n: usize, blocked: &mut [bool; MAX]) {
    for i in 0..n {
        let mut seen = 0;
        while T[i].state.load(SeqCst) == RUNNING {
            let p = T[i].who.try_lock().ok().and_then(|w| w.as_ref().map(|w| w.1.clone()));
            if p.is_some_and(|p| sleeps(&p)) {
                seen += 1;
            } else {
                seen = 0;
            }
            if seen >= 4 {
                break;
            }
            std::thread::yield_now();
        }
        blocked[i] = T[i].state.load(SeqCst) == RUNNING;
    }
}

#[derive(Default, Debug)]
pub struct Trace {
    /// switches away from a thread which could have gone on
    pub preemptions: usize,
    /// times that a thread had to wait for a lock
    pub waits: usize,
    pub steps: usize,
    pub deadlock: bool,
    pub order: Vec<u8>,
}

/// `choose(enabled threads, the one that ran last)`
pub fn run(n: usize, mut choose: impl FnMut(&[usize], Option<usize>) -> usize) -> Trace {
    let mut tr = Trace::default();
    let mut last = None;
    let mut blocked = [false; MAX];
    loop {
        let before = blocked;
        settle(n, &mut blocked);
        tr.waits += (0..n).filter(|i| blocked[*i] && !before[*i]).count();
        let mut on: Vec<usize> = (0..n).filter(|i| T[*i].state.load(SeqCst) == PARKED).collect();
        if on.is_empty() {
            if (0..n).all(|i| T[i].state.load(SeqCst) == DONE) {
                return tr;
            }
            // Is it really stuck?
            let t0 = Instant::now();
            while on.is_empty() && t0.elapsed() < Duration::from_secs(3) {
                std::thread::sleep(Duration::from_millis(1));
                on = (0..n).filter(|i| T[*i].state.load(SeqCst) == PARKED).collect();
                if (0..n).all(|i| T[i].state.load(SeqCst) == DONE) {
                    return tr;
                }
            }
            if on.is_empty() {
                tr.deadlock = true;
                return tr;
            }
        }
        let t = choose(&on, last.filter(|l| on.contains(l)));
        if last.is_some_and(|l| l != t && on.contains(&l)) {
            tr.preemptions += 1;
        }
        tr.steps += 1;
        tr.order.push(t as u8);
        last = Some(t);
        T[t].state.store(RUNNING, SeqCst);
        T[t].go.store(true, SeqCst);
        let w = T[t].who.lock().unwrap().as_ref().map(|w| w.0.clone());
        if let Some(w) = w {
            w.unpark();
        }
    }
}
