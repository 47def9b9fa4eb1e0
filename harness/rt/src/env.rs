//! What the generated adapters use to turn specifications into calls of the
//! generated mock's methods, and to log what the mock did.
use crate::model::*;
use crate::val::*;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub enum Log {
    /// a return closure ran
    Ran { exp: usize, args: Vec<u64> },
    /// a matcher was asked
    Asked { exp: usize, args: Vec<u64> },
    /// a captured value was dropped (id of the expectation)
    Note(String),
}

pub struct Env {
    pub log: Arc<Mutex<Vec<Log>>>,
    pub seqs: Vec<mockall::Sequence>,
}

pub struct UserPanic(pub usize);

thread_local! {
    /// what the next return closure does first
    pub static HOOK: std::cell::RefCell<Option<Box<dyn FnOnce()>>> = const { std::cell::RefCell::new(None) };
}

/// The state behind a `withf` closure
#[derive(Clone)]
pub struct Test {
    id: usize,
    w: Vec<u64>,
    mask: u64,
    log: Arc<Mutex<Vec<Log>>>,
}
impl Test {
    pub fn test(&self, args: &[u64]) -> bool {
        self.log.lock().unwrap().push(Log::Asked { exp: self.id, args: args.to_vec() });
        let s: u64 = self.w.iter().zip(args).map(|(w, a)| w * a).sum();
        if self.mask >> (8 + s % 8) & 1 == 1 {
            std::panic::panic_any(UserPanic(self.id));
        }
        self.mask >> (s % 8) & 1 == 1
    }
}

/// The state behind a `returning` closure
#[derive(Clone)]
pub struct Act {
    id: usize,
    f: RetFn,
    k: u64,
    log: Arc<Mutex<Vec<Log>>>,
}
impl Act {
    pub fn run(&self, args: &[u64]) -> u64 {
        self.log.lock().unwrap().push(Log::Ran { exp: self.id, args: args.to_vec() });
        let hook = HOOK.with(|h| h.borrow_mut().take());
        if let Some(h) = hook {
            h();
        }
        if self.f.panics {
            std::panic::panic_any(UserPanic(self.id));
        }
        self.f.code(args, self.k)
    }
    pub fn write(&self) -> bool {
        self.f.write
    }
}

/// Something that is not Send, to be captured by `_st` closures
#[derive(Clone)]
pub struct NotSend(pub Rc<u8>);
impl NotSend {
    pub fn touch(&self) {
        std::hint::black_box(&self.0);
    }
}
pub fn not_send() -> NotSend {
    NotSend(Rc::new(0))
}

/// The predicate used with `with`: one for every argument type
pub struct P {
    pred: Pred,
    id: usize,
    pos: usize,
    log: Arc<Mutex<Vec<Log>>>,
}
impl std::fmt::Display for P {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&pred_text(&self.pred, self.pos))
    }
}
pub fn pred_text(p: &Pred, pos: usize) -> String {
    match p {
        Pred::Any => format!("any#{pos}"),
        Pred::Mask(m) => format!("mask{m}#{pos}"),
    }
}
impl predicates::reflection::PredicateReflection for P {}
impl<T: Enc + ?Sized> mockall::Predicate<T> for P {
    fn eval(&self, t: &T) -> bool {
        let c = t.enc();
        self.log.lock().unwrap().push(Log::Asked { exp: self.id, args: vec![1000 + self.pos as u64, c] });
        match self.pred {
            Pred::Any => true,
            Pred::Mask(m) => m >> (c % 64) & 1 == 1,
        }
    }
}

impl Env {
    pub fn new(n_seq: usize) -> Self {
        Env { log: Default::default(), seqs: (0..n_seq).map(|_| mockall::Sequence::new()).collect() }
    }
    pub fn test(&self, id: usize, w: &[u64], mask: u64) -> Test {
        Test { id, w: w.to_vec(), mask, log: self.log.clone() }
    }
    pub fn act(&self, id: usize, f: &RetFn, k: u64) -> Act {
        Act { id, f: f.clone(), k, log: self.log.clone() }
    }
    pub fn pred(&self, id: usize, p: &[Pred], pos: usize) -> P {
        P { pred: p[pos].clone(), id, pos, log: self.log.clone() }
    }
}

/// `times` in the form asked for, on anything that has these methods
#[macro_export]
macro_rules! times {
    ($e:expr, $t:expr) => {
        match $t {
            $crate::model::TimesForm::N(n) => { let _ = $e.times(n); }
            $crate::model::TimesForm::Range(a, b) => { let _ = $e.times(a..b); }
            $crate::model::TimesForm::RangeIncl(a, b) => { let _ = $e.times(a..=b); }
            $crate::model::TimesForm::From(a) => { let _ = $e.times(a..); }
            $crate::model::TimesForm::To(b) => { let _ = $e.times(..b); }
            $crate::model::TimesForm::ToIncl(b) => { let _ = $e.times(..=b); }
            $crate::model::TimesForm::Full => { let _ = $e.times(..); }
            $crate::model::TimesForm::Never => { let _ = $e.never(); }
            $crate::model::TimesForm::Once => { let _ = $e.once(); }
        }
    };
}

