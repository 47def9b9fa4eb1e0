//! The reference model: what a user of mockall is promised, over plain data.
//!
//! It knows nothing of the generated code.  Values are small codes
//! (`0..k` for a type with `k` distinguishable values).
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RefKind {
    Owned,
    Ref,
    RefMut,
}

#[derive(Clone, Debug)]
pub struct ArgMeta {
    /// number of distinguishable values
    pub k: u64,
    /// passed by `&mut`, and `returning` closures write to it
    pub mutref: bool,
}

#[derive(Clone, Debug)]
pub struct SlotMeta {
    /// slots with the same list share their expectations (instantiations of a
    /// concretized function)
    pub list: usize,
    pub func: usize,
    pub cls: Option<usize>,
    pub args: Vec<ArgMeta>,
    pub ret_k: u64,
    pub ref_kind: RefKind,
    /// `with` exists (not for concretized functions)
    pub has_with: bool,
    /// the return type is Clone (return_const possible)
    pub ret_clone: bool,
    /// the return type is Send
    pub ret_send: bool,
    /// code of the return type's Default, if it has one
    pub ret_default: Option<u64>,
    /// a caller can write through a returned `&mut`
    pub mutable: bool,
    /// `returning` closures can write to `&mut` arguments
    pub can_write: bool,
    /// receiver is consumed by the call
    pub consuming: bool,
    /// "MockFoo::bar" or "mod::bar", as messages should name it
    pub path: String,
    /// Debug rendering of each argument type's values (None: not Debug, prints ?)
    pub dbg: Vec<Option<Vec<String>>>,
}

#[derive(Clone, Debug)]
pub struct FnMeta {
    pub is_static: bool,
    /// functions with the same store are generic instantiations of one static
    /// function, whose expectations end together
    pub store: usize,
    pub module: Option<usize>,
    pub name: String,
}

#[derive(Clone, Debug)]
pub struct Meta {
    pub name: String,
    pub n_cls: usize,
    pub fns: Vec<FnMeta>,
    pub slots: Vec<SlotMeta>,
    pub n_modules: usize,
    /// all mocks of the unit may be used from other threads
    pub threads: bool,
    /// built with the nightly feature
    pub nightly: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pred {
    Any,
    Mask(u64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Matcher {
    Any,
    With(Vec<Pred>),
    /// accept iff bit `(sum w[i]*arg[i]) % 8` of mask is set; panic iff the
    /// one 8 above is
    Fun { w: Vec<u64>, mask: u64, st: bool },
}

impl Matcher {
    pub fn explodes(&self, args: &[u64]) -> bool {
        match self {
            Matcher::Fun { w, mask, .. } => {
                let s: u64 = w.iter().zip(args).map(|(w, a)| w * a).sum();
                mask >> (8 + s % 8) & 1 == 1
            }
            _ => false,
        }
    }
    pub fn accepts(&self, args: &[u64]) -> bool {
        match self {
            Matcher::Any => true,
            Matcher::With(ps) => ps.iter().zip(args).all(|(p, a)| match p {
                Pred::Any => true,
                Pred::Mask(m) => m >> (a % 64) & 1 == 1,
            }),
            Matcher::Fun { w, mask, .. } => {
                let s: u64 = w.iter().zip(args).map(|(w, a)| w * a).sum();
                mask >> (s % 8) & 1 == 1
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TimesForm {
    N(usize),
    Range(usize, usize),
    RangeIncl(usize, usize),
    From(usize),
    To(usize),
    ToIncl(usize),
    Full,
    Never,
    Once,
}

pub const INF: usize = usize::MAX;

impl TimesForm {
    /// Inclusive bounds, None if the range is empty.  An upper bound of
    /// usize::MAX is no bound at all.
    pub fn bounds(self) -> Option<(usize, usize)> {
        use TimesForm::*;
        match self {
            N(n) => Some((n, n)),
            Range(a, b) if b > a => Some((a, if b == INF { INF } else { b - 1 })),
            Range(..) => None,
            RangeIncl(a, b) if b >= a => Some((a, b)),
            RangeIncl(..) => None,
            From(a) => Some((a, INF)),
            To(0) => None,
            To(b) => Some((0, if b == INF { INF } else { b - 1 })),
            ToIncl(b) => Some((0, b)),
            Full => Some((0, INF)),
            Never => Some((0, 0)),
            Once => Some((1, 1)),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct RetFn {
    pub base: u64,
    pub w: Vec<u64>,
    /// write to `&mut` arguments
    pub write: bool,
    /// the closure panics with a user payload
    pub panics: bool,
}

impl RetFn {
    pub fn code(&self, args: &[u64], k: u64) -> u64 {
        let s: u64 = self.w.iter().zip(args).map(|(w, a)| w * a).sum();
        (self.base + s) % k.max(1)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    Returning { f: RetFn, st: bool },
    Once { f: RetFn, st: bool },
    Const { code: u64, st: bool },
    Var { code: u64 },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Mod {
    Match(Matcher),
    Times(TimesForm),
    Ret(Ret),
    Seq(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub id: usize,
    pub mods: Vec<Mod>,
}

#[derive(Clone, Debug, PartialEq)]
enum RetState {
    Default,
    Ret(Ret),
    Expired,
}

#[derive(Clone, Debug)]
pub struct Exp {
    pub id: usize,
    pub matcher: Matcher,
    pub min: usize,
    pub max: usize,
    pub count: usize,
    ret: RetState,
    var: Option<u64>,
    pub seq: Option<(usize, usize)>,
    /// a user panic escaped from its closure
    poisoned: bool,
}

impl Exp {
    fn unsatisfied(&self) -> bool {
        self.count < self.min || (self.max != INF && self.count > self.max)
    }
    fn is_done(&self) -> bool {
        self.max != INF && self.count >= self.max
    }
    /// An exact number of calls is expected
    fn is_exact(&self) -> bool {
        self.min == self.max && self.max != INF
    }
    fn st(&self) -> bool {
        matches!(self.matcher, Matcher::Fun { st: true, .. })
            || matches!(
                self.ret,
                RetState::Ret(
                    Ret::Returning { st: true, .. }
                        | Ret::Once { st: true, .. }
                        | Ret::Const { st: true, .. }
                )
            )
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Why {
    NoMatch,
    Over,
    Sequence,
    Twice,
    NoReturn,
    User,
    Matcher,
    WrongThread,
    TooFew,
    TooMany,
    BadTimes,
    NotExact,
}

/// Enough to judge the text of a failure
#[derive(Clone, Debug, PartialEq)]
pub struct Failure {
    pub why: Why,
    /// (slot, expectation as it is at the failure)
    pub slot: usize,
    pub matcher: Option<Matcher>,
    pub count: usize,
    pub bound: usize,
    pub args: Vec<u64>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum CallOutcome {
    /// Not covered by the property (the harness skips the step)
    Unspecified,
    Return {
        exp: usize,
        code: u64,
        /// the closure that has to have run, with its arguments
        log: bool,
        /// values of `&mut` arguments after the call
        after: Vec<u64>,
        /// consuming call whose object then fails its end-of-life check
        then_drop: Option<Vec<Failure>>,
    },
    Panic(Failure, /* closure of this expectation ran */ Option<usize>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Unspecified,
    Ok,
    /// One of these failures is reported (which one is not specified)
    Panic(Vec<Failure>),
}

#[derive(Clone, Debug, Default)]
pub struct Obj {
    pub cls: usize,
    pub live: bool,
    /// only fit for being dropped in an unwinding
    pub dead: bool,
}

type Key = (Option<usize>, usize);

#[derive(Clone, Debug)]
pub struct Model {
    pub meta: Meta,
    pub lists: BTreeMap<Key, Vec<Exp>>,
    pub objs: Vec<Obj>,
    /// live contexts: (function, live)
    pub ctxs: Vec<(usize, bool)>,
    /// per function: poisoned or of unspecified content
    pub dirty: Vec<bool>,
    pub seq_next: Vec<usize>,
    pub seq_level: Vec<usize>,
    pub classes: BTreeMap<&'static str, u64>,
}

impl Model {
    pub fn new(meta: Meta, n_seq: usize) -> Self {
        let nf = meta.fns.len();
        Model {
            meta,
            lists: BTreeMap::new(),
            objs: vec![],
            ctxs: vec![],
            dirty: vec![false; nf],
            seq_next: vec![0; n_seq],
            seq_level: vec![0; n_seq],
            classes: BTreeMap::new(),
        }
    }

    pub fn note(&mut self, c: &'static str) {
        *self.classes.entry(c).or_default() += 1;
    }

    pub fn is_static(&self, slot: usize) -> bool {
        self.meta.fns[self.meta.slots[slot].func].is_static
    }

    fn key(&self, obj: Option<usize>, slot: usize) -> Key {
        let list = self.meta.slots[slot].list;
        if self.is_static(slot) {
            (None, list)
        } else {
            (Some(obj.expect("object")), list)
        }
    }

    pub fn new_obj(&mut self, cls: usize) {
        self.objs.push(Obj { cls, live: true, dead: false });
    }

    fn failure(&self, why: Why, slot: usize, e: Option<&Exp>, bound: usize, args: &[u64]) -> Failure {
        Failure {
            why,
            slot,
            matcher: e.map(|e| e.matcher.clone()),
            count: e.map_or(0, |e| e.count),
            bound,
            args: args.to_vec(),
        }
    }

    fn unsatisfied(&self, keys: &[Key]) -> Vec<Failure> {
        let mut v = vec![];
        for k in keys {
            for e in self.lists.get(k).into_iter().flatten() {
                if e.count < e.min {
                    v.push(self.failure(Why::TooFew, k.1, Some(e), e.min, &[]));
                } else if e.unsatisfied() {
                    v.push(self.failure(Why::TooMany, k.1, Some(e), e.max, &[]));
                }
            }
        }
        v
    }

    /// Would a call of this be judged, and not fail for want of expectations?
    pub fn expects(&self, obj: Option<usize>, slot: usize) -> bool {
        let usable = match obj {
            Some(o) => !self.objs[o].dead,
            None => !self.dirty[self.meta.fns[self.meta.slots[slot].func].store],
        };
        usable && self.lists.get(&self.key(obj, slot)).is_some_and(|l| !l.is_empty())
    }

    fn keys_of_obj(&self, obj: usize) -> Vec<Key> {
        self.lists.keys().filter(|k| k.0 == Some(obj)).copied().collect()
    }

    fn keys_of_fn(&self, f: usize) -> Vec<Key> {
        self.lists
            .keys()
            .filter(|k| k.0.is_none() && self.meta.fns[self.meta.slots[k.1].func].store == self.meta.fns[f].store)
            .copied()
            .collect()
    }

    fn clear(&mut self, keys: &[Key]) {
        for k in keys {
            self.lists.remove(k);
        }
    }

    /// Is any expectation in these lists bound to its thread?
    pub fn obj_st(&self, obj: usize) -> bool {
        self.keys_of_obj(obj).iter().any(|k| self.lists[k].iter().any(Exp::st))
    }

    pub fn drop_obj(&mut self, obj: usize) -> Outcome {
        if self.objs[obj].dead {
            return Outcome::Unspecified;
        }
        let keys = self.keys_of_obj(obj);
        let bad = self.unsatisfied(&keys);
        self.clear(&keys);
        self.objs[obj].live = false;
        if bad.is_empty() {
            self.note("drop-satisfied");
            Outcome::Ok
        } else {
            self.note("drop-unsatisfied");
            Outcome::Panic(bad)
        }
    }

    /// Dropped while a panic unwinds: never fails
    pub fn unwind_obj(&mut self, obj: usize) {
        let keys = self.keys_of_obj(obj);
        if !self.unsatisfied(&keys).is_empty() {
            self.note("unwind-unsatisfied");
        }
        self.clear(&keys);
        self.objs[obj].live = false;
    }

    pub fn checkpoint_obj(&mut self, obj: usize) -> Outcome {
        if self.objs[obj].dead {
            return Outcome::Unspecified;
        }
        let keys = self.keys_of_obj(obj);
        let nonempty = keys.iter().filter(|k| !self.lists[k].is_empty()).count();
        let bad = self.unsatisfied(&keys);
        if bad.is_empty() {
            self.clear(&keys);
            self.note(if nonempty > 1 { "checkpoint-many" } else { "checkpoint" });
            Outcome::Ok
        } else {
            self.objs[obj].dead = true;
            self.note("checkpoint-unsatisfied");
            Outcome::Panic(bad)
        }
    }

    pub fn ctx_new(&mut self, f: usize) {
        self.ctxs.push((f, true));
    }

    /// Drop or checkpoint of a context
    pub fn ctx_validate(&mut self, ctx: usize, drop: bool) -> Outcome {
        let f = self.ctxs[ctx].0;
        if self.dirty[self.meta.fns[f].store] {
            return Outcome::Unspecified;
        }
        if drop {
            self.ctxs[ctx].1 = false;
        }
        let keys = self.keys_of_fn(f);
        if keys.len() > 1 {
            self.note("ctx-clears-several-instantiations");
        }
        let bad = self.unsatisfied(&keys);
        self.clear(&keys);
        if bad.is_empty() {
            self.note(if drop { "ctx-drop" } else { "ctx-checkpoint" });
            Outcome::Ok
        } else {
            self.note(if drop { "ctx-drop-unsatisfied" } else { "ctx-checkpoint-unsatisfied" });
            Outcome::Panic(bad)
        }
    }

    pub fn ctx_unwind(&mut self, ctx: usize) {
        let f = self.ctxs[ctx].0;
        self.ctxs[ctx].1 = false;
        let keys = self.keys_of_fn(f);
        self.clear(&keys);
        if self.dirty[self.meta.fns[f].store] {
            self.note("ctx-unwind-after-panic");
        } else {
            self.note("ctx-unwind");
        }
        let st = self.meta.fns[f].store;
        self.dirty[st] = false;
    }

    pub fn module_checkpoint(&mut self, m: usize) -> Outcome {
        let fns: Vec<usize> = (0..self.meta.fns.len()).filter(|f| self.meta.fns[*f].module == Some(m)).collect();
        if fns.iter().any(|f| self.dirty[self.meta.fns[*f].store]) {
            return Outcome::Unspecified;
        }
        let keys: Vec<Key> = fns.iter().flat_map(|f| self.keys_of_fn(*f)).collect();
        let bad = self.unsatisfied(&keys);
        if bad.is_empty() {
            self.clear(&keys);
            self.note(if keys.len() > 1 { "module-checkpoint-many" } else { "module-checkpoint" });
            Outcome::Ok
        } else {
            for f in fns {
                let st = self.meta.fns[f].store;
                self.dirty[st] = true;
            }
            self.note("module-checkpoint-unsatisfied");
            Outcome::Panic(bad)
        }
    }

    pub fn expect(&mut self, obj: Option<usize>, slot: usize, spec: &Spec) -> Outcome {
        let f = self.meta.slots[slot].func;
        if self.is_static(slot) {
            if self.dirty[self.meta.fns[f].store] {
                return Outcome::Unspecified;
            }
        } else if self.objs[obj.unwrap()].dead {
            return Outcome::Unspecified;
        }
        let mut e = Exp {
            id: spec.id,
            matcher: Matcher::Any,
            min: 0,
            max: INF,
            count: 0,
            ret: RetState::Default,
            var: None,
            seq: None,
            poisoned: false,
        };
        let mut res = Outcome::Ok;
        for m in &spec.mods {
            match m {
                Mod::Match(m) => e.matcher = m.clone(),
                Mod::Times(t) => match t.bounds() {
                    Some((a, b)) => {
                        e.min = a;
                        e.max = b;
                    }
                    None => {
                        self.note("bad-times");
                        res = Outcome::Panic(vec![self.failure(Why::BadTimes, slot, None, 0, &[])]);
                        break;
                    }
                },
                Mod::Ret(r) => {
                    e.var = match r {
                        Ret::Var { code } => Some(*code),
                        _ => None,
                    };
                    e.ret = RetState::Ret(r.clone());
                }
                Mod::Seq(s) => {
                    if !e.is_exact() {
                        self.note("sequence-not-exact");
                        res = Outcome::Panic(vec![self.failure(Why::NotExact, slot, None, 0, &[])]);
                        break;
                    }
                    self.note("in-sequence");
                    if e.max == 0 {
                        // complete from the start: takes no part in the order
                        self.note("in-sequence-zero");
                    } else {
                        e.seq = Some((*s, self.seq_next[*s]));
                        self.seq_next[*s] += 1;
                    }
                }
            }
        }
        let key = self.key(obj, slot);
        self.lists.entry(key).or_default().push(e);
        if res != Outcome::Ok {
            if self.is_static(slot) {
                let st = self.meta.fns[f].store;
                self.dirty[st] = true;
            } else {
                self.objs[obj.unwrap()].dead = true;
            }
        }
        res
    }

    /// `other_thread`: the call is made by a thread other than the one that
    /// set the expectations.  `mutate`: value written through a returned
    /// `&mut`.
    pub fn call(&mut self, obj: Option<usize>, slot: usize, args: &[u64], mutate: Option<u64>, other_thread: bool) -> CallOutcome {
        let meta = self.meta.slots[slot].clone();
        let stat = self.is_static(slot);
        if stat {
            if self.dirty[self.meta.fns[meta.func].store] {
                return CallOutcome::Unspecified;
            }
        } else if self.objs[obj.unwrap()].dead {
            return CallOutcome::Unspecified;
        }
        let key = self.key(obj, slot);
        let before = self.clone();
        let out = self.call_inner(key, slot, &meta, stat, args, mutate, other_thread);
        if out == CallOutcome::Unspecified {
            *self = before;
            return out;
        }
        // What a failing call leaves behind
        if let CallOutcome::Panic(f, _) = &out {
            if f.why != Why::NoMatch {
                if stat {
                    let st = self.meta.fns[meta.func].store;
                    self.dirty[st] = true;
                } else if matches!(f.why, Why::Sequence | Why::WrongThread | Why::Matcher) {
                    self.objs[obj.unwrap()].dead = true;
                }
            }
        }
        if meta.consuming {
            let o = obj.unwrap();
            match out {
                CallOutcome::Return { exp, code, log, after, .. } => {
                    let keys = self.keys_of_obj(o);
                    let bad = self.unsatisfied(&keys);
                    self.clear(&keys);
                    self.objs[o].live = false;
                    let then_drop = if bad.is_empty() { None } else { Some(bad) };
                    return CallOutcome::Return { exp, code, log, after, then_drop };
                }
                _ => self.unwind_obj(o),
            }
        }
        out
    }

    #[allow(clippy::too_many_arguments)]
    fn call_inner(&mut self, key: Key, slot: usize, meta: &SlotMeta, stat: bool, args: &[u64], mutate: Option<u64>, other: bool) -> CallOutcome {
        let list = self.lists.get(&key).map(|v| v.as_slice()).unwrap_or(&[]);
        let n = list.len();
        let mut sel = None;
        for (i, e) in list.iter().enumerate() {
            if other && matches!(e.matcher, Matcher::Fun { st: true, .. }) {
                let f = self.failure(Why::WrongThread, slot, Some(e), 0, args);
                self.note("st-matcher-on-other-thread");
                return CallOutcome::Panic(f, None);
            }
            if e.matcher.explodes(args) {
                let f = self.failure(Why::Matcher, slot, Some(e), e.id, args);
                self.note("user-panic-in-matcher");
                return CallOutcome::Panic(f, None);
            }
            if e.matcher.accepts(args) && (!e.is_done() || n == 1) {
                sel = Some(i);
                break;
            }
        }
        let skipped_done = list[..sel.unwrap_or(n)].iter().any(|e| e.is_done() && e.matcher.accepts(args));
        let skipped_mismatch = list[..sel.unwrap_or(n)].iter().any(|e| !e.matcher.accepts(args));
        if skipped_done {
            self.note("passed-over-saturated");
        }
        if skipped_mismatch && sel.is_some() {
            self.note("passed-over-mismatch");
        }
        let Some(i) = sel else {
            self.note(if n == 0 { "call-without-expectation" } else { "no-match" });
            let f = self.failure(Why::NoMatch, slot, None, 0, args);
            return CallOutcome::Panic(f, None);
        };
        if i > 0 {
            self.note("served-by-later");
        }
        let e = &mut self.lists.get_mut(&key).unwrap()[i];
        if e.poisoned {
            return CallOutcome::Unspecified;
        }
        e.count += 1;
        let e = e.clone();
        if e.max != INF && e.count > e.max {
            self.note("over-call");
            let f = self.failure(Why::Over, slot, Some(&e), e.max, args);
            return CallOutcome::Panic(f, None);
        }
        if let Some((s, pos)) = e.seq {
            if self.seq_level[s] != pos {
                self.note("sequence-violation");
                let f = self.failure(Why::Sequence, slot, Some(&e), 0, args);
                return CallOutcome::Panic(f, None);
            }
            self.note(if stat { "sequence-step-static" } else { "sequence-step" });
            if e.count == e.max {
                self.seq_level[s] += 1;
            }
        }
        let wrong = |st: bool| st && other;
        let k = meta.ret_k;
        let mut after: Vec<u64> = meta.args.iter().zip(args).filter(|(m, _)| m.mutref).map(|(_, a)| *a).collect();
        let mut ran = None;
        let code;
        match &e.ret {
            RetState::Default => match meta.ret_default {
                Some(c) if self.meta.nightly => {
                    self.note("default-return");
                    code = match meta.ref_kind {
                        RefKind::RefMut => e.var.unwrap_or(c),
                        _ => c,
                    };
                }
                _ => {
                    self.note("no-return-action");
                    let f = self.failure(Why::NoReturn, slot, Some(&e), 0, args);
                    return CallOutcome::Panic(f, None);
                }
            },
            RetState::Expired => {
                self.note("return-once-twice");
                let f = self.failure(Why::Twice, slot, Some(&e), 0, args);
                return CallOutcome::Panic(f, None);
            }
            RetState::Ret(Ret::Const { code: c, st }) => {
                if wrong(*st) {
                    self.note("st-return-on-other-thread");
                    let f = self.failure(Why::WrongThread, slot, Some(&e), 0, args);
                    return CallOutcome::Panic(f, None);
                }
                code = *c;
            }
            RetState::Ret(Ret::Var { .. }) => code = e.var.unwrap(),
            RetState::Ret(Ret::Returning { f, st }) | RetState::Ret(Ret::Once { f, st }) => {
                if wrong(*st) {
                    self.note("st-return-on-other-thread");
                    let f = self.failure(Why::WrongThread, slot, Some(&e), 0, args);
                    return CallOutcome::Panic(f, None);
                }
                let once = matches!(e.ret, RetState::Ret(Ret::Once { .. }));
                let em = &mut self.lists.get_mut(&key).unwrap()[i];
                if once {
                    em.ret = RetState::Expired;
                }
                if f.panics {
                    em.poisoned = true;
                    self.note("user-panic-in-closure");
                    let fl = self.failure(Why::User, slot, Some(&e), 0, args);
                    return CallOutcome::Panic(fl, Some(e.id));
                }
                ran = Some(e.id);
                code = f.code(args, k);
                if f.write {
                    let ks: Vec<u64> = meta.args.iter().filter(|m| m.mutref).map(|m| m.k).collect();
                    for (a, k) in after.iter_mut().zip(ks) {
                        *a = (*a + 1) % k;
                    }
                }
            }
        }
        if let (RefKind::RefMut, Some(m), true) = (meta.ref_kind, mutate, meta.mutable) {
            let em = &mut self.lists.get_mut(&key).unwrap()[i];
            if matches!(em.ret, RetState::Ret(Ret::Var { .. }) | RetState::Default) {
                em.var = Some(m % k);
                self.note("mutated-through-return");
            }
        }
        self.note("served");
        CallOutcome::Return { exp: e.id, code, log: ran.is_some(), after, then_drop: None }
    }
}
