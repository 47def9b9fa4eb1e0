//! Interprets a raw history on a generated unit and compares every step with
//! the model.
use crate::env::*;
use crate::model::*;
use std::any::Any;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

pub type BoxObj = Box<dyn Any>;

pub enum CtxCmd<'a> {
    Checkpoint,
    Expect(usize, &'a Spec, &'a mut Env),
}
pub type CtxH = Box<dyn Fn(CtxCmd)>;

pub struct CallRes {
    pub code: u64,
    pub after: Vec<u64>,
}

#[derive(Clone)]
pub struct ClassFns {
    pub new: fn() -> BoxObj,
    pub checkpoint: fn(&mut BoxObj),
    pub debug: fn(&BoxObj) -> String,
}
pub type ExpectFn = fn(&mut BoxObj, &Spec, &mut Env);
pub type CallFn = fn(&mut Option<BoxObj>, &[u64], Option<u64>) -> CallRes;
#[derive(Clone)]
pub struct SlotFns {
    /// None for static functions
    pub expect: Option<ExpectFn>,
    pub call: CallFn,
}
#[derive(Clone)]
pub struct Unit {
    pub meta: Meta,
    /// number of each slot in its own adapter
    pub local: Vec<usize>,
    pub classes: Vec<ClassFns>,
    pub ctxs: Vec<Option<fn() -> CtxH>>,
    pub slots: Vec<SlotFns>,
    pub modules: Vec<fn()>,
}

/// Several declarations in one history
pub fn merge(units: &[&Unit]) -> Unit {
    let mut out = units[0].clone();
    for u in &units[1..] {
        let (nc, nf, ns, nm) = (out.meta.n_cls, out.meta.fns.len(), out.meta.slots.len(), out.meta.n_modules);
        out.meta.name += &format!("+{}", u.meta.name);
        out.meta.n_cls += u.meta.n_cls;
        out.meta.n_modules += u.meta.n_modules;
        out.meta.threads &= u.meta.threads;
        out.meta.fns.extend(u.meta.fns.iter().cloned().map(|mut f| {
            f.store += nf;
            f.module = f.module.map(|m| m + nm);
            f
        }));
        out.meta.slots.extend(u.meta.slots.iter().cloned().map(|mut s| {
            s.list += ns;
            s.func += nf;
            s.cls = s.cls.map(|c| c + nc);
            s
        }));
        out.local.extend(&u.local);
        out.classes.extend(u.classes.iter().cloned());
        out.ctxs.extend(u.ctxs.iter().cloned());
        out.slots.extend(u.slots.iter().cloned());
        out.modules.extend(u.modules.iter().cloned());
    }
    out
}

/// Lets the harness move anything to another thread (and back): the generated
/// code asserts separately that mocks are Send.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}

/// Gives a mock back that was borrowed as `&Box<Mock>`
pub struct PutBack<'a, M: 'static> {
    pub slot: &'a mut Option<BoxObj>,
    pub val: Option<Box<M>>,
}
impl<'a, M: 'static> PutBack<'a, M> {
    pub fn new(slot: &'a mut Option<BoxObj>) -> Self {
        let val = Some(slot.take().unwrap().downcast::<M>().ok().unwrap());
        PutBack { slot, val }
    }
    pub fn get(&self) -> &Box<M> {
        self.val.as_ref().unwrap()
    }
}
impl<M: 'static> Drop for PutBack<'_, M> {
    fn drop(&mut self) {
        let v = self.val.take().unwrap();
        *self.slot = Some(v);
    }
}
pub fn obj<M: 'static>(slot: &mut Option<BoxObj>) -> &mut M {
    slot.as_mut().unwrap().downcast_mut::<M>().unwrap()
}
pub fn own<M: 'static>(slot: &mut Option<BoxObj>) -> Box<M> {
    slot.take().unwrap().downcast::<M>().ok().unwrap()
}
/// Debug of all values of a type
pub fn dbgs<T: crate::Mk + std::fmt::Debug>() -> Option<Vec<String>> {
    Some((0..T::K).map(|c| format!("{:?}", T::mk(c))).collect())
}
pub fn dbg_in<T: crate::Mk + std::fmt::Debug>(pre: &str, post: &str) -> Option<Vec<String>> {
    Some((0..T::K).map(|c| format!("{pre}{:?}{post}", T::mk(c))).collect())
}
pub fn dbg_code(pre: &str, post: &str) -> Option<Vec<String>> {
    Some((0..4).map(|c| format!("{pre}{c}{post}")).collect())
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|_| {}));
}

#[derive(Debug, PartialEq)]
pub enum Pay {
    Text(String),
    User(usize),
    /// raised by the harness to unwind
    Harness,
    Other,
}
pub struct HarnessPanic;

pub fn payload(p: Box<dyn Any + Send>) -> Pay {
    match p.downcast::<String>() {
        Ok(s) => Pay::Text(*s),
        Err(p) => match p.downcast::<&'static str>() {
            Ok(s) => Pay::Text(s.to_string()),
            Err(p) => match p.downcast::<UserPanic>() {
                Ok(u) => Pay::User(u.0),
                Err(p) => {
                    if p.is::<HarnessPanic>() {
                        Pay::Harness
                    } else {
                        Pay::Other
                    }
                }
            },
        },
    }
}

pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, Pay> {
    catch_unwind(AssertUnwindSafe(f)).map_err(payload)
}

pub const N_SEQ: usize = 3;

#[derive(Default, Clone, Debug)]
pub struct Config {
    /// judge the text of failures too
    pub diag: bool,
}

pub struct Report {
    pub failure: Option<String>,
    pub trace: String,
    pub classes: BTreeMap<&'static str, u64>,
    pub steps: u64,
}

struct St<'u> {
    u: &'u Unit,
    m: Model,
    env: Env,
    objs: Vec<Option<BoxObj>>,
    ctxs: Vec<Option<CtxH>>,
    focus: Vec<usize>,
    next_id: usize,
    cfg: Config,
    trace: String,
    steps: u64,
    /// outcome of the last call
    panicked: bool,
    quiet: bool,
}

pub mod opk {
    pub const NEW: u16 = 0;
    pub const DROP: u16 = 1;
    pub const CHECK: u16 = 2;
    pub const CTX_NEW: u16 = 3;
    pub const CTX_DROP: u16 = 4;
    pub const CTX_CHECK: u16 = 5;
    pub const MOD_CHECK: u16 = 6;
    pub const EXPECT: u16 = 7;
    pub const CALL: u16 = 8;
    pub const UNWIND: u16 = 9;
    pub const CALL_THREAD: u16 = 10;
    pub const CALL_UNWIND: u16 = 11;
    pub const DEBUG: u16 = 12;
    /// a call many times over
    pub const MANY: u16 = 13;
    /// many equal expectations
    pub const EXPECT_MANY: u16 = 14;
    /// a call whose return closure makes another call
    pub const CALL_NESTED: u16 = 15;
    pub const N: u16 = 16;
}

type R = Result<(), String>;

/// `raw[0]`: header `[nfocus, slot, d1, d2, d3, ..]`, then one row per step:
/// `[kind, slot pick, object pick, ...]`
pub fn run_history(u: &Unit, raw: &[Vec<u16>], cfg: &Config) -> Report {
    let mut st = St {
        u,
        m: Model::new(u.meta.clone(), N_SEQ),
        env: Env::new(N_SEQ),
        objs: vec![],
        ctxs: vec![],
        focus: vec![],
        next_id: 1,
        cfg: cfg.clone(),
        trace: String::new(),
        steps: 0,
        panicked: false,
        quiet: false,
    };
    let ns = u.meta.slots.len();
    let h = &raw[0];
    let g = |i: usize| h.get(i).copied().unwrap_or(0) as usize;
    let base = g(1) % ns;
    st.focus.push(base);
    for i in 0..g(0) % 8 {
        st.focus.push((base + g(2 + i)) % ns);
    }
    let mut res = Ok(());
    for row in &raw[1..] {
        res = st.step(row);
        if res.is_err() {
            break;
        }
    }
    if res.is_ok() {
        res = st.finish();
    }
    if res.is_err() {
        st.abandon();
    }
    Report { failure: res.err(), trace: st.trace, classes: st.m.classes, steps: st.steps }
}

impl St<'_> {
    fn t(&mut self, s: String) {
        if !self.quiet {
            let _ = writeln!(self.trace, "  {s}");
        }
    }

    fn logs(&mut self) -> Vec<Log> {
        std::mem::take(&mut *self.env.log.lock().unwrap())
    }

    fn slot_name(&self, s: usize) -> String {
        format!("{}[{}]", self.u.meta.slots[s].path, s)
    }

    fn step(&mut self, row: &[u16]) -> R {
        self.steps += 1;
        let g = |i: usize| row.get(i).copied().unwrap_or(0);
        let slot = self.focus[g(1) as usize % self.focus.len()];
        // Most calls go where something is expected
        let kind = g(0) % opk::N;
        let aimed;
        let (slot, row) = if (kind == opk::CALL || kind == opk::CALL_THREAD || kind == opk::MANY || kind == opk::CALL_NESTED) && (g(3) >> 8) % 8 != 0 {
            match self.aim(g(1) as usize + 7 * g(2) as usize) {
                Some((s, o)) => {
                    let mut r = row.to_vec();
                    r.resize(r.len().max(4), 0);
                    r[2] = o;
                    aimed = r;
                    (s, &aimed[..])
                }
                None if (g(3) >> 8) % 8 > 2 => return Ok(()),
                None => (slot, row),
            }
        } else {
            (slot, row)
        };
        match kind {
            opk::NEW => {
                if let Some(c) = self.u.meta.slots[slot].cls {
                    self.new_obj(c)?;
                }
                Ok(())
            }
            opk::DROP => match self.pick_obj(None, g(2)) {
                Some(o) => self.drop_obj(o),
                None => Ok(()),
            },
            opk::CHECK => match self.pick_obj(None, g(2)) {
                Some(o) => {
                    let exp = self.m.checkpoint_obj(o);
                    if exp == Outcome::Unspecified {
                        return Ok(());
                    }
                    self.t(format!("obj{o}.checkpoint()"));
                    let f = self.u.classes[self.m.objs[o].cls].checkpoint;
                    let obj = self.objs[o].as_mut().unwrap();
                    let r = catch(|| f(obj));
                    self.judge("checkpoint", exp, r)
                }
                None => Ok(()),
            },
            opk::CTX_NEW => {
                let f = self.u.meta.slots[slot].func;
                if self.u.meta.fns[f].is_static {
                    self.ctx_new(f)?;
                }
                Ok(())
            }
            opk::CTX_DROP | opk::CTX_CHECK => match self.pick_ctx(None, g(2)) {
                Some(c) => {
                    let drop = g(0) % opk::N == opk::CTX_DROP;
                    self.ctx_validate(c, drop)
                }
                None => Ok(()),
            },
            opk::MOD_CHECK => {
                if self.u.modules.is_empty() {
                    return Ok(());
                }
                let m = g(2) as usize % self.u.modules.len();
                let exp = self.m.module_checkpoint(m);
                if exp == Outcome::Unspecified {
                    return Ok(());
                }
                self.t(format!("module{m}::checkpoint()"));
                let r = catch(|| (self.u.modules[m])());
                self.judge("module checkpoint", exp, r)
            }
            opk::EXPECT => self.expect(slot, row),
            opk::CALL => self.call(slot, row, false),
            opk::MANY => self.many(slot, row),
            opk::CALL_NESTED => self.nested(slot, row),
            opk::EXPECT_MANY => {
                let n = [5, 9, 17, 33, 70, 260][g(2) as usize % 6];
                for _ in 0..n {
                    self.expect(slot, row)?;
                }
                self.m.note("many-expectations");
                Ok(())
            }
            opk::CALL_THREAD => self.call(slot, row, true),
            opk::UNWIND => self.unwind(row, None),
            opk::CALL_UNWIND => self.unwind(row, Some(slot)),
            _ => match self.pick_obj(None, g(2)) {
                Some(o) => {
                    let f = self.u.classes[self.m.objs[o].cls].debug;
                    let obj = self.objs[o].as_ref().unwrap();
                    if let Err(p) = catch(|| f(obj)) {
                        return Err(format!("Debug of a mock panicked: {p:?}"));
                    }
                    Ok(())
                }
                None => Ok(()),
            },
        }
    }

    fn new_obj(&mut self, cls: usize) -> Result<usize, String> {
        let live = self.m.objs.iter().filter(|o| o.live).count();
        if live >= 4 {
            let i = self.m.objs.iter().position(|o| o.live && o.cls == cls);
            if let Some(i) = i {
                return Ok(i);
            }
        }
        let o = catch(|| (self.u.classes[cls].new)()).map_err(|p| format!("new() panicked: {p:?}"))?;
        self.m.new_obj(cls);
        self.objs.push(Some(o));
        let i = self.objs.len() - 1;
        self.t(format!("obj{i} = new mock (class {cls})"));
        Ok(i)
    }

    fn pick_obj(&self, cls: Option<usize>, r: u16) -> Option<usize> {
        let v: Vec<usize> = (0..self.objs.len())
            .filter(|i| self.m.objs[*i].live && cls.map_or(true, |c| c == self.m.objs[*i].cls))
            .collect();
        if v.is_empty() {
            None
        } else {
            Some(v[r as usize % v.len()])
        }
    }

    /// A function in focus, and the position of its object, with expectations
    fn aim(&self, r: usize) -> Option<(usize, u16)> {
        let mut v = vec![];
        for (i, slot) in self.focus.iter().enumerate() {
            if self.focus[..i].contains(slot) {
                continue;
            }
            let some = |o: Option<usize>| self.m.expects(o, *slot);
            if self.m.is_static(*slot) {
                if some(None) {
                    v.push((*slot, 0));
                }
            } else if let Some(c) = self.u.meta.slots[*slot].cls {
                let live = (0..self.objs.len()).filter(|i| self.m.objs[*i].live && self.m.objs[*i].cls == c);
                v.extend(live.enumerate().filter(|(_, o)| some(Some(*o))).map(|(k, _)| (*slot, k as u16)));
            }
        }
        if v.is_empty() {
            None
        } else {
            Some(v[r % v.len()])
        }
    }

    fn pick_ctx(&self, f: Option<usize>, r: u16) -> Option<usize> {
        let v: Vec<usize> = (0..self.ctxs.len())
            .filter(|i| self.m.ctxs[*i].1 && f.map_or(true, |f| f == self.m.ctxs[*i].0))
            .collect();
        if v.is_empty() {
            None
        } else {
            Some(v[r as usize % v.len()])
        }
    }

    fn ctx_new(&mut self, f: usize) -> Result<usize, String> {
        if let Some(c) = self.pick_ctx(Some(f), 0) {
            // at most two contexts of one function
            if self.m.ctxs.iter().filter(|c| c.1 && c.0 == f).count() >= 2 {
                return Ok(c);
            }
        }
        let c = catch(|| (self.u.ctxs[f].unwrap())()).map_err(|p| format!("context() panicked: {p:?}"))?;
        self.m.ctx_new(f);
        self.ctxs.push(Some(c));
        let i = self.ctxs.len() - 1;
        self.t(format!("ctx{i} = {}_context()", self.u.meta.fns[f].name));
        Ok(i)
    }

    fn drop_obj(&mut self, o: usize) -> R {
        let exp = self.m.drop_obj(o);
        if exp == Outcome::Unspecified {
            return Ok(());
        }
        self.t(format!("drop(obj{o})"));
        let obj = self.objs[o].take();
        let r = catch(|| drop(obj));
        self.judge("drop of a mock", exp, r)
    }

    fn ctx_validate(&mut self, c: usize, drop_: bool) -> R {
        let exp = self.m.ctx_validate(c, drop_);
        if exp == Outcome::Unspecified {
            return Ok(());
        }
        if drop_ {
            self.t(format!("drop(ctx{c})"));
            let ctx = self.ctxs[c].take();
            let r = catch(|| drop(ctx));
            self.judge("drop of a context", exp, r)
        } else {
            self.t(format!("ctx{c}.checkpoint()"));
            let ctx = self.ctxs[c].as_ref().unwrap();
            let r = catch(|| ctx(CtxCmd::Checkpoint));
            self.judge("context checkpoint", exp, r)
        }
    }

    fn judge(&mut self, what: &str, exp: Outcome, got: Result<(), Pay>) -> R {
        let _ = self.logs();
        match (exp, got) {
            (Outcome::Ok, Ok(())) => Ok(()),
            (Outcome::Ok, Err(p)) => Err(format!("{what} panicked but every expectation is satisfied: {p:?}")),
            (Outcome::Panic(fs), Ok(())) => Err(format!("{what} did not panic; expected one of {}", self.why(&fs))),
            (Outcome::Panic(fs), Err(p)) => {
                let Pay::Text(t) = p else {
                    return Err(format!("{what}: foreign panic payload {p:?}; expected one of {}", self.why(&fs)));
                };
                if self.cfg.diag && !fs.iter().any(|f| crate::diag::explains(&self.u.meta, f, &t)) {
                    return Err(format!("{what}: message {t:?} does not describe any of {}", self.why(&fs)));
                }
                Ok(())
            }
            (Outcome::Unspecified, _) => Ok(()),
        }
    }

    fn why(&self, fs: &[Failure]) -> String {
        fs.iter()
            .map(|f| format!("{:?} on {} (count {}, bound {}, args {:?}, {:?})", f.why, self.slot_name(f.slot), f.count, f.bound, f.args, f.matcher))
            .collect::<Vec<_>>()
            .join("; ")
    }

    fn target(&mut self, slot: usize, r: u16) -> Result<Option<usize>, String> {
        match self.u.meta.slots[slot].cls {
            None => Ok(None),
            Some(_) if self.m.is_static(slot) => Ok(None),
            Some(c) => match self.pick_obj(Some(c), r) {
                Some(o) => Ok(Some(o)),
                None => Ok(Some(self.new_obj(c)?)),
            },
        }
    }

    fn expect(&mut self, slot: usize, row: &[u16]) -> R {
        let stat = self.m.is_static(slot);
        let g = |i: usize| row.get(i).copied().unwrap_or(0);
        let spec = crate::spec::decode(&self.u.meta, slot, self.next_id, row);
        if stat {
            let f = self.u.meta.slots[slot].func;
            let c = match self.pick_ctx(Some(f), g(2)) {
                Some(c) => c,
                None => self.ctx_new(f)?,
            };
            let exp = self.m.expect(None, slot, &spec);
            if exp == Outcome::Unspecified {
                return Ok(());
            }
            self.next_id += 1;
            self.t(format!("ctx{c}.expect() on {}: {:?}", self.slot_name(slot), spec));
            let ctx = self.ctxs[c].as_ref().unwrap();
            let env = &mut self.env;
            let local = self.u.local[slot];
            let r = catch(|| ctx(CtxCmd::Expect(local, &spec, env)));
            self.judge("setting an expectation", exp, r)
        } else {
            let o = self.target(slot, g(2))?.unwrap();
            let exp = self.m.expect(Some(o), slot, &spec);
            if exp == Outcome::Unspecified {
                return Ok(());
            }
            self.next_id += 1;
            self.t(format!("obj{o}.expect {}: {:?}", self.slot_name(slot), spec));
            let f = self.u.slots[slot].expect.unwrap();
            let obj = self.objs[o].as_mut().unwrap();
            let env = &mut self.env;
            let r = catch(|| f(obj, &spec, env));
            self.judge("setting an expectation", exp, r)
        }
    }

    fn args(&self, slot: usize, row: &[u16]) -> Vec<u64> {
        self.u.meta.slots[slot]
            .args
            .iter()
            .enumerate()
            .map(|(i, a)| row.get(4 + i).copied().unwrap_or(0) as u64 % a.k)
            .collect()
    }

    fn nested(&mut self, slot: usize, row: &[u16]) -> R {
        let g = |i: usize| row.get(i).copied().unwrap_or(0);
        let o = self.target(slot, g(2))?;
        let args = self.args(slot, row);
        // the call from within: on another object, or of another static
        // function (the store of a static function is locked during its calls)
        let (slot2, pick) = match self.aim(g(1) as usize * 5 + 3 * g(2) as usize + g(3) as usize) {
            Some(x) if g(4) % 4 != 3 => x,
            _ => (self.focus[g(1) as usize / 2 % self.focus.len()], g(2) / 2),
        };
        let o2 = self.target(slot2, pick)?;
        let mut row2 = row.to_vec();
        if row2.len() > 2 {
            row2[1..].rotate_left(1);
        }
        let args2 = self.args(slot2, &row2);
        let meta = &self.u.meta;
        let same = if o.is_some() { o == o2 } else { o2.is_none() && meta.fns[meta.slots[slot].func].store == meta.fns[meta.slots[slot2].func].store };
        let mut m = self.m.clone();
        let exp = m.call(o, slot, &args, None, false);
        let runs = matches!(exp, CallOutcome::Return { log: true, .. } | CallOutcome::Panic(_, Some(_)));
        if same || !runs || meta.slots[slot].consuming || meta.slots[slot2].consuming {
            return self.call(slot, row, false);
        }
        let exp2 = m.call(o2, slot2, &args2, None, false);
        if exp == CallOutcome::Unspecified || exp2 == CallOutcome::Unspecified {
            return self.call(slot, row, false);
        }
        self.m = m;
        self.m.note("nested-call");
        let nm = |o: Option<usize>| o.map_or(String::new(), |o| format!("obj{o}."));
        self.t(format!(
            "call {}{}({args:?}), whose return closure calls {}{}({args2:?})",
            nm(o),
            self.slot_name(slot),
            nm(o2),
            self.slot_name(slot2)
        ));
        let (f, f2) = (self.u.slots[slot].call, self.u.slots[slot2].call);
        let mut none: (Option<BoxObj>, Option<BoxObj>) = (None, None);
        let objs = self.objs.as_mut_ptr();
        // SAFETY: these are different objects, and live until the call is over
        let (p, p2) = unsafe { (o.map_or(&mut none.0 as *mut _, |o| objs.add(o)), o2.map_or(&mut none.1 as *mut _, |o| objs.add(o))) };
        let mut inner: Option<(Result<CallRes, Pay>, Vec<Log>)> = None;
        let out: *mut Option<_> = &mut inner;
        let log = self.env.log.clone();
        let a2 = args2.clone();
        let job = Force((p2, out));
        crate::env::HOOK.with(|h| {
            *h.borrow_mut() = Some(Box::new(move || {
                let Force((p2, out)) = job;
                let before = log.lock().unwrap().len();
                let r = catch(|| f2(unsafe { &mut *p2 }, &a2, None));
                let logs = log.lock().unwrap().split_off(before);
                unsafe { *out = Some((r, logs)) };
            }))
        });
        let got = catch(|| f(unsafe { &mut *p }, &args, None));
        let left = crate::env::HOOK.with(|h| h.borrow_mut().take());
        if let Some((r, logs)) = inner.take() {
            let outer = self.logs();
            self.judge_logs(slot2, &args2, exp2, r, logs).map_err(|e| format!("(the call from within the return closure) {e}"))?;
            self.judge_logs(slot, &args, exp, got, outer)
        } else {
            drop(left);
            let e = self.judge_call(slot, &args, exp, got);
            Err(e.err().unwrap_or_else(|| "the return closure was not run".to_string()))
        }
    }

    fn many(&mut self, slot: usize, row: &[u16]) -> R {
        if self.u.meta.slots[slot].consuming {
            return self.call(slot, row, false);
        }
        let r = row.get(3).copied().unwrap_or(0) as usize;
        let k = (r * 40503 >> 8) % 256;
        // seldom really many
        let n = match k {
            255 => [65538, 65535, 65536, 65537][r % 4],
            165..=254 => [254, 255, 256, 257, 258][k % 5],
            131..=164 => [127, 128, 129, 130, 1000][k % 5],
            _ => 2 + k % 70,
        };
        let mut fails = 0;
        for i in 0..n {
            self.quiet = i > 0;
            self.panicked = false;
            let res = self.call(slot, row, false);
            self.quiet = false;
            if let Err(e) = res {
                return Err(format!("(call {} of {n}) {e}", i + 1));
            }
            fails += self.panicked as usize;
            if i == 0 {
                self.t(format!("... {n} times, until it fails for the second time"));
            }
            if fails > 1 {
                break;
            }
            if i == 255 {
                self.m.note("many-calls");
            }
        }
        Ok(())
    }

    fn call(&mut self, slot: usize, row: &[u16], thread: bool) -> R {
        let o = self.target(slot, row.get(2).copied().unwrap_or(0))?;
        let args = self.args(slot, row);
        let mutate = row.get(3).and_then(|m| if m % 3 == 0 { None } else { Some(*m as u64 % self.u.meta.slots[slot].ret_k.max(1)) });
        if thread {
            if !self.u.meta.threads {
                return Ok(());
            }
            // dropping thread-bound values elsewhere is outside the property
            if self.u.meta.slots[slot].consuming && self.m.obj_st(o.unwrap()) {
                return Ok(());
            }
        }
        let exp = self.m.call(o, slot, &args, mutate, thread);
        if exp == CallOutcome::Unspecified {
            self.m.note("skipped-unspecified");
            return Ok(());
        }
        self.t(format!(
            "{}call {}{}({:?}){}",
            if thread { "[other thread] " } else { "" },
            o.map_or(String::new(), |o| format!("obj{o}.")),
            self.slot_name(slot),
            args,
            mutate.map_or(String::new(), |m| format!(" then write {m}"))
        ));
        let f = self.u.slots[slot].call;
        let mut none = None;
        let obj = match o {
            Some(o) => &mut self.objs[o],
            None => &mut none,
        };
        let got = if thread {
            let job = Force((f, obj, &args, mutate));
            std::thread::scope(|s| {
                s.spawn(move || {
                    let job = job;
                    let Force((f, obj, args, mutate)) = job;
                    Force(catch(|| f(obj, args, mutate)))
                })
                .join()
                .map_err(|_| "thread died".to_string())
            })?
            .0
        } else {
            catch(|| f(obj, &args, mutate))
        };
        self.judge_call(slot, &args, exp, got)
    }

    fn judge_call(&mut self, slot: usize, args: &[u64], exp: CallOutcome, got: Result<CallRes, Pay>) -> R {
        let logs = self.logs();
        self.judge_logs(slot, args, exp, got, logs)
    }

    fn judge_logs(&mut self, slot: usize, args: &[u64], exp: CallOutcome, got: Result<CallRes, Pay>, logs: Vec<Log>) -> R {
        self.panicked = got.is_err();
        for l in &logs {
            if let Log::Asked { exp: e, args: a } = l {
                let ok = if a.len() == 2 && a[0] >= 1000 {
                    args.get((a[0] - 1000) as usize) == Some(&a[1])
                } else {
                    a == args
                };
                if !ok {
                    return Err(format!("matcher of expectation {e} was asked about {a:?}, the call's arguments are {args:?}"));
                }
            }
        }
        let ran: Vec<(usize, Vec<u64>)> = logs
            .into_iter()
            .filter_map(|l| match l {
                Log::Ran { exp, args } => Some((exp, args)),
                _ => None,
            })
            .collect();
        let name = self.slot_name(slot);
        match (exp, got) {
            (CallOutcome::Return { exp, code, log, after, then_drop: None }, Ok(r)) => {
                let want = if log { vec![(exp, args.to_vec())] } else { vec![] };
                if ran != want {
                    return Err(format!("call of {name}: return closures that ran (expectation, arguments) {ran:?}, expected {want:?}"));
                }
                if r.code != code {
                    return Err(format!("call of {name}: returned value {} but expectation {exp} gives {code}", r.code));
                }
                if r.after != after {
                    return Err(format!("call of {name}: &mut arguments are {:?} after the call, expected {after:?}", r.after));
                }
                Ok(())
            }
            (CallOutcome::Return { then_drop: Some(fs), .. }, Err(Pay::Text(t))) => {
                if self.cfg.diag && !fs.iter().any(|f| crate::diag::explains(&self.u.meta, f, &t)) {
                    return Err(format!("consuming call: message {t:?} does not describe any of {}", self.why(&fs)));
                }
                Ok(())
            }
            (CallOutcome::Return { exp, then_drop, .. }, Err(p)) => Err(format!(
                "call of {name} with {args:?} panicked ({p:?}) but expectation {exp} should serve it{}",
                if then_drop.is_some() { " (and then the drop fail)" } else { "" }
            )),
            (CallOutcome::Return { then_drop: Some(fs), .. }, Ok(_)) => Err(format!("consuming call of {name} returned; its drop should have failed with {}", self.why(&fs))),
            (CallOutcome::Panic(f, _), Ok(r)) => Err(format!(
                "call of {name} with {args:?} returned {} (closures run: {ran:?}); expected a panic: {}",
                r.code,
                self.why(&[f])
            )),
            (CallOutcome::Panic(f, e), Err(p)) => {
                let want: Vec<usize> = e.into_iter().collect();
                if ran.iter().map(|r| r.0).collect::<Vec<_>>() != want || ran.iter().any(|r| r.1 != args) {
                    return Err(format!("failing call of {name} ran return closures {ran:?}, expected those of {want:?}"));
                }
                match (&p, f.why) {
                    (Pay::User(id), Why::User) if Some(*id) == want.first().copied() => Ok(()),
                    (Pay::User(id), Why::Matcher) if *id == f.bound => Ok(()),
                    (Pay::Text(t), w) if w != Why::User && w != Why::Matcher => {
                        if self.cfg.diag && !crate::diag::explains(&self.u.meta, &f, t) {
                            return Err(format!("message {t:?} does not describe {}", self.why(&[f])));
                        }
                        Ok(())
                    }
                    _ => Err(format!("call of {name}: foreign panic payload {p:?}; expected {}", self.why(&[f]))),
                }
            }
            (CallOutcome::Unspecified, _) => Ok(()),
        }
    }

    /// A frame that owns some of the mocks and contexts unwinds, because of a
    /// panic of the user's or of a failing call of `slot`
    fn unwind(&mut self, row: &[u16], slot: Option<usize>) -> R {
        let g = |i: usize| row.get(i).copied().unwrap_or(0);
        let mask = g(3);
        // What the frame calls
        let mut callee = None;
        if let Some(slot) = slot {
            let o = self.target(slot, g(2))?;
            let args = self.args(slot, row);
            if self.u.meta.slots[slot].consuming {
                return Ok(());
            }
            let mut m2 = self.m.clone();
            let exp = m2.call(o, slot, &args, None, false);
            if !matches!(exp, CallOutcome::Panic(..)) {
                return Ok(());
            }
            self.m = m2;
            callee = Some((o, slot, args, exp));
        }
        let objs: Vec<usize> = (0..self.objs.len())
            .filter(|i| {
                self.m.objs[*i].live && ((mask >> (i % 8)) & 1 == 1 || callee.as_ref().map_or(false, |c| c.0 == Some(*i)))
            })
            .collect();
        let ctxs: Vec<usize> = (0..self.ctxs.len())
            .filter(|i| {
                self.m.ctxs[*i].1
                    && ((mask >> (8 + i % 8)) & 1 == 1
                        || callee.as_ref().map_or(false, |c| c.0.is_none() && self.m.ctxs[*i].0 == self.u.meta.slots[c.1].func))
            })
            .collect();
        let mut cause = "a user panic".to_string();
        if let Some((o, s, a, _)) = &callee {
            cause = format!("call of {}{}({a:?})", o.map_or(String::new(), |o| format!("obj{o}.")), self.slot_name(*s));
        }
        self.t(format!("frame owning objs {objs:?}, ctxs {ctxs:?} unwinds because of {cause}"));
        let mut own_o: Vec<(usize, Option<BoxObj>)> = objs.iter().map(|i| (*i, self.objs[*i].take())).collect();
        let own_c: Vec<Option<CtxH>> = ctxs.iter().map(|i| self.ctxs[*i].take()).collect();
        let u = self.u;
        let callee2 = callee.clone();
        let got = catch(move || -> CallRes {
            match callee2 {
                None => {
                    let _keep = (own_o, own_c);
                    panic_any(HarnessPanic)
                }
                Some((o, slot, args, _)) => {
                    let _c = own_c;
                    let mut none = None;
                    let obj = match o {
                        Some(o) => &mut own_o.iter_mut().find(|x| x.0 == o).unwrap().1,
                        None => &mut none,
                    };
                    let r = (u.slots[slot].call)(obj, &args, None);
                    // it returned: unwind anyway
                    std::mem::forget(own_o);
                    std::mem::forget(_c);
                    r
                }
            }
        });
        for o in &objs {
            self.m.unwind_obj(*o);
        }
        for c in &ctxs {
            self.m.ctx_unwind(*c);
        }
        match callee {
            None => {
                let _ = self.logs();
                match got {
                    Err(Pay::Harness) => Ok(()),
                    Err(p) => Err(format!("the panic being unwound was replaced by {p:?}")),
                    Ok(_) => unreachable!(),
                }
            }
            Some((_, slot, args, exp)) => self.judge_call(slot, &args, exp, got),
        }
    }

    /// End of the test: everything is dropped, in order
    fn finish(&mut self) -> R {
        for o in 0..self.objs.len() {
            if self.m.objs[o].live && !self.m.objs[o].dead {
                self.drop_obj(o)?;
            }
        }
        for c in 0..self.ctxs.len() {
            if self.m.ctxs[c].1 && !self.m.dirty[self.u.meta.fns[self.m.ctxs[c].0].store] {
                self.ctx_validate(c, true)?;
            }
        }
        // what is left may only be dropped in an unwinding
        for f in 0..self.u.meta.fns.len() {
            let st = self.u.meta.fns[f].store;
            if st == f && self.m.dirty[st] && !self.m.ctxs.iter().any(|c| c.1 && self.u.meta.fns[c.0].store == st) {
                self.ctx_new(f)?;
            }
        }
        let objs: Vec<_> = self.objs.iter_mut().map(|o| o.take()).collect();
        let ctxs: Vec<_> = self.ctxs.iter_mut().map(|c| c.take()).collect();
        let left = objs.iter().flatten().count() + ctxs.iter().flatten().count();
        if left > 0 {
            self.t(format!("remaining {left} objects dropped in an unwinding"));
            match catch(move || {
                let _keep = (objs, ctxs);
                panic_any(HarnessPanic)
            }) {
                Err(Pay::Harness) => {}
                Err(p) => return Err(format!("the panic being unwound was replaced by {p:?}")),
                Ok(()) => unreachable!(),
            }
            for c in 0..self.ctxs.len() {
                if self.m.ctxs[c].1 {
                    self.m.ctx_unwind(c);
                }
            }
            for o in 0..self.objs.len() {
                if self.m.objs[o].live {
                    self.m.unwind_obj(o);
                }
            }
        }
        // A new context starts clean: it ends well, and calls before it found nothing
        for f in 0..self.u.meta.fns.len() {
            if self.m.classes.contains_key("ctx-unwind-after-panic") && self.u.meta.fns[f].is_static && self.m.ctxs.iter().any(|c| c.0 == f) {
                let c = self.ctx_new(f)?;
                self.ctx_validate(c, true)?;
            }
        }
        Ok(())
    }

    /// After a failure: get rid of everything so that the next history is not
    /// affected
    fn abandon(&mut self) {
        let objs: Vec<_> = self.objs.iter_mut().map(|o| o.take()).collect();
        let mut ctxs: Vec<_> = self.ctxs.iter_mut().map(|c| c.take()).collect();
        for f in 0..self.u.meta.fns.len() {
            if let Some(n) = self.u.ctxs[f] {
                ctxs.push(Some(n()));
            }
        }
        let _ = catch(move || {
            let _keep = (objs, ctxs);
            panic_any(HarnessPanic)
        });
    }
}
