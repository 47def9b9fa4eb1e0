//! What each property's check generates.
use crate::engine::*;
use crate::gen::{Kind, Opts, Spot, KINDS, SPOTS};
use crate::hist::{op::*, Prof};

fn opts() -> Opts {
    Opts { nightly: false, max_funcs: 4, deco: 10, twins: false, places: false, e2024: false, frag: 8 }
}

const CORE: &[Spot] = &[
    Spot::Plain,
    Spot::RefArgs,
    Spot::RefRet,
    Spot::MutRet,
    Spot::Static,
    Spot::GenMethod,
    Spot::GenStatic,
    Spot::GenStruct,
    Spot::GenStructStatic,
    Spot::Concretize,
    Spot::Receivers,
    Spot::MultiTrait,
    Spot::StaticRef,
    Spot::MutArgs,
];

fn base() -> Plan {
    Plan {
        spots: CORE.to_vec(),
        kinds: KINDS.to_vec(),
        nightly: false,
        edition: "2021",
        profs: vec![],
        diag: false,
        pair: 0,
        classes: &[],
        rule: "",
        opts: opts(),
        units: 48,
        histories: 900,
        deadlock_is_violation: false,
        compile_bad: false,
        warn_bad: false,
    }
}

/// A bit of everything, for checks of what is compiled
fn smoke() -> Prof {
    Prof { ops: vec![(1, NEW), (1, DROP), (1, CTX_NEW), (1, CTX_DROP), (7, EXPECT), (14, CALL)], len: (4, 24), ..Prof::default() }
}

/// The history-based checks
pub fn plans(id: &str, thorough: bool) -> Option<Vec<Plan>> {
    let mut p = base();
    let def = Prof::default();
    match id {
        "C01" => {
            p.profs = vec![
                // several expectations of few methods, many calls
                Prof { ops: vec![(1, NEW), (9, EXPECT), (24, CALL), (3, CALL_NESTED)], focus: (1, 2), ..def.clone() },
                Prof {
                    ops: vec![(1, NEW), (1, DROP), (1, CTX_NEW), (1, CTX_DROP), (8, EXPECT), (20, CALL)],
                    mat: vec![(1, 0), (5, 1), (5, 2), (1, 3)],
                    times: vec![(2, 0), (6, 1), (5, 2), (4, 4), (1, 9)],
                    len: (10, 60),
                    ..def.clone()
                },
                // one expectation, called past its end
                Prof { ops: vec![(1, EXPECT), (6, CALL)], mat: vec![(1, 0), (1, 1)], times: vec![(1, 1), (1, 2), (1, 4)], focus: (1, 1), len: (2, 10), ..def.clone() },
                // a great many calls and expectations
                Prof {
                    ops: vec![(1, DROP), (1, CHECK), (1, CTX_DROP), (1, CTX_CHECK), (3, EXPECT), (2, EXPECT_MANY), (3, CALL), (6, MANY)],
                    mat: vec![(4, 0), (1, 1), (1, 2)],
                    times: vec![(1, 0), (2, 1), (6, 2), (2, 3), (3, 4), (1, 5), (1, 6), (2, 7)],
                    ret: vec![(6, 0), (1, 1)],
                    big: 60,
                    focus: (1, 2),
                    len: (2, 9),
                    ..def
                },
            ];
            p.classes = &["served-by-later", "over-call", "passed-over-saturated"];
            p.rule = "random histories of expectations (all matcher, times and return forms) and calls on generated mocks, compared call by call with the model; non-trivial: a call had to pass over a saturated expectation, was served by other than the first, or exceeded the sole expectation's maximum";
        }
        "C02" => {
            p.profs = vec![
                Prof {
                    ops: vec![(1, NEW), (2, DROP), (1, CHECK), (1, CTX_CHECK), (1, CTX_NEW), (2, CTX_DROP), (7, EXPECT), (18, CALL)],
                    mat: vec![(5, 0), (2, 1)],
                    times: (0..12).map(|c| (if c >= 10 { 1 } else { 3 }, c)).collect(),
                    ret: vec![(6, 0), (3, 1)],
                    extreme: 12,
                    len: (3, 30),
                    ..def.clone()
                },
                Prof {
                    ops: vec![(1, DROP), (1, CTX_DROP), (4, EXPECT), (14, CALL)],
                    mat: vec![(1, 0)],
                    times: (1..10).map(|c| (1, c)).collect(),
                    ret: vec![(1, 0)],
                    extreme: 5,
                    focus: (1, 1),
                    len: (2, 14),
                    ..def.clone()
                },
                // a great many calls and expectations
                Prof {
                    ops: vec![(1, DROP), (1, CHECK), (1, CTX_DROP), (1, CTX_CHECK), (3, EXPECT), (2, EXPECT_MANY), (3, CALL), (6, MANY)],
                    mat: vec![(4, 0), (1, 1), (1, 2)],
                    times: vec![(1, 0), (2, 1), (6, 2), (2, 3), (3, 4), (1, 5), (1, 6), (2, 7)],
                    ret: vec![(6, 0), (1, 1)],
                    big: 60,
                    focus: (1, 2),
                    len: (2, 9),
                    ..def
                },
            ];
            p.classes = &["over-call", "drop-unsatisfied", "ctx-drop-unsatisfied", "ctx-checkpoint-unsatisfied", "checkpoint-unsatisfied", "bad-times"];
            p.rule = "random histories with every form of times(), bounds 0..8 and extreme values up to usize::MAX; non-trivial: some expectation was called more often than its maximum, ended below its minimum, or was given an empty range";
        }
        "C03" => {
            p.profs = vec![
                Prof {
                    ops: vec![(1, NEW), (1, DROP), (1, CHECK), (1, CTX_NEW), (6, EXPECT), (20, CALL), (3, CALL_NESTED)],
                    mat: vec![(6, 0), (2, 1)],
                    times: vec![(2, 0), (8, 1), (6, 2), (1, 4), (1, 3), (1, 9)],
                    ret: vec![(6, 0), (2, 1)],
                    seq: 80,
                    focus: (2, 6),
                    near: 50,
                    len: (6, 50),
                    ..def.clone()
                },
                // all expectations first, then calls
                Prof {
                    ops: vec![(5, EXPECT), (9, CALL)],
                    mat: vec![(1, 0)],
                    times: vec![(8, 1), (3, 2)],
                    ret: vec![(1, 0)],
                    seq: 95,
                    focus: (2, 4),
                    near: 50,
                    len: (4, 30),
                    ..def.clone()
                },
                // a great many calls and expectations
                Prof {
                    ops: vec![(1, DROP), (1, CHECK), (1, CTX_DROP), (1, CTX_CHECK), (3, EXPECT), (2, EXPECT_MANY), (3, CALL), (6, MANY)],
                    mat: vec![(4, 0), (1, 1), (1, 2)],
                    times: vec![(1, 0), (2, 1), (6, 2), (2, 3), (3, 4), (1, 5), (1, 6), (2, 7)],
                    ret: vec![(6, 0), (1, 1)],
                    big: 60,
                    seq: 70,
                    focus: (1, 2),
                    len: (2, 9),
                    ..def
                },
            ];
            p.pair = 60;
            p.classes = &["sequence-violation", "sequence-step"];
            p.rule = "random histories over one or two generated mock types with most expectations placed in one of three sequences; non-trivial: at least one call advanced or violated a sequence";
        }
        "C04" => {
            p.profs = vec![
                Prof {
                    ops: vec![(1, NEW), (4, CHECK), (1, CTX_NEW), (3, CTX_CHECK), (3, MOD_CHECK), (8, EXPECT), (14, CALL)],
                    mat: vec![(3, 0), (2, 1), (1, 2)],
                    times: vec![(6, 0), (2, 1), (2, 2), (2, 7), (1, 4)],
                    focus: (2, 6),
                    len: (6, 50),
                    ..def
                },
            ];
            p.spots = vec![
                Spot::Plain, Spot::Static, Spot::GenMethod, Spot::GenStatic, Spot::GenStruct, Spot::GenStructStatic, Spot::Concretize, Spot::MultiTrait,
                Spot::RefRet, Spot::MutRet, Spot::ManyArgs,
            ];
            p.pair = 40;
            p.classes = &["checkpoint-many", "checkpoint", "checkpoint-unsatisfied", "ctx-checkpoint", "ctx-checkpoint-unsatisfied", "module-checkpoint", "module-checkpoint-many", "module-checkpoint-unsatisfied"];
            p.rule = "random histories with checkpoints of objects, contexts and modules between expectations and calls on several objects and methods; non-trivial: a checkpoint was made";
        }
        "C05" => {
            p.profs = vec![Prof {
                ops: vec![(1, NEW), (6, EXPECT), (20, CALL)],
                mat: vec![(1, 0), (6, 1), (5, 2), (2, 3)],
                times: vec![(1, 0)],
                ret: vec![(6, 0), (1, 1)],
                over: 30,
                focus: (1, 2),
                ..def
            }];
            p.spots = vec![
                Spot::Plain, Spot::RefArgs, Spot::MutArgs, Spot::ManyArgs, Spot::DynArgs, Spot::Lifetimes, Spot::GenMethod, Spot::GenStatic,
                Spot::Closure, Spot::Concretize, Spot::GenStruct, Spot::Receivers, Spot::NonSend, Spot::Static, Spot::Assoc, Spot::Async,
            ];
            p.classes = &["passed-over-mismatch", "no-match"];
            p.rule = "random matchers (with / withf / withf_st, set once or repeatedly) on functions with every argument passing style, random argument values; the matcher logs what it was given; non-trivial: some expectation's matcher rejected a call";
        }
        "C06" => {
            p.profs = vec![
                Prof {
                    ops: vec![(1, NEW), (7, EXPECT), (20, CALL), (4, CALL_NESTED)],
                    mat: vec![(3, 0), (2, 1)],
                    times: vec![(6, 0), (2, 1), (2, 2)],
                    ret: vec![(6, 0), (4, 1), (4, 2), (4, 3), (2, 4), (2, 5), (2, 6), (1, 7), (1, 8)],
                    over: 25,
                    focus: (1, 2),
                    ..def
                },
            ];
            p.spots = vec![
                Spot::Plain, Spot::RefRet, Spot::MutRet, Spot::MutArgs, Spot::ManyArgs, Spot::GenRet, Spot::StaticRef, Spot::Receivers, Spot::Static,
                Spot::Concretize, Spot::Closure, Spot::Lifetimes, Spot::NonSend, Spot::GenStatic, Spot::GenStructStatic, Spot::DynArgs,
            ];
            p.deadlock_is_violation = true;
            p.classes = &["served", "return-once-twice", "mutated-through-return"];
            p.rule = "random return actions (returning, return_once, return_const, return_var, _st forms, none, panicking; set once or repeatedly) on functions of every return kind; the closures log their arguments; non-trivial: at least one call was served or met a used-up return_once";
        }
        "C07" => {
            p.profs = vec![
                Prof {
                    ops: vec![(3, NEW), (1, DROP), (1, CHECK), (1, CTX_NEW), (1, CTX_DROP), (9, EXPECT), (20, CALL), (4, CALL_NESTED)],
                    mat: vec![(3, 0), (2, 1)],
                    times: vec![(5, 0), (4, 1), (3, 2)],
                    focus: (3, 7),
                    near: 50,
                    len: (8, 60),
                    ..def
                },
            ];
            p.spots = vec![
                Spot::GenMethod, Spot::GenStatic, Spot::GenStruct, Spot::GenStructStatic, Spot::MultiTrait, Spot::GenRet, Spot::Plain, Spot::Static, Spot::Concretize,
            ];
            p.pair = 50;
            p.classes = &["call-without-expectation", "served"];
            p.rule = "random histories over several objects, methods, traits, generic instantiations and one or two mock types at once; non-trivial: a call found no expectation although others existed, or was served";
        }
        "C08" => {
            p.profs = vec![
                Prof {
                    ops: vec![(1, NEW), (1, DROP), (1, CHECK), (3, CTX_NEW), (4, CTX_DROP), (3, CTX_CHECK), (1, MOD_CHECK), (9, EXPECT), (16, CALL), (2, UNWIND), (2, CALL_UNWIND)],
                    mat: vec![(4, 0), (2, 1)],
                    times: vec![(7, 0), (2, 1), (2, 2), (2, 7)],
                    focus: (1, 4),
                    near: 85,
                    len: (6, 50),
                    ..def
                },
            ];
            p.spots = vec![Spot::Static, Spot::GenStatic, Spot::GenStructStatic, Spot::StaticRef];
            p.pair = 25;
            p.kinds = vec![Kind::AutoTrait, Kind::Mock, Kind::AutoImpl, Kind::Module, Kind::Ffi, Kind::AutoTraitImpl];
            // modules and foreign functions too
            let mut q = base();
            q.profs = p.profs.clone();
            q.spots = vec![Spot::Plain, Spot::GenStatic, Spot::RefArgs, Spot::ManyArgs];
            q.kinds = vec![Kind::Module, Kind::Ffi];
            q.units = 14;
            p.units = 34;
            let c = &["ctx-clears-several-instantiations", "ctx-drop", "ctx-checkpoint", "ctx-unwind", "ctx-unwind-after-panic", "ctx-drop-unsatisfied", "ctx-checkpoint-unsatisfied"];
            p.classes = c;
            q.classes = c;
            p.rule = "random histories of contexts (created, dropped, checkpointed, dropped while unwinding), expectations and calls on static methods, module and foreign functions; non-trivial: a context that had expectations ended";
            q.rule = p.rule;
            return Some(scale(vec![p, q], thorough));
        }
        "C09" => {
            p.profs = vec![
                Prof {
                    ops: vec![(1, NEW), (1, DROP), (1, CTX_NEW), (1, CTX_DROP), (1, CHECK), (1, CTX_CHECK), (1, MOD_CHECK), (8, EXPECT), (12, CALL), (3, CALL_NESTED), (4, UNWIND), (6, CALL_UNWIND)],
                    mat: vec![(4, 0), (2, 1), (1, 2), (1, 3), (1, 4)],
                    times: vec![(3, 0), (3, 1), (3, 2), (1, 4), (1, 5), (1, 9)],
                    ret: vec![(6, 0), (2, 1), (2, 2), (1, 3), (1, 4), (2, 7), (2, 8)],
                    seq: 20,
                    focus: (1, 5),
                    len: (4, 40),
                    ..def
                },
            ];
            p.spots.extend([Spot::Closure, Spot::NonSend, Spot::Lifetimes]);
            p.pair = 25;
            p.deadlock_is_violation = true;
            p.classes = &["unwind-unsatisfied", "ctx-unwind", "ctx-unwind-after-panic", "user-panic-in-closure", "user-panic-in-matcher"];
            p.rule = "random histories in which frames owning mocks and contexts unwind because of a user panic or a failing mock call, in any state; every panic has to arrive once, with its own payload; non-trivial: an unwinding dropped an unsatisfied mock or a context";
        }
        "C11" => {
            p.profs = vec![
                Prof {
                    ops: vec![(1, NEW), (1, CTX_NEW), (7, EXPECT), (9, CALL), (9, CALL_THREAD)],
                    mat: vec![(3, 0), (2, 1), (2, 2), (3, 3)],
                    times: vec![(6, 0), (1, 2)],
                    ret: vec![(3, 0), (2, 1), (1, 2), (1, 3), (4, 4), (4, 5), (4, 6)],
                    over: 15,
                    focus: (1, 3),
                    ..def
                },
            ];
            p.spots = vec![
                Spot::Plain, Spot::NonSend, Spot::Static, Spot::GenStatic, Spot::GenMethod, Spot::RefArgs, Spot::MutRet, Spot::RefRet, Spot::GenStruct, Spot::ManyArgs,
                Spot::Receivers, Spot::Concretize,
            ];
            p.classes = &["st-matcher-on-other-thread", "st-return-on-other-thread"];
            p.rule = "random histories whose calls are made from the setting thread or another one, with all _st forms; non-trivial: another thread met a thread-bound matcher or return action";
        }
        "C12" => {
            p.profs = vec![
                Prof {
                    ops: vec![(1, NEW), (3, DROP), (2, CHECK), (1, CTX_NEW), (2, CTX_DROP), (2, CTX_CHECK), (1, MOD_CHECK), (7, EXPECT), (16, CALL), (2, CALL_UNWIND)],
                    mat: vec![(3, 0), (5, 1), (2, 2), (1, 3)],
                    times: (0..12).map(|c| (if c >= 10 { 1 } else { 4 }, c)).collect(),
                    ret: vec![(6, 0), (2, 1), (2, 2), (1, 7)],
                    seq: 15,
                    len: (3, 36),
                    focus: (1, 3),
                    ..def.clone()
                },
                // a great many calls and expectations
                Prof {
                    ops: vec![(1, DROP), (1, CHECK), (1, CTX_DROP), (1, CTX_CHECK), (3, EXPECT), (2, EXPECT_MANY), (3, CALL), (6, MANY)],
                    mat: vec![(4, 0), (1, 1), (1, 2)],
                    times: vec![(1, 0), (2, 1), (6, 2), (2, 3), (3, 4), (1, 5), (1, 6), (2, 7)],
                    ret: vec![(6, 0), (1, 1)],
                    big: 60,
                    focus: (1, 2),
                    len: (2, 9),
                    ..def
                },
            ];
            p.spots.extend([Spot::ManyArgs, Spot::Closure, Spot::DynArgs, Spot::NonSend, Spot::Lifetimes]);
            p.diag = true;
            p.classes = &["over-call", "no-match", "call-without-expectation", "drop-unsatisfied", "sequence-violation", "ctx-drop-unsatisfied", "checkpoint-unsatisfied", "ctx-checkpoint-unsatisfied", "return-once-twice", "no-return-action"];
            p.rule = "random histories made to fail in every way; each panic message is compared with what the model says about the failure (function, argument values, matcher, counts, bounds); non-trivial: some call or end of life failed";
        }
        "C20" => {
            p.profs = vec![Prof {
                ops: vec![(1, NEW), (1, DROP), (1, CTX_NEW), (1, CTX_DROP), (6, EXPECT), (14, CALL)],
                ret: vec![(3, 0), (2, 1), (9, 7)],
                times: vec![(4, 0), (2, 1), (3, 2), (2, 4)],
                focus: (1, 3),
                ..def
            }];
            p.spots = vec![
                Spot::Plain, Spot::RefRet, Spot::MutRet, Spot::GenRet, Spot::Static, Spot::GenStatic, Spot::StaticRef, Spot::Closure, Spot::Concretize, Spot::NonSend,
                Spot::Receivers, Spot::GenStruct,
            ];
            p.classes = &["default-return", "no-return-action"];
            p.rule = "random histories with expectations that mostly lack a return action, on functions whose return types do or do not implement Default, built without and with the nightly feature; non-trivial: a call met such an expectation";
            p.units = 24;
            p.diag = true;
            let mut q = base();
            q.nightly = true;
            q.opts.nightly = true;
            q.profs = p.profs.clone();
            q.spots = p.spots.clone();
            q.classes = p.classes;
            q.rule = p.rule;
            q.diag = true;
            q.units = 32;
            return Some(scale(vec![p, q], thorough));
        }
        "C13" => {
            p.spots = SPOTS.to_vec();
            p.profs = vec![smoke()];
            p.opts.deco = 45;
            p.opts.twins = true;
            p.opts.max_funcs = 5;
            p.opts.frag = 20;
            p.compile_bad = true;
            p.warn_bad = true;
            p.units = 160;
            p.histories = 12;
            p.classes = &["served"];
            p.rule = "random declarations of every supported kind and feature, expanded and compiled under deny(warnings), together with twins: items of the identical signatures that forward to the mock, and then used in a few histories; non-trivial: a distinct history in which the compiled mock served a call";
            let mut q = p.clone();
            q.nightly = true;
            q.opts.nightly = true;
            q.units = 80;
            let mut r = p.clone();
            r.edition = "2024";
            r.opts.e2024 = true;
            r.units = 80;
            return Some(scale(vec![p, q, r], thorough));
        }
        "C14" => {
            p.spots = vec![Spot::Assoc, Spot::SelfTy, Spot::Assoc];
            p.profs = vec![smoke()];
            p.opts.twins = true;
            p.compile_bad = true;
            p.units = 90;
            p.histories = 60;
            p.classes = &["served"];
            p.rule = "random traits whose signatures use associated types and Self in every position, given by automock(type ..) or mock!, compiled against callers and closures written with the resolved types, then used in histories; non-trivial: a distinct history in which a call was served";
        }
        "C16" => {
            p.spots = vec![Spot::Closure, Spot::Concretize];
            p.profs = vec![
                Prof {
                    ops: vec![(1, NEW), (1, DROP), (1, CTX_NEW), (1, CTX_DROP), (1, CHECK), (7, EXPECT), (20, CALL)],
                    mat: vec![(2, 0), (3, 1), (5, 2), (2, 3)],
                    times: vec![(5, 0), (2, 1), (2, 2)],
                    focus: (1, 4),
                    near: 90,
                    ..def
                },
            ];
            p.compile_bad = true;
            p.opts.twins = true;
            p.units = 64;
            p.histories = 400;
            p.classes = &["served", "passed-over-mismatch", "no-match"];
            p.rule = "random functions with closure-typed or concretized generic arguments in every form, called with several concrete types, in random histories: the matchers' and actions' logs of the values seen through the trait object and the shared expectation list are compared with the model; non-trivial: a call was served or rejected by a matcher";
        }
        "C23" => {
            p.kinds = vec![Kind::Module, Kind::Ffi];
            p.spots = vec![Spot::Plain, Spot::RefArgs, Spot::MutArgs, Spot::NoArgs, Spot::ManyArgs, Spot::GenStatic, Spot::Closure, Spot::Concretize, Spot::Future, Spot::ImplRet, Spot::StaticRef, Spot::NonSend];
            p.profs = vec![
                Prof {
                    ops: vec![(3, CTX_NEW), (2, CTX_DROP), (2, CTX_CHECK), (2, MOD_CHECK), (9, EXPECT), (18, CALL)],
                    mat: vec![(4, 0), (2, 1)],
                    times: vec![(7, 0), (2, 1), (2, 2), (1, 7)],
                    focus: (2, 6),
                    near: 60,
                    ..def
                },
            ];
            p.opts.twins = true;
            p.opts.deco = 30;
            p.compile_bad = true;
            p.pair = 25;
            p.units = 64;
            p.histories = 300;
            p.classes = &["served", "module-checkpoint", "module-checkpoint-unsatisfied"];
            p.rule = "random modules of plain and foreign functions (all ABIs), compiled with twins of the same signature, coercions to function pointers of the expected ABI, and calls through the exported symbol, then used in histories; non-trivial: a call was served or the module was checkpointed";
        }
        "C24" => {
            p.spots = vec![Spot::Async, Spot::Future, Spot::ImplRet, Spot::Async];
            p.profs = vec![
                Prof {
                    ops: vec![(1, NEW), (1, DROP), (1, CTX_NEW), (1, CTX_DROP), (1, CHECK), (7, EXPECT), (18, CALL)],
                    mat: vec![(4, 0), (2, 1), (2, 2)],
                    times: vec![(5, 0), (2, 1), (2, 2)],
                    ret: vec![(6, 0), (3, 1), (3, 2), (2, 4), (2, 5), (1, 7), (1, 8)],
                    focus: (1, 3),
                    ..def
                },
            ];
            p.opts.twins = true;
            p.compile_bad = true;
            p.units = 56;
            p.histories = 300;
            p.classes = &["served", "over-call", "no-match"];
            p.rule = "random async, async_trait, boxed-future and impl Trait returning functions, awaited, iterated or called in random histories and compared with the model; non-trivial: a call was served, or refused";
        }
        _ => return None,
    }
    Some(scale(vec![p], thorough))
}

fn scale(mut v: Vec<Plan>, thorough: bool) -> Vec<Plan> {
    if thorough {
        for p in &mut v {
            p.units *= 6;
            p.histories *= 5;
            p.opts.max_funcs = 6;
            for f in &mut p.profs {
                f.len.1 = f.len.1 * 3 / 2;
            }
        }
    }
    v
}
