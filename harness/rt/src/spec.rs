//! Decodes the raw numbers of an Expect step into a specification that is
//! valid for its slot.
use crate::model::*;

/// Row layout of an Expect step (all raw):
/// 3: matcher category   4..9: matcher data
/// 9: times category     10, 11: bounds
/// 12: return category   13..17: data
/// 17: sequence category 18: which
/// 19: override flags    20..24: overridden data
/// 24: order
pub const LEN: usize = 25;

pub mod m {
    pub const ANY: u16 = 0;
    pub const WITH: u16 = 1;
    pub const WITHF: u16 = 2;
    pub const WITHF_ST: u16 = 3;
    /// a withf closure that panics for some arguments
    pub const BOOM: u16 = 4;
}
pub mod t {
    pub const NONE: u16 = 0;
    pub const ONCE: u16 = 1;
    pub const N: u16 = 2;
    pub const RANGE: u16 = 3;
    pub const RANGE_INCL: u16 = 4;
    pub const FROM: u16 = 5;
    pub const TO: u16 = 6;
    pub const TO_INCL: u16 = 7;
    pub const FULL: u16 = 8;
    pub const NEVER: u16 = 9;
}
pub mod r {
    pub const RETURNING: u16 = 0;
    pub const CONST: u16 = 1;
    pub const ONCE: u16 = 2;
    pub const VAR: u16 = 3;
    pub const RETURNING_ST: u16 = 4;
    pub const CONST_ST: u16 = 5;
    pub const ONCE_ST: u16 = 6;
    pub const NONE: u16 = 7;
    pub const PANICS: u16 = 8;
}

/// bounds: 0..=4 are themselves, above come the extreme values
fn bound(x: u16) -> usize {
    match x {
        0..=9 => x as usize,
        65535 => usize::MAX,
        65534 => usize::MAX - 1,
        65533 => 1 << 32,
        60001..=60012 => [127, 128, 129, 254, 255, 256, 257, 300, 1000, 65535, 65536, 65537][x as usize - 60001],
        x => x as usize % 5,
    }
}

fn matcher(sm: &SlotMeta, cat: u16, d: &[u16]) -> Matcher {
    let g = |i: usize| d.get(i).copied().unwrap_or(0);
    let n = sm.args.len();
    match cat {
        m::WITH if sm.has_with => Matcher::With(
            (0..n)
                .map(|i| {
                    // there are five masks
                    let x = g(i % 5).rotate_left(i as u32 / 5 * 3);
                    if x % 4 == 0 {
                        Pred::Any
                    } else {
                        Pred::Mask((x as u64 >> 2) & ((1 << sm.args[i].k.min(8)) - 1))
                    }
                })
                .collect(),
        ),
        m::WITH | m::WITHF | m::WITHF_ST | m::BOOM => Matcher::Fun {
            w: (0..n).map(|i| (g(0) as u64 >> (2 * (i % 8))) % 4).collect(),
            mask: g(1) as u64 % 256 | if cat == m::BOOM { (g(2) as u64 % 256) << 8 } else { 0 },
            st: cat == m::WITHF_ST,
        },
        _ => Matcher::Any,
    }
}

fn times(cat: u16, a: u16, b: u16) -> Option<TimesForm> {
    let (a, b) = (bound(a), bound(b));
    Some(match cat {
        t::ONCE => TimesForm::Once,
        t::N => TimesForm::N(a),
        t::RANGE => TimesForm::Range(a, a.saturating_add(b)),
        t::RANGE_INCL => TimesForm::RangeIncl(a, a.saturating_add(b)),
        t::FROM => TimesForm::From(a),
        t::TO => TimesForm::To(a),
        t::TO_INCL => TimesForm::ToIncl(a),
        t::FULL => TimesForm::Full,
        t::NEVER => TimesForm::Never,
        // backwards
        10 => TimesForm::Range(a.saturating_add(b), a),
        11 => TimesForm::RangeIncl(a.saturating_add(b), a),
        _ => return None,
    })
}

fn ret(sm: &SlotMeta, cat: u16, d: &[u16]) -> Option<Ret> {
    let g = |i: usize| d.get(i).copied().unwrap_or(0);
    let k = sm.ret_k.max(1);
    let f = RetFn {
        base: g(0) as u64 % k,
        w: (0..sm.args.len()).map(|i| (g(1) as u64 >> (2 * (i % 8))) % 4).collect(),
        write: g(2) % 2 == 1 && sm.can_write && sm.args.iter().any(|a| a.mutref),
        panics: cat == r::PANICS,
    };
    let code = g(0) as u64 % k;
    if cat == r::NONE {
        return None;
    }
    Some(match sm.ref_kind {
        RefKind::Ref => Ret::Const { code, st: false },
        RefKind::RefMut => match cat {
            r::CONST | r::VAR | r::CONST_ST | r::ONCE => Ret::Var { code },
            r::RETURNING_ST | r::ONCE_ST => Ret::Returning { f, st: true },
            _ => Ret::Returning { f, st: !sm.ret_send },
        },
        RefKind::Owned => match cat {
            r::CONST | r::VAR if sm.ret_clone => Ret::Const { code, st: !sm.ret_send },
            r::CONST_ST if sm.ret_clone => Ret::Const { code, st: true },
            r::ONCE => Ret::Once { f, st: false },
            r::ONCE_ST => Ret::Once { f, st: true },
            r::RETURNING_ST | r::CONST_ST => Ret::Returning { f, st: true },
            _ => Ret::Returning { f, st: false },
        },
    })
}

pub fn decode(meta: &Meta, slot: usize, id: usize, row: &[u16]) -> Spec {
    let sm = &meta.slots[slot];
    let g = |i: usize| row.get(i).copied().unwrap_or(0);
    let tail = |i: usize| row.get(i..).unwrap_or(&[]);
    let mut mods = vec![];
    let over = g(19);
    // parts that are overridden by later ones
    if over & 1 == 1 {
        mods.push(Mod::Match(matcher(sm, 1 + g(20) % 3, tail(21))));
    }
    if over & 2 == 2 {
        if let Some(t) = times(1 + g(20) % 8, g(21) % 5, 1 + g(22) % 4) {
            if t.bounds().is_some() {
                mods.push(Mod::Times(t));
            }
        }
    }
    if over & 4 == 4 {
        if let Some(r) = ret(sm, g(20) % 7, tail(21)) {
            mods.push(Mod::Ret(r));
        }
    }
    let mut main = vec![];
    let mm = matcher(sm, g(3), tail(4));
    if mm != Matcher::Any {
        main.push(Mod::Match(mm));
    } else {
        // a matcher cannot be unset
        mods.retain(|m| !matches!(m, Mod::Match(_)));
    }
    if let Some(r) = ret(sm, g(12), tail(13)) {
        main.push(Mod::Ret(r));
    }
    let mut tail_mods = vec![];
    if let Some(t) = times(g(9), g(10), g(11)) {
        tail_mods.push(Mod::Times(t));
    } else if g(17) != 0 {
        tail_mods.push(Mod::Times(TimesForm::Once));
    }
    if g(17) != 0 {
        tail_mods.push(Mod::Seq(g(18) as usize % crate::run::N_SEQ));
    }
    // times before in_sequence; otherwise any order
    match g(24) % 3 {
        0 => {
            mods.extend(main);
            mods.extend(tail_mods);
        }
        1 => {
            mods.extend(tail_mods);
            mods.extend(main);
        }
        _ => {
            main.reverse();
            let at = main.len().min(1);
            let rest = main.split_off(at);
            mods.extend(main);
            mods.extend(tail_mods);
            mods.extend(rest);
        }
    }
    Spec { id, mods }
}
