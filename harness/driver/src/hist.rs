//! Random histories: proptest strategies over the rows that the runner
//! interprets (see rt::run and rt::spec for their meaning).
use proptest::prelude::*;
use proptest::strategy::Union;

/// kinds of steps, as in rt::run::opk
pub mod op {
    pub const NEW: u16 = 0;
    pub const DROP: u16 = 1;
    pub const CHECK: u16 = 2;
    pub const CTX_NEW: u16 = 3;
    pub const CTX_DROP: u16 = 4;
    pub const CTX_CHECK: u16 = 5;
    pub const MOD_CHECK: u16 = 6;
    pub const EXPECT: u16 = 7;
    pub const CALL: u16 = 8;
    pub const UNWIND: u16 = 9;
    pub const CALL_THREAD: u16 = 10;
    pub const CALL_UNWIND: u16 = 11;
    pub const DEBUG: u16 = 12;
    pub const MANY: u16 = 13;
    pub const EXPECT_MANY: u16 = 14;
    pub const CALL_NESTED: u16 = 15;
}

pub type Row = Vec<u16>;

/// What the histories of a property are made of
#[derive(Clone, Debug)]
pub struct Prof {
    pub ops: Vec<(u32, u16)>,
    /// matcher categories (rt::spec::m)
    pub mat: Vec<(u32, u16)>,
    /// times categories (rt::spec::t; 10, 11 backwards ranges)
    pub times: Vec<(u32, u16)>,
    /// return categories (rt::spec::r)
    pub ret: Vec<(u32, u16)>,
    /// percentage of expectations in a sequence
    pub seq: u32,
    /// percentage of expectations some part of which is set twice
    pub over: u32,
    /// percentage of extreme bounds
    pub extreme: u32,
    /// percentage of bounds that are large, but can be reached
    pub big: u32,
    pub len: (usize, usize),
    /// number of methods (slots) in use
    pub focus: (usize, usize),
    /// percentage of the further slots being neighbours of the first
    pub near: u32,
    /// percentage of masks accepting everything or nothing
    pub plain_masks: u32,
}

impl Default for Prof {
    fn default() -> Self {
        use op::*;
        Prof {
            ops: vec![(1, NEW), (1, DROP), (1, CTX_NEW), (1, CTX_DROP), (8, EXPECT), (20, CALL)],
            mat: vec![(3, 0), (4, 1), (3, 2), (1, 3)],
            times: vec![(4, 0), (3, 1), (4, 2), (2, 3), (2, 4), (1, 5), (1, 6), (1, 7), (1, 8), (1, 9)],
            ret: vec![(6, 0), (3, 1), (2, 2), (1, 3), (1, 4), (1, 5), (1, 6)],
            seq: 0,
            over: 5,
            extreme: 0,
            big: 0,
            len: (4, 36),
            focus: (1, 3),
            near: 60,
            plain_masks: 10,
        }
    }
}

fn cat(v: &[(u32, u16)]) -> BoxedStrategy<u16> {
    Union::new_weighted(v.iter().filter(|x| x.0 > 0).map(|(w, k)| (*w, Just(*k).boxed())).collect()).boxed()
}
fn pct(p: u32) -> BoxedStrategy<bool> {
    prop::bool::weighted((p as f64 / 100.0).clamp(0.0, 1.0)).boxed()
}

fn mask(plain: u32) -> BoxedStrategy<u16> {
    // bits 0, 1: any or not (With); the rest is the mask
    prop_oneof![
        (100 - plain) => any::<u16>(),
        plain => prop_oneof![Just(0u16), Just(0xfffd), Just(0x0001)],
    ]
    .boxed()
}

fn bound(extreme: u32, big: u32) -> BoxedStrategy<u16> {
    prop_oneof![
        big * 9 => prop_oneof![12 => 60001u16..60010, 1 => 60010u16..60013],
        (100 - extreme) * 8 => 0u16..4,
        (100 - extreme) => 4u16..8,
        extreme * 9 => prop_oneof![Just(65535u16), Just(65534), Just(65533)],
    ]
    .boxed()
}

fn expect_row(p: &Prof, kind: u16) -> BoxedStrategy<Row> {
    (
        (0u16..12, 0u16..6, cat(&p.mat), prop::collection::vec(mask(p.plain_masks), 5)),
        (cat(&p.times), bound(p.extreme, p.big), bound(p.extreme, p.big)),
        (cat(&p.ret), 0u16..8, any::<u16>(), 0u16..2),
        (pct(p.seq), 0u16..3),
        (pct(p.over), 1u16..8, prop::collection::vec(any::<u16>(), 4), 0u16..3),
    )
        .prop_map(move |((sl, ob, m, md), (t, a, b), (r, r0, r1, r2), (sq, si), (ov, of, od, ord))| {
            let mut v = vec![kind, sl, ob, m];
            v.extend(md); // 4..9
            v.extend([t, a, b, r, r0, r1, r2, 0, sq as u16, si, if ov { of } else { 0 }]);
            v.extend(od);
            v.push(ord);
            v
        })
        .boxed()
}

fn step_row(kind: u16) -> BoxedStrategy<Row> {
    let args = prop_oneof![3 => 0u16..4, 1 => 0u16..32];
    (0u16..12, 0u16..6, any::<u16>(), prop::collection::vec(args, 0..15))
        .prop_map(move |(s, o, m, a)| {
            let mut v = vec![kind, s, o, m];
            v.extend(a);
            v
        })
        .boxed()
}

pub fn history(p: &Prof) -> BoxedStrategy<Vec<Row>> {
    let row = Union::new_weighted(
        p.ops
            .iter()
            .filter(|x| x.0 > 0)
            .map(|(w, k)| (*w, if *k == op::EXPECT || *k == op::EXPECT_MANY { expect_row(p, *k) } else { step_row(*k) }))
            .collect(),
    );
    let delta = prop_oneof![p.near => 1u16..4, 100 - p.near => any::<u16>()];
    let (lo, hi) = p.focus;
    (
        (lo as u16 - 1)..(hi as u16),
        any::<u16>(),
        prop::collection::vec(delta, hi.max(1) - 1),
        prop::collection::vec(row, p.len.0..=p.len.1),
    )
        .prop_map(|(n, base, d, rows)| {
            let mut h = vec![n, base];
            h.extend(d);
            let mut v = vec![h];
            v.extend(rows);
            v
        })
        .boxed()
}

pub fn encode(rows: &[Row]) -> String {
    rows.iter()
        .map(|r| {
            // trailing zeros are implied
            let n = r.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
            r[..n].iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(",")
        })
        .collect::<Vec<_>>()
        .join(";")
}
