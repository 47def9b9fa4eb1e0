//! The mocks which the cases call
use crate::case::{Ret, Spec, Times};
use crate::sched::pause;
use mockall::*;

pub trait Val: Send + 'static {
    fn of(x: u32) -> Self;
    fn val(&self) -> u32;
}
macro_rules! val {
    ($($t:ty),*) => {$(impl Val for $t {
        fn of(x: u32) -> Self { x as $t }
        fn val(&self) -> u32 { *self as u32 }
    })*};
}
val!(u8, u16, u32);

#[automock]
#[allow(async_fn_in_trait)]
pub trait Tr {
    fn foo(&self, x: u32) -> u32;
    fn bar(&self, x: u32) -> &u32;
    fn gen<T: Val>(&self, t: T) -> u32;
    fn gref<T: Val>(&self, t: T) -> &u32;
    async fn afoo(&self, x: u32) -> u32;
    fn sfoo(x: u32) -> u32;
    fn sgen<T: Val>(t: T) -> u32;
}

pub trait Tr2 {
    fn foo2(&self, x: u32) -> u32;
    fn sfoo(x: u32) -> u32;
}
mock! {
    pub S<P: Send + 'static> {
        pub fn foo(&self, x: u32) -> u32;
        pub fn par(&self, x: u32) -> P;
    }
    impl<P: Send + 'static> Tr2 for S<P> {
        fn foo2(&self, x: u32) -> u32;
        fn sfoo(x: u32) -> u32;
    }
}

#[automock]
#[allow(dead_code)]
pub mod m {
    use super::Val;
    pub fn f(_x: u32) -> u32 {
        0
    }
    pub fn g<T: Val>(_t: T) -> u32 {
        0
    }
}

#[automock]
pub mod ffi {
    extern "C" {
        #[allow(dead_code)]
        pub fn conc_cfun(x: u32) -> u32;
    }
}

#[derive(Default)]
pub struct Objs {
    pub a: MockTr,
    pub b: MockTr,
    pub s: MockS<u32>,
}

pub struct Ctxs {
    sfoo: __mock_MockTr_Tr::__sfoo::Context,
    sgen: __mock_MockTr_Tr::__sgen::Context,
    s_sfoo: __mock_MockS_Tr2::__sfoo::Context<u32>,
    f: mock_m::__f::Context,
    g: mock_m::__g::Context,
    cfun: mock_ffi::__conc_cfun::Context,
}

impl Ctxs {
    pub fn new() -> Self {
        Ctxs {
            sfoo: MockTr::sfoo_context(),
            sgen: MockTr::sgen_context(),
            s_sfoo: MockS::<u32>::sfoo_context(),
            f: mock_m::f_context(),
            g: mock_m::g_context(),
            cfun: mock_ffi::conc_cfun_context(),
        }
    }
}

/// (name, object, function)
pub const SLOTS: &[(&str, usize, usize)] = &[
    ("a.foo", 1, 0),
    ("a.bar", 1, 1),
    ("a.gen::<u8>", 1, 2),
    ("a.gen::<u16>", 1, 2),
    ("a.gref::<u8>", 1, 3),
    ("a.gref::<u16>", 1, 3),
    ("a.afoo", 1, 4),
    ("b.foo", 2, 5),
    ("s.foo", 3, 6),
    ("s.foo2", 3, 7),
    ("s.par", 3, 8),
    ("Tr::sfoo", 0, 9),
    ("Tr::sgen::<u8>", 0, 10),
    ("Tr::sgen::<u16>", 0, 10),
    ("S::sfoo", 0, 11),
    ("m::f", 0, 12),
    ("m::g::<u8>", 0, 13),
    ("m::g::<u16>", 0, 13),
    ("ffi::conc_cfun", 0, 14),
];
pub fn returns_ref(slot: usize) -> bool {
    matches!(slot, 1 | 4 | 5)
}

macro_rules! common {
    ($e:expr, $s:expr, $t:ty, $seqs:expr) => {
        if let Some(mask) = $s.mask {
            let y = $s.yields;
            $e.withf(move |x: &$t| {
                if y {
                    pause();
                }
                mask >> x.val() & 1 == 1
            });
        }
        match $s.times {
            Times::Unset => {}
            Times::N(n) => {
                $e.times(n);
            }
            Times::Range(a, b) => {
                $e.times(a..=b);
            }
            Times::AtMost(n) => {
                $e.times(..=n);
            }
            Times::AtLeast(n) => {
                $e.times(n..);
            }
        }
        if let Some(q) = $s.seq {
            $e.in_sequence(&mut $seqs[q]);
        }
    };
}
macro_rules! owned {
    ($e:expr, $s:expr, $t:ty, $seqs:expr) => {{
        #[allow(unused_mut)]
        let mut e = $e;
        let (id, y) = ($s.id, $s.yields);
        let f = move |_: $t| {
            if y {
                pause();
            }
            id
        };
        match $s.ret {
            Ret::Returning => {
                e.returning(f);
            }
            Ret::Once => {
                e.return_once(f);
            }
            Ret::Const => {
                e.return_const(id);
            }
        }
        common!(e, $s, $t, $seqs);
    }};
}
macro_rules! refs {
    ($e:expr, $s:expr, $t:ty, $seqs:expr) => {{
        let e = $e;
        e.return_const($s.id);
        common!(e, $s, $t, $seqs);
    }};
}

pub fn expect(o: &mut Objs, c: &Ctxs, q: &mut [Sequence; 2], slot: usize, s: &Spec) {
    match slot {
        0 => owned!(o.a.expect_foo(), s, u32, q),
        1 => refs!(o.a.expect_bar(), s, u32, q),
        2 => owned!(o.a.expect_gen::<u8>(), s, u8, q),
        3 => owned!(o.a.expect_gen::<u16>(), s, u16, q),
        4 => refs!(o.a.expect_gref::<u8>(), s, u8, q),
        5 => refs!(o.a.expect_gref::<u16>(), s, u16, q),
        6 => owned!(o.a.expect_afoo(), s, u32, q),
        7 => owned!(o.b.expect_foo(), s, u32, q),
        8 => owned!(o.s.expect_foo(), s, u32, q),
        9 => owned!(o.s.expect_foo2(), s, u32, q),
        10 => owned!(o.s.expect_par(), s, u32, q),
        11 => owned!(c.sfoo.expect(), s, u32, q),
        12 => owned!(c.sgen.expect::<u8>(), s, u8, q),
        13 => owned!(c.sgen.expect::<u16>(), s, u16, q),
        14 => owned!(c.s_sfoo.expect(), s, u32, q),
        15 => owned!(c.f.expect(), s, u32, q),
        16 => owned!(c.g.expect::<u8>(), s, u8, q),
        17 => owned!(c.g.expect::<u16>(), s, u16, q),
        _ => owned!(c.cfun.expect(), s, u32, q),
    }
}

fn poll_once<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(r) => r,
        std::task::Poll::Pending => panic!("pending"),
    }
}

pub fn call(o: &Objs, slot: usize, x: u32) -> u32 {
    match slot {
        0 => o.a.foo(x),
        1 => *o.a.bar(x),
        2 => o.a.gen(u8::of(x)),
        3 => o.a.gen(u16::of(x)),
        4 => *o.a.gref(u8::of(x)),
        5 => *o.a.gref(u16::of(x)),
        6 => poll_once(o.a.afoo(x)),
        7 => o.b.foo(x),
        8 => o.s.foo(x),
        9 => o.s.foo2(x),
        10 => o.s.par(x),
        11 => MockTr::sfoo(x),
        12 => MockTr::sgen(u8::of(x)),
        13 => MockTr::sgen(u16::of(x)),
        14 => MockS::<u32>::sfoo(x),
        15 => mock_m::f(x),
        16 => mock_m::g(u8::of(x)),
        17 => mock_m::g(u16::of(x)),
        _ => unsafe { mock_ffi::conc_cfun(x) },
    }
}

pub fn checkpoint_obj(o: &mut Objs, k: usize) {
    match k {
        1 => o.a.checkpoint(),
        2 => o.b.checkpoint(),
        _ => o.s.checkpoint(),
    }
}

pub fn checkpoint_fn(c: &Ctxs, f: usize) {
    match f {
        9 => c.sfoo.checkpoint(),
        10 => c.sgen.checkpoint(),
        11 => c.s_sfoo.checkpoint(),
        12 => c.f.checkpoint(),
        13 => c.g.checkpoint(),
        _ => c.cfun.checkpoint(),
    }
}
