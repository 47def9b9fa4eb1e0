//! Types with a few distinguishable values: `Mk` makes the value of a code,
//! `Enc` gives the code back.
use std::{
    collections::{BTreeMap, VecDeque},
    ffi::{CStr, CString, OsStr, OsString},
    path::{Path, PathBuf},
    pin::Pin,
    rc::Rc,
    sync::Arc,
};

pub trait Enc {
    fn enc(&self) -> u64;
}
pub trait Mk: Sized {
    const K: u64;
    fn mk(c: u64) -> Self;
}

/// Code of anything, through any number of references
pub fn e<T: Enc + ?Sized>(t: &T) -> u64 {
    t.enc()
}
pub fn mk<T: Mk>(c: u64) -> T {
    T::mk(c)
}

macro_rules! int {
    ($($t:ty),*) => {$(
        impl Enc for $t { fn enc(&self) -> u64 { (*self as u64).checked_sub(7).filter(|v| *v < 900).unwrap_or(900) } }
        impl Mk for $t { const K: u64 = 4; fn mk(c: u64) -> Self { (c % 4 + 7) as $t } }
    )*}
}
int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, u128);
impl Enc for f64 {
    fn enc(&self) -> u64 {
        (*self * 2.0) as u64
    }
}
impl Mk for f64 {
    const K: u64 = 4;
    fn mk(c: u64) -> Self {
        (c % 4) as f64 / 2.0
    }
}
impl Enc for bool {
    fn enc(&self) -> u64 {
        *self as u64
    }
}
impl Mk for bool {
    const K: u64 = 2;
    fn mk(c: u64) -> Self {
        c % 2 == 1
    }
}
impl Enc for () {
    fn enc(&self) -> u64 {
        0
    }
}
impl Mk for () {
    const K: u64 = 1;
    fn mk(_: u64) -> Self {}
}
impl Enc for char {
    fn enc(&self) -> u64 {
        (*self as u64).checked_sub('a' as u64).unwrap_or(999)
    }
}
impl Mk for char {
    const K: u64 = 4;
    fn mk(c: u64) -> Self {
        (b'a' + (c % 4) as u8) as char
    }
}
impl Enc for str {
    fn enc(&self) -> u64 {
        STRS.iter().position(|s| *s == self).map_or(999, |i| i as u64)
    }
}
/// short, looking like a format string, long, and not ASCII
const STRS: [&str; 4] = [
    "s0",
    "{} {0:?}\n%s \"\\",
    "000 001 002 003 004 005 006 007 008 009 010 011 012 013 014 015 016 017 018 019 020 021 022 023 024 025 026 027 028 029 030 031 032 033 034 035 036 037 038 039 040 041 042 043 044 045 046 047 048 049 050 051 052 053 054 055 056 057 058 059 060 061 062 063 064 065 066 067 068 069 070 071 072 073 074 075 076 077 078 079 080 081 082 083 084 085 086 087 088 089 090 091 092 093 094 095 096 097 098 099 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179 end",
    "ß→é 名",
];
impl Mk for &'static str {
    const K: u64 = 4;
    fn mk(c: u64) -> Self {
        STRS[(c % 4) as usize]
    }
}
impl Mk for String {
    const K: u64 = 4;
    fn mk(c: u64) -> Self {
        STRS[(c % 4) as usize].to_string()
    }
}
impl Enc for String {
    fn enc(&self) -> u64 {
        self.as_str().enc()
    }
}
impl Enc for OsStr {
    fn enc(&self) -> u64 {
        self.to_str().unwrap().enc()
    }
}
impl Enc for OsString {
    fn enc(&self) -> u64 {
        self.as_os_str().enc()
    }
}
impl Mk for OsString {
    const K: u64 = 4;
    fn mk(c: u64) -> Self {
        String::mk(c).into()
    }
}
impl Enc for CStr {
    fn enc(&self) -> u64 {
        self.to_str().unwrap().enc()
    }
}
impl Enc for CString {
    fn enc(&self) -> u64 {
        self.as_c_str().enc()
    }
}
impl Mk for CString {
    const K: u64 = 4;
    fn mk(c: u64) -> Self {
        CString::new(String::mk(c)).unwrap()
    }
}
impl Enc for Path {
    fn enc(&self) -> u64 {
        self.to_str().unwrap().enc()
    }
}
impl Enc for PathBuf {
    fn enc(&self) -> u64 {
        self.as_path().enc()
    }
}
impl Mk for PathBuf {
    const K: u64 = 4;
    fn mk(c: u64) -> Self {
        String::mk(c).into()
    }
}
impl<T: Enc + ?Sized> Enc for &T {
    fn enc(&self) -> u64 {
        (**self).enc()
    }
}
impl<T: Mk + 'static> Mk for &'static T
where
    T: Sized,
{
    const K: u64 = T::K;
    fn mk(c: u64) -> Self {
        Box::leak(Box::new(T::mk(c)))
    }
}
impl<T: Enc + ?Sized> Enc for &mut T {
    fn enc(&self) -> u64 {
        (**self).enc()
    }
}
macro_rules! ptr {
    ($($p:ident),*) => {$(
        impl<T: Enc + ?Sized> Enc for $p<T> { fn enc(&self) -> u64 { (**self).enc() } }
        impl<T: Mk> Mk for $p<T> { const K: u64 = T::K; fn mk(c: u64) -> Self { $p::new(T::mk(c)) } }
    )*}
}
ptr!(Box, Rc, Arc);
impl<T: Enc + ?Sized> Enc for Pin<Box<T>> {
    fn enc(&self) -> u64 {
        (**self).enc()
    }
}
impl<T: Mk> Mk for Pin<Box<T>> {
    const K: u64 = T::K;
    fn mk(c: u64) -> Self {
        Box::pin(T::mk(c))
    }
}
impl<T: Enc> Enc for std::cell::RefCell<T> {
    fn enc(&self) -> u64 {
        self.borrow().enc()
    }
}
impl<T: Mk> Mk for std::cell::RefCell<T> {
    const K: u64 = T::K;
    fn mk(c: u64) -> Self {
        std::cell::RefCell::new(T::mk(c))
    }
}
impl<T: Enc> Enc for Option<T> {
    fn enc(&self) -> u64 {
        match self {
            None => 0,
            Some(t) => 1 + t.enc(),
        }
    }
}
impl<T: Mk> Mk for Option<T> {
    const K: u64 = if T::K + 1 > 4 { 4 } else { T::K + 1 };
    fn mk(c: u64) -> Self {
        match c % Self::K {
            0 => None,
            c => Some(T::mk(c - 1)),
        }
    }
}
impl<T: Enc, E: Enc> Enc for Result<T, E> {
    fn enc(&self) -> u64 {
        match self {
            Ok(t) => 2 * t.enc(),
            Err(t) => 2 * t.enc() + 1,
        }
    }
}
impl<T: Mk, E: Mk> Mk for Result<T, E> {
    const K: u64 = 2;
    fn mk(c: u64) -> Self {
        if c % 2 == 0 {
            Ok(T::mk(0))
        } else {
            Err(E::mk(0))
        }
    }
}
impl<T: Enc> Enc for [T] {
    /// base 4 digits of the elements above the length
    fn enc(&self) -> u64 {
        match self {
            [] => 0,
            [a] => 1 + a.enc(),
            _ => 900 + self.len() as u64,
        }
    }
}
impl<T: Enc> Enc for Vec<T> {
    fn enc(&self) -> u64 {
        self.as_slice().enc()
    }
}
impl<T: Mk> Mk for Vec<T> {
    const K: u64 = if T::K + 1 > 4 { 4 } else { T::K + 1 };
    fn mk(c: u64) -> Self {
        match c % Self::K {
            0 => vec![],
            c => vec![T::mk(c - 1)],
        }
    }
}
impl<T: Enc> Enc for VecDeque<T> {
    fn enc(&self) -> u64 {
        match self.front() {
            None => 0,
            Some(t) => 1 + t.enc(),
        }
    }
}
impl<T: Mk> Mk for VecDeque<T> {
    const K: u64 = if T::K + 1 > 4 { 4 } else { T::K + 1 };
    fn mk(c: u64) -> Self {
        Vec::<T>::mk(c).into()
    }
}
impl<K: Enc, V: Enc> Enc for BTreeMap<K, V> {
    fn enc(&self) -> u64 {
        match self.iter().next() {
            None => 0,
            Some((k, v)) => 1 + k.enc() + v.enc(),
        }
    }
}
impl<K: Mk + Ord, V: Mk> Mk for BTreeMap<K, V> {
    const K: u64 = if V::K + 1 > 4 { 4 } else { V::K + 1 };
    fn mk(c: u64) -> Self {
        match c % Self::K {
            0 => BTreeMap::new(),
            c => [(K::mk(0), V::mk(c - 1))].into_iter().collect(),
        }
    }
}
impl<T: Enc> Enc for [T; 2] {
    fn enc(&self) -> u64 {
        self[0].enc() + if self[1].enc() == 0 { 0 } else { 100 }
    }
}
impl<T: Mk> Mk for [T; 2] {
    const K: u64 = T::K;
    fn mk(c: u64) -> Self {
        [T::mk(c), T::mk(0)]
    }
}
impl<A: Enc, B: Enc> Enc for (A, B) {
    fn enc(&self) -> u64 {
        self.0.enc() + if self.1.enc() == 0 { 0 } else { 100 }
    }
}
impl<A: Mk, B: Mk> Mk for (A, B) {
    const K: u64 = A::K;
    fn mk(c: u64) -> Self {
        (A::mk(c), B::mk(0))
    }
}
impl<A: Enc> Enc for (A,) {
    fn enc(&self) -> u64 {
        self.0.enc()
    }
}
impl<A: Mk> Mk for (A,) {
    const K: u64 = A::K;
    fn mk(c: u64) -> Self {
        (A::mk(c),)
    }
}
impl<A: Enc, B: Enc, C: Enc> Enc for (A, B, C) {
    fn enc(&self) -> u64 {
        self.0.enc() + if self.1.enc() + self.2.enc() == 0 { 0 } else { 100 }
    }
}
impl<A: Mk, B: Mk, C: Mk> Mk for (A, B, C) {
    const K: u64 = A::K;
    fn mk(c: u64) -> Self {
        (A::mk(c), B::mk(0), C::mk(0))
    }
}
impl<T> Enc for std::marker::PhantomData<T> {
    fn enc(&self) -> u64 {
        0
    }
}
impl<T> Mk for std::marker::PhantomData<T> {
    const K: u64 = 1;
    fn mk(_: u64) -> Self {
        std::marker::PhantomData
    }
}

macro_rules! newtype {
    ($(#[$m:meta])* $n:ident) => {
        $(#[$m])*
        pub struct $n(pub u8);
        impl Enc for $n { fn enc(&self) -> u64 { self.0 as u64 } }
        impl Mk for $n { const K: u64 = 4; fn mk(c: u64) -> Self { $n((c % 4) as u8) } }
    };
}
newtype!(
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Hash)]
    Pt
);
newtype!(
    /// neither Debug nor Clone nor Default nor Eq
    Bare
);
newtype!(
    #[derive(Clone)]
    NoDebug
);

/// Without size
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Hash)]
pub struct Zst;
impl Enc for Zst {
    fn enc(&self) -> u64 {
        0
    }
}
impl Mk for Zst {
    const K: u64 = 1;
    fn mk(_: u64) -> Self {
        Zst
    }
}

/// Tells a value, or a clone of one, from a clone of a clone
#[derive(Default)]
pub struct Cl(pub u8, u8);
impl Clone for Cl {
    fn clone(&self) -> Self {
        Cl(self.0, self.1.saturating_add(1))
    }
}
impl PartialEq for Cl {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl std::fmt::Debug for Cl {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.debug_tuple("Cl").field(&self.0).finish()
    }
}
impl Enc for Cl {
    fn enc(&self) -> u64 {
        if self.1 < 2 { self.0 as u64 } else { 950 }
    }
}
impl Mk for Cl {
    const K: u64 = 4;
    fn mk(c: u64) -> Self {
        Cl((c % 4) as u8, 0)
    }
}

/// Two types of the same name, also for std::any::type_name
pub trait TwinOf {
    type T;
}
macro_rules! twin {
    ($t:ty) => {
        const _: () = {
            newtype!(
                #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Hash)]
                Twin
            );
            impl TwinOf for $t {
                type T = Twin;
            }
        };
    };
}
twin!(u8);
twin!(u16);
pub type TwinA = <u8 as TwinOf>::T;
pub type TwinB = <u16 as TwinOf>::T;

#[test]
fn twins() {
    use std::any::{type_name, TypeId};
    assert_eq!(type_name::<TwinA>(), type_name::<TwinB>());
    assert_ne!(TypeId::of::<TwinA>(), TypeId::of::<TwinB>());
}

/// Not Send
#[derive(Clone, Debug)]
pub struct Local(pub Rc<u8>);
impl Enc for Local {
    fn enc(&self) -> u64 {
        *self.0 as u64
    }
}
impl Mk for Local {
    const K: u64 = 4;
    fn mk(c: u64) -> Self {
        Local(Rc::new((c % 4) as u8))
    }
}

/// A generic user type
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Wrap<T>(pub T);
impl<T: Enc> Enc for Wrap<T> {
    fn enc(&self) -> u64 {
        self.0.enc()
    }
}
impl<T: Mk> Mk for Wrap<T> {
    const K: u64 = T::K;
    fn mk(c: u64) -> Self {
        Wrap(T::mk(c))
    }
}

/// A user type with a lifetime
#[derive(Clone, Debug, PartialEq)]
pub struct Lt<'a, T>(pub &'a T);
impl<T: Enc> Enc for Lt<'_, T> {
    fn enc(&self) -> u64 {
        self.0.enc()
    }
}
impl<T: Mk + 'static> Mk for Lt<'static, T> {
    const K: u64 = T::K;
    fn mk(c: u64) -> Self {
        Lt(mk(c))
    }
}

/// An object-safe trait
pub trait Val {
    fn val(&self) -> u64;
}
impl<T: Enc> Val for T {
    fn val(&self) -> u64 {
        self.enc()
    }
}
macro_rules! dynval {
    ($($t:ty),*) => {$(
        impl Mk for Box<$t> { const K: u64 = 4; fn mk(c: u64) -> Self { Box::new(Pt::mk(c)) } }
    )*}
}
dynval!(dyn Val, dyn Val + Send, dyn Val + Send + Sync);
macro_rules! encdyn {
    ($($t:ty),*) => {$(
        impl Enc for $t { fn enc(&self) -> u64 { self.val() } }
    )*}
}
encdyn!(dyn Val + '_, dyn Val + Send + '_, dyn Val + Send + Sync + '_);
impl std::fmt::Debug for dyn Val + Send + '_ {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Val({})", self.val())
    }
}

macro_rules! fns {
    ($($f:ident $c:expr),*) => {
        $(fn $f(x: u32) -> u32 { x + $c })*
    };
}
fns!(f0 0, f1 1, f2 2, f3 3);
impl Mk for fn(u32) -> u32 {
    const K: u64 = 4;
    fn mk(c: u64) -> Self {
        [f0 as fn(u32) -> u32, f1, f2, f3][(c % 4) as usize]
    }
}
impl Enc for fn(u32) -> u32 {
    fn enc(&self) -> u64 {
        self(0) as u64
    }
}
macro_rules! dynfn {
    ($($t:ty),*) => {$(
        impl Enc for $t { fn enc(&self) -> u64 { self(0) as u64 } }
        impl Mk for Box<$t> {
            const K: u64 = 4;
            fn mk(c: u64) -> Self { let c = (c % 4) as u32; Box::new(move |x| x + c) }
        }
    )*}
}
dynfn!(dyn Fn(u32) -> u32, dyn Fn(u32) -> u32 + Send, dyn Fn(u32) -> u32 + Send + Sync);

/// The value that a mutating closure stores into a `&mut` argument
pub fn bump<T: Mk + Enc>(t: &mut T) {
    *t = T::mk((t.enc() + 1) % T::K);
}

/// Code of a `Pt` from its Debug text
pub fn pt_of(s: &str) -> u64 {
    (0..4).find(|c| format!("{:?}", Pt::mk(*c)) == s).unwrap_or(999)
}
/// Result of a future that is ready
pub fn now<F: std::future::Future>(f: F) -> F::Output {
    futures::FutureExt::now_or_never(f).expect("future is ready")
}
pub fn first<T: Enc>(s: impl futures::Stream<Item = T>) -> u64 {
    let mut s = Box::pin(s);
    let r = now(futures::StreamExt::next(&mut s)).expect("an item").enc();
    assert!(now(futures::StreamExt::next(&mut s)).is_none(), "one item");
    r
}

pub trait SyncVal: Send + Sync {
    fn sval(&self) -> u64;
}
impl SyncVal for Pt {
    fn sval(&self) -> u64 {
        self.enc()
    }
}
impl Enc for dyn SyncVal + '_ {
    fn enc(&self) -> u64 {
        self.sval()
    }
}
impl Mk for Box<dyn SyncVal> {
    const K: u64 = 4;
    fn mk(c: u64) -> Self {
        Box::new(Pt::mk(c))
    }
}

// types that mention others in the positions of function types, trait
// arguments and associated types
impl<T: Mk + Enc> Enc for dyn Fn(T, u8) -> T + Send + Sync {
    fn enc(&self) -> u64 {
        self(T::mk(0), 0).enc()
    }
}
impl<T: Mk + 'static> Mk for Box<dyn Fn(T, u8) -> T + Send + Sync> {
    const K: u64 = T::K;
    fn mk(c: u64) -> Self {
        Box::new(move |_, _| T::mk(c))
    }
}
fn same<T>(t: T, _: u8) -> T {
    t
}
impl<T> Mk for fn(T, u8) -> T {
    const K: u64 = 1;
    fn mk(_: u64) -> Self {
        same::<T>
    }
}
impl<T: Mk + Enc> Enc for fn(T, u8) -> T {
    fn enc(&self) -> u64 {
        let t = self(T::mk(0), 0).enc();
        if t == T::mk(0).enc() {
            0
        } else {
            900
        }
    }
}
/// related to every type
pub trait Rel<X: ?Sized> {}
impl<T: ?Sized, X: ?Sized> Rel<X> for T {}
pub trait Tag<X> {
    fn tag(&self, _: Option<X>) -> u64;
}
impl<X> Tag<X> for Pt {
    fn tag(&self, _: Option<X>) -> u64 {
        self.enc()
    }
}
impl<X> Enc for dyn Tag<X> + Send + Sync {
    fn enc(&self) -> u64 {
        self.tag(None)
    }
}
impl<X> Mk for Box<dyn Tag<X> + Send + Sync> {
    const K: u64 = 4;
    fn mk(c: u64) -> Self {
        Box::new(Pt::mk(c))
    }
}
pub trait Has {
    type Out;
    fn get(&self) -> Self::Out;
}
pub struct Maker<T>(u64, std::marker::PhantomData<fn() -> T>);
impl<T: Mk> Has for Maker<T> {
    type Out = T;
    fn get(&self) -> T {
        T::mk(self.0)
    }
}
impl<T: Enc> Enc for dyn Has<Out = T> + Send + Sync {
    fn enc(&self) -> u64 {
        self.get().enc()
    }
}
impl<T: Mk + 'static> Mk for Box<dyn Has<Out = T> + Send + Sync> {
    const K: u64 = T::K;
    fn mk(c: u64) -> Self {
        Box::new(Maker(c % T::K, std::marker::PhantomData))
    }
}
