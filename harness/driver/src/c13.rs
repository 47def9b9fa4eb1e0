//! Functions with named lifetimes at every place of every argument and return
//! type that mockall supports. Each declaration is compiled without warnings
//! and the mock is used.
use crate::cases::*;
use crate::g::G;

const COMMON: &str = r#"
pub static K: u32 = 5;
pub static KS: [u32; 2] = [2, 3];
pub static KR: &u32 = &K;
pub struct Lt<'a>(pub &'a u32);
pub struct Lt2<'a, 'b, T>(pub &'a u32, pub &'b u32, pub T);
pub trait Tl<'a> { fn g(&self) -> u32; }
pub trait Tg<T> { fn g(&self, t: T) -> u32; }
pub trait Ta { type A; type B; fn a(&self) -> u32; }
pub struct W;
impl<'a> Tl<'a> for W { fn g(&self) -> u32 { 7 } }
impl<T> Tg<T> for W { fn g(&self, _t: T) -> u32 { 8 } }
pub struct V<T, U>(pub std::marker::PhantomData<fn(T) -> U>);
impl<T, U> Ta for V<T, U> { type A = T; type B = U; fn a(&self) -> u32 { 9 } }
pub struct Cn<T, const N: usize>(pub [T; N]);
pub trait Rd { fn rd(&self) -> u32; }
impl Rd for u32 { fn rd(&self) -> u32 { *self } }
impl Rd for str { fn rd(&self) -> u32 { self.len() as u32 } }
impl<'a> Rd for Lt<'a> { fn rd(&self) -> u32 { *self.0 + 1 } }
impl<'a, 'b, T: Rd> Rd for Lt2<'a, 'b, T> { fn rd(&self) -> u32 { *self.0 + 10 * *self.1 + self.2.rd() } }
impl<'a> Rd for std::borrow::Cow<'a, str> { fn rd(&self) -> u32 { self.len() as u32 } }
impl<T: Rd> Rd for [T] { fn rd(&self) -> u32 { self.iter().map(|x| x.rd()).sum() } }
impl<T: Rd, const N: usize> Rd for [T; N] { fn rd(&self) -> u32 { self[..].rd() + 1 } }
impl<T: Rd, const N: usize> Rd for Cn<T, N> { fn rd(&self) -> u32 { self.0.rd() } }
impl<T: Rd> Rd for Vec<T> { fn rd(&self) -> u32 { self[..].rd() + 2 } }
impl<T: Rd> Rd for Option<T> { fn rd(&self) -> u32 { self.as_ref().map_or(0, |x| x.rd()) } }
impl<T: Rd, U: Rd> Rd for (T, U) { fn rd(&self) -> u32 { self.0.rd() + 3 * self.1.rd() } }
impl<T: Rd, U> Rd for Result<T, U> { fn rd(&self) -> u32 { self.as_ref().map_or(0, |x| x.rd()) } }
impl<T: Rd + ?Sized> Rd for Box<T> { fn rd(&self) -> u32 { (**self).rd() } }
impl<'a, T: Rd + ?Sized> Rd for &'a T { fn rd(&self) -> u32 { (**self).rd() } }
impl<'a, T: Rd + ?Sized> Rd for &'a mut T { fn rd(&self) -> u32 { (**self).rd() } }
impl<T> Rd for *const T { fn rd(&self) -> u32 { if self.is_null() { 0 } else { 4 } } }
impl<'a, 'b> Rd for dyn Tl<'a> + 'b { fn rd(&self) -> u32 { self.g() } }
impl<'b, T> Rd for dyn Tg<T> + 'b { fn rd(&self) -> u32 { 8 } }
impl<'b, A, B> Rd for dyn Ta<A = A, B = B> + 'b { fn rd(&self) -> u32 { self.a() } }
impl<'b, T> Rd for dyn Iterator<Item = T> + 'b { fn rd(&self) -> u32 { self.size_hint().0 as u32 } }
"#;

/// A type, an expression of a value of it with 'static for each lifetime
struct T {
    ty: String,
    val: String,
}

/// the lifetime, or rarely 'static beside it
fn lt(g: &mut G, lts: &[&str]) -> String {
    lts[g.n(lts.len())].to_string()
}

fn ty(g: &mut G, lts: &[&str], depth: u32, cls: &mut Vec<String>, top: bool) -> T {
    let l = lt(g, lts);
    let mk = |ty: String, val: &str| T { ty, val: val.into() };
    // an elided lifetime in a nested position is not supported
    let k = if depth == 0 { g.n(5) } else { g.n(21) };
    let mut put = |s: &str| cls.push(format!("lifetime in {s}"));
    match k {
        0 => {
            put("a reference");
            mk(format!("&{l} u32"), "&K")
        }
        1 => {
            put("a reference to str");
            mk(format!("&{l} str"), "\"abcd\"")
        }
        2 => {
            put("a struct");
            mk(format!("Lt<{l}>"), "Lt(&K)")
        }
        3 => {
            put("a path");
            mk(format!("std::borrow::Cow<{l}, str>"), "std::borrow::Cow::Borrowed(\"xyz\")")
        }
        4 => {
            put("a slice of numbers");
            mk(format!("&{l} [u32]"), "&KS")
        }
        5 | 6 => {
            put("an array");
            let i = ty(g, lts, depth - 1, cls, false);
            mk(format!("[{}; 2]", i.ty), &format!("[{}, {}]", i.val, i.val))
        }
        7 => {
            put("a tuple");
            let i = ty(g, lts, depth - 1, cls, false);
            if g.p(50) {
                mk(format!("({}, u32)", i.ty), &format!("({}, 2u32)", i.val))
            } else {
                mk(format!("(u32, {})", i.ty), &format!("(2u32, {})", i.val))
            }
        }
        8 => {
            put("a type argument");
            let i = ty(g, lts, depth - 1, cls, false);
            mk(format!("Option<{}>", i.ty), &format!("Some({})", i.val))
        }
        9 => {
            put("a type argument");
            let i = ty(g, lts, depth - 1, cls, false);
            mk(format!("Vec<{}>", i.ty), &format!("vec![{}]", i.val))
        }
        10 => {
            put("a type argument");
            let i = ty(g, lts, depth - 1, cls, false);
            mk(format!("Result<{}, u8>", i.ty), &format!("Ok({})", i.val))
        }
        11 => {
            put("a slice in a box");
            let i = ty(g, lts, depth - 1, cls, false);
            mk(format!("Box<[{}]>", i.ty), &format!("{{ let v: Vec<{}> = vec![{}]; v }}.into_boxed_slice()", sta(&i.ty), i.val))
        }
        12 => {
            put("a type argument beside a constant");
            let i = ty(g, lts, depth - 1, cls, false);
            mk(format!("Cn<{}, 1>", i.ty), &format!("Cn([{}])", i.val))
        }
        13 | 14 => {
            put("an associated type of a trait object");
            let i = ty(g, lts, depth - 1, cls, false);
            let b = if g.p(40) { format!(" + {l}") } else { String::new() };
            mk(format!("Box<dyn Iterator<Item = {}>{b}>", i.ty), &format!("Box::new({{ let v: Vec<{}> = vec![{}]; v }}.into_iter())", sta(&i.ty), i.val))
        }
        15 => {
            put("two associated types of a trait object");
            let i = ty(g, lts, depth - 1, cls, false);
            let j = ty(g, lts, 0, cls, false);
            mk(format!("Box<dyn Ta<A = {}, B = {}>>", i.ty, j.ty), &format!("Box::new(V::<{}, {}>(std::marker::PhantomData))", sta(&i.ty), sta(&j.ty)))
        }
        16 => {
            put("a trait object");
            let b = ["", " + 'static", ""][g.n(3)];
            let b = if g.p(40) { format!(" + {l}") } else { b.to_string() };
            mk(format!("Box<dyn Tl<{l}>{b}>"), "Box::new(W)")
        }
        17 => {
            put("the bound of a trait object");
            if g.p(50) {
                mk(format!("Box<dyn Tl<'static> + {l}>"), "Box::new(W)")
            } else {
                mk(format!("Box<(dyn Tl<'static> + {l})>"), "Box::new(W)")
            }
        }
        18 => {
            put("a type argument of a trait object");
            let i = ty(g, lts, depth - 1, cls, false);
            mk(format!("Box<dyn Tg<{}>>", i.ty), "Box::new(W)")
        }
        19 => {
            put("two lifetimes and a type");
            let i = ty(g, lts, depth - 1, cls, false);
            let m = lt(g, lts);
            mk(format!("Lt2<{l}, {m}, {}>", i.ty), &format!("Lt2(&K, &K, {})", i.val))
        }
        _ if top => {
            put("a pointer");
            let i = ty(g, lts, depth - 1, cls, false);
            mk(format!("*const {}", i.ty), "std::ptr::null()")
        }
        _ => {
            put("nested references");
            mk(format!("&{l} &{l} u32"), "&KR")
        }
    }
}

struct Ret {
    ty: String,
    val: String,
    check: String,
}

/// A return type with a lifetime of no argument in some covariant places
fn ret_ty(g: &mut G, l: &str, cls: &mut Vec<String>) -> Ret {
    let mk = |t: T| {
        let check = format!("{{ let w: {} = {}; r.rd() == w.rd() }}", sta(&t.ty), t.val);
        Ret { ty: t.ty, val: t.val, check }
    };
    if g.p(12) {
        let (b, v) = *g.pick(&[("Ta<A = u32, B = u8>", "V::<u32, u8>(std::marker::PhantomData)"), ("Iterator<Item = u32>", "vec![1u32, 2].into_iter()")]);
        let t = T { ty: format!("Box<dyn {b} + {l}>"), val: format!("Box::new({v})") };
        return mk(if g.p(50) { t } else { T { ty: format!("Option<{}>", t.ty), val: format!("Some({})", t.val) } });
    }
    for _ in 0..6 {
        let d = g.n(3) as u32;
        let t = ty(g, &[l], d, cls, true);
        // references are another kind of result; trait objects are invariant
        if !t.ty.contains("dyn") && !t.ty.starts_with('&') {
            return mk(t);
        }
    }
    mk(T { ty: format!("Vec<Lt<{l}>>"), val: "vec![Lt(&K)]".into() })
}

/// with 'static
fn sta(t: &str) -> String {
    t.replace("'_", "'static").replace("'a ", "'static ").replace("'b ", "'static ").replace("'a", "'static").replace("'b", "'static")
}

fn case(g: &mut G, _i: usize) -> Case {
    let kind = g.n(5);
    let mut cls = vec![["trait", "mock!", "impl", "module", "mock! of a trait"][kind].to_string()];
    let mut decl = String::new();
    let mut body = String::new();
    let nf = 1 + g.n(3);
    for i in 0..nf {
        let n = format!("f{i}");
        let two = g.p(40);
        let decls = if two { ["'a, 'b", "'b, 'a", "'a, 'b: 'a"][g.w(&[(3, 0), (2, 1), (2, 2)])] } else { "'a" };
        // a lifetime of the return type only
        let ret_lt = g.p(15);
        let argl: &[&str] = if two && !ret_lt { &["'a", "'b"] } else { &["'a"] };
        let stat = kind == 3 || g.p(20);
        let recv = if stat { "" } else { ["&self", "&'a self", "&mut self", "&'a mut self", "self: &Self"][g.w(&[(4, 0), (2, 1), (2, 2), (1, 3), (0, 4)])] };
        let na = 1 + g.n(3);
        let mut params = vec![];
        let mut vals = vec![];
        let mut used = recv.contains("'a");
        for j in 0..na {
            let depth = g.n(3) as u32;
            let mut t = if g.p(25) { T { ty: "u32".into(), val: "3".into() } } else { ty(g, argl, depth, &mut cls, true) };
            if t.ty == "&'a u32" && g.p(20) {
                t = T { ty: "&'a mut u32".into(), val: "Box::leak(Box::new(5))".into() };
                cls.push("lifetime in a mutable reference".into());
            }
            used |= t.ty.contains('\'');
            params.push(format!("x{j}: {}", t.ty));
            vals.push(t.val);
        }
        let ret_elided = !ret_lt && !stat && !recv.contains("'a") && g.p(25);
        let rt;
        let (ret, rv, rd) = if ret_elided || ret_lt && two && !stat {
            rt = ret_ty(g, if ret_elided { "'_" } else { "'b" }, &mut cls);
            (rt.ty.as_str(), rt.val.as_str(), rt.check.as_str())
        } else {
            match g.n(3) {
                0 => ("u32", "11", "r == 11"),
                1 => ("String", "String::from(\"s\")", "r == \"s\""),
                _ => ("", "()", "r == ()"),
            }
        };
        let decls = if ret.contains("'b") { "'a, 'b" } else { decls };
        if ret.contains("'b") || ret.contains("'_") {
            cls.push("lifetime in the return type".into());
        }
        let two_used = decls.contains("'b") && (ret.contains("'b") || params.iter().any(|p| p.contains("'b")));
        // a lifetime must be used somewhere to be of a supported function
        let decls = if decls.contains("'b") && !two_used { "'a" } else { decls };
        let gen = if used || decls.contains("'b") { format!("<{decls}>") } else { String::new() };
        let wh = if two_used && !decls.contains(':') && !ret.contains("'b") && g.p(20) { " where 'a: 'b" } else { "" };
        let arrow = if ret.is_empty() { String::new() } else { format!(" -> {ret}") };
        let recv = if recv.contains("'a") && params.iter().any(|p| p.contains("dyn")) { "&self" } else { recv };
        let all = if recv.is_empty() { params.join(", ") } else { format!("{recv}, {}", params.join(", ")) };
        let b = if kind == 2 || kind == 3 { " { unimplemented!() }" } else { ";" };
        let vis = if matches!(kind, 0 | 4) { "" } else { "pub " };
        decl += &format!("    {vis}fn {n}{gen}({all}){arrow}{wh}{b}\n");
        // a use
        let names: Vec<String> = (0..na).map(|j| format!("x{j}")).collect();
        let under: Vec<String> = (0..na).map(|j| format!("_x{j}")).collect();
        let mkargs = |vals: &[String]| vals.join(", ");
        let m = ["MockFoo", "MockFoo", "MockFoo", "mock_md", "MockFoo"][kind];
        let want = format!("u{i}");
        let sum = names.iter().map(|x| format!("{x}.rd()")).collect::<Vec<_>>().join(" + 2 * ");
        let lets = names.iter().zip(&params).map(|(x, p)| format!("let {x}: {} = {};", sta(p.split_once(": ").unwrap().1).replace("&'static mut ", "&mut "), vals[x[1..].parse::<usize>().unwrap()])).collect::<Vec<_>>().join(" ");
        let sum2 = sum.clone();
        body += &format!("    let {want}: u32 = {{ {lets} {sum2} }};\n");
        let owner = if stat {
            body += &format!("    let c = {m}::{n}_context();\n");
            "c.expect()".to_string()
        } else {
            format!("m.expect_{n}()")
        };
        let act = match g.n(3) {
            0 => format!(".returning(|{}| {rv})", under.join(", ")),
            1 => format!(".return_once(|{}| {rv})", under.join(", ")),
            _ => format!(".returning(move |{}| {{ assert_eq!({sum}, {want}); {rv} }})", names.join(", ")),
        };
        let filt = match g.n(3) {
            0 => String::new(),
            _ => format!(".withf(move |{}| {sum} == {want})", names.join(", ")),
        };
        body += &format!("    {owner}{filt}.times(1){act};\n");
        let callee = if !stat {
            if kind == 4 || kind == 0 { format!("m.{n}(") } else { format!("m.{n}(") }
        } else if kind == 0 {
            format!("<MockFoo as Foo>::{n}(")
        } else if kind == 4 {
            format!("<MockFoo as Tr>::{n}(")
        } else {
            format!("{m}::{n}(")
        };
        body += &format!("    {{ #[allow(clippy::all)] let r = {callee}{}); assert!({rd}); }}\n", mkargs(&vals));
        if stat {
            body += "    drop(c);\n";
        }
    }
    let mut s = String::from("#![deny(warnings)]\n#![allow(dead_code, unused_variables, clippy::all)]\nuse mockall::*;\n");
    s += COMMON;
    s += &match kind {
        0 => format!("#[automock]\npub trait Foo {{\n{decl}}}\n"),
        1 => format!("mock! {{ pub Foo {{\n{decl}}} }}\n"),
        2 => format!("pub struct Foo;\n#[automock]\nimpl Foo {{\n{decl}}}\n"),
        3 => format!("#[automock]\npub mod md {{\n    #[allow(unused_imports)]\n    use super::*;\n{decl}}}\n"),
        _ => format!("pub trait Tr {{\n{decl}}}\nmock! {{ pub Foo {{}} impl Tr for Foo {{\n{decl}}} }}\n"),
    };
    s += "#[allow(unused_mut, clippy::all)]\npub fn run() {\n";
    if kind != 3 {
        s += "    let mut m = MockFoo::new();\n";
    }
    s += &body;
    s += "}\n";
    let nontrivial = cls.iter().any(|c| c.starts_with("lifetime"));
    cls.sort();
    cls.dedup();
    Case { text: s, expect: Expect::Clean, nontrivial, classes: cls, key: None }
}

pub fn plans() -> Vec<CasePlan> {
    let p = CasePlan {
        name: "lifetimes",
        gen: case,
        n: 240,
        nightly: false,
        args: vec![],
        rule: "a function has a named lifetime somewhere in the type of an argument or of the result, compiled without warnings and was called on the mock",
        group: 12,
    };
    vec![p]
}
