//! C22: what is malformed or not supported is refused, where it is.
use crate::cases::*;
use crate::g::G;

// Groups: what comes before, a text that must work, and texts that must not, with what
// each is about. `$N`, `$P` and `$M` take other functions, `@` marks where a
// declaration begins.

const TRAIT_T: &str = "pub trait Foo { type T; $N fn f(&self) -> Self::T; }";
const TRAIT: &str = "pub trait Foo { $N fn f(&self) -> u32; }";

fn entries() -> Vec<(String, String, Vec<(String, String)>)> {
    let mut v: Vec<(String, String, Vec<(String, String)>)> = vec![];
    let own = |p: &str, g: &str, b: &[(&str, &str)]| (p.to_string(), g.to_string(), b.iter().map(|x| (x.0.to_string(), x.1.to_string())).collect::<Vec<_>>());
    let with = |args: &str, t: &str| format!("#[mockall::automock{args}]\n{t}");
    // the arguments of automock
    v.push((
        String::new(),
        with("(type T=u32;)", TRAIT_T),
        [
            ("associated type not given", ""),
            ("associated type not given", "()"),
            ("no semicolon", "(type T=u32)"),
            ("no value", "(type T;)"),
            ("no keyword", "(T=u32;)"),
            ("unknown associated type", "(type U=u32;)"),
            ("unknown associated type", "(type T=u32; type U=u32;)"),
            ("unknown associated type", "(type U=u32; type T=u32;)"),
            ("associated type given twice", "(type T=u32; type T=u64;)"),
            ("associated type given twice", "(type T=u32; type T=u32;)"),
            ("argument that is not a type", "(const T: u32 = 1;)"),
            ("argument that is not a type", "(type T=u32; const X: u32 = 1;)"),
            ("argument that is not a type", "(type T=u32; fn g();)"),
            ("stray tokens", "(type T=u32; foo)"),
            ("stray tokens", "(type T=u32;;)"),
            ("stray tokens", "(\"T\")"),
            ("stray tokens", "(3)"),
            ("stray tokens", "(foo = \"bar\")"),
            ("stray tokens", "(mod mock_foo;)"),
            ("stray tokens", "(type =u32;)"),
            ("stray tokens", "(type T==u32;)"),
            ("not an argument list", " = \"T\""),
        ]
        .iter()
        .map(|(w, a)| (w.to_string(), with(a, TRAIT_T)))
        .collect(),
    ));
    v.push((
        String::new(),
        with("(type A=u32; type B=u64;)", "pub trait Foo { type A; type B; $N fn f(&self, a: Self::A) -> Self::B; }"),
        ["(type A=u32;)", "(type B=u64;)", ""]
            .iter()
            .map(|a| ("associated type not given".to_string(), with(a, "pub trait Foo { type A; type B; $N fn f(&self, a: Self::A) -> Self::B; }")))
            .collect(),
    ));
    // arguments where there is nothing that they could be about
    for t in [
        "pub trait Foo { $N fn f(&self) -> u32; }",
        "impl S { $P pub fn f(&self) -> u32 { 3 } }",
        "impl Tr for S { fn f(&self) -> u32 { 3 } }",
        "pub mod foo { $P pub fn f() -> u32 { 3 } }",
    ] {
        v.push((
            "pub struct S; pub trait Tr { fn f(&self) -> u32; }\n".into(),
            with("", t),
            [("unknown associated type", "(type T=u32;)"), ("stray tokens", "(foo)"), ("stray tokens", "(type T=u32)")].iter().map(|(w, a)| (w.to_string(), with(a, t))).collect(),
        ));
    }
    // items that are not mockable
    v.push((
        String::new(),
        with("", TRAIT),
        [
            "pub struct S;",
            "pub struct S { pub x: u32 }",
            "pub enum E { A }",
            "pub union U { pub a: u32 }",
            "pub fn f() -> u32 { 3 }",
            "pub const X: u32 = 3;",
            "pub static X: u32 = 3;",
            "pub type T = u32;",
            "use std::fmt::Debug as _;",
            "extern crate std as other;",
            "extern \"C\" { pub fn f(); }",
            "macro_rules! m { () => {} }",
            "std::thread_local! { pub static X: u32 = 3; }",
        ]
        .iter()
        .map(|t| ("not a mockable item".to_string(), with("", t)))
        .collect(),
    ));
    // patterns, and impl Trait, as arguments
    for (pre, a, b) in [
        ("pub struct S; pub struct P { pub x: u32 }\n", "impl S { $P pub fn f(&self, ", ") -> u32 { 3 } }"),
        ("pub struct S; pub struct P { pub x: u32 } pub trait Tr { fn f(&self, ARG) -> u32; }\n", "impl Tr for S { fn f(&self, ", ") -> u32 { 3 } }"),
        ("pub struct P { pub x: u32 }\n", "pub mod foo { use super::P; $P pub fn f(", ") -> u32 { 3 } }"),
        ("pub struct P { pub x: u32 }\n", "pub trait Foo: Sized { $N fn f(&self, ", ") -> u32 { 3 } }"),
    ] {
        let mut bad = vec![];
        for (w, arg, ty) in [
            ("pattern as argument", "(a, b): (u32, u32)", "(u32, u32)"),
            ("pattern as argument", "P { x }: P", "P"),
            ("pattern as argument", "[a, b]: [u32; 2]", "[u32; 2]"),
            ("pattern as argument", "&a: &u32", "&u32"),
            ("pattern as argument", "ref a: u32", "u32"),
            ("pattern as argument", "_: u32", "u32"),
            ("pattern as argument", "a @ _: u32", "u32"),
            ("impl Trait as argument", "a: impl Fn() -> u32 + 'static", ""),
            ("impl Trait as argument", "a: impl std::fmt::Debug", ""),
        ] {
            if pre.contains("ARG") && ty.is_empty() {
                continue;
            }
            if w.starts_with("pattern") {
                bad.push((w.to_string(), format!("{}#[mockall::automock]\n{a}{arg}{b}", if pre.contains("ARG") { format!("pub trait Tr {{ fn f(&self, a: {ty}) -> u32; }}\n@") } else { String::new() })));
            } else {
                bad.push((w.to_string(), with("", &format!("{a}{arg}{b}"))));
            }
        }
        let p = pre.replace(" pub trait Tr { fn f(&self, ARG) -> u32; }", "");
        let good = if pre.contains("ARG") { format!("pub trait Tr {{ fn f(&self, a: u32) -> u32; }}\n@{}", with("", &format!("{a}a: u32{b}"))) } else { with("", &format!("{a}a: u32{b}")) };
        v.push((p, good, bad));
    }
    // what traits may hold
    v.push(own(
        "macro_rules! extra { () => { fn g(&self) -> u32 { 4 } }; (1) => {}; } macro_rules! ty { () => { u32 } }\n",
        "#[mockall::automock]\npub trait Foo { const C: u32 = 3; $N fn f(&self, x: &u32) -> u32; fn s(x: &'static u32) -> &'static u32; }",
        &[
            ("macro", "#[mockall::automock]\npub trait Foo { extra!(); $N fn f(&self, x: &u32) -> u32; }"),
            ("macro", "#[mockall::automock]\npub trait Foo { $N fn f(&self, x: &u32) -> u32; extra!{} }"),
            ("macro", "#[mockall::automock]\npub trait Foo { $N fn f(&self, x: &u32) -> u32; extra![1]; }"),
            ("macro as a type", "#[mockall::automock]\npub trait Foo { $N fn f(&self, x: &u32) -> ty!(); }"),
            ("macro as a type", "#[mockall::automock]\npub trait Foo { $N fn f(&self, x: ty!()) -> u32; }"),
            ("macro as a type", "#[mockall::automock]\npub trait Foo { $N fn f(&self, x: Vec<ty!()>) -> u32; }"),
            ("macro as a type", "mockall::mock! { pub Foo { $M pub fn f(&self, x: u32) -> ty!(); } }"),
            ("macro as a type", "#[mockall::automock(type T=u32;)]\npub trait Foo { type T; $N fn f(&self, x: ty!()) -> Self::T; }"),
            ("constant without a value", "#[mockall::automock]\npub trait Foo { const C: u32; $N fn f(&self, x: &u32) -> u32; }"),
            ("static function that returns a reference", "#[mockall::automock]\npub trait Foo { $N fn f(x: &u32) -> &u32; }"),
            ("static function that returns a reference", "#[mockall::automock]\npub trait Foo { $N fn f(x: &mut u32) -> &mut u32; }"),
            ("static function that returns a reference", "#[mockall::automock]\npub trait Foo { $N fn f(x: &str) -> &str; }"),
            ("static function that returns a reference", "#[mockall::automock]\npub trait Foo { $N fn f<'a>(x: u32) -> &'a u32; }"),
            ("static function that returns a reference", "#[mockall::automock]\npub trait Foo { $N fn f<'a>(x: &'a u32) -> &'a u32; }"),
            ("static function that returns a reference", "pub struct S;\n@#[mockall::automock]\nimpl S { $P pub fn f(x: &u32) -> &u32 { x } }"),
            ("static function that returns a reference", "#[mockall::automock]\npub mod foo { $P pub fn f(x: &[u32]) -> &u32 { &x[0] } }"),
            ("static function that returns a reference", "mockall::mock! { pub Foo { $M pub fn f(x: &u32) -> &u32; } }"),
        ],
    ));
    // what impl blocks may hold, and be of
    v.push(own(
        "macro_rules! extra { () => { pub fn g(&self) -> u32 { 4 } }; (1) => {}; (2) => { fn g(&self) -> u32 { 4 } }; } pub struct S; pub struct L<'a>(pub &'a u32); pub struct G<T>(pub T); pub trait Tr { fn f(&self) -> u32; fn g(&self) -> u32 { 3 } }\n",
        "#[mockall::automock]\nimpl<'a> L<'a> { $P pub fn f(&self) -> u32 { 3 } }\n#[mockall::automock]\nimpl<T: 'static> Tr for G<T> { fn f(&self) -> u32 { 3 } }",
        &[
            ("macro", "#[mockall::automock]\nimpl S { $P pub fn f(&self) -> u32 { 3 } extra!(); }"),
            ("macro", "#[mockall::automock]\nimpl S { extra!{} $P pub fn f(&self) -> u32 { 3 } }"),
            ("macro", "#[mockall::automock]\nimpl S { extra!{1} $P pub fn f(&self) -> u32 { 3 } }"),
            ("macro", "#[mockall::automock]\nimpl Tr for S { fn f(&self) -> u32 { 3 } extra!{2} }"),
            ("macro", "#[mockall::automock]\nimpl Tr for S { extra!(1); fn f(&self) -> u32 { 3 } }"),
            ("elided lifetime", "#[mockall::automock]\nimpl L<'_> { $P pub fn f(&self) -> u32 { 3 } }"),
            ("elided lifetime", "#[mockall::automock]\nimpl Tr for L<'_> { fn f(&self) -> u32 { 3 } }"),
            ("instantiation", "#[mockall::automock]\nimpl G<u32> { $P pub fn f(&self) -> u32 { 3 } }"),
            ("instantiation", "#[mockall::automock]\nimpl Tr for G<u32> { fn f(&self) -> u32 { 3 } }"),
            ("block of another type", "#[mockall::automock]\nimpl Tr for &'static S { fn f(&self) -> u32 { 3 } }"),
            ("block of another type", "#[mockall::automock]\nimpl Tr for (S,) { fn f(&self) -> u32 { 3 } }"),
            ("block of another type", "#[mockall::automock]\nimpl Tr for [S; 2] { fn f(&self) -> u32 { 3 } }"),
            ("block of another type", "#[mockall::automock]\nimpl Tr for fn(S) { fn f(&self) -> u32 { 3 } }"),
            ("block of another type", "#[mockall::automock]\nimpl Tr for dyn std::fmt::Debug { fn f(&self) -> u32 { 3 } }"),
            ("block of another type", "#[mockall::automock]\nimpl dyn Tr { $P pub fn h(&self) -> u32 { 3 } }"),
        ],
    ));
    // contents of modules
    v.push((
        String::new(),
        with("", "pub mod foo { use std::fmt; pub type X = u32; pub const Y: X = 3; pub static Z: X = 3; extern crate std as other; $P pub fn f(x: X) -> fmt::Result { Ok(()) } extern \"C\" { pub fn ffi() -> u32; } }"),
        [
            "pub mod bar { pub fn g() {} }",
            "pub struct S;",
            "pub enum E { A }",
            "pub union U { pub a: u32 }",
            "pub trait Tr { fn f(&self); }",
            "macro_rules! m { () => {} }",
            "extern \"C\" { pub static X: u32; }",
            "impl crate::c::S { }",
        ]
        .iter()
        .map(|t| ("content of a module".to_string(), with("", &format!("pub mod foo {{ $P pub fn f(x: u32) -> u32 {{ x }} {t} }}"))))
        .collect(),
    ));
    // qualified paths
    v.push(own(
        "pub trait As { type T; } impl As for u32 { type T = u64; }\n",
        "#[mockall::automock(type T=u32;)]\npub trait Foo { type T; $N fn f(&self) -> <Self as Foo>::T; }",
        &[
            ("qualified path", "#[mockall::automock(type T=u32;)]\npub trait Foo { type T; $N fn f(&self) -> <u32 as As>::T; }"),
            ("qualified path", "#[mockall::automock(type T=u32;)]\npub trait Foo { type T; $N fn f(&self, x: <u32 as As>::T); }"),
            ("qualified path of another trait", "impl As for MockFoo { type T = u32; }\n@#[mockall::automock(type T=u32;)]\npub trait Foo: As { type T; $N fn f(&self) -> <Self as As>::T; }"),
            ("qualified path of another trait", "impl As for MockFoo { type T = u32; }\n@#[mockall::automock(type T=u32;)]\npub trait Foo: As { type T; $N fn f(&self, x: <Self as As>::T); }"),
        ],
    ));
    // concretize
    v.push(own(
        "pub trait Tr {} pub struct S;\n",
        "#[mockall::automock]\npub trait Foo { $N #[mockall::concretize] fn f<T: Tr + 'static>(&self, t: T, u: &T) -> u32; }",
        &[
            ("concretize: no trait", "#[mockall::automock]\npub trait Foo { $N #[mockall::concretize] fn f<T: 'static>(&self, t: T) -> u32; }"),
            ("concretize: trait that is not dyn compatible", "#[mockall::automock]\npub trait Foo { $N #[mockall::concretize] fn f<T: Clone + 'static>(&self, t: T) -> u32; }"),
            ("concretize: two traits", "#[mockall::automock]\npub trait Foo { $N #[mockall::concretize] fn f<T: Tr + std::fmt::Debug + 'static>(&self, t: T) -> u32; }"),
            ("concretize: returned", "#[mockall::automock]\npub trait Foo { $N #[mockall::concretize] fn f<T: Tr + 'static>(&self, t: T) -> T; }"),
            ("concretize: nested", "#[mockall::automock]\npub trait Foo { $N #[mockall::concretize] fn f<T: Tr + 'static>(&self, t: Option<T>) -> u32; }"),
            ("concretize: nested", "#[mockall::automock]\npub trait Foo { $N #[mockall::concretize] fn f<T: Tr + 'static>(&self, t: Vec<T>) -> u32; }"),
            ("concretize: nested", "mockall::mock! { pub Foo { $M #[mockall::concretize] pub fn f<T: Tr + 'static>(&self, t: (T, u32)) -> u32; } }"),
            ("concretize: two traits", "mockall::mock! { pub Foo { $M #[mockall::concretize] pub fn f<T>(&self, t: T) -> u32 where T: Tr + std::fmt::Debug + 'static; } }"),
        ],
    ));
    // mock!
    let pre = "pub trait Tr { fn g(&self) -> u32; fn h(&self) {} } pub trait Ty { type X; fn x(&self) -> Self::X; } pub trait Co { const C: u32; } pub struct Bar;\n";
    let good = "mockall::mock! { pub Foo { const X: u32 = 3; $M pub fn f(&self) -> u32; } impl Tr for Foo { fn g(&self) -> u32; fn h(&self); } impl Ty for Foo { type X = u32; fn x(&self) -> u32; } impl Co for Foo { const C: u32 = 4; } }";
    let tr = "impl Tr for Foo { fn g(&self) -> u32; }";
    let m = |own: &str, rest: &str| format!("mockall::mock! {{ pub Foo {{ {own} }} {rest} }}");
    let f = "$M pub fn f(&self) -> u32;";
    v.push((
        pre.into(),
        good.into(),
        vec![
            ("function with a body".into(), m("$M pub fn f(&self) -> u32 { 3 }", tr)),
            ("function with a body".into(), m("pub fn f(&self) -> u32 { 3 } $M", tr)),
            ("function with a body".into(), m("fn f(&self) {} $M", "")),
            ("function with a body".into(), m(f, "impl Tr for Foo { fn g(&self) -> u32 { 3 } }")),
            ("function with a body".into(), m(f, "impl Tr for Foo { fn g(&self) -> u32; fn h(&self) {} }")),
            ("function with a body".into(), m(f, "impl Tr for Foo { fn h(&self) {} fn g(&self) -> u32; }")),
            ("constant without a value".into(), m("const X: u32; $M", "")),
            ("constant without a value".into(), m(f, "impl Co for Foo { const C: u32; }")),
            ("constant that is not there".into(), m(f, "impl Co for Foo { }")),
            ("type of its own".into(), m("type X = u32; $M", "")),
            ("macro".into(), m("some_macro!(); $M", "")),
            ("macro".into(), m(f, "impl Tr for Foo { fn g(&self) -> u32; some_macro!{} }")),
            ("block that is not of a trait".into(), m(f, "impl Foo { fn h(&self); }")),
            ("item".into(), m(f, "pub struct Other;")),
            ("item".into(), m(f, "pub trait Other { fn f(&self); }")),
            ("item".into(), m(f, "pub fn other() {}")),
            ("item".into(), m(f, "use std::fmt;")),
            ("second mock".into(), m(f, "pub Other { fn f(&self); }")),
            ("stray tokens".into(), m(f, ";")),
            ("stray tokens".into(), m(f, "3")),
            ("stray tokens".into(), m("$M pub fn f(&self) -> u32;;", "")),
            ("stray tokens".into(), m("$M pub fn f(&self) -> u32; 3", "")),
            ("stray tokens".into(), m("$M pub fn f(&self) -> u32; #[allow(unused)]", "")),
            ("no semicolon".into(), m("$M pub fn f(&self) -> u32", "")),
            ("no type".into(), m("$M pub fn f(&self, x) -> u32;", "")),
            ("struct keyword".into(), "mockall::mock! { pub struct Foo { $M pub fn f(&self) -> u32; } }".into()),
            ("no braces".into(), "mockall::mock! { pub Foo }".into()),
            ("no braces".into(), "mockall::mock! { pub Foo; }".into()),
            ("no name".into(), "mockall::mock! { pub { fn f(&self); } }".into()),
            ("nothing".into(), "mockall::mock! { }".into()),
            ("nothing".into(), "mockall::mock! { 3 }".into()),
            ("field".into(), m("x: u32", "")),
            ("associated type not given".into(), m(f, "impl Ty for Foo { fn x(&self) -> u32; }")),
            ("associated type without a value".into(), m(f, "impl Ty for Foo { type X; fn x(&self) -> u32; }")),
            ("unknown associated type".into(), m(f, "impl Tr for Foo { type X = u32; fn g(&self) -> u32; }")),
            ("unknown function".into(), m(f, "impl Tr for Foo { fn g(&self) -> u32; fn i(&self); }")),
            ("function that is not there".into(), m(f, "impl Tr for Foo { fn h(&self); }")),
            ("negative block".into(), m(f, "impl !Send for Foo {}")),
            ("negative block".into(), m(f, "impl !Tr for Foo { fn g(&self) -> u32; }")),
            ("block of another type".into(), m(f, "impl Tr for Bar { fn g(&self) -> u32; }")),
            ("block of another type".into(), m(f, "impl Tr for other::Foo { fn g(&self) -> u32; }")),
            ("block of another type".into(), m(f, "impl Tr for &Foo { fn g(&self) -> u32; }")),
            ("block of another type".into(), m(f, "impl Tr for (Foo,) { fn g(&self) -> u32; }")),
            ("block of another type".into(), m(f, "impl Tr for [Foo] { fn g(&self) -> u32; }")),
            ("block of another type".into(), m(f, "impl<T> Tr for T { fn g(&self) -> u32; }")),
            ("default in a block".into(), "pub trait Ta<T> { fn g(&self) -> u32; } mockall::mock! { pub Foo<T: 'static> { pub fn f(&self) -> u32; } impl<T: 'static = u32> Ta<T> for Foo<T> { fn g(&self) -> u32; } }".into()),
            ("default function".into(), m(f, "impl Tr for Foo { default fn g(&self) -> u32; }")),
            ("default block".into(), m(f, "default impl Tr for Foo { fn g(&self) -> u32; }")),
            ("visibility in a block".into(), m(f, "impl Tr for Foo { pub fn g(&self) -> u32; }")),
            ("function given twice".into(), m("$M pub fn f(&self) -> u32; pub fn f(&self) -> u32;", "")),
            ("pattern as argument".into(), m("$M pub fn f(&self, (a, b): (u32, u32)) -> u32;", "")),
            ("pattern as argument".into(), m("$M pub fn f(&self, _: u32) -> u32;", "")),
            ("pattern as argument".into(), m("$M pub fn f(&self, ref x: u32) -> u32;", "")),
            ("impl Trait as argument".into(), m("$M pub fn f(&self, x: impl std::fmt::Debug) -> u32;", "")),
            ("impl Trait as argument".into(), m("$M pub fn f(x: impl std::fmt::Debug) -> u32;", "")),
            ("generics of the block".into(), m(f, "impl<T> Tr for Foo<T> { fn g(&self) -> u32; }")),
            ("lifetime with bounds".into(), "mockall::mock! { pub Foo<'a, 'b: 'a> { pub fn f(&self) -> u32; } }".into()),
            ("constant parameter".into(), "mockall::mock! { pub Foo<const N: usize> { pub fn f(&self) -> u32; } }".into()),
            ("argument".into(), "mockall::mock! { (type T = u32;) pub Foo { pub fn f(&self) -> u32; } }".into()),
        ],
    ));
    // double
    v.push((
        "pub mod foo { pub struct Bar; pub struct MockBar; pub mod baz { pub struct X; pub struct MockX; } pub mod mock_baz { pub struct X; } pub struct G<T>(T); pub struct MockG<T>(T); }\npub struct Own; pub struct MockOwn;\n".into(),
        "#[mockall_double::double]\n#[allow(unused_imports)] pub use foo::{Bar, baz};".into(),
        [
            ("import of one name", "#[mockall_double::double]\nuse Own;"),
            ("glob import", "#[mockall_double::double]\nuse foo::*;"),
            ("glob import", "#[mockall_double::double]\nuse foo::{Bar, baz::*};"),
            ("glob import", "#[mockall_double::double]\nuse foo::{Bar as Other, *};"),
            ("alias of another type", "#[mockall_double::double]\npub type T = (foo::Bar,);"),
            ("alias of another type", "#[mockall_double::double]\npub type T = [foo::Bar; 2];"),
            ("alias of another type", "#[mockall_double::double]\npub type T = &'static foo::Bar;"),
            ("alias of another type", "#[mockall_double::double]\npub type T = fn(foo::Bar);"),
            ("alias of another type", "#[mockall_double::double]\npub type T = !;"),
            ("another item", "#[mockall_double::double]\npub struct S;"),
            ("another item", "#[mockall_double::double]\npub enum E { A }"),
            ("another item", "#[mockall_double::double]\npub fn f() {}"),
            ("another item", "#[mockall_double::double]\npub mod m {}"),
            ("another item", "#[mockall_double::double]\npub trait Tr {}"),
            ("another item", "#[mockall_double::double]\nimpl Own {}"),
            ("another item", "#[mockall_double::double]\npub const X: u32 = 3;"),
            ("another item", "#[mockall_double::double]\npub static X: u32 = 3;"),
            ("another item", "#[mockall_double::double]\nextern crate std as other;"),
            ("another item", "#[mockall_double::double]\nmacro_rules! m { () => {} }"),
            ("argument of double", "#[mockall_double::double(Own)]\n#[allow(unused_imports)] pub use foo::Bar;"),
            ("argument of double", "#[mockall_double::double(foo = \"bar\")]\npub type T = foo::Bar;"),
        ]
        .iter()
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect(),
    ));
    v
}

/// Other functions, which are fine: of a trait, with bodies, and of mock!
fn noise(g: &mut G) -> (String, String, String) {
    let (mut n, mut p, mut m) = (String::new(), String::new(), String::new());
    for i in 0..g.n(3) {
        let (args, ret) = g.pick(&[("", ""), ("x: u32", " -> u32"), ("x: &str, y: Vec<u8>", " -> String"), ("x: u32", " -> Option<Box<u32>>")]);
        n += &format!("fn o{i}(&self, {args}){ret}; ");
        p += &format!("#[allow(unused_variables)] pub fn o{i}({args}){ret} {{ unimplemented!() }} ");
        m += &format!("pub fn o{i}(&mut self, {args}){ret}; ");
        if g.p(40) {
            n += "\n";
            p += "\n";
            m += "\n";
        }
    }
    (n.replace(", )", ")"), p, m.replace(", )", ")"))
}

fn case(g: &mut G, i: usize) -> Case {
    let es = entries();
    let total: usize = es.iter().map(|e| e.2.len()).sum();
    // each of the bad ones in turn, and then some of the good
    let mut k = i % (total + total / 4);
    let (n, p, m) = noise(g);
    let fill = |s: &str| s.replace("$N", &n).replace("$P", &p).replace("$M", &m);
    let (pre, text, what) = 'found: {
        if k >= total {
            let e = &es[(k - total) % es.len()];
            break 'found (e.0.clone(), e.1.clone(), None);
        }
        for e in &es {
            if k < e.2.len() {
                break 'found (e.0.clone(), e.2[k].1.clone(), Some(e.2[k].0.clone()));
            }
            k -= e.2.len();
        }
        unreachable!()
    };
    let mut s = String::from("#![allow(dead_code, unused_imports, unused_variables)]\n") + &pre;
    for i in 0..g.n(3) {
        s += &format!("pub fn before{i}() {{}}\n");
    }
    let mut text = fill(&text);
    if let Some((a, b)) = text.clone().split_once('@').filter(|x| x.0.ends_with('\n')) {
        s += a;
        text = b.to_string();
    }
    let from = s.matches('\n').count() + 1;
    s += &text;
    let to = s.matches('\n').count() + 1;
    s += "\npub fn run() {}\n";
    let expect = if what.is_some() { Expect::Refused(from, to) } else { Expect::Runs };
    Case { text: s, expect, nontrivial: what.is_some(), classes: vec![what.unwrap_or("well-formed".into())], key: None }
}

pub fn plans() -> Vec<CasePlan> {
    let n: usize = entries().iter().map(|e| e.2.len()).sum();
    let n = n + n / 4;
    let rule = "a declaration with one thing that is malformed or not supported, among functions that are fine, refused at the lines where it is (the same without that thing is accepted)";
    vec![
        CasePlan { name: "malformed", gen: case, n, nightly: false, args: vec![], rule, group: 10 },
        CasePlan { name: "malformed, nightly", gen: case, n, nightly: true, args: vec![], rule, group: 10 },
    ]
}
