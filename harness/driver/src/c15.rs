//! C15: what paths in declarations mean.  Every level of a nest of modules
//! has items of the same names; the test of the mock names them absolutely.
use crate::cases::*;
use crate::g::G;

#[derive(Clone, Debug)]
enum Ty {
    /// T of a level, or of its `inner`
    P(usize, bool),
    Opt(Box<Ty>),
    Vec(Box<Ty>),
    Tup(Box<Ty>, Box<Ty>),
    Arr(Box<Ty>, usize),
    /// array with a constant of a level as its length
    ArrN(Box<Ty>, usize),
    /// G<T> of a level
    G(usize, Box<Ty>),
    /// K<{N}> of a level with N of a level
    Dyn(usize),
    Wide(usize, Box<Ty>),
    FnPtr(Box<Ty>, Box<Ty>),
    /// <T as HasOut>::Out
    Proj(usize, usize),
    /// Box<dyn Fn(A) -> B>
    Res(Box<Ty>, Box<Ty>),
}

struct Cx {
    depth: usize,
    /// level of the declaration; inside of a mocked module, one more
    at: usize,
    in_mod: bool,
    /// imports made at the declaration
    uses: Vec<String>,
    /// no projections: #[automock] refuses them
    no_proj: bool,
    /// no function pointers: a known limit of functions with generics
    no_fn: bool,
}

fn abs(level: usize) -> String {
    let mut s = "$C".to_string();
    for i in 1..=level {
        s += &format!("::m{i}");
    }
    s
}

impl Cx {
    /// Some path to `name` of that level, as written at the declaration
    fn path(&mut self, g: &mut G, level: usize, inner: bool, name: &str) -> String {
        let tail = if inner { format!("inner::{name}") } else { name.to_string() };
        let here = self.at;
        let r = g.n(10);
        if r == 0 {
            return format!("{}::{tail}", abs(level));
        }
        if r == 1 {
            // through an import
            let i = self.uses.len();
            let u = format!("U{i}");
            let p = if level < here {
                format!("{}{tail}", "super::".repeat(here - level))
            } else {
                format!("{}::{tail}", abs(level))
            };
            if matches!(name, "T" | "G" | "N" | "Tr" | "HasOut" | "Wide" | "Conv") {
                self.uses.push(format!("use {p} as {u};"));
                return u;
            }
        }
        if level > here {
            // down
            let down: Vec<String> = (here + 1..=level).map(|i| format!("m{i}")).collect();
            return format!("{}{}::{tail}", if r == 2 { "self::" } else { "" }, down.join("::"));
        }
        if level == here {
            return format!("{}{tail}", if r < 5 { "self::" } else { "" });
        }
        format!("{}{}{tail}", if r == 2 && !self.in_mod { "self::" } else { "" }, "super::".repeat(here - level))
    }
    /// any level with the items that can be named here
    fn level(&self, g: &mut G) -> usize {
        if self.in_mod {
            // the mocked module itself has none; its children are not copied
            return self.at - 1 - g.n(self.at);
        }
        let k = g.n(self.depth + 1);
        // mostly upwards
        if k > self.at && g.p(60) {
            self.at.saturating_sub(1)
        } else {
            k
        }
    }
    fn ty(&mut self, g: &mut G, d: usize) -> Ty {
        let l = self.level(g);
        let k = if d == 0 { 0 } else { g.n(16) };
        match k {
            1 => Ty::Opt(Box::new(self.ty(g, d - 1))),
            2 => Ty::Vec(Box::new(self.ty(g, d - 1))),
            3 => Ty::Tup(Box::new(self.ty(g, d - 1)), Box::new(self.ty(g, d - 1))),
            4 => Ty::Arr(Box::new(self.ty(g, d - 1)), 1 + g.n(3)),
            5 => Ty::ArrN(Box::new(self.ty(g, d - 1)), l),
            6 | 7 => Ty::G(l, Box::new(self.ty(g, d - 1))),
            8 => Ty::Dyn(l),
            9 => Ty::Wide(l, Box::new(self.ty(g, d - 1))),
            10 if !self.no_fn => Ty::FnPtr(Box::new(self.ty(g, d - 1)), Box::new(self.ty(g, d - 1))),
            11 if !self.no_proj => Ty::Proj(self.level(g), l),
            12 => Ty::Res(Box::new(self.ty(g, d - 1)), Box::new(self.ty(g, d - 1))),
            _ => Ty::P(l, g.p(25)),
        }
    }
    fn local(&mut self, g: &mut G, t: &Ty) -> String {
        match t {
            Ty::P(l, i) => self.path(g, *l, *i, "T"),
            Ty::Opt(a) => format!("Option<{}>", self.local(g, a)),
            Ty::Vec(a) => format!("Vec<{}>", self.local(g, a)),
            Ty::Tup(a, b) => format!("({}, {})", self.local(g, a), self.local(g, b)),
            Ty::Arr(a, n) => format!("[{}; {n}]", self.local(g, a)),
            Ty::ArrN(a, l) => format!("[{}; {}]", self.local(g, a), self.path(g, *l, false, "N")),
            Ty::G(l, a) => format!("{}<{}>", self.path(g, *l, false, "G"), self.local(g, a)),
            Ty::Dyn(l) => format!("Box<dyn {}>", self.path(g, *l, false, "Tr")),
            Ty::Wide(l, a) => format!("Box<dyn {}<{}>>", self.path(g, *l, false, "Wide"), self.local(g, a)),
            Ty::FnPtr(a, b) => format!("fn({}) -> {}", self.local(g, a), self.local(g, b)),
            Ty::Proj(t, tr) => format!("<{} as {}>::Out", self.path(g, *t, false, "T"), self.path(g, *tr, false, "HasOut")),
            Ty::Res(a, b) => format!("Result<{}, {}>", self.local(g, a), self.local(g, b)),
        }
    }
}

fn absty(t: &Ty) -> String {
    match t {
        Ty::P(l, i) => format!("{}::{}T", abs(*l), if *i { "inner::" } else { "" }),
        Ty::Opt(a) => format!("Option<{}>", absty(a)),
        Ty::Vec(a) => format!("Vec<{}>", absty(a)),
        Ty::Tup(a, b) => format!("({}, {})", absty(a), absty(b)),
        Ty::Arr(a, n) => format!("[{}; {n}]", absty(a)),
        Ty::ArrN(a, l) => format!("[{}; {}]", absty(a), l + 1),
        Ty::G(l, a) => format!("{}::G<{}>", abs(*l), absty(a)),
        Ty::Dyn(l) => format!("Box<dyn {}::Tr>", abs(*l)),
        Ty::Wide(l, a) => format!("Box<dyn {}::Wide<{}>>", abs(*l), absty(a)),
        Ty::FnPtr(a, b) => format!("fn({}) -> {}", absty(a), absty(b)),
        // what the impl says
        Ty::Proj(t, tr) => format!("{}::G<{}::T>", abs(*tr), abs(*t)),
        Ty::Res(a, b) => format!("Result<{}, {}>", absty(a), absty(b)),
    }
}

fn val(t: &Ty, k: usize) -> String {
    match t {
        Ty::P(l, i) => format!("{}::{}T({k})", abs(*l), if *i { "inner::" } else { "" }),
        Ty::Opt(a) => format!("Some({})", val(a, k)),
        Ty::Vec(a) => format!("vec![{}, {}]", val(a, k), val(a, k + 1)),
        Ty::Tup(a, b) => format!("({}, {})", val(a, k), val(b, k + 3)),
        Ty::Arr(a, n) => format!("[{}]", (0..*n).map(|i| val(a, k + i)).collect::<Vec<_>>().join(", ")),
        Ty::ArrN(a, l) => format!("[{}]", (0..=*l).map(|i| val(a, k + i)).collect::<Vec<_>>().join(", ")),
        Ty::G(l, a) => format!("{}::G({})", abs(*l), val(a, k)),
        Ty::Dyn(l) => format!("(Box::new({}::T({k})) as {})", abs(*l), absty(t)),
        Ty::Wide(l, _) => format!("(Box::new({}::T({k})) as {})", abs(*l), absty(t)),
        Ty::FnPtr(a, b) => format!("{{ fn f(_: {}) -> {} {{ {} }} f as {} }}", absty(a), absty(b), val(b, k), absty(t)),
        Ty::Proj(t, tr) => format!("{}::G({}::T({k}))", abs(*tr), abs(*t)),
        Ty::Res(a, b) => {
            if k % 2 == 0 {
                format!("Ok::<{}, {}>({})", absty(a), absty(b), val(a, k))
            } else {
                format!("Err::<{}, {}>({})", absty(a), absty(b), val(b, k))
            }
        }
    }
}

fn items(level: usize, depth: usize) -> String {
    let p = |m: &str| format!("{}{m}", abs(level));
    let mut s = String::new();
    let ty = |who: &str| {
        format!(
            "#[derive(Clone, Debug, PartialEq)] pub struct T(pub u8);\nimpl $C::Show for T {{ fn show(&self) -> String {{ format!(\"{who}.{{}}\", self.0) }} }}\npub trait Tr: $C::Show {{}}\nimpl Tr for T {{}}\n"
        )
    };
    s += &ty(&p(""));
    s += &format!("pub mod inner {{\n{}}}\n", ty(&p("::inner")));
    s += &format!(
        "#[derive(Clone, Debug, PartialEq)] pub struct G<A>(pub A);\nimpl<A: $C::Show> $C::Show for G<A> {{ fn show(&self) -> String {{ format!(\"{}.G({{}})\", self.0.show()) }} }}\n",
        p("")
    );
    s += &format!("pub trait Wide<A>: $C::Show {{}}\nimpl<A> Wide<A> for T {{}}\npub const N: usize = {};\n", level + 1);
    s += &format!("pub trait Conv<A> {{ fn conv(&self) -> A; }}\nimpl<A: Clone> Conv<A> for G<A> {{ fn conv(&self) -> A {{ self.0.clone() }} }}\n");
    s += "pub trait HasOut { type Out; }\n";
    for t in 0..=depth {
        s += &format!("impl HasOut for {}::T {{ type Out = G<{0}::T>; }}\n", abs(t));
    }
    s
}

const SHOW: &str = "pub trait Show { fn show(&self) -> String; }
impl<A: Show> Show for Option<A> { fn show(&self) -> String { self.as_ref().map_or(\"None\".into(), |x| x.show()) } }
impl<A: Show, B: Show> Show for Result<A, B> { fn show(&self) -> String { match self { Ok(x) => x.show(), Err(x) => x.show() } } }
impl<A: Show> Show for Vec<A> { fn show(&self) -> String { self.iter().map(|x| x.show() + \";\").collect() } }
impl<A: Show, B: Show> Show for (A, B) { fn show(&self) -> String { self.0.show() + \",\" + &self.1.show() } }
impl<A: Show, const N: usize> Show for [A; N] { fn show(&self) -> String { self.iter().map(|x| x.show() + \"|\").collect() } }
impl<A: Show> Show for [A] { fn show(&self) -> String { self.iter().map(|x| x.show() + \"/\").collect() } }
impl<A: Show + ?Sized> Show for Box<A> { fn show(&self) -> String { (**self).show() } }
impl<A, B> Show for fn(A) -> B { fn show(&self) -> String { \"fn\".into() } }
";

/// An argument: how it is declared, written in closures, and made
struct Arg {
    decl: String,
    /// type in the closure of withf
    m: String,
    /// type in the closure of returning
    r: String,
    make: String,
    /// an expression for its text inside of the closures (of the name)
    show: String,
}

struct Fun {
    name: String,
    generics: String,
    wher: String,
    args: Vec<Arg>,
    ret: String,
    /// expression that makes the value, and its text; of the caller's `r`
    make: String,
    show: String,
    attr: String,
    /// turbofish of the expectation
    fish: String,
    stat: bool,
    /// what the caller writes around the call
    no_types: bool,
}

fn fun(g: &mut G, cx: &mut Cx, i: usize, stat: bool, body: &mut bool, classes: &mut Vec<String>) -> Fun {
    let mut f = Fun {
        name: format!("f{i}"),
        generics: String::new(),
        wher: String::new(),
        args: vec![],
        ret: String::new(),
        make: "()".into(),
        show: String::new(),
        attr: String::new(),
        fish: String::new(),
        stat,
        no_types: false,
    };
    let _ = body;
    let special = g.n(9);
    let n = g.n(3) + (special < 2) as usize;
    cx.no_fn = (2..=4).contains(&special) || g.p(50);
    match special {
        2 => {
            // a generic parameter with a bound
            let l = cx.level(g);
            let at = Ty::P(cx.level(g), false);
            let (bound, x) = match g.n(3) {
                0 => (cx.path(g, l, false, "Tr"), format!("{}::T", abs(l))),
                1 => (format!("{}<{}>", cx.path(g, l, false, "Wide"), cx.local(g, &at)), format!("{}::T", abs(l))),
                _ => (format!("{}<{}>", cx.path(g, l, false, "Conv"), cx.local(g, &at)), format!("{}::G<{}>", abs(l), absty(&at))),
            };
            if g.p(50) {
                f.generics = format!("<X: {bound} + 'static>");
            } else {
                f.generics = "<X: 'static>".into();
                f.wher = format!(" where X: {bound}");
                classes.push("where-clause".into());
            }
            let v = if x.contains("::G<") { format!("{}::G({})", abs(l), val(&at, 7)) } else { format!("{x}(7)") };
            f.args.push(Arg { decl: "X".into(), m: format!("&{x}"), r: x.clone(), make: v, show: "{}.show()".into() });
            f.fish = format!("::<{x}>");
            classes.push("generic".into());
        }
        3 => {
            // a closure
            let (a, b) = (cx.ty(g, 1), cx.ty(g, 1));
            let sig = format!("{}({}) -> {}", if g.p(50) { "Fn" } else { "FnMut" }, cx.local(g, &a), cx.local(g, &b));
            let d = format!("Box<dyn {}({}) -> {} + Send>", if sig.starts_with("FnMut") { "FnMut" } else { "Fn" }, absty(&a), absty(&b));
            f.generics = format!("<X: {sig} + Send + 'static>");
            let mu = if sig.starts_with("FnMut") { "mut " } else { "" };
            let _ = mu;
            f.args.push(Arg { decl: "X".into(), m: String::new(), r: d, make: format!("|_: {}| -> {} {{ {} }}", absty(&a), absty(&b), val(&b, 3)), show: format!("{{}}({}).show()", val(&a, 1)) });
            f.no_types = true;
            classes.push("closure".into());
        }
        4 => {
            // concretized
            let l = cx.level(g);
            let at = Ty::P(cx.level(g), false);
            f.attr = "#[mockall::concretize]\n".into();
            let (bound, dy, v) = match g.n(2) {
                0 => (cx.path(g, l, false, "Tr"), format!("dyn {}::Tr", abs(l)), format!("{}::T(7)", abs(l))),
                _ => (format!("{}<{}>", cx.path(g, l, false, "Wide"), cx.local(g, &at)), format!("dyn {}::Wide<{}>", abs(l), absty(&at)), format!("{}::T(7)", abs(l))),
            };
            if g.p(50) {
                f.generics = format!("<X: {bound} + 'static>");
            } else {
                f.generics = "<X>".into();
                f.wher = format!(" where X: {bound} + 'static");
            }
            match g.n(2) {
                0 => f.args.push(Arg { decl: "X".into(), m: String::new(), r: format!("&{dy}"), make: v, show: "{}.show()".into() }),
                _ => f.args.push(Arg { decl: "&X".into(), m: String::new(), r: format!("&{dy}"), make: format!("&{v}"), show: "{}.show()".into() }),
            }
            f.no_types = true;
            classes.push("concretize".into());
        }
        _ => {}
    }
    for _ in 0..n {
        let t = cx.ty(g, 3);
        let k = f.args.len() * 10 + 1;
        let a = absty(&t);
        let has_fn = format!("{t:?}").contains("FnPtr");
        f.args.push(match g.n(7) {
            0 => Arg { decl: format!("&{}", cx.local(g, &t)), m: format!("&{a}"), r: format!("&{a}"), make: format!("&{}", val(&t, k)), show: "{}.show()".into() },
            1 => Arg { decl: format!("&mut {}", cx.local(g, &t)), m: format!("&{a}"), r: format!("&mut {a}"), make: format!("&mut {}", val(&t, k)), show: "{}.show()".into() },
            2 if !has_fn => Arg { decl: format!("&[{}]", cx.local(g, &t)), m: format!("&[{a}]"), r: format!("&[{a}]"), make: format!("&[{}]", val(&t, k)), show: "{}[..].show()".into() },
            3 => {
                let l = cx.level(g);
                let d = cx.path(g, l, false, "Tr");
                if !f.generics.is_empty() || !cx.no_fn || cx.in_mod {
                    Arg { decl: cx.local(g, &t), m: format!("&{a}"), r: a, make: val(&t, k), show: "{}.show()".into() }
                } else {
                    Arg { decl: format!("&dyn {d}"), m: format!("&dyn {}::Tr", abs(l)), r: format!("&dyn {}::Tr", abs(l)), make: format!("&{}::T({k})", abs(l)), show: "{}.show()".into() }
                }
            }
            _ => Arg { decl: cx.local(g, &t), m: format!("&{a}"), r: a, make: val(&t, k), show: "{}.show()".into() },
        });
    }
    match g.n(8) {
        0 => {}
        1 if !cx.in_mod => {
            let l = cx.level(g);
            f.ret = format!("impl {} + 'static", cx.path(g, l, false, "Tr"));
            f.make = format!("Box::new({}::T(9))", abs(l));
            f.show = format!("{}::T(9).show()", abs(l));
            classes.push("impl-trait".into());
        }
        2 if !cx.in_mod => {
            let t = cx.ty(g, 1);
            f.ret = format!("impl Iterator<Item = {}> + 'static", cx.local(g, &t));
            {
                f.make = format!("Box::new(std::iter::once({}))", val(&t, 9));
                f.show = format!("{{ let x: Vec<{}> = vec![{}]; x.show() }}", absty(&t), val(&t, 9));
            }
        }
        3 if !stat && !cx.in_mod => {
            let t = cx.ty(g, 1);
            f.ret = format!("&{}", cx.local(g, &t));
            f.make = format!("&{}", val(&t, 9));
            f.show = format!("{{ let x: {} = {}; x.show() }}", absty(&t), val(&t, 9));
            if f.args.iter().any(|a| a.decl.starts_with('&')) && f.generics.contains("X") {
                // which lifetime is returned is &self's
            }
        }
        _ => {
            let t = cx.ty(g, 3);
            f.ret = cx.local(g, &t);
            f.make = val(&t, 9);
            f.show = format!("{{ let x: {} = {}; x.show() }}", absty(&t), val(&t, 9));
        }
    }
    f
}

fn sig(f: &Fun, vis: &str, body: &str) -> String {
    let mut a: Vec<String> = if f.stat { vec![] } else { vec!["&self".into()] };
    a.extend(f.args.iter().enumerate().map(|(i, x)| format!("a{i}: {}", x.decl)));
    format!(
        "{}{vis}fn {}{}({}){}{}{body}\n",
        f.attr,
        f.name,
        f.generics,
        a.join(", "),
        if f.ret.is_empty() { String::new() } else { format!(" -> {}", f.ret) },
        f.wher
    )
}

/// The use of one function: `exp` makes an expectation, `call` is the path
fn usage(f: &Fun, exp: &str, call: &str) -> String {
    let mut s = String::from("{\n    let seen = std::sync::Arc::new(std::sync::Mutex::new(String::new())); let seen2 = seen.clone();\n");
    let names: Vec<String> = (0..f.args.len()).map(|i| format!("a{i}")).collect();
    let texts: Vec<String> = f.args.iter().enumerate().map(|(i, a)| a.show.replace("{}", &format!("a{i}"))).collect();
    let all = if texts.is_empty() { "String::new()".into() } else { format!("[{}].concat()", texts.iter().map(|t| format!("{t} + \"#\"")).collect::<Vec<_>>().join(", ")) };
    // closures over trait objects get their types inside
    let inside = |t: &str| t.starts_with("&dyn") || t.starts_with("Box<dyn Fn");
    let mu = |t: &str| if t.starts_with("Box<dyn FnMut") { "mut " } else { "" };
    let closure = |tys: Vec<&String>, body: String| {
        let a: Vec<String> = tys.iter().zip(&names).map(|(t, n)| if inside(t) { n.clone() } else { format!("{n}: {t}") }).collect();
        let l: String = tys.iter().zip(&names).filter(|(t, _)| inside(t)).map(|(t, n)| format!("let {}{n}: {t} = {n}; ", mu(t))).collect();
        format!("|{}| {{ {l}{body} }}", a.join(", "))
    };
    let is_ref = f.ret.starts_with('&');
    let mut chain = String::new();
    if !f.no_types && !f.args.is_empty() {
        let c = closure(f.args.iter().map(|a| &a.m).collect(), format!("*seen2.lock().unwrap() = {all}; true"));
        chain += &format!(".withf(move {c})");
    } else {
        s += "    let _ = seen2;\n";
    }
    if is_ref {
        chain += &format!(".return_const({})", &f.make[1..]);
    } else {
        let c = closure(f.args.iter().map(|a| &a.r).collect(), format!("let _: String = {all}; {}", f.make));
        chain += &format!(".returning({c})");
    }
    s += &format!("    {exp}{}().times(1){chain};\n", f.fish);
    let mk: Vec<String> = f.args.iter().map(|a| a.make.clone()).collect();
    let r = format!("{call}({}{})", if f.stat { "" } else { "&m, " }, mk.join(", "));
    let r = r.replace(", )", ")");
    if f.ret.is_empty() {
        s += &format!("    {r};\n");
    } else if f.ret.starts_with("impl Iterator") {
        s += &format!("    assert_eq!({r}.collect::<Vec<_>>().show(), {});\n", f.show);
    } else {
        s += &format!("    assert_eq!({r}.show(), {});\n", f.show);
    }
    if !f.no_types && !f.args.is_empty() {
        let want: Vec<String> = f.args.iter().map(|a| format!("{{ let x = {}; {} }} + \"#\"", a.make, a.show.replace("{}", "x"))).collect();
        s += &format!("    assert_eq!(*seen.lock().unwrap(), [{}].concat());\n", want.join(", "));
    }
    s + "}\n"
}

/// The same declaration by way of a macro_rules macro which gets some of the
/// paths as fragments
fn fragments(g: &mut G, decl: &str, classes: &mut Vec<String>) -> String {
    let word = |c: char| c.is_alphanumeric() || c == '_' || c == ':';
    let mut out = String::new();
    let mut frags: Vec<(String, &str)> = vec![];
    for l in decl.lines() {
        let until = if l.starts_with("use ") || l.starts_with("#[") || l.starts_with("impl") { 0 } else { l.find(" {").unwrap_or(l.len()) };
        let (types, rest) = l.split_at(until);
        let mut i = types.find('(').unwrap_or(types.len());
        // not the visibility
        if types.starts_with("pub(") {
            i = types.find("fn ").unwrap_or(types.len());
        }
        out.push_str(&types[..i]);
        while i < types.len() {
            let t = &types[i..];
            let path = ["super::", "self::", "crate::"].iter().any(|s| t.starts_with(s)) && !types[..i].ends_with(word);
            let n = t.find(|c| !word(c)).unwrap_or(t.len());
            let next = t[n..].chars().next().unwrap_or(' ');
            if path && !matches!(next, '<' | '(' | '!') && !t[..n].ends_with(':') && g.p(50) {
                let kind = if types[..i].ends_with("; ") { "expr" } else { ["path", "ty"][(types[..i].ends_with('&') || types[..i].ends_with('(')) as usize] };
                let f = (t[..n].to_string(), kind);
                let k = frags.iter().position(|o| *o == f).unwrap_or_else(|| {
                    frags.push(f);
                    frags.len() - 1
                });
                out.push_str(&format!("$f{k}"));
                i += n;
            } else {
                let c = t.chars().next().unwrap();
                out.push(c);
                i += c.len_utf8();
            }
        }
        out.push_str(rest);
        out.push('\n');
    }
    if frags.is_empty() {
        return decl.to_string();
    }
    classes.push("paths as fragments of a macro".into());
    let ps: Vec<String> = frags.iter().enumerate().map(|(k, f)| format!("$f{k}:{}", f.1)).collect();
    let args: Vec<&str> = frags.iter().map(|f| f.0.as_str()).collect();
    format!("macro_rules! declare {{ ({}) => {{\n{out}}} }}\ndeclare! {{ {} }}\n", ps.join(", "), args.join(", "))
}

fn case(g: &mut G, _i: usize) -> Case {
    let depth = 2 + g.n(3);
    let kind = g.n(6);
    let dl = 1 + g.n(depth);
    let mut cx = Cx { depth, at: if kind == 5 { dl + 1 } else { dl }, in_mod: kind == 5, uses: vec![], no_proj: kind == 0 || kind == 2, no_fn: false };
    let mut classes = vec![];
    let nf = 1 + g.n(3);
    let trait_kind = matches!(kind, 0 | 2 | 3);
    let mut body = false;
    let mut fs = vec![];
    for i in 0..nf {
        let stat = kind == 5 || g.p(20);
        fs.push(fun(g, &mut cx, i, stat, &mut body, &mut classes));
    }
    // RPIT is not for traits; and such returns need a body of a type
    if trait_kind || kind == 4 || kind == 1 {
        for f in &mut fs {
            if f.ret.starts_with("impl ") && kind != 1 && kind != 4 {
                f.ret = String::new();
                f.make = "()".into();
            }
        }
    }
    for f in &mut fs {
        if f.stat && f.ret.starts_with('&') {
            f.ret = String::new();
            f.make = "()".into();
        }
        // statics with closures or generics of two kinds keep their types
        if f.ret.starts_with("&") && f.ret.contains("dyn") {
            f.ret = String::new();
            f.make = "()".into();
        }
    }
    let bodies = |f: &Fun| {
        if f.ret.starts_with("impl Iterator") {
            format!(" {{ if true {{ unimplemented!() }} std::iter::once({}) }}", &f.make["Box::new(std::iter::once(".len()..f.make.len() - 2])
        } else if f.ret.starts_with("impl ") {
            format!(" {{ if true {{ unimplemented!() }} {} }}", &f.make["Box::new(".len()..f.make.len() - 1])
        } else {
            " { unimplemented!() }".into()
        }
    };
    let uses = |cx: &Cx| cx.uses.iter().map(|u| format!("#[allow(unused_imports)] {u}\n")).collect::<String>();
    let at = abs(dl);
    let mut head = String::new(); // items at the trait's level
    let mut trait_level = dl;
    let (decl, mock) = match kind {
        0 => {
            let t: String = fs.iter().map(|f| sig(f, "", ";")).collect();
            (format!("{}#[mockall::automock]\npub trait Foo {{\n{t}}}\n", uses(&cx)), format!("{at}::MockFoo"))
        }
        1 => {
            let t: String = fs.iter().map(|f| sig(f, "pub ", &bodies(f))).collect();
            (format!("{}pub struct Foo;\n#[mockall::automock]\nimpl Foo {{\n{t}}}\n", uses(&cx)), format!("{at}::MockFoo"))
        }
        2 | 3 => {
            // the trait is declared at another level, with absolute types
            trait_level = cx.level(g);
            let generic = g.p(30);
            let mut tp = cx.path(g, trait_level, false, "Base");
            if kind == 2 && tp.contains("::") {
                // #[automock] refuses traits named by a path
                cx.uses.push(if tp.starts_with('m') { format!("use self::{tp};") } else { format!("use {tp};") });
                tp = "Base".into();
                if trait_level == dl {
                    cx.uses.pop();
                }
            }
            let pt = Ty::P(cx.level(g), false);
            let targs = if generic { format!("<{}>", cx.local(g, &pt)) } else { String::new() };
            let args = |f: &Fun, body: &str| sig(f, "", body);
            let decls: String = fs
                .iter()
                .map(|f| {
                    let mut s = args(f, ";").replace("#[mockall::concretize]\n", "");
                    // the same paths, from where the trait is: absolute
                    s = s.replace('\n', " ");
                    s + "\n"
                })
                .collect();
            // paths are relative to the mock's place: the trait gets a module
            // of its own beside the mock that imports it from there
            head = format!("pub trait Base{} {{\n$ABS}}\n", if generic { "<Q>" } else { "" });
            let _ = decls;
            let t: String = fs.iter().map(|f| sig(f, "", if kind == 2 { " { unimplemented!() }" } else { ";" })).collect();
            if kind == 2 {
                (format!("{}pub struct Foo;\n#[mockall::automock]\nimpl {tp}{targs} for Foo {{\n{t}}}\n", uses(&cx)), format!("{at}::MockFoo"))
            } else {
                (format!("{}mockall::mock! {{\npub Foo {{}}\nimpl {tp}{targs} for Foo {{\n{t}}}\n}}\n", uses(&cx)), format!("{at}::MockFoo"))
            }
        }
        4 => {
            let t: String = fs.iter().map(|f| sig(f, "pub ", ";")).collect();
            (format!("{}mockall::mock! {{\npub Foo {{\n{t}}}\n}}\n", uses(&cx)), format!("{at}::MockFoo"))
        }
        _ => {
            let t: String = fs.iter().map(|f| sig(f, "pub ", &bodies(f))).collect();
            (format!("#[mockall::automock]\npub mod foo {{\n{}{t}}}\n", uses(&cx)), format!("{at}::mock_foo"))
        }
    };
    // the trait of kinds 2 and 3: its methods with absolute paths are made by
    // textual resolution of what was written (see resolve)
    if !head.is_empty() {
        let t: String = fs.iter().map(|f| resolve(&sig(f, "", ";").replace("#[mockall::concretize]\n", ""), dl, &cx.uses)).collect();
        head = head.replace("$ABS", &t);
    }
    let decl = if g.p(18) { fragments(g, &decl, &mut classes) } else { decl };
    let mut text = String::from("#![allow(unused_imports, unused_variables, unused_mut, unreachable_code, clippy::all)]\n");
    text += SHOW;
    fn nest(level: usize, depth: usize, dl: usize, decl: &str, tl: usize, head: &str) -> String {
        let mut s = items(level, depth);
        if level == tl {
            s += head;
        }
        if level == dl {
            s += decl;
        }
        if level < depth {
            s += &format!("pub mod m{} {{\n{}}}\n", level + 1, nest(level + 1, depth, dl, decl, tl, head));
        }
        s
    }
    text += &nest(0, depth, dl, &decl, trait_level, &head);
    let mut run = String::from("pub fn run() {\n");
    if kind == 0 {
        run += &format!("use {at}::Foo as _;\n");
    } else if trait_kind {
        run += &format!("use {}::Base as _;\n", abs(trait_level));
    }
    if kind != 5 {
        run += &format!("let mut m = {mock}::new();\n");
    }
    for f in &fs {
        if f.stat {
            run += &format!("let c{} = {mock}::{0}_context();\n", f.name);
run += &usage(f, &format!("c{}.expect", f.name), &format!("{mock}::{}", f.name));
        } else {
            run += &usage(f, &format!("m.expect_{}", f.name), &format!("{mock}::{}", f.name));
        }
    }
    run += "}\n";
    text += &run;
    classes.push(["trait", "impl", "impl-trait-for", "mock!-trait", "mock!", "module"][kind].into());
    let nt = decl.contains("super::") || decl.contains("self::") || decl.contains("U0") || decl.contains("inner::");
    Case { text, expect: Expect::Runs, nontrivial: nt, classes, key: None }
}

/// Make the paths of a signature written at level `dl` absolute
fn resolve(s: &str, dl: usize, uses: &[String]) -> String {
    let mut out = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_alphabetic() || b[i] == '$' || b[i] == '_' {
            let prev: String = out.chars().rev().take(1).collect();
            let mut w = String::new();
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_' || b[i] == '$' || (b[i] == ':' && b.get(i + 1) == Some(&':')) || (b[i] == ':' && i > 0 && b[i - 1] == ':')) {
                w.push(b[i]);
                i += 1;
            }
            out += &if prev == "'" || prev == ":" { w } else { resolve_path(&w, dl, uses) };
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

fn resolve_path(w: &str, dl: usize, uses: &[String]) -> String {
    if w.starts_with("$C") || w.starts_with("std") {
        return w.into();
    }
    let mut segs: Vec<&str> = w.split("::").collect();
    let mut level = dl;
    let mut rel = false;
    while !segs.is_empty() && (segs[0] == "self" || segs[0] == "super") {
        if segs.len() == 1 {
            return w.into();
        }
        if segs[0] == "super" {
            level -= 1;
        }
        rel = true;
        segs.remove(0);
    }
    if let Some(n) = segs[0].strip_prefix('U').and_then(|n| n.parse::<usize>().ok()) {
        // use PATH as Un;
        let p = uses[n].strip_prefix("use ").unwrap().rsplit_once(" as ").unwrap().0;
        return resolve_path(p, dl, &[]);
    }
    let known = ["T", "G", "N", "Tr", "Wide", "HasOut", "Conv", "inner"];
    if rel || known.contains(&segs[0]) || segs[0].strip_prefix('m').map_or(false, |n| n.parse::<usize>().is_ok() && segs.len() > 1) {
        return format!("{}::{}", abs(level), segs.join("::"));
    }
    w.into()
}

/// Types named like what the generated modules define or use
const NAMES: &[&str] = &[
    "Context", "Expectation", "Expectations", "ExpectationGuard", "GenericExpectations", "Matcher", "Common", "Rfunc", "Mutex", "Range", "DerefMut", "mem", "Vec",
    "MutexGuard", "CaseTreeExt", "Key", "Predicate", "Fragile", "Sequence", "AnyExpectations", "Times", "TimesRange", "ExpectedCalls", "ViaDebug", "ViaNothing", "ArgPrinter",
    "DefaultReturner", "Once", "OnceLock", "PhantomData", "SeqHandle", "String", "Func", "Pred", "Mut", "Const", "Always", "Expired", "Mock", "Foo", "__foo", "mock_foo", "Option_",
];
const USES: &[&str] = &["method", "static", "generic", "reference"];

fn name(_g: &mut G, i: usize) -> Case {
    let n = NAMES[i / USES.len() % NAMES.len()];
    let u = i % USES.len();
    let (sig, mk) = match u {
        0 => ("fn f(&self, a: $, b: &$, c: Option<$>) -> $;".to_string(), "let mut m = MockFoo_::new(); m.expect_f().withf(|a: &$, b: &$, _| a.0 == b.0).times(1).returning(|a: $, _, _| a); assert_eq!(m.f($(1), &$(1), None).0, 1);"),
        1 => ("fn f(a: $, b: &$) -> Option<$>;".into(), "let c = MockFoo_::f_context(); c.expect().withf(|a: &$, b: &$| a.0 == b.0).times(1).returning(|a: $, _| Some(a)); assert_eq!(MockFoo_::f($(1), &$(1)).unwrap().0, 1);"),
        2 => ("fn f<T: 'static>(&self, a: $, t: T) -> $;".into(), "let mut m = MockFoo_::new(); m.expect_f::<u8>().withf(|a: &$, b: &u8| a.0 == *b).times(1).returning(|a: $, _| a); assert_eq!(m.f($(1), 1u8).0, 1);"),
        _ => ("fn f(&self) -> &$;\nfn g(&mut self, x: &[$]) -> &mut $;".into(), "let mut m = MockFoo_::new(); m.expect_f().return_const($(3)); m.expect_g().return_var($(4)); assert_eq!(m.f().0, 3); assert_eq!(m.g(&[]).0, 4);"),
    };
    let sig = sig.replace("\\n", "\n");
    let body = |s: &str| s.replace(';', " { unimplemented!() }");
    let ty = "#[derive(Clone, Debug, PartialEq)] pub struct $(pub u8);\n";
    let mut text = String::from("#![allow(non_camel_case_types, dead_code, unused_variables)]\n");
    for (k, d) in [
        format!("#[mockall::automock]\npub trait Foo_ {{\n{sig}\n}}\n"),
        format!("pub struct Foo_;\n#[mockall::automock]\nimpl Foo_ {{\n{}\n}}\n", body(&sig)),
        format!("pub trait Tr_ {{\n{sig}\n}}\nmockall::mock! {{\npub Foo_ {{}}\nimpl Tr_ for Foo_ {{\n{sig}\n}}\n}}\n"),
        format!("mockall::mock! {{\npub Foo_ {{\n{sig}\n}}\n}}\n"),
    ]
    .iter()
    .enumerate()
    {
        text += &format!("pub mod k{k} {{\n{ty}{d}pub fn run() {{\n{}{mk}\n}}\n}}\n", if k == 2 { "#[allow(unused_imports)] use super::k2::Tr_ as _;\n" } else { "" });
    }
    if u == 1 {
        text += &format!("pub mod k4 {{\n{ty}#[mockall::automock]\npub mod foo_ {{\nuse super::$;\npub {}\n}}\npub fn run() {{\n{}\n}}\n}}\n", body(&sig), mk.replace("MockFoo_", "mock_foo_"));
    }
    text += &format!("pub fn run() {{ k0::run(); k1::run(); k2::run(); k3::run(); {}}}\n", if u == 1 { "k4::run(); " } else { "" });
    Case { text: text.replace('$', n), expect: Expect::Runs, nontrivial: true, classes: vec!["a name of the generated code".into()], key: Some(format!("a type called {n}, {}", USES[u])) }
}

pub fn plans() -> Vec<CasePlan> {
    vec![CasePlan {
        name: "paths",
        gen: case,
        n: 320,
        nightly: false,
        args: vec![],
        rule: "a declaration with relative, imported or nested paths in a nest of modules with equally named items, whose mock was used with absolutely named types",
        group: 10,
    }, CasePlan {
        name: "names",
        gen: name,
        n: NAMES.len() * USES.len(),
        nightly: false,
        args: vec![],
        rule: "each of the listed type names, which the generated code defines or uses itself, in each of four positions and five kinds of declaration",
        group: 25,
    }, crate::vis::plan(120)]
}
