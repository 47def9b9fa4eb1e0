//! C19: attributes carry over to the mock, or stay out of its way.
use crate::cases::*;
use crate::g::G;

#[derive(Clone, Copy, PartialEq)]
enum K {
    /// #[automock] trait
    Trait,
    /// #[automock] impl Foo
    Impl,
    /// #[automock] impl Tr for Foo
    ImplFor,
    /// mock! with impl Tr for Foo
    MockTrait,
    /// mock! with methods of its own
    Mock,
    /// #[automock] mod
    Mod,
    /// #[automock] on a block of foreign functions in a module
    Foreign,
}
use K::*;

struct F {
    name: String,
    /// is it there?
    kept: bool,
    attrs: Vec<String>,
    stat: bool,
    ret: &'static str,
    generic: bool,
    arg: bool,
    arg_attr: &'static str,
    missing: bool,
    /// has a body in the original
    body: bool,
    must_use: bool,
}

fn fn_attr(g: &mut G, k: K, f: &mut F, uniq: &str) -> String {
    let kind = |a: &str| ["inline", "cold", "alias", "deprecated", "export_name", "link_name", "must_use", "track_caller", "concat!"].iter().position(|k| a.contains(k));
    let lint = |a: &str| ["allow(", "warn(", "deny(", "forbid(", "expect("].iter().any(|k| a.contains(k));
    loop {
        let a = match g.n(20) {
            0 => "/// Says what it does\n".to_string(),
            1 => "#[doc = \"Says what it does\"]".into(),
            2 => g.pick(&["#[doc(hidden)]", "#[doc = \"does not concretize\"]", "#[doc(alias = \"other\")]", "#[doc(hidden)] #[doc = concat!(\"a\", \"b\")]"]).to_string(),
            3 | 4 if !matches!(k, ImplFor) && !f.must_use => {
                f.must_use = true;
                g.pick(&["#[must_use]", "#[must_use = \"it matters\"]"]).to_string()
            }
            5 if f.body => g.pick(&["#[inline]", "#[inline(always)]", "#[inline(never)]"]).to_string(),
            6 if f.body => "#[cold]".into(),
            7 => g.pick(&["#[allow(unused_variables)]", "#[allow(unused)]", "#[allow(clippy::too_many_arguments)]", "#[allow(non_snake_case, dead_code)]"]).to_string(),
            8 => g.pick(&["#[warn(unused_variables)]", "#[deny(unused_mut)]", "#[forbid(unused_mut)]", "#[deny(missing_docs)] /// has them\n"]).to_string(),
            9 if f.body && f.arg && k != Mock && k != MockTrait => g.pick(&["#[expect(unused_variables)]", "#[expect(unused_variables, reason = \"a stub\")]"]).to_string(),
            10 if k == Mock || k == MockTrait => "#[expect(unused_variables)]".into(),
            11 if k != ImplFor => g.pick(&["#[deprecated]", "#[deprecated = \"old\"]", "#[deprecated(since = \"1.0\", note = \"old\")]"]).to_string(),
            12 | 13 if k != Foreign => "#[track_caller]".into(),
            14 => "#[rustfmt::skip]".into(),
            15 => "#[clippy::cognitive_complexity = \"10\"]".into(),
            16 if k == Mod && !f.generic => { let (n, m) = (f.name.clone(), f.attrs.len()); format!("#[export_name = \"c19_{uniq}_{n}_{m}\"]") },
            17 => "#[cfg_attr(nope, does::not(exist))]".into(),
            19 if k == Foreign => { let (n, m) = (f.name.clone(), f.attrs.len()); format!("#[link_name = \"c19_other_{uniq}_{n}_{m}\"]") },
            _ => continue,
        };
        // none twice, nor lints that contradict each other
        if f.attrs.iter().any(|b| (kind(&a).is_some() && kind(&a) == kind(b)) || (lint(&a) && lint(b))) || (lint(&a) && !f.arg_attr.is_empty()) {
            continue;
        }
        // the same on some condition
        if g.p(25) && a.starts_with("#[") && a.matches("#[").count() == 1 && a.ends_with(']') {
            let inner = &a[2..a.len() - 1];
            return match g.n(3) {
                0 => format!("#[cfg_attr(on, {inner})]"),
                1 => format!("#[cfg_attr(all(on, not(nope)), {inner}, allow(unused_labels))]"),
                _ => format!("#[cfg_attr(on, cfg_attr(not(nope), {inner}))]"),
            };
        }
        return a;
    }
}

fn presence(g: &mut G, kept: bool) -> String {
    if kept {
        g.pick(&["#[cfg(on)]", "#[cfg(not(nope))]", "#[cfg(any(on, nope))]", "#[cfg_attr(on, cfg(on))]", "#[cfg_attr(nope, cfg(nope))]"]).to_string()
    } else {
        g.pick(&["#[cfg(nope)]", "#[cfg(not(on))]", "#[cfg(all(on, nope))]", "#[cfg_attr(on, cfg(nope))]"]).to_string()
    }
}

/// `orig`: with a body, if the original has one
fn text(f: &F, k: K, orig: bool, attrs: bool) -> String {
    let ty = if f.missing { "DoesNotExist" } else { "u32" };
    let mut s = String::new();
    if attrs {
        for a in &f.attrs {
            s += &format!("    {a}{}", if a.ends_with('\n') { "" } else { "\n" });
        }
    }
    let vis = matches!(k, Impl | Mock | Mod | Foreign) || (k == MockTrait && false);
    let mut args = vec![];
    if !f.stat {
        args.push(if f.ret.starts_with("&mut") { "&mut self".to_string() } else { "&self".into() });
    }
    if f.arg {
        args.push(format!("{}{}x: {}", f.arg_attr, if f.attrs.iter().any(|a| a.contains("expect(unused")) { "" } else { "_" }, if f.generic { "X" } else { ty }));
    }
    let body = if !orig || !f.body {
        ";".to_string()
    } else {
        " { unimplemented!() }".into()
    };
    s + &format!(
        "    {}fn {}{}({}){}{body}\n",
        if vis { "pub " } else { "" },
        f.name,
        if f.generic { "<X: 'static>" } else { "" },
        args.join(", "),
        if f.ret.is_empty() { String::new() } else { format!(" -> {}", f.ret) }
    )
}

fn functions(g: &mut G, k: K, from: usize, uniq: &str) -> Vec<F> {
    let mut fs: Vec<F> = vec![];
    let n = 1 + g.n(4);
    let mut i = from;
    // every mock of a foreign function exports its name
    let name = |i: usize| if k == Foreign { format!("f{i}_of_{uniq}") } else { format!("f{i}") };
    while fs.len() < n {
        let of_mod = matches!(k, Mod | Foreign);
        let stat = of_mod || g.p(30);
        let generic = k != Foreign && g.p(12);
        let mut f = F {
            name: name(i),
            kept: true,
            attrs: vec![],
            stat,
            ret: if stat { g.pick(&["", "u32", "u32"]) } else { g.pick(&["", "u32", "u32", "&u32", "&mut u32"]) },
            generic,
            arg: generic || g.p(60),
            arg_attr: "",
            missing: false,
            body: match k {
                Trait => g.p(30),
                Foreign => false,
                _ => true,
            },
            must_use: false,
        };
        if f.arg && g.p(6) {
            f.arg_attr = "#[allow(unused_variables)] ";
        }
        for _ in 0..[1, 0, 1, 2, 3][g.n(5)] {
            let a = fn_attr(g, k, &mut f, uniq);
            f.attrs.push(a);
        }
        match g.n(10) {
            0 => {
                let p = presence(g, true);
                let at = g.n(f.attrs.len() + 1);
                f.attrs.insert(at, p);
            }
            1 | 2 => {
                f.kept = false;
                f.missing = f.arg && !f.generic && g.p(60);
                let p = presence(g, false);
                let at = g.n(f.attrs.len() + 1);
                f.attrs.insert(at, p);
            }
            _ => {}
        }
        let again = g.p(if f.kept { 0 } else { 40 });
        let (stat, ret, generic) = (f.stat, f.ret, f.generic);
        fs.push(f);
        // another one of that name, which is there
        if again {
            let mut b = F {
                name: name(i),
                kept: true,
                attrs: vec![],
                stat,
                ret,
                generic,
                arg: true,
                arg_attr: "",
                missing: false,
                body: k != Foreign && k != Trait,
                must_use: false,
            };
            if !of_mod && g.p(40) {
                b.stat = !stat;
                b.ret = if b.stat { "u32" } else { "&u32" };
            }
            if g.p(50) {
                let a = fn_attr(g, k, &mut b, uniq);
                b.attrs.push(a);
            }
            let p = presence(g, true);
            b.attrs.push(p);
            fs.push(b);
        }
        i += 1;
    }
    fs
}

/// Statements that use what is there, and find that the rest is not
fn usage(k: K, fs: &[F], module: &str) -> String {
    let mut s = String::new();
    for f in fs {
        let e = if f.stat { format!("{}_context", f.name) } else { format!("expect_{}", f.name) };
        let there = fs.iter().any(|o| o.name == f.name && o.kept && o.stat == f.stat);
        // a generic one's expect_ cannot be named without its parameter
        let nameable = !fs.iter().any(|o| o.name == f.name && o.kept && o.generic && !o.stat);
        if nameable {
            if matches!(k, Mod | Foreign) {
                s += &format!("    {{ fn {e}() {{}} {{ #[allow(unused_imports)] use {module}::*; let got = !std::any::type_name_of_val(&{e}).contains(\"::run::\"); assert_eq!(got, {there}, \"{e}\"); }} }}\n");
            } else {
                s += &format!("    {{ trait Fallback {{ fn {e}() {{}} }} impl<T> Fallback for T {{}} let got = !std::any::type_name_of_val(&MockFoo::{e}).contains(\"Fallback\"); assert_eq!(got, {there}, \"{e}\"); }}\n");
            }
        }
        if !f.kept {
            continue;
        }
        let fish = if f.generic { "::<u32>" } else { "" };
        let (x, xs, with) = if f.arg { ("_", "5u32", ".with(mockall::predicate::eq(5)).times(1)") } else { ("", "", ".times(1)") };
        let (act, want) = match f.ret {
            "" => (format!(".returning(|{x}| ())"), "()"),
            "u32" => (format!(".returning(|{x}| 3)"), "3"),
            "&u32" => (".return_const(3u32)".into(), "&3"),
            _ => (".return_var(3u32)".into(), "&mut 3"),
        };
        s += &if k == Foreign {
            format!("    {{ let c = {module}::{e}(); c.expect{fish}(){with}{act}; assert_eq!(unsafe {{ {module}::{}({xs}) }}, {want}); c.checkpoint(); }}\n", f.name)
        } else if k == Mod {
            format!("    {{ let c = {module}::{e}(); c.expect{fish}(){with}{act}; assert_eq!({module}::{}({xs}), {want}); c.checkpoint(); }}\n", f.name)
        } else if f.stat {
            format!("    {{ let c = MockFoo::{e}(); c.expect{fish}(){with}{act}; assert_eq!(MockFoo::{}({xs}), {want}); c.checkpoint(); }}\n", f.name)
        } else {
            format!("    {{ let mut m = MockFoo::new(); m.{e}{fish}(){with}{act}; assert_eq!(m.{}({xs}), {want}); m.checkpoint(); }}\n", f.name)
        };
    }
    s
}

fn case(g: &mut G, i: usize) -> Case {
    let k = [Trait, Impl, ImplFor, MockTrait, Mock, Mod, Foreign][g.n(7)];
    let uniq = i.to_string();
    let fs = functions(g, k, 0, &uniq);
    // attributes of the item
    let mut before: Vec<&str> = vec![];
    let mut after: Vec<&str> = vec![];
    let mut inside: Vec<&str> = vec![];
    let mut gone = false;
    let mut boring = true;
    for _ in 0..g.n(3) {
        boring = false;
        let a: &str = match g.n(9) {
            0 => "/// A thing",
            1 => "#[allow(unused_variables)]",
            2 => "#[doc(hidden)]",
            3 => "#[cfg(on)]",
            4 => "#[cfg_attr(on, doc = \"A thing\")]",
            5 => "#[rustfmt::skip]",
            6 if k == Trait => g.pick(&["#[must_use]", "#[must_use = \"it matters\"]", "#[diagnostic::on_unimplemented(message = \"no\")]"]),
            6 if k == Mock || k == MockTrait => g.pick(&["#[must_use]", "#[non_exhaustive]", "#[repr(C)]"]),
            7 => "#[cfg_attr(nope, cfg(nope))]",
            _ => "#[warn(unused_mut)]",
        };
        if (a.contains("non_exhaustive") || a.contains("repr") || a.contains("diagnostic")) && (after.contains(&a) || before.contains(&a)) {
            continue;
        }
        if a.contains("must_use") && (before.contains(&a) || after.iter().chain(&before).any(|b| b.contains("must_use"))) {
            continue;
        }
        if k != Mock && k != MockTrait && !a.contains("rustfmt") && !a.contains("must_use") && !a.contains("diagnostic") && g.p(25) {
            inside.push(a)
        } else if g.p(50) && k != Mock && k != MockTrait {
            before.push(a)
        } else {
            after.push(a)
        }
    }
    if g.p(5) {
        gone = true;
        after.push("#[cfg(nope)]");
    }
    let trait_dep = k == Trait && g.p(8);
    if trait_dep {
        after.push("#[deprecated]");
        after.push("#[allow(deprecated)]");
    }
    let lines = |v: &[&str]| v.iter().map(|a| format!("{a}\n")).collect::<String>();
    let (before, after) = (lines(&before), lines(&after));
    let inside = lines(&inside).replace("#[", "#![").replace("///", "//!");
    let all = |orig: bool, attrs: bool| fs.iter().map(|f| text(f, k, orig, attrs)).collect::<String>();
    // the trait of an impl: only the cfgs
    let only_cfgs = |fs: &[F]| -> String {
        fs.iter()
            .map(|f| {
                let cfgs: String = f.attrs.iter().filter(|a| a.contains("cfg(")).map(|a| format!("    {a}\n")).collect();
                cfgs + &text(f, Trait, false, false)
            })
            .collect()
    };
    let mut extra = String::new();
    let mut second: Vec<F> = vec![];
    let decl = match k {
        Trait => format!("{before}#[mockall::automock]\n{after}pub trait Foo {{\n{inside}{}}}\n", all(true, true)),
        Impl => format!("pub struct Foo;\n{before}#[mockall::automock]\n{after}impl Foo {{\n{inside}{}}}\n", all(true, true)),
        ImplFor => format!("pub trait Tr {{\n{}}}\npub struct Foo;\n{before}#[mockall::automock]\n{after}impl Tr for Foo {{\n{inside}{}}}\n", only_cfgs(&fs), all(true, true)),
        MockTrait => {
            // more blocks, with conditions of their own
            let n = g.n(3);
            let mut blocks = format!("    {}impl Tr for Foo {{\n{}    }}\n", g.pick(&["", "", "/// A block\n    ", "#[cfg(on)] ", "#[allow(unused_variables)] ", "#[allow(clippy::all)] /// A block\n    "]), all(false, true));
            if n >= 1 {
                let more = functions(g, MockTrait, 10, &uniq);
                let gone = g.p(40);
                let p = presence(g, !gone);
                blocks += &format!("    {p}\n    impl Tr2 for Foo {{\n{}    }}\n", more.iter().map(|f| text(f, MockTrait, false, true)).collect::<String>());
                if !gone {
                    extra += &format!("pub trait Tr2 {{\n{}}}\n", only_cfgs(&more));
                    second = more;
                }
            }
            if n == 2 {
                // and the same trait on the opposite condition
                blocks = format!("    #[cfg(nope)]\n    impl Tr for Foo {{\n    fn f0(&self, x: DoesNotExist);\n    }}\n{blocks}");
                blocks = blocks.replace("    impl Tr for Foo {\n    fn f0(&self, x: DoesNotExist);", "    impl Tr for Foo {\n    fn f0(&self, x: DoesNotExist);");
            }
            extra += &format!("pub trait Tr {{\n{}}}\n", only_cfgs(&fs));
            format!("mockall::mock! {{\n{after}    pub Foo {{}}\n{blocks}}}\n")
        }
        Mock => format!("mockall::mock! {{\n{after}    pub Foo {{\n{}    }}\n}}\n", all(false, true)),
        Mod => format!("{before}#[mockall::automock]\n{after}pub mod foo {{\n{inside}{}}}\n", all(true, true)),
        Foreign => format!(
            "{before}#[mockall::automock]\n{after}pub mod foo {{\n{inside}    {}extern \"C\" {{\n{}    }}\n{}}}\n",
            g.pick(&["", "#[allow(improper_ctypes)] ", "#[cfg(on)] "]),
            all(false, true),
            g.pick(&["", "    #[cfg(nope)]\n    extern \"C\" { pub fn gone(x: DoesNotExist); }\n", "    #[cfg_attr(on, cfg(nope), link(name = \"none\"))]\n    extern \"C\" { pub fn gone(x: DoesNotExist); }\n"])
        ),
    };
    let mut s = extra + &decl;
    s += "#[allow(deprecated, unused_must_use)]\npub fn run() {\n";
    if !gone {
        s += &usage(k, &fs, "mock_foo");
        s += &usage(k, &second, "mock_foo");
    } else {
        let what = if matches!(k, Mod | Foreign) { "mock_foo" } else { "MockFoo" };
        s += &format!("    mod inner {{ #[allow(non_camel_case_types)] pub struct {what}; }}\n    #[allow(unused_imports)] use inner::*;\n    let _ = {what};\n");
    }
    s += "}\n";
    let name = ["trait", "impl", "impl-trait-for", "mock!-trait", "mock!", "module", "foreign"][k as usize];
    let nontrivial = !boring || fs.iter().any(|f| !f.attrs.is_empty());
    let mut classes = vec![name.to_string()];
    if fs.iter().any(|f| !f.kept) {
        classes.push("absent function".into());
    }
    Case { text: s, expect: Expect::Clean, nontrivial, classes, key: None }
}

/// The attributes which make the compiler speak up where the original is used
/// do the same for the mock; and without them it is silent.
fn carry(g: &mut G, i: usize) -> Case {
    let k = [Trait, Impl, Mock, MockTrait, Mod, Foreign][g.n(6)];
    let of_mod = matches!(k, Mod | Foreign);
    let has = g.p(60);
    let must = match g.n(3) {
        0 => "#[must_use]",
        1 => "#[must_use = \"it matters\"]",
        _ => "#[cfg_attr(on, must_use)]",
    };
    let stat = of_mod || g.p(40);
    let generic = k != Foreign && g.p(20);
    let arg = generic || g.p(50);
    let ret = if stat { "u32" } else { g.pick(&["u32", "&u32", "&mut u32"]) };
    let a = |on: bool| if on { format!("    {must}\n") } else { String::new() };
    let other = if g.p(50) { "    #[allow(unused_variables)]\n    /// Says it\n" } else { "" };
    let f = |vis: &str, body: &str, with: bool| {
        format!(
            "{other}{}    {vis}fn f{}({}) -> {ret}{body}\n{}    {vis}fn g({}) -> u32{body}\n",
            a(has && with),
            if generic { "<X: 'static>" } else { "" },
            [if stat { "" } else if ret.starts_with("&mut") { "&mut self" } else { "&self" }, if generic { "x: X" } else if arg { "x: u32" } else { "" }].iter().filter(|s| !s.is_empty()).copied().collect::<Vec<_>>().join(", "),
            a(!has && with),
            if of_mod { "" } else { "&self" },
        )
    };
    let un = " { unimplemented!() }";
    let decl = match k {
        Trait => format!("#[mockall::automock]\npub trait Foo {{\n{}}}\n", f("", ";", true)),
        Impl => format!("pub struct Foo;\n#[mockall::automock]\nimpl Foo {{\n{}}}\n", f("pub ", un, true)),
        Mock => format!("mockall::mock! {{\n    pub Foo {{\n{}    }}\n}}\n", f("pub ", ";", true)),
        // the trait says so
        MockTrait => format!("pub trait Tr {{\n{}}}\nmockall::mock! {{\n    pub Foo {{}}\n    impl Tr for Foo {{\n{}    }}\n}}\n", f("", ";", true), f("", ";", false)),
        Mod => format!("#[mockall::automock]\npub mod foo {{\n{}}}\n", f("pub ", un, true)),
        _ => format!("#[mockall::automock]\npub mod foo {{\n    extern \"C\" {{\n{}    }}\n}}\n", f("pub ", ";", true)),
    };
    let xs = if arg { "5u32" } else { "" };
    let act = match ret {
        "u32" => ".returning(|_| 3)".replace('_', if arg { "_" } else { "" }),
        "&u32" => ".return_const(3u32)".into(),
        _ => ".return_var(3u32)".into(),
    };
    let fish = if generic { "::<u32>" } else { "" };
    let mut s = String::from("#![allow(unused_imports, unused_variables)]\n") + &decl;
    s += "#[deny(unused_must_use)]\npub fn run() {\n";
    if of_mod {
        s += &format!("    let c = mock_foo::f_context();\n    c.expect{fish}(){act};\n");
    } else if stat {
        s += &format!("    let c = MockFoo::f_context();\n    c.expect{fish}(){act};\n");
    } else {
        s += &format!("    let mut m = MockFoo::new();\n    m.expect_f{fish}(){act};\n");
    }
    let call = match k {
        Foreign => format!("unsafe {{ mock_foo::f({xs}) }};"),
        Mod => format!("mock_foo::f({xs});"),
        _ if stat => format!("MockFoo::f({xs});"),
        _ => format!("m.f({xs});"),
    };
    let at = s.matches('\n').count() + 1;
    s += &format!("    {call}\n}}\n");
    if k == Foreign {
        // every mock of a foreign function exports its name
        for n in ["f", "g"] {
            for (before, after) in [("fn ", "("), ("mock_foo::", "("), ("mock_foo::", "_context(")] {
                s = s.replace(&format!("{before}{n}{after}"), &format!("{before}{n}_carry_{i}{after}"));
            }
        }
    }
    Case {
        text: s,
        expect: if has { Expect::Refused(at, at) } else { Expect::Clean },
        nontrivial: true,
        classes: vec![format!("must_use {}", if has { "carried over" } else { "absent" })],
        key: None,
    }
}

/// A lint that the declaration violates at some level where it is allowed, or
/// obeys at a level where it must.
fn lints(g: &mut G, i: usize) -> Case {
    let k = [Trait, Impl, ImplFor, MockTrait, Mock, Mod, Foreign][g.n(7)];
    let of_mod = matches!(k, Mod | Foreign);
    let mocked = matches!(k, Mock | MockTrait);
    let body = matches!(k, Impl | ImplFor | Mod);
    let sup = if of_mod { "super::" } else { "" };
    let mut classes: Vec<String> = vec![];
    // where the attribute is
    #[derive(PartialEq, Clone, Copy)]
    enum At { Before, After, Inside, Block, Fn, Body }
    let mut at: Vec<(At, String)> = vec![];
    let mut pre = String::new();
    let mut strict: Vec<&str> = vec![];
    // name, own generics, further args, values, return type, value, prefix
    let n = 1 + g.n(2);
    let mut fs = vec![];
    for j in 0..n {
        // every mock of a foreign function exports its name
        let uniq = if k == Foreign { format!("_lint_{i}") } else { String::new() };
        let mut name = format!("f{j}{uniq}");
        let mut a: Vec<(String, String, &str)> = vec![];
        let (mut ret, mut val) = ("u32".to_string(), "3");
        let mut attrs: Vec<(String, bool)> = vec![];
        let mut generics = "";
        let mut docs = false;
        let mut unused = body;
        // a lint at a strict level stands alone: another's violation could be one of it
        let alone = g.p(10);
        for _ in 0..if alone { 1 } else { 1 + g.n(2) } {
            let lint = g.w(&[(3, "deprecated"), (3, "non_snake_case"), (2, "missing_docs"), (1, "private_interfaces"), (1, "unused_variables"), (1, "unused_lifetimes"), (1, "single_use_lifetimes"), (1, "unused_mut"), (1, "improper_ctypes")]);
            let lint = if alone { "obeyed" } else { lint };
            if attrs.iter().any(|(l, _)| l == lint) {
                continue;
            }
            let v = a.len();
            match lint {
                "deprecated" if k != Foreign => {
                    if !pre.contains("Old") {
                        pre += "#[deprecated]\n#[derive(Clone, Copy, Debug, PartialEq)]\npub struct Old(pub u32);\n";
                    }
                    if g.p(70) {
                        a.push((format!("x{v}"), format!("{sup}Old"), "Old(5)"));
                    } else {
                        (ret, val) = (format!("{sup}Old"), "Old(3)");
                    }
                }
                "non_snake_case" => {
                    if g.p(50) {
                        name = format!("badName{j}{uniq}");
                    } else {
                        a.push((format!("X{v}"), "u32".into(), "5"));
                    }
                }
                "missing_docs" => strict.push("missing_docs"),
                // the trait's own, too
                "private_interfaces" if matches!(k, Impl | Mod | Trait | Mock) => {
                    if !pre.contains("Hidden") {
                        pre += "#[derive(Clone, Copy, Debug, PartialEq)]\nstruct Hidden(u32);\n";
                    }
                    a.push((format!("x{v}"), format!("{sup}Hidden"), "Hidden(5)"));
                }
                "unused_variables" if body => {
                    a.push((format!("x{v}"), "u32".into(), "5"));
                    unused = false;
                }
                "unused_mut" if body => a.push((format!("mut _x{v}"), "u32".into(), "5")),
                // either strict lint could meet the other's function
                "unused_lifetimes" if !strict.contains(&"single_use_lifetimes") && generics.is_empty() && k != ImplFor && k != MockTrait => {
                    strict.push(lint);
                    generics = "<'a>";
                }
                "single_use_lifetimes" if !strict.contains(&"unused_lifetimes") && generics.is_empty() && k != ImplFor && k != MockTrait => {
                    strict.push(lint);
                    generics = "<'a>";
                    a.push((format!("x{v}"), "&'a u32".into(), "&5"));
                }
                "improper_ctypes" if k == Foreign => {
                    if !pre.contains("NotC") {
                        pre += "#[derive(Clone, Copy, Debug, PartialEq)]\npub struct NotC(pub u32);\n";
                    }
                    a.push((format!("x{v}"), format!("{sup}NotC"), "NotC(5)"));
                }
                "obeyed" => {
                    docs = true;
                }
                _ => continue,
            }
            attrs.push((lint.to_string(), lint == "obeyed"));
        }
        for (lint, obeyed) in &attrs {
            let level = if *obeyed {
                *g.pick(&["deny", "forbid", "warn"])
            } else if mocked || k == Foreign || lint == "missing_docs" || lint == "unused_mut" || k == ImplFor && lint == "non_snake_case" || g.p(60) {
                "allow"
            } else {
                "expect"
            };
            let lint = if *obeyed { *g.pick(&["missing_docs", "non_snake_case", "dead_code", "unused_imports", "unused", "warnings", "unsafe_code"]) } else { lint.as_str() };
            if *obeyed && lint == "unused" && !unused {
                continue;
            }
            classes.push(format!("{level} {}", if *obeyed { "obeyed" } else { lint }));
            let a = format!("{level}({lint}{})", if g.p(15) { ", reason = \"so\"" } else { "" });
            let a = if g.p(20) { format!("cfg_attr(on, {a})") } else { a };
            let mut places = vec![At::Fn];
            // a strict lint above a function could meet another's violation
            if !obeyed && !(level == "expect" && lint == "private_interfaces") {
                places.push(At::After);
                if !mocked {
                    places.extend([At::Before, At::Inside]);
                }
                if matches!(k, MockTrait | Foreign) {
                    places.push(At::Block);
                }
            }
            if body && matches!(lint, "unused_variables" | "unused_mut") {
                // arguments aren't within the body's scope, but its attributes apply to them
                places.push(At::Body);
            }
            let p = *g.pick(&places);
            at.push((p, if matches!(p, At::Fn | At::Body) { format!("{j}{a}") } else { a }));
        }
        let missing = attrs.iter().any(|(l, _)| l == "missing_docs");
        let docs = docs || !missing;
        fs.push((name, generics, a, ret, val, docs, attrs.iter().any(|(l, _)| l == "unused_variables")));
    }
    // one expectation of a lint at a place; the rest must not interfere with it
    at.dedup();
    let expected = at.iter().filter(|(_, a)| a.contains("expect(")).count();
    if expected > 0 && (at.len() > 1 || fs.len() > 1) {
        at.iter_mut().for_each(|(_, a)| *a = a.replace("expect(", "allow("));
    }
    let get = |p: At| -> String { at.iter().filter(|(q, _)| *q == p).map(|(_, a)| format!("#[{a}]\n")).collect() };
    let get_fn = |p: At, j: usize| -> String { at.iter().filter(|(q, a)| *q == p && a.starts_with(&j.to_string())).map(|(_, a)| format!("#[{}]\n", &a[1..])).collect() };
    let everywhere: String = at.iter().filter(|(_, a)| !a.contains("deny") && !a.contains("forbid") && !a.contains("warn")).map(|(p, a)| {
        let a = if matches!(p, At::Fn | At::Body) { &a[1..] } else { a.as_str() };
        format!("#[{}]\n", a.replace("expect(", "allow("))
    }).collect();
    let func = |j: usize, orig: bool, attrs: bool| -> String {
        let (name, generics, a, ret, _, docs, unused) = &fs[j];
        let mut xs: Vec<String> = a
            .iter()
            .map(|(n, t, _)| {
                let n = if orig && body && n.starts_with('x') && !unused { format!("_{n}") } else { n.clone() };
                format!("{}: {t}", if orig && body { n.as_str() } else { n.trim_start_matches("mut ") })
            })
            .collect();
        if orig && body {
            // an upper case one is unused, too
            for x in xs.iter_mut() {
                if x.starts_with('X') {
                    *x = format!("_{x}");
                }
            }
        }
        if !of_mod {
            xs.insert(0, "&self".into());
        }
        format!(
            "{}{}    {}fn {name}{generics}({}) -> {ret}{}\n",
            if *docs { "    /// Documented\n" } else { "" },
            if attrs { get_fn(At::Fn, j) } else { String::new() },
            if matches!(k, Impl | Mod | Foreign | Mock) { "pub " } else { "" },
            xs.join(", "),
            if orig && body { format!(" {{\n{}unimplemented!()\n}}", get_fn(At::Body, j).replace("#[", "#![")) } else { ";".into() }
        )
    };
    let all = |orig: bool, attrs: bool| (0..fs.len()).map(|j| func(j, orig, attrs)).collect::<String>();
    let (b, a, inn, bl) = (get(At::Before), get(At::After), get(At::Inside).replace("#[", "#!["), get(At::Block));
    let doc = "/// Documented\n";
    let decl = match k {
        Trait => format!("{doc}{b}#[mockall::automock]\n{a}pub trait Foo {{\n{inn}{}}}\n", all(true, true)),
        Impl => format!("{doc}pub struct Foo;\n{doc}{b}#[mockall::automock]\n{a}impl Foo {{\n{inn}{}}}\n", all(true, true)),
        ImplFor => format!("{doc}{everywhere}pub trait Tr {{\n{}}}\n{doc}pub struct Foo;\n{b}#[mockall::automock]\n{a}impl Tr for Foo {{\n{inn}{}}}\n", all(false, false), all(true, true)),
        Mod => format!("{doc}{b}#[mockall::automock]\n{a}pub mod foo {{\n{inn}{}}}\n", all(true, true)),
        Foreign => format!("{doc}{b}#[mockall::automock]\n{a}pub mod foo {{\n{inn}{bl}extern \"C\" {{\n{}}}\n}}\n", all(true, true)),
        Mock => format!("mockall::mock! {{\n{doc}{a}pub Foo {{\n{}}}\n}}\n", all(false, true)),
        MockTrait => format!("{doc}{everywhere}pub trait Tr {{\n{}}}\nmockall::mock! {{\n{doc}{a}pub Foo {{}}\n{bl}impl Tr for Foo {{\n{}}}\n}}\n", all(false, false), all(false, true)),
    };
    let mut s = String::new();
    s += &pre.replace("pub struct", "/// Documented\npub struct");
    s += &decl;
    s += "#[allow(warnings)]\n/// Documented\npub fn run() {\n";
    for (name, _, a, _, val, _, _) in &fs {
        let xs = a.iter().map(|(_, _, v)| *v).collect::<Vec<_>>().join(", ");
        let us = vec!["_"; a.len()].join(", ");
        let (obj, exp, call) = if of_mod {
            (format!("let c = mock_foo::{name}_context();"), "c.expect()".to_string(), format!("unsafe {{ mock_foo::{name}({xs}) }}"))
        } else {
            ("let mut m = MockFoo::new();".into(), format!("m.expect_{name}()"), format!("m.{name}({xs})"))
        };
        s += &format!("    {{ {obj} {exp}.times(1).returning(|{us}| {val}); assert_eq!({call}, {val}); }}\n");
    }
    s += "}\n";
    if !strict.is_empty() {
        strict.sort();
        strict.dedup();
        s = format!("/// Documented\n#[warn({})]\npub mod strict {{\n#[allow(unused_imports)] use super::*;\n{s}}}\npub fn run() {{ strict::run() }}\n", strict.join(", "));
    }
    let name = ["trait", "impl", "impl-trait-for", "mock!-trait", "mock!", "module", "foreign"][k as usize];
    classes.push(name.into());
    Case { text: s, expect: Expect::Clean, nontrivial: !at.is_empty(), classes, key: None }
}

fn args() -> Vec<String> {
    ["--cfg=on", "--check-cfg=cfg(on)", "--check-cfg=cfg(nope)"].iter().map(|s| s.to_string()).collect()
}

pub fn plans() -> Vec<CasePlan> {
    vec![
        CasePlan {
            name: "attributes",
            gen: case,
            n: 400,
            nightly: false,
            args: args(),
            rule: "a declaration with at least one attribute on the item or a function, compiled without warnings, with every function that its cfgs keep expected and called, and every other found absent",
            group: 10,
        },
        CasePlan {
            name: "carry",
            gen: carry,
            n: 40,
            nightly: false,
            args: args(),
            rule: "a call whose result is dropped, refused under deny(unused_must_use) exactly if the original is must_use",
            group: 10,
        },
        CasePlan {
            name: "lints",
            gen: lints,
            n: 150,
            nightly: false,
            args: args(),
            rule: "a declaration that violates a lint where it is allowed or expected, or obeys one where it is denied, compiled without warnings and used",
            group: 10,
        },
        crate::vis::plan(100),
    ]
}
