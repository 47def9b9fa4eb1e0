//! C15 and C19: where the items and functions of a mock can be reached from.
use crate::cases::*;
use crate::g::G;

/// Where something can be reached from: everywhere (None), or the module at
/// that level and below it
type Scope = Option<usize>;

fn abs(level: usize) -> String {
    (1..=level).fold("$C".to_string(), |s, i| s + &format!("::m{i}"))
}

/// A visibility as written in the module at `at`
fn vis(g: &mut G, at: usize, named: usize) -> (String, Scope) {
    match g.n(10) {
        0 => ("pub ".into(), None),
        1 => (String::new(), Some(at)),
        2 => ("pub(self) ".into(), Some(at)),
        3 => ("pub(crate) ".into(), None),
        4 | 5 if at > 0 => (g.pick(&["pub(super) ", "pub(in super) ", "pub(in self::super) "]).to_string(), Some(at - 1)),
        6 if at > 0 => {
            let k = 1 + g.n(at);
            (format!("pub(in {}{}) ", if g.p(25) { "self::" } else { "" }, vec!["super"; k].join("::")), Some(at - k))
        }
        7 => ("pub(in self) ".into(), Some(at)),
        8 => {
            let l = g.n(named + 1);
            // the first segment of $C is crate
            (format!("pub(in {}) ", abs(l)), Some(l))
        }
        _ => ("pub(in crate) ".into(), None),
    }
}

struct F {
    name: String,
    vis: String,
    scope: Scope,
    stat: bool,
    ret: &'static str,
    generic: bool,
    arg: bool,
}

fn sig(f: &F, body: &str, vis: bool) -> String {
    format!(
        "    {}fn {}{}({}{}){}{body}\n",
        if vis { f.vis.as_str() } else { "" },
        f.name,
        if f.generic { "<X: 'static>" } else { "" },
        if f.stat { "" } else if f.ret.starts_with("&mut") { "&mut self, " } else { "&self, " },
        match (f.arg, f.generic) {
            (_, true) => "x: X",
            (true, _) => "x: u32",
            _ => "",
        },
        if f.ret.is_empty() { String::new() } else { format!(" -> {}", f.ret) }
    )
    .replace(", )", ")")
}

fn case(g: &mut G, _i: usize) -> Case {
    let depth = 2 + g.n(3);
    let dl = 1 + g.n(depth);
    let kind = g.n(6);
    let at = dl;
    let (ivis, iscope) = vis(g, at, at);
    let module = kind == 5;
    // functions of a module are probed only if the module itself is reachable
    let probe_fns = !module || g.p(70);
    let (ivis, iscope) = if (module && probe_fns) || (kind == 4 && g.p(60)) { ("pub ".to_string(), None) } else { (ivis, iscope) };
    let nf = 1 + g.n(3);
    let mut fs: Vec<F> = vec![];
    for i in 0..nf {
        let (v, s) = vis(g, if module { at + 1 } else { at }, at);
        let stat = module || g.p(35);
        fs.push(F {
            name: format!("f{i}"),
            vis: v,
            scope: s,
            stat,
            ret: if stat { g.pick(&["", "u32"]) } else { g.pick(&["", "u32", "&u32", "&mut u32"]) },
            generic: g.p(15),
            arg: g.p(50),
        });
    }
    if module && !probe_fns {
        // the mark of the module itself
        fs[0].vis = "pub ".into();
        fs[0].generic = false;
    }
    let of_trait = matches!(kind, 0 | 2 | 3);
    for f in &mut fs {
        if of_trait {
            // a trait's functions are as visible as the mock
            f.scope = if kind == 2 { None } else { iscope };
        }
    }
    let un = " { unimplemented!() }";
    let all = |b: &str, v: bool| fs.iter().map(|f| sig(f, b, v)).collect::<String>();
    let orig_un: String = if ivis == "pub " { "pub ".into() } else { ivis.clone() };
    // what is mocked, and a reference for mock!
    let (decl, orig, mock, expect_item) = match kind {
        0 => (format!("#[mockall::automock]\n{ivis}trait Foo {{\n{}}}\n", all(";", false)), "Foo", "MockFoo", iscope),
        1 => (format!("pub struct Foo;\n#[mockall::automock]\nimpl Foo {{\n{}}}\n", all(un, true)), "Foo", "MockFoo", None),
        2 => (format!("pub trait Tr {{\n{}}}\npub struct Foo;\n#[mockall::automock]\nimpl Tr for Foo {{\n{}}}\n", all(";", false), all(un, false)), "Foo", "MockFoo", None),
        3 => (
            format!("pub trait Tr {{\n{}}}\nmockall::mock! {{\n{ivis}Foo {{}}\nimpl Tr for Foo {{\n{}}}\n}}\n{orig_un}struct Ref;\n", all(";", false), all(";", false)),
            "Ref",
            "MockFoo",
            iscope,
        ),
        4 => (
            format!("mockall::mock! {{\n{ivis}Foo {{\n{}}}\n}}\n{orig_un}struct Ref;\nimpl Ref {{\n{}}}\n", all(";", true), all(un, true)),
            "Ref",
            "MockFoo",
            iscope,
        ),
        _ => (format!("#[mockall::automock]\n{ivis}mod foo {{\n{}}}\n", all(un, true)), "foo", "mock_foo", iscope),
    };
    let mut decl = decl;
    if !module {
        decl += "#[allow(private_interfaces)] pub type AMock = MockFoo;\n";
        if kind == 1 || kind == 4 {
            decl += &format!("#[allow(private_interfaces)] pub type AOrig = {orig};\n");
        }
    }
    let inside = |site: usize, side: bool, s: Scope| match s {
        None => true,
        // a side module at a level is inside of the module of that level
        Some(l) => site >= l && !(module && l > dl) && { let _ = side; true },
    };
    let here = abs(dl);
    let probe = |site: usize, side: bool| -> String {
        let mut s = String::from("pub fn probe(bad: &mut Vec<String>) {\n");
        let who = format!("{}{}", if side { "a side module of level " } else { "level " }, site);
        let check = |what: &str, expr: &str, want: bool| format!("    {{ let got: bool = {expr}; if got != {want} {{ bad.push(format!(\"{what} from {who}: reachable {{got}}, the original {want}\")); }} }}\n");
        let item = |n: &str| {
            let decl = if module { format!("mod {n} {{ pub struct Mark; }}") } else { format!("struct {n};") };
            let _ = &decl;
            if module {
                // a module: its mark is only here
                format!("{{ #[allow(dead_code)] mod {n} {{ pub fn checkpoint() {{}} pub fn f0() {{}} }} {{ #[allow(unused_imports)] use {here}::*; !std::any::type_name_of_val(&{n}::{}).contains(\"::probe::\") }} }}", if n == "foo" { "f0" } else { "checkpoint" })
            } else {
                format!("{{ #[allow(dead_code)] struct {n}; {{ #[allow(unused_imports)] use {here}::*; !std::any::type_name::<{n}>().contains(\"::probe::\") }} }}")
            }
        };
        if !(module && probe_fns) {
            s += &check(mock, &item(mock), inside(site, side, expect_item));
            if kind != 0 {
                s += &check(orig, &item(orig), inside(site, side, if kind == 1 || kind == 2 { None } else { iscope }));
            }
        }
        if probe_fns {
            for f in &fs {
                // the type must be reachable, to ask for its functions
                if !inside(site, side, if kind == 1 || kind == 2 { None } else { iscope }) {
                    continue;
                }
                let ok = inside(site, side, f.scope);
                if module {
                    let fi = |m: &str, n: &str| format!("{{ fn {n}() {{}} {{ #[allow(unused_imports)] use {here}::{m}::*; !std::any::type_name_of_val(&{n}{}).contains(\"::probe::\") }} }}", "");
                    if !f.generic {
                        s += &check(&format!("foo::{}", f.name), &fi("foo", &f.name), ok);
                        s += &check(&format!("mock_foo::{}", f.name), &fi("mock_foo", &f.name), ok);
                    }
                    let c = format!("{}_context", f.name);
                    s += &check(&c, &fi("mock_foo", &c), ok);
                } else {
                    let m = |t: &str, n: &str, generic: bool| {
                        let _ = generic;
                        format!("{{ trait Fallback {{ fn {n}() {{}} }} impl<T> Fallback for T {{}} !std::any::type_name_of_val(&{here}::{t}::{n}).contains(\"Fallback\") }}")
                    };
                    if !of_trait && !f.generic {
                        s += &check(&f.name, &m("AMock", &f.name, f.generic), ok);
                        s += &check(&format!("the original {}", f.name), &m("AOrig", &f.name, f.generic), ok);
                    }
                    let e = if f.stat { format!("{}_context", f.name) } else { format!("expect_{}", f.name) };
                    if f.stat || !f.generic {
                        s += &check(&e, &m("AMock", &e, f.generic), ok);
                    }
                }
                // where it can be reached, all of it can be used
                if ok {
                    let x = if f.generic || f.arg { "_" } else { "" };
                    let fish = if f.generic { "::<u32>" } else { "" };
                    let xs = if f.generic || f.arg { "5u32" } else { "" };
                    let with = if xs.is_empty() { "" } else { ".with(mockall::predicate::always()).withf(|_| true)" };
                    let act = match f.ret {
                        "" => format!(".returning(|{x}| ())"),
                        "u32" => format!(".returning(|{x}| 3)"),
                        "&u32" => ".return_const(3u32)".into(),
                        _ => ".return_var(3u32)".into(),
                    };
                    let (pre, exp, call) = if module {
                        (String::new(), format!("let c = {here}::mock_foo::{0}_context(); c.expect", f.name), format!("{here}::mock_foo::{}({xs})", f.name))
                    } else if f.stat {
                        (String::new(), format!("let c = {here}::AMock::{0}_context(); c.expect", f.name), format!("{here}::AMock::{}({xs})", f.name))
                    } else {
                        (format!("let mut m = {here}::AMock::default(); "), format!("m.expect_{}", f.name), format!("m.{}({xs})", f.name))
                    };
                    let tr = match kind {
                        // the trait can be named where it can be reached
                        0 => format!("#[allow(unused_imports)] use {here}::Foo as _; "),
                        2 | 3 => format!("#[allow(unused_imports)] use {here}::Tr as _; "),
                        _ => String::new(),
                    };
                    let done = if module {
                        " c.checkpoint();".to_string()
                    } else if f.stat {
                        " c.checkpoint();".to_string()
                    } else {
                        " m.checkpoint();".into()
                    };
                    s += &format!("    {{ {tr}{pre}{exp}{fish}(){with}.times(1..3){act}; let _ = {call};{done} }}\n");
                }
            }
        }
        s + "}\n"
    };
    fn nest(level: usize, depth: usize, dl: usize, decl: &str, probe: &dyn Fn(usize, bool) -> String) -> String {
        let mut s = format!("pub mod side {{\n{}}}\n{}", probe(level, true), probe(level, false));
        if level == dl {
            s += decl;
        }
        if level < depth {
            s += &format!("pub mod m{} {{\n{}}}\n", level + 1, nest(level + 1, depth, dl, decl, probe));
        }
        s
    }
    let mut text = String::from("#![allow(dead_code, unused_imports, unused_variables, unused_mut, private_interfaces, unused_must_use, clippy::all)]\n");
    text += &nest(0, depth, dl, &decl, &probe);
    text += "pub fn run() {\n    let mut bad = vec![];\n";
    for l in 0..=depth {
        text += &format!("    {0}::probe(&mut bad);\n    {0}::side::probe(&mut bad);\n", abs(l));
    }
    text += "    assert!(bad.is_empty(), \"{bad:?}\");\n}\n";
    let classes = vec![["trait", "impl", "impl-trait-for", "mock!-trait", "mock!", "module"][kind].to_string()];
    let nontrivial = fs.iter().any(|f| f.vis.contains('(')) || ivis.contains('(');
    Case { text, expect: Expect::Runs, nontrivial, classes, key: None }
}

pub fn plan(n: usize) -> CasePlan {
    CasePlan {
        name: "visibility",
        gen: case,
        n,
        nightly: false,
        args: vec![],
        rule: "a declaration with a restricted visibility, for which reachability of the original, the mock, its functions, expectations and contexts was probed from every level of a nest of modules and from side modules",
        group: 10,
    }
}
