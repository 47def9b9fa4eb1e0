//! C17: #[double] use trees and type aliases.
use crate::cases::*;
use crate::g::G;

const TYPES: [&str; 10] = ["Foo", "Bar", "X", "FooBar", "HTTPConn2", "Écran", "Mockery", "Mock", "r#Raw", "TestDouble_"];
const MODS: [&str; 9] = ["bar", "m2", "x_y", "été", "r#type", "_low", "mockup", "mock", "名"];

fn mock(n: &str) -> String {
    let b = n.trim_start_matches("r#");
    if b.chars().next().unwrap().is_uppercase() {
        format!("Mock{b}")
    } else {
        format!("mock_{b}")
    }
}

/// One of the places: module path below the case's module
const PLACES: [&str; 4] = ["a", "a::b", "a::b::c", "d"];

fn place(p: &str, out: &mut String, inner: &str) {
    *out += &format!("    pub const PLACE: &str = \"{p}\";\n");
    for t in TYPES {
        for n in [t.to_string(), mock(t)] {
            *out += &format!("    pub struct {n}; impl {n} {{ pub const ID: &'static str = \"{p}::{n}\"; }}\n");
        }
    }
    for n in ["Gen", "MockGen"] {
        *out += &format!("    pub struct {n}<T>(T); impl<T> {n}<T> {{ pub const ID: &'static str = \"{p}::{n}\"; }}\n");
    }
    for m in MODS {
        for n in [m.to_string(), mock(m)] {
            *out += &format!("    pub mod {n} {{ pub const ID: &str = \"{p}::{n}\"; }}\n");
        }
    }
    *out += inner;
}

fn world() -> String {
    let wrap = |name: &str, body: &str| format!("pub mod {name} {{\n{body}}}\n");
    let mut c = String::new();
    place("a::b::c", &mut c, "");
    let mut b = String::new();
    place("a::b", &mut b, &wrap("c", &c));
    let mut a = String::new();
    place("a", &mut a, &wrap("b", &b));
    let mut d = String::new();
    place("d", &mut d, "");
    wrap("a", &a) + &wrap("d", &d)
}

struct Leaf {
    local: String,
    /// original name and the place it is from
    orig: String,
    place: String,
}

fn leaf(g: &mut G, place: &str, n: &mut usize, leaves: &mut Vec<Leaf>) -> String {
    let orig = if g.p(40) { *g.pick(&MODS) } else { *g.pick(&TYPES) };
    let is_mod = mock(orig).starts_with("mock_");
    *n += 1;
    let used = |l: &str, ls: &Vec<Leaf>| ls.iter().any(|x| x.local == l);
    if g.p(35) || used(orig, leaves) {
        let mut local = if is_mod { format!("l{n}") } else { format!("L{n}") };
        if g.p(20) && !used(&mock(orig), leaves) {
            local = mock(orig);
        } else if g.p(15) {
            // against the convention
            local = if is_mod { format!("L{n}") } else { format!("l{n}") };
        }
        leaves.push(Leaf { local: local.clone(), orig: orig.into(), place: place.into() });
        format!("{orig} as {local}")
    } else {
        leaves.push(Leaf { local: orig.into(), orig: orig.into(), place: place.into() });
        orig.to_string()
    }
}

/// A tree whose root is the module `at` ("" is the case's module)
fn tree(g: &mut G, at: &str, depth: usize, n: &mut usize, leaves: &mut Vec<Leaf>) -> String {
    let subs: Vec<&str> = match at {
        "" => vec!["a", "d"],
        "a" => vec!["b"],
        "a::b" => vec!["c"],
        _ => vec![],
    };
    let join = |s: &str| if at.is_empty() { s.to_string() } else { format!("{at}::{s}") };
    let down = |g: &mut G, n: &mut usize, leaves: &mut Vec<Leaf>| {
        let s = *g.pick(&subs);
        format!("{s}::{}", tree(g, &join(s), depth + 1, n, leaves))
    };
    if at.is_empty() {
        if g.p(15) {
            let k = 1 + g.n(3);
            let v: Vec<String> = (0..k).map(|_| down(g, n, leaves)).collect();
            return format!("{{{}}}", v.join(", "));
        }
        return down(g, n, leaves);
    }
    match g.n(6) {
        0 | 1 if !subs.is_empty() => down(g, n, leaves),
        2 | 3 if depth < 4 => {
            let k = 1 + g.n(4);
            let v: Vec<String> = (0..k).map(|_| if g.p(40) && !subs.is_empty() { down(g, n, leaves) } else { leaf(g, at, n, leaves) }).collect();
            format!("{{{}{}}}", v.join(", "), if g.p(20) { "," } else { "" })
        }
        _ => leaf(g, at, n, leaves),
    }
}

fn case(g: &mut G, _i: usize, test: bool) -> Case {
    let mut classes = vec![];
    let mut leaves = vec![];
    let mut n = 0;
    let mut decls = String::new();
    let mut more = String::new();
    // where the declaration is: in the module `u`, `u::v`, or a function
    let depth = g.n(3);
    let in_fn = depth == 2;
    let up = match depth {
        0 => 1,
        1 => 2,
        _ => 1,
    };
    let root = |g: &mut G| match g.n(3) {
        0 => "super::".repeat(up),
        1 => "$C::".to_string(),
        _ => format!("self::{}", "super::".repeat(up)),
    };
    let vis = if in_fn { "" } else { *g.pick(&["", "pub ", "pub(crate) ", "pub(super) "]) };
    let k = 1 + g.n(3);
    for _ in 0..k {
        let r = root(g);
        let attr = *g.pick(&["", "/// Documented\n", "#[allow(unused_imports)]\n", "#[cfg(all())]\n", "#[rustfmt::skip]\n"]);
        let second = g.p(40);
        let (pre, post) = if second { (attr, "") } else { ("", attr) };
        match g.n(4) {
            0 => {
                n += 1;
                let p = *g.pick(&PLACES);
                let local = format!("T{n}");
                let (params, orig, args) = match g.n(4) {
                    0 => ("", "Gen", "<u32>"),
                    1 => ("<A>", "Gen", "<A>"),
                    _ => ("", *g.pick(&TYPES), ""),
                };
                decls += &format!("{pre}#[double]\n{post}{vis}type {local}{params} = {r}{p}::{orig}{args};\n");
                leaves.push(Leaf { local: if params.is_empty() { local } else { format!("{local}::<u8>") }, orig: orig.into(), place: p.into() });
                classes.push("type-alias".into());
            }
            1 => {
                // an import from the current module needs a rename
                n += 1;
                let t = format!("Here{n}");
                for x in [t.clone(), mock(&t)] {
                    more += &format!("struct {x}; impl {x} {{ const ID: &'static str = \"here::{x}\"; }}\n");
                }
                let local = format!("R{n}");
                let pv = if vis.starts_with("pub") { "" } else { vis };
                decls += &format!("{pre}#[double]\n{post}{pv}use {}{t} as {local};\n", if in_fn { "" } else { *g.pick(&["", "self::"]) });
                leaves.push(Leaf { local, orig: t, place: "here".into() });
                classes.push("current-module".into());
            }
            _ => {
                let before = leaves.len();
                let t = tree(g, "", 0, &mut n, &mut leaves);
                // keywords cannot start a path inside of braces here
                let r = if t.starts_with('{') && g.p(50) { format!("{r}") } else { r };
                decls += &format!("{pre}#[double]\n{post}{vis}use {r}{t};\n");
                if t.contains('{') {
                    classes.push("group".into());
                }
                if leaves[before..].iter().any(|l| l.local != l.orig) {
                    classes.push("rename".into());
                }
            }
        }
    }
    let want = |l: &Leaf| format!("{}::{}", l.place, if test { mock(&l.orig) } else { l.orig.clone() });
    let check = |pre: &str| -> String { leaves.iter().map(|l| format!("    assert_eq!({pre}{}::ID, \"{}\", \"{}\");\n", l.local, want(l), l.local)).collect() };
    let here = "#![allow(dead_code, unused_imports, uncommon_codepoints, non_camel_case_types, non_snake_case, mixed_script_confusables)]\n";
    let inner = match depth {
        0 => format!("pub mod u {{\nuse mockall_double::double;\n{decls}{more}pub fn check() {{\n{}}}\n}}\n", check("")),
        1 => format!("pub mod u {{\npub mod v {{\nuse mockall_double::double;\n{decls}{more}pub fn check() {{\n{}}}\n}}\npub fn check() {{ v::check(); }}\n}}\n", check("")),
        _ => format!("pub mod u {{\npub fn check() {{\nuse mockall_double::double;\n{more}{decls}{}}}\n}}\n", check("")),
    };
    // visible elsewhere, too
    let outer = if vis.starts_with("pub") && !(vis == "pub(super) " && depth == 1) {
        let p = if depth == 0 { "u::" } else { "u::v::" };
        leaves.iter().filter(|l| l.place != "here").map(|l| format!("    assert_eq!({p}{}::ID, \"{}\", \"{}\");\n", l.local, want(l), l.local)).collect()
    } else {
        String::new()
    };
    if vis == "pub " && !outer.is_empty() {
        classes.push("re-export".into());
    }
    let text = format!("{here}{}{inner}pub fn run() {{\n    u::check();\n{outer}}}\n", world());
    Case { text, expect: Expect::Runs, nontrivial: leaves.len() > 1 || !classes.is_empty(), classes, key: None }
}

fn case_test(g: &mut G, i: usize) -> Case {
    case(g, i, true)
}
fn case_plain(g: &mut G, i: usize) -> Case {
    case(g, i, false)
}

pub fn plans() -> Vec<CasePlan> {
    let p = CasePlan {
        name: "double in a test build",
        gen: case_test,
        n: 240,
        nightly: false,
        args: vec!["--cfg".into(), "test".into(), "-A".into(), "explicit_builtin_cfgs_in_flags".into()],
        rule: "a program with #[double] declarations that import more than one name, or with a group, a rename, an alias or a re-export, in which every local name stood for the right item",
        group: 30,
    };
    vec![p.clone(), CasePlan { name: "double in a plain build", gen: case_plain, n: 120, args: vec![], rule: "the same without cfg(test)", ..p }]
}
