//! C21: every mock object has new(), Default and Debug.
use crate::cases::*;
use crate::g::G;

struct F {
    name: &'static str,
    stat: bool,
    text: String,
    /// an expectation's action, and a call of an object `m`
    act: &'static str,
    call: &'static str,
    fish: &'static str,
}

fn functions(g: &mut G, t: bool) -> Vec<F> {
    let mut all = vec![
        F { name: "f0", stat: false, text: "fn f0(&self) -> u32;".into(), act: ".returning(|| 7)", call: "{m}.f0()", fish: "" },
        F { name: "f1", stat: false, text: "fn f1(&mut self, x: NoDebug) -> NoDebug;".into(), act: ".returning(|x| x)", call: "{m}.f1(NoDebug)", fish: "" },
        F { name: "f2", stat: false, text: "fn f2(&self, x: &str) -> &NoDebug;".into(), act: ".return_const(NoDebug)", call: "{m}.f2(\"a\")", fish: "" },
        F { name: "f3", stat: false, text: "fn f3<X: 'static>(&self, x: X) -> u32;".into(), act: ".returning(|_| 7)", call: "{m}.f3(NoDebug)", fish: "::<NoDebug>" },
        F { name: "f4", stat: false, text: "fn f4(&mut self) -> &mut NoDebug;".into(), act: ".return_var(NoDebug)", call: "{m}.f4()", fish: "" },
        F { name: "s0", stat: true, text: "fn s0(x: u32) -> NoDebug;".into(), act: ".returning(|_| NoDebug)", call: "{M}::s0(5)", fish: "" },
        F { name: "s1", stat: true, text: "fn s1<X: 'static>(x: X) -> u32;".into(), act: ".returning(|_| 7)", call: "{M}::s1(NoDebug)", fish: "::<NoDebug>" },
    ];
    if t {
        all.push(F { name: "f5", stat: false, text: "fn f5(&self, x: T) -> T;".into(), act: ".returning(|x| x)", call: "{m}.f5(NoDebug)", fish: "" });
        all.push(F { name: "f6", stat: false, text: "fn f6(&self) -> &T;".into(), act: ".return_const(NoDebug)", call: "{m}.f6()", fish: "" });
        all.push(F { name: "s2", stat: true, text: "fn s2(x: T) -> u32;".into(), act: ".returning(|_| 7)", call: "{M}::s2(NoDebug)", fish: "" });
    }
    let n = g.n(4);
    let mut v = vec![];
    for _ in 0..n {
        let k = g.n(all.len());
        v.push(all.remove(k));
    }
    v
}

fn case(g: &mut G, _i: usize) -> Case {
    let kind = g.n(5);
    let of_trait = matches!(kind, 0 | 2 | 3);
    let mock = kind >= 3;
    // of the struct: how it is declared, and used
    let gens = g.w(&[(40, 0), (15, 1), (15, 2), (10, 3), (10, 4)]);
    let (decl_g, use_g, turbo, wher) = match gens {
        _ if kind == 2 => ("", "", "", ""),
        0 => ("", "", "", ""),
        1 => ("<T: 'static>", "<T>", "::<NoDebug>", ""),
        2 => ("<T: Clone + Send + 'static, U: 'static>", "<T, U>", "::<NoDebug, NoDebug>", ""),
        3 => ("<T>", "<T>", "::<NoDebug>", " where T: Clone + 'static"),
        _ => ("<T: Sized + Tag + 'static>", "<T>", "::<NoDebug>", " where T: Clone"),
    };
    let generic = !decl_g.is_empty();
    let fs = functions(g, generic);
    // a function that is called new
    let new = g.w(&[(55, 0), (10, 1), (8, 2), (8, 3), (10, 4), (9, 5)]);
    let new_text = match new {
        1 => "fn new() -> Self;",
        2 => "fn new(x: u32) -> Self;",
        3 => "fn new(&self) -> u32;",
        4 => "#[cfg(nope)] fn new() -> Self;",
        5 => "#[cfg(not(nope))] fn new(x: u32) -> Self;",
        _ => "",
    };
    let has_new = matches!(new, 1 | 2 | 3 | 5);
    // a second trait, whose function it is (mock! only)
    let new_elsewhere = mock && !new_text.is_empty() && g.p(40);
    let un = " { unimplemented!() }";
    let body = |s: &str, b: bool, vis: bool| {
        let s = if b { s.replace(';', un).replace("x: ", "_x: ") } else { s.to_string() };
        if vis { s.replace("fn ", "pub fn ") } else { s }
    };
    let all = |b: bool, vis: bool| {
        let mut s: String = fs.iter().map(|f| format!("    {}\n", body(&f.text, b, vis))).collect();
        if !new_text.is_empty() && !new_elsewhere {
            s += &format!("    {}\n", body(new_text, b, vis));
        }
        s
    };
    // Debug: 0 nothing, 1.. derived, 4 mocked, 5 by hand
    let debug = if mock { g.w(&[(20, 0), (15, 1), (10, 2), (10, 3), (15, 4), (15, 5), (5, 6)]) } else { 1 };
    let derive = match debug {
        _ if !mock => "",
        1 => "#[derive(Debug)]\n",
        2 => "#[derive(std::fmt::Debug)]\n",
        3 => "#[derive(Clone, Debug)]\n",
        6 => "#[derive(PartialEq)]\n#[derive(Debug)]\n",
        _ => "",
    };
    let auto = !mock || matches!(debug, 1 | 2 | 3 | 6);
    let clone = if mock { g.w(&[(60, 0), (20, 1), (20, 2)]) } else if g.p(20) { 2 } else { 0 };
    let m = format!("MockFoo{turbo}");
    let decl = match kind {
        0 => format!("#[mockall::automock]\npub trait Foo{decl_g}{wher} where_end{{\n{}}}\n", all(false, false)),
        1 => format!(
            "pub struct Foo{decl_g}{wher}(std::marker::PhantomData<({})>);\n#[mockall::automock]\nimpl{decl_g} Foo{use_g}{wher} where_end{{\n{}}}\n",
            if generic { format!("{},", use_g.trim_matches(|c| c == '<' || c == '>')) } else { String::new() },
            all(true, true)
        )
        .replace(&format!("Foo{decl_g}{wher}("), &format!("Foo{use_g}(")),
        2 => format!("pub trait Tr {{\n{}}}\npub struct Foo;\n#[mockall::automock]\nimpl Tr for Foo {{\n{}}}\n", all(false, false), all(true, false)),
        _ => {
            let mut tr = String::new();
            let mut blocks = String::new();
            if kind == 3 {
                tr += &format!("pub trait Tr{decl_g}{wher} {{\n{}}}\n", all(false, false));
                blocks += &format!("    impl{decl_g} Tr{use_g} for Foo{use_g}{wher} {{\n{}    }}\n", all(false, false));
            }
            if new_elsewhere {
                tr += &format!("pub trait Tr2: Sized {{\n    {new_text}\n}}\n");
                blocks += &format!("    impl{decl_g} Tr2 for Foo{use_g}{wher} {{\n    {new_text}\n    }}\n");
            }
            if debug == 4 {
                blocks += &format!("    impl{decl_g} std::fmt::Debug for Foo{use_g}{wher} {{\n    fn fmt<'f>(&self, f: &mut std::fmt::Formatter<'f>) -> std::fmt::Result;\n    }}\n");
            }
            if clone == 1 {
                blocks += &format!("    impl{decl_g} Clone for Foo{use_g}{wher} {{\n    fn clone(&self) -> Self;\n    }}\n");
            }
            format!("{tr}mockall::mock! {{\n    {derive}    pub Foo{decl_g}{wher} {{\n{}    }}\n{blocks}}}\n", if kind == 4 { all(false, true) } else { String::new() })
        }
    }
    .replace(" where_end", " ");
    let mut s = String::from("#![allow(unused_imports, dead_code)]\npub trait Tag {}\nimpl Tag for NoDebug {}\n#[derive(Clone, PartialEq)]\npub struct NoDebug;\n") + &decl;
    if clone == 2 {
        s += &format!("impl{decl_g} Clone for MockFoo{use_g}{wher} {{ fn clone(&self) -> Self {{ Self::default() }} }}\n");
    }
    if debug == 5 || (mock && debug == 0) {
        s += &format!("impl{decl_g} std::fmt::Debug for MockFoo{use_g}{wher} {{ fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ f.write_str(\"by hand\") }} }}\n");
    }
    // where no trait is in scope
    let inherent = !has_new || (!of_trait && !new_elsewhere);
    s += &format!("mod away {{ use super::NoDebug; pub fn new_is_there() -> bool {{ trait Fallback {{ fn new() {{}} }} impl<T> Fallback for T {{}} !std::any::type_name_of_val(&super::{m}::new).contains(\"Fallback\") }} }}\n");
    s += "fn refused(f: impl FnOnce()) { let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_err(); let e = e.downcast_ref::<String>().expect(\"a message\").clone(); assert!(e.contains(\"No matching expectation found\"), \"{e}\"); }\n";
    s += "pub fn run() {\n    fn is_default<T: Default>() {}\n    fn is_debug<T: std::fmt::Debug>() {}\n";
    s += &format!("    is_default::<{m}>();\n    is_debug::<{m}>();\n    assert_eq!(away::new_is_there(), {inherent}, \"new()\");\n");
    let mut makers = vec![format!("{m}::default()"), format!("<{m} as Default>::default()"), "Default::default()".to_string()];
    if !has_new {
        makers.push(format!("{m}::new()"));
    }
    // expectations that are somewhere else: on an object, and for all
    s += &format!("    #[allow(unused_mut)] let mut other: {} = {};\n    let _ = &other;\n", m.replace("::<", "<"), makers[g.n(makers.len())]);
    for f in fs.iter().filter(|f| !f.stat) {
        s += &format!("    other.expect_{}{}(){}.times(..);\n", f.name, f.fish, f.act);
    }
    let show = |v: &str| -> String {
        if auto {
            format!("    assert_eq!(format!(\"{{:?}}\", {v}), \"MockFoo\");\n    assert_eq!(format!(\"{{:#?}}\", {v}), \"MockFoo\");\n")
        } else if debug == 4 {
            format!("    {v}.expect_fmt().times(1).returning(|f| f.write_str(\"mocked\"));\n    assert_eq!(format!(\"{{:?}}\", {v}), \"mocked\");\n    {v}.checkpoint();\n")
        } else {
            format!("    assert_eq!(format!(\"{{:?}}\", {v}), \"by hand\");\n")
        }
    };
    let order = g.p(50);
    for mk in &makers {
        s += &format!("    {{ #[allow(unused_mut)] let mut m: {} = {mk};\n    let _ = &m;\n", m.replace("::<", "<"));
        // with no expectations: every call is refused, no return is counted
        if order {
            s += &show("m");
        }
        for f in &fs {
            s += &format!("    refused(|| {{ let _ = {}; }});\n", f.call.replace("{m}", "m").replace("{M}", &m));
        }
        s += "    }\n";
        s += &format!("    {{ #[allow(unused_mut)] let mut m: {} = {mk};\n    let _ = &m;\n", m.replace("::<", "<"));
        s += "    m.checkpoint();\n";
        for f in &fs {
            if f.stat {
                s += &format!("    let c = {m}::{0}_context(); c.expect{1}(){2}.times(1); let _ = {3}; c.checkpoint();\n", f.name, f.fish, f.act, f.call.replace("{M}", &m));
            } else {
                s += &format!("    m.expect_{}{}(){}.times(1); let _ = {};\n", f.name, f.fish, f.act, f.call.replace("{m}", "m"));
            }
        }
        s += &show("m");
        if clone == 1 {
            s += &format!("    m.expect_clone().times(1).returning(|| {mk}); let _ = m.clone();\n");
        } else if clone == 2 {
            s += "    let c = m.clone(); drop(c);\n";
        }
        s += "    }\n";
    }
    // what another object expects is as it was
    for f in fs.iter().filter(|f| !f.stat) {
        s += &format!("    let _ = {};\n", f.call.replace("{m}", "other"));
    }
    // and the mocked new
    let path = if new_elsewhere { format!("<{m} as Tr2>") } else { match kind { 0 => format!("<{m} as Foo{}>", turbo), 2 => format!("<{m} as Tr>"), 3 => format!("<{m} as Tr{}>", turbo), _ => m.clone() } };
    s += &match new {
        1 => format!("    let c = {m}::new_context(); c.expect().times(1).returning(|| {m}::default()); let _ = {path}::new();\n"),
        2 | 5 => format!("    let c = {m}::new_context(); c.expect().times(1).returning(|_| {m}::default()); let _ = {path}::new(4);\n"),
        3 => format!("    let mut m = {m}::default(); m.expect_new().times(1).returning(|| 4); assert_eq!({path}::new(&m), 4);\n"),
        _ => String::new(),
    };
    s += "}\n";
    let mut classes = vec![["trait", "impl", "impl-trait-for", "mock!-trait", "mock!"][kind].to_string()];
    if generic {
        classes.push("generic".into());
    }
    if !new_text.is_empty() {
        classes.push("a function called new".into());
    }
    if mock {
        classes.push(["no Debug", "derived Debug", "derived Debug", "derived Debug", "mocked Debug", "Debug by hand", "derived Debug"][debug].into());
    }
    Case { text: s, expect: Expect::Clean, nontrivial: generic || !new_text.is_empty() || debug != 1 || clone != 0, classes, key: None }
}

pub fn plans() -> Vec<CasePlan> {
    vec![CasePlan {
        name: "objects",
        gen: case,
        n: 300,
        nightly: false,
        args: ["--check-cfg=cfg(nope)"].iter().map(|s| s.to_string()).collect(),
        rule: "a mock that is generic, or has a function called new, or Debug or Clone other than the generated one; objects from each constructor were used",
        group: 10,
    }]
}
