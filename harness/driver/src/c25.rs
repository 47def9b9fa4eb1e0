//! C25: #[automock] leaves the item it stands on as it is.  The expansion with
//! the attribute has every item of the expansion without it, word for word.
use crate::c18::{expansions, unit_text};
use crate::comp::*;
use crate::engine;
use crate::g::G;
use crate::gen::*;
use crate::report::*;
use crate::runner;
use proptest::strategy::{Strategy, ValueTree};
use serde_json::{json, Value};
use std::collections::HashSet;

/// Cut `#[automock..]` and `#[mockall::automock..]` out
fn strip(t: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    loop {
        let a = ["#[automock", "#[mockall::automock", "#[::mockall::automock", "#[cfg_attr(all(), mockall::automock", "#[cfg_attr(test, automock"].iter().filter_map(|p| rest.find(p)).min();
        let Some(i) = a else { break };
        out += &rest[..i];
        let mut depth = 0;
        let mut end = i;
        for (k, c) in rest[i..].char_indices() {
            match c {
                '[' | '(' | '{' => depth += 1,
                ']' | ')' | '}' => {
                    depth -= 1;
                    if depth == 0 {
                        end = i + k + 1;
                        break;
                    }
                }
                _ => {}
            }
        }
        rest = &rest[end..];
    }
    out + rest
}

/// Items of a pretty-printed module whose items are indented by `ind`
fn blocks(lines: &[String], ind: usize) -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = vec![];
    let mut cur: Vec<String> = vec![];
    for l in lines {
        let t = l.trim_start();
        if t.is_empty() && cur.is_empty() {
            continue;
        }
        let here = l.len() - t.len() == ind;
        cur.push(l.clone());
        let t = t.trim_end();
        if here && !t.starts_with('#') && !t.starts_with("//") && (t.ends_with(';') || t.ends_with('}')) {
            v.push(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

/// Every item of `a` is in `b`, in that order; says which is not
fn missing(a: &[String], b: &[String], ind: usize) -> Option<String> {
    let a = blocks(a, ind);
    let b = blocks(b, ind);
    let mut j = 0;
    for x in &a {
        let is_mod = |x: &[String]| {
            let k = x.iter().position(|l| !l.trim_start().starts_with('#') && !l.trim_start().starts_with("//"))?;
            let h = x[k].trim();
            (h.ends_with('{') && (h.starts_with("mod ") || h.contains(" mod "))).then(|| (k, x[..=k].to_vec()))
        };
        let start = j;
        let mut deep = None;
        loop {
            if j >= b.len() {
                j = start;
                return Some(deep.unwrap_or_else(|| {
                    // which line of it is the first that does not fit anywhere?
                    let near = b[start..].iter().max_by_key(|y| y.iter().zip(x.iter()).take_while(|(p, q)| p == q).count());
                    let k = near.map_or(0, |y| y.iter().zip(x.iter()).take_while(|(p, q)| p == q).count());
                    format!(
                        "without the attribute:\n{}\nwith it, the line after \"{}\" is:\n{}\n",
                        x.join("\n"),
                        k.checked_sub(1).and_then(|k| x.get(k)).cloned().unwrap_or_default().trim(),
                        near.and_then(|y| y.get(k)).cloned().unwrap_or("(none)".into())
                    )
                }));
            }
            if &b[j] == x {
                j += 1;
                break;
            }
            if let (Some((k, h)), Some((_, h2))) = (is_mod(x), is_mod(&b[j])) {
                if h == h2 {
                    match missing(&x[k + 1..x.len() - 1], &b[j][k + 1..b[j].len() - 1], ind + 4) {
                        None => {
                            j += 1;
                            break;
                        }
                        w => deep = w,
                    }
                }
            }
            j += 1;
        }
    }
    None
}

const BODIES: &[&str] = &[
    "{ a0.wrapping_add(1) }",
    "{ let v = vec![a0, 2, 3]; v.iter().map(|x| x + 1).sum() }",
    "{ if a0 > 3 { return 7; } match a0 { 0 => 1, x if x > 2 => x, _ => 9 } }",
    "{ fn inner(x: u32) -> u32 { x * 2 } const K: u32 = 4; static S: u32 = 5; inner(a0) + K + S }",
    "{ let mut n = 0; 'o: loop { for i in 0..a0 { if i > 4 { break 'o; } n += i; } break; } n }",
    "{ /* a comment */ let s = format!(\"{{}} {a0} {:?}\", \"x\\\"y\"); s.len() as u32 }",
    "{ let r#type = r#\"raw \"string\"#; let b = b\"bytes\\x01\"; (r#type.len() + b.len()) as u32 + a0 }",
    "{ #[allow(unused_mut)] let mut x = a0; let Some(y) = Some(x) else { return 1 }; x = y; x }",
    "{ unsafe { *(&a0 as *const u32) } }",
    "{ let f = move |x: u32| -> u32 { x + a0 }; f(1) }",
    "{ struct Self_ { x: u32 } impl Self_ { fn get(&self) -> u32 { self.x } } Self_ { x: a0 }.get() }",
    "{ matches!(a0, 1..=5) as u32 }",
    "{ let [x, .., y] = [a0, 1, 2]; let (p, _) = (x, y); p }",
    "{ async { 3 }; assert!(a0 < 10, \"too {}\", \"big\"); todo!() }",
    "{ unimplemented!() }",
    "{ let super_ = (1u8 as u32).pow(2) | 0x1F & !0b1; super_ << 1 }",
    "{ use std::collections::BTreeMap as M; let m: M<u32, u32> = M::from([(1, a0)]); m[&1] }",
    "{ std::panic::catch_unwind(|| 1).unwrap_or(2) + a0 }",
];
const FATTRS: &[&str] = &[
    "", "", "", "/// A doc comment\n", "#[must_use]\n", "#[inline]\n", "#[inline(always)]\n", "#[cold]\n", "#[allow(clippy::all)]\n", "#[doc = \"x\"]\n", "#[doc(hidden)]\n", "#[cfg(not(nope))]\n", "#[cfg(nope)]\n",
    "#[track_caller]\n", "#[deprecated(note = \"old\")]\n", "#[must_use = \"why\"]\n#[allow(unused)]\n", "#[cfg_attr(all(), inline)]\n", "#[rustfmt::skip]\n", "#[expect(unused_mut)]\n",
];
const IATTRS: &[&str] = &["", "", "/// Docs\n/// more\n", "#[allow(dead_code)]\n", "#[doc(hidden)]\n", "#[cfg(not(nope))]\n", "#[allow(clippy::all)]\n#[allow(unused)]\n", "#[cfg_attr(all(), allow(unused))]\n", "#[deny(missing_docs)]\n"];
const AUTO: &[&str] = &["#[automock]\n", "#[mockall::automock]\n", "#[::mockall::automock]\n", "#[cfg_attr(all(), mockall::automock)]\n", "#[cfg_attr(test, automock)]\n"];
const VIS: &[&str] = &["pub ", "", "pub(crate) ", "pub(self) "];

fn func(g: &mut G, i: usize, recv: &str, vis: bool, body: bool) -> String {
    let a = *g.pick(FATTRS);
    let v = if vis { *g.pick(VIS) } else { "" };
    let q = *g.pick(&["", "", "", "unsafe ", "extern \"C\" ", "async "]);
    let (ge, wh) = *g.pick(&[("", ""), ("", ""), ("", ""), ("<X: 'static>", ""), ("<X>", " where X: Clone + 'static"), ("<'a>", "")]);
    let x = if ge.starts_with("<X") { ", x: X" } else if ge.starts_with("<'a") { ", s: &'a str" } else { "" };
    let m = if body && g.p(30) { "mut " } else { "" };
    let b = if body { g.pick(BODIES).to_string() } else { ";".into() };
    let b = if body && g.p(20) { format!("{{ {b} }}") } else { b };
    let q = if q.starts_with("extern") && !recv.is_empty() { "" } else { q };
    format!("{a}{v}{q}fn f{i}{ge}({recv}{m}a0: u32{x}) -> u32{wh} {b}\n")
}

fn recv(g: &mut G, st: u32) -> &'static str {
    if g.p(st) {
        ""
    } else {
        g.pick(&["&self, ", "&self, ", "&mut self, ", "self: Box<Self>, "])
    }
}

/// An item with the attribute, and what it needs around
fn item(g: &mut G) -> String {
    let kind = g.n(5);
    let (ia, ib) = (*g.pick(IATTRS), *g.pick(IATTRS));
    let au = *g.pick(AUTO);
    let vis = *g.pick(VIS);
    let n = g.n(5) + 1;
    let has_ty = kind == 0 && g.p(30);
    let auto = if has_ty {
        let c = g.p(50);
        let t = if c { "(type T0 = u32; type T1 = Vec<u8>;)" } else { "(type T0 = u32;)" };
        (au.replace("automock)", &format!("automock{t})")).replace("automock]", &format!("automock{t}]")), if c { "type T0: Clone;\ntype T1;\n" } else { "type T0;\n" })
    } else {
        (au.to_string(), "")
    };
    let auto_cfg = auto.0;
    let head = format!("{ia}{auto_cfg}{ib}");
    let before = *g.pick(&["", "", "pub const BEFORE: u32 = 1;\n", "macro_rules! mm { ($x:expr) => { $x + 1 } }\npub fn before() -> u32 { mm!(2) }\n"]);
    let after = *g.pick(&["", "pub const AFTER: &str = \"a\";\n", "pub struct Other(pub u8);\nimpl Other { pub fn foo(&self) {} }\n"]);
    let it = match kind {
        0 => {
            let mut s = format!("{head}{vis}{}trait Foo{} {{\n{}", *g.pick(&["", "", "", "unsafe "]), *g.pick(&["", ": Send", ": 'static + Send + Sync"]), auto.1);
            if g.p(30) {
                s += "/// a constant\nconst K: u32 = { let x = 1; x + 2 };\n";
            }
            for i in 0..n {
                let r = recv(g, 20);
                let b = g.p(60) && r != "self: Box<Self>, ";
                s += &func(g, i, r, false, b);
            }
            s + "}\n"
        }
        1 => {
            let ge = *g.pick(&["", "", "<T: 'static + Send>"]);
            let na = if ge.is_empty() { "" } else { "<T>" };
            let mut s = format!("pub struct Foo{ge}{};\n{head}impl{ge} Foo{na} {{\n", if ge.is_empty() { "" } else { "(pub Option<T>)" });
            if g.p(30) {
                s += "pub const K: u32 = { let x = 1; x + 2 };\n";
            }
            for i in 0..n {
                let r = recv(g, 25);
                s += &func(g, i, r, true, true);
            }
            s + "}\n"
        }
        2 => {
            let mut t = String::from("pub trait Tr {\ntype T0;\nconst K: u32;\n");
            let mut s = format!("pub struct Foo;\n{head}impl Tr for Foo {{\ntype T0 = Vec<u32>;\nconst K: u32 = 3;\n");
            for i in 0..n {
                let r = recv(g, 20);
                t += &format!("fn g{i}({r}a0: u32) -> u32;\n");
                s += &format!("{}fn g{i}({r}a0: u32) -> u32 {}\n", g.pick(FATTRS), g.pick(BODIES));
            }
            t + "}\n" + &s + "}\n"
        }
        3 => {
            let mut s = format!("{head}{vis}mod foo {{\n");
            for x in ["use std::collections::HashMap;\n", "pub type A = u64;\n", "pub const C: u32 = 1 + 2;\n", "pub static ST: &str = \"s\";\n", "pub use std::fmt::Debug as Dbg;\n"] {
                if g.p(35) {
                    s += x;
                }
            }
            for i in 0..n {
                s += &func(g, i, "", true, true);
            }
            s + "}\n"
        }
        _ => {
            let mut s = format!("{head}{vis}mod foo {{\n");
            s += *g.pick(&["extern \"C\" {\n", "extern {\n", "unsafe extern \"C\" {\n", "extern \"system\" {\n"]);
            for i in 0..n {
                s += &format!("{}{}fn f{i}(a0: u32, b: *const u8) -> u32;\n", g.pick(&["", "/// Docs\n", "#[link_name = \"other\"]\n", "#[cfg(nope)]\n", "#[must_use]\n"]), g.pick(&["pub ", ""]));
            }
            s += "}\n";
            if g.p(50) {
                s += &func(g, n, "", true, true);
            }
            s + "}\n"
        }
    };
    format!("#![allow(warnings)]\nuse mockall::*;\n{before}{it}{after}")
}

fn judge(d: &Deps, dir: &std::path::Path, texts: &[String]) -> Vec<Result<bool, String>> {
    // both forms, in one process each
    let a: Vec<String> = texts.iter().map(|t| strip(t)).collect();
    let rs = parallel(vec![a, texts.to_vec()].into_iter().enumerate().collect(), 2, |(k, ts)| expansions(d, &dir.join(format!("p{k}")), &ts, &(0..ts.len()).collect::<Vec<_>>(), 0));
    let mut it = rs.into_iter();
    let (a, b) = match (it.next().unwrap(), it.next().unwrap()) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => die(&format!("expansion failed: {e}")),
    };
    (0..texts.len())
        .map(|i| {
            let l = |m: &std::collections::BTreeMap<(usize, usize), String>| -> Vec<String> { m.get(&(i, 1)).map(|t| t.lines().map(|l| l.to_string()).collect()).unwrap_or_default() };
            let (x, y) = (l(&a), l(&b));
            match missing(&x, &y, 8) {
                None => Ok(y.len() > x.len() && !x.is_empty()),
                Some(w) => Err(w),
            }
        })
        .collect()
}

pub fn check(job: &Job, cov: &mut Cov) -> Vec<Bad> {
    let d = deps(false, None).unwrap_or_else(|e| die(&e));
    let dir = job.dir().join("expand");
    cov.rule = "an item whose expansion with #[automock] has more items than without it, and has every item of the latter, in that order and word for word".into();
    let mut seen = HashSet::new();
    for round in 0..job.tier(1, 8) as u64 {
        let st = proptest::collection::vec(proptest::num::u32::ANY, 300);
        let mut src: Vec<(Vec<u32>, String)> = vec![];
        for i in 0..400u64 {
            let mut r = runner(job.seed, 250_000 + round * 1000 + i);
            let v = st.new_tree(&mut r).unwrap().current();
            let t = item(&mut G::new(&v));
            src.push((v, t));
        }
        let opts = Opts { deco: 45, max_funcs: 6, twins: false, places: true, e2024: false, nightly: false, frag: 0 };
        for u in engine::units(job, SPOTS, &[Kind::AutoTrait, Kind::AutoImpl, Kind::AutoTraitImpl, Kind::Module, Kind::Ffi], 160, &opts, 25 + round) {
            src.push((vec![], unit_text(&u)));
        }
        for i in 0..60 {
            let mut r = runner(job.seed, 260_000 + round * 1000 + i);
            let v = st.new_tree(&mut r).unwrap().current();
            let c = crate::c15::plans();
            src.push((vec![], (c[0].gen)(&mut G::new(&v), 0).text));
        }
        // Items made by a macro of the case's own are expanded where the macro is called
        src.retain(|s| strip(&s.1) != s.1 && !s.1.contains("macro_rules!"));
        let chunk = src.len().div_ceil(4);
        let res: Vec<Result<bool, String>> = parallel(src.chunks(chunk).enumerate().collect(), 4, |(k, c)| judge(&d, &dir.join(format!("c{k}")), &c.iter().map(|s| s.1.clone()).collect::<Vec<_>>())).concat();
        cov.evaluations += res.len() as u64;
        let mut bad: Option<(Vec<u32>, String, String)> = None;
        for ((v, t), r) in src.iter().zip(&res) {
            match r {
                Ok(true) if seen.insert(t.clone()) => {
                    cov.nontrivial += 1;
                    if cov.samples.len() < 4 && seen.len() % 50 == 1 {
                        cov.samples.push(t.clone());
                    }
                }
                Ok(_) => {}
                Err(w) => {
                    if bad.as_ref().map_or(true, |b| (b.0.is_empty(), b.1.len()) > (v.is_empty(), t.len())) {
                        bad = Some((v.clone(), t.clone(), w.clone()));
                    }
                }
            }
        }
        if let Some((v, mut t, mut w)) = bad {
            if !v.is_empty() {
                let (_, r) = crate::cases::shrink(v, (t, w), std::time::Duration::from_secs(40), |cs| {
                    let ts: Vec<String> = cs.iter().map(|v| item(&mut G::new(v))).collect();
                    let rs = judge(&d, &dir.join("shrink"), &ts);
                    ts.into_iter().zip(rs).map(|(t, r)| r.err().map(|w| (t, w))).collect()
                });
                (t, w) = r;
            }
            let _ = std::fs::remove_dir_all(&dir);
            return vec![Bad { key: "the original item differs".into(), message: format!("{t}\nthe original item is not the same with #[automock] as without it:\n{w}"), replay: json!({ "engine": "original", "text": t }) }];
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    vec![]
}


pub fn replay(v: &Value) -> bool {
    let d = deps(false, None).unwrap_or_else(|e| die(&e));
    let dir = build_dir().join("work/replay");
    let r = judge(&d, &dir, &[v["text"].as_str().unwrap().to_string()]);
    let _ = std::fs::remove_dir_all(&dir);
    if let Err(w) = &r[0] {
        println!("{w}");
    }
    r[0].is_err()
}
