//! C22: token-level mutants of mock declarations. Whatever the macros make of
//! one, the compiler gives an answer; and one that is accepted does not expand
//! to the same as the original did: then a part of it would have been ignored.
use crate::comp::*;
use crate::engine;
use crate::g::G;
use crate::gen::*;
use crate::report::*;
use crate::{emit, runner};
use proptest::strategy::{Strategy, ValueTree};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::path::Path;
use std::time::Duration;

/// Tokens, coarsely: enough to be put together again with spaces
pub fn tokens(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    let word = |c: char| c.is_alphanumeric() || c == '_';
    while i < c.len() {
        let at = i;
        let next = c.get(i + 1).copied().unwrap_or(' ');
        if c[i].is_whitespace() {
            i += 1;
            continue;
        } else if c[i] == '/' && next == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            let doc: String = c[at..i].iter().collect();
            if doc.starts_with("///") {
                v.push(format!("{doc}\n"));
            }
            continue;
        } else if c[i] == '"' {
            i += 1;
            while i < c.len() && c[i] != '"' {
                i += if c[i] == '\\' { 2 } else { 1 };
            }
            i += 1;
        } else if c[i] == '\'' && word(next) && c.get(i + 2) != Some(&'\'') {
            i += 2;
            while i < c.len() && word(c[i]) {
                i += 1;
            }
        } else if c[i] == '\'' {
            i += 1;
            while i < c.len() && c[i] != '\'' {
                i += if c[i] == '\\' { 2 } else { 1 };
            }
            i += 1;
        } else if c[i] == 'r' && next == '#' {
            i += 2;
            while i < c.len() && word(c[i]) {
                i += 1;
            }
        } else if word(c[i]) {
            while i < c.len() && word(c[i]) {
                i += 1;
            }
        } else {
            let two: String = c[i..(i + 2).min(c.len())].iter().collect();
            i += match two.as_str() {
                "::" | "->" | "=>" | "&&" | "||" | "==" | "!=" | ".." => 2,
                _ => 1,
            };
            // ..= and ...
            if two == ".." && matches!(c.get(i), Some('=') | Some('.')) {
                i += 1;
            }
        }
        v.push(c[at..i.min(c.len())].iter().collect());
    }
    v
}

fn open(t: &str) -> bool {
    matches!(t, "(" | "[" | "{")
}
fn close(t: &str) -> bool {
    matches!(t, ")" | "]" | "}")
}

/// Where the token tree that begins at `i` ends
fn tree(v: &[String], i: usize) -> usize {
    if !open(&v[i]) {
        return i + 1;
    }
    let mut d = 0;
    for (k, t) in v.iter().enumerate().skip(i) {
        if open(t) {
            d += 1;
        } else if close(t) {
            d -= 1;
            if d == 0 {
                return k + 1;
            }
        }
    }
    v.len()
}

const POOL: &[&str] = &[
    "u32", "Self", "self", "'a", "'static", "'_", "dyn", "impl", "<", ">", "&", "&&", "mut", "::", "where", "for", "async", "const", "unsafe", "extern", "\"C\"", "!", "?", "...", "..", "_", "3", "fn", "pub", "crate", "super", "->", "=>", ":",
    ";", ",", "=", "+", "static", "type", "struct", "trait", "default", "move", "ref", "as", "in", "if", "macro_rules", "union", "auto", "#", "$", "@", "*", "( )", "{ }", "[ ]", "Foo", "T", "Option", "Box", "Vec", "String", "< T >", "< 'a >",
    "# [ cfg ( nope ) ]", "# [ nope ]", "# ! [ allow ( unused ) ]", "impl Tr for Foo { }", "fn g ( & self ) ;", "type X = u32 ;", "const X : u32 = 3 ;", "use std :: fmt ;", "+ Send", ": Send", "where T : Clone", "= u32", "-> u32", "'a : 'static", "for < 'a >", "dyn Fn ( u32 )",
    "& 'a", "& mut", "* const u32", "[ u32 ; 3 ]", "( u32 , u32 )", "fn ( u32 ) -> u32", "< u32 as Tr > :: T", "self : Box < Self >", "self : & Self", "x : u32", "( a , b ) : ( u32 , u32 )", "r#type", "m ! ( )", "if let", "1 .. 2", "u64", "\"x\"", "b'a'",
];

/// `v` with something else somewhere in `from..to`
fn mutate(g: &mut G, v: &[String], from: usize, to: usize) -> Vec<String> {
    let mut v = v.to_vec();
    let mut end = to;
    for _ in 0..[1, 1, 1, 2, 3][g.n(5)] {
        let spots: Vec<usize> = (from..end).filter(|i| !close(&v[*i])).collect();
        if spots.is_empty() {
            break;
        }
        let i = spots[g.n(spots.len())];
        let j = tree(&v, i);
        let len = v.len();
        match g.n(6) {
            0 => {
                v.drain(i..j);
            }
            1 => {
                let c: Vec<String> = v[i..j].to_vec();
                v.splice(j..j, c);
            }
            2 => {
                let p: Vec<String> = tokens(g.pick::<&str>(POOL));
                v.splice(i..j, p);
            }
            3 | 4 => {
                let p: Vec<String> = tokens(g.pick::<&str>(POOL));
                let at = if g.p(70) { i } else { j };
                v.splice(at..at, p);
            }
            _ => {
                // something from elsewhere
                let k = spots[g.n(spots.len())];
                let c: Vec<String> = v[k..tree(&v, k)].to_vec();
                if g.p(50) {
                    v.splice(i..j, c);
                } else {
                    v.splice(i..i, c);
                }
            }
        }
        end = (end + v.len()).saturating_sub(len).max(from);
    }
    v
}

/// What is the same to the reader
fn plain(v: &[String]) -> String {
    let mut o: Vec<&str> = vec![];
    for (i, t) in v.iter().enumerate() {
        let next = v.get(i + 1).map_or("", |n| n.as_str());
        if t == "mut" && o.last() != Some(&"&") && o.last().map_or(true, |l| !l.starts_with('\'')) {
            continue;
        }
        // Arc::<T> as a type, bounds that are empty or end in +
        if t == "::" && (next == "<" || next == "(") || matches!(t.as_str(), ":" | "+" | "where") && matches!(next, "," | ">" | "{" | ";" | "=" | ")" | "where") {
            continue;
        }
        if t == ">" && o.last() == Some(&"<") {
            o.pop();
            continue;
        }
        if (close(t) || t == ">" || t == ";" || t == "{") && o.last() == Some(&",") {
            o.pop();
        }
        // the path of an attribute
        if t == "::" && o.last() == Some(&"[") {
            continue;
        }
        // an attribute of that name, by whatever path
        if t == "concretize" && o.contains(&"[") {
            while o.last() != Some(&"[") {
                o.pop();
            }
        }
        o.push(t);
    }
    o.join(" ")
}

struct Base {
    before: String,
    tokens: Vec<String>,
    /// the macro's input
    from: usize,
    to: usize,
}

fn base(text: &str) -> Option<Base> {
    let at = text.find("mock! {").or_else(|| text.find("mock!{"))?;
    let start = text[..at].rfind('\n').map_or(0, |i| i + 1);
    let t = tokens(&text[start..]);
    let o = t.iter().position(|t| open(t))?;
    let to = tree(&t, o);
    Some(Base { before: text[..start].to_string(), tokens: t[..to].to_vec(), from: o + 1, to: to - 1 })
}

const HAND: &[&str] = &[
    "mockall::mock! { pub Foo { const X: u32 = 3; pub fn f(&self, x: u32) -> u32; pub fn s(x: &str) -> String; fn g<T: Clone + 'static>(&mut self, t: T) -> &mut u32; } impl Tr for Foo { fn g(&self) -> u32; } impl Clone for Foo { fn clone(&self) -> Self; } }",
    "mockall::mock! { pub Foo<T: Clone + Send + 'static> where T: Sync { pub fn f(&self, x: T) -> Option<T>; pub(crate) unsafe fn u(&self); } impl<T: Clone + Send + 'static> Iterator for Foo<T> where T: Sync { type Item = T; fn next(&mut self) -> Option<T>; } }",
    "mockall::mock! { #[derive(Debug)] pub Foo {} unsafe impl Tr for Foo { const C: u32 = 4; type X = Vec<u8>; unsafe fn f<'a, 'b>(&'a self, x: &'b mut [u8]) -> Box<dyn Fn(u32) -> u32 + Send>; } impl From<u32> for Foo { fn from(x: u32) -> Self; } impl From<u64> for Foo { fn from(x: u64) -> Self; } }",
    "mockall::mock! { Foo { #[cfg(on)] #[must_use] async fn f(&self) -> Result<(), ()>; #[mockall::concretize] fn c<F: Fn(u32) -> u32 + 'static>(&self, f: F); extern \"C\" fn e(self) -> fn(u32) -> u32; } #[allow(unused)] impl Default2 for Foo { fn b(self: Box<Self>, x: [u32; 4]) -> (u8, u16); } }",
    "mockall::mock! { pub Foo<T: Clone + 'static, U: Send + 'static = Vec<u8>> { fn f(&self, t: T) -> U; fn s(u: &U) -> T; } impl<T: Clone + 'static, U: Send + 'static> Tr<U, T> for Foo<T, U> { fn g(&self, t: &T) -> Option<U>; } }",
    "mockall::mock! { pub(super) Foo<'a, T: 'static> { fn f(&self) -> &'static str; fn h(&self, x: &dyn Tr, y: *const u8) -> impl Iterator<Item = u32> + 'static; } impl<'a, T: 'static> Deref for Foo<'a, T> { type Target = str; fn deref(&self) -> &str; } }",
];

/// Expansions of the texts, and which of them were refused. None: the
/// compiler did not answer.
fn expand(d: &Deps, dir: &Path, texts: &[String]) -> Result<(Vec<Option<String>>, HashSet<usize>), String> {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    let mut main = String::from("#![allow(warnings)]\n");
    for (i, t) in texts.iter().enumerate() {
        std::fs::write(dir.join(format!("d{i}.rs")), t).unwrap();
        main += &format!("pub mod d{i};\n");
    }
    main += "fn main() {}\n";
    std::fs::write(dir.join("main.rs"), main).unwrap();
    let out = dir.join("out.rs");
    let r = rustc(d, &dir.join("main.rs"), Out::Expanded(&out), &["--cap-lints", "allow"], Duration::from_secs(60))?;
    if let Some(w) = r.died {
        return Err(w);
    }
    let mut bad = HashSet::new();
    for dg in r.diags.iter().filter(|d| d.level == "error") {
        if let Some(i) = dg.span.as_ref().and_then(|s| Path::new(&s.0).file_stem().and_then(|f| f.to_str()).and_then(|f| f.strip_prefix('d')).and_then(|n| n.parse().ok())) {
            bad.insert(i);
        }
    }
    let mut res: Vec<Option<String>> = vec![None; texts.len()];
    let s = std::fs::read_to_string(&out).unwrap_or_default();
    let mut cur: Option<(usize, String)> = None;
    for l in s.lines() {
        if let Some((i, t)) = &mut cur {
            if l == "}" {
                res[*i] = Some(t.clone());
                cur = None;
            } else {
                t.push_str(l);
                t.push('\n');
            }
        } else if let Some(i) = l.strip_prefix("pub mod d").and_then(|r| r.split(' ').next()).and_then(|n| n.parse::<usize>().ok()) {
            if !l.ends_with('}') && i < texts.len() {
                cur = Some((i, String::new()));
            }
        }
    }
    Ok((res, bad))
}

/// The original first; what is wrong with the others
fn judge(d: &Deps, dir: &Path, texts: &[String], same: &[bool]) -> (usize, Option<(usize, String)>) {
    match expand(d, dir, texts) {
        Err(w) => {
            // which one?
            for i in 1..texts.len() {
                if let Err(w) = expand(d, dir, &texts[i..=i]) {
                    return (0, Some((i, format!("the compiler gave no answer: {w}"))));
                }
            }
            die(&format!("expansion failed: {w}"))
        }
        Ok((e, refused)) => {
            let mut accepted = 0;
            if refused.contains(&0) || e[0].is_none() {
                // the original is refused: the mutants have been answered
                return (0, None);
            }
            for i in 1..texts.len() {
                if refused.contains(&i) || same[i] || e[i].is_none() {
                    continue;
                }
                accepted += 1;
                if e[i] == e[0] {
                    return (accepted, Some((i, "is accepted, and expands to the same as the original: a part of it is ignored".into())));
                }
            }
            (accepted, None)
        }
    }
}

pub fn check(job: &Job, cov: &mut Cov) -> Vec<Bad> {
    let d = deps(false, None).unwrap_or_else(|e| die(&e));
    let dir = job.dir().join("mutants");
    let opts = Opts { deco: 45, max_funcs: 4, twins: false, places: false, e2024: false, nightly: false, frag: 0 };
    let rounds = job.tier(90, 900);
    let per = 24;
    let mut bases: Vec<Base> = engine::units(job, SPOTS, &[Kind::Mock], rounds, &opts, 22)
        .iter()
        .filter_map(|u| base(&format!("#![allow(warnings)]\nuse mockall::*;\nuse rt::*;\nuse std::{{path::Path, ffi::{{OsStr, CStr}}}};\n{}", emit::decl(u))))
        .collect();
    for h in HAND {
        bases.extend(base(h));
    }
    for k in 0..rounds / 3 {
        bases.extend(base(HAND[k % HAND.len()]));
    }
    let st = proptest::collection::vec(proptest::num::u32::ANY, 24);
    let jobs: Vec<(usize, Base)> = bases.into_iter().enumerate().collect();
    let found = parallel(jobs, 8, |(k, b)| {
        let orig = b.tokens.join(" ");
        let mut toks = vec![b.tokens.clone()];
        for i in 0..per {
            let mut r = runner(job.seed, 2_200_000 + (k * per + i) as u64);
            let v = st.new_tree(&mut r).unwrap().current();
            toks.push(mutate(&mut G::new(&v), &b.tokens, b.from, b.to));
        }
        let same: Vec<bool> = toks.iter().map(|t| plain(t) == plain(&b.tokens)).collect();
        let texts: Vec<String> = toks.iter().map(|t| format!("{}{}", b.before, t.join(" "))).collect();
        let (acc, bad) = judge(&d, &dir.join(format!("m{k}")), &texts, &same);
        let _ = std::fs::remove_dir_all(dir.join(format!("m{k}")));
        let n = same.iter().filter(|s| !**s).count();
        (n, acc, toks[1].join(" "), bad.map(|(i, w)| (texts[0].clone(), texts[i].clone(), format!("{orig}\n=> {}\n{w}", toks[i].join(" ")))))
    });
    let mut bads = vec![];
    cov.classes.entry("mutant declarations".into()).or_default();
    for (n, acc, sample, bad) in found {
        cov.evaluations += n as u64;
        cov.nontrivial += n as u64;
        *cov.classes.entry("mutant declarations".into()).or_default() += n as u64;
        *cov.classes.entry("mutant declarations that are accepted".into()).or_default() += acc as u64;
        if cov.samples.len() < 6 {
            cov.samples.push(sample);
        }
        if let Some((base, text, message)) = bad {
            if bads.is_empty() || std::env::var("CASES_DEBUG").is_ok() {
                if std::env::var("CASES_DEBUG").is_ok() {
                    println!("MUTANT {message}\n");
                }
                bads.push(Bad { key: "mutant".into(), message, replay: json!({ "engine": "mutant", "base": base, "text": text }) });
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    bads.truncate(1);
    bads
}

pub fn replay(v: &Value) -> bool {
    let d = deps(false, None).unwrap_or_else(|e| die(&e));
    let dir = build_dir().join("work/replay");
    let texts = vec![v["base"].as_str().unwrap().to_string(), v["text"].as_str().unwrap().to_string()];
    let (_, bad) = judge(&d, &dir, &texts, &[true, false]);
    let _ = std::fs::remove_dir_all(&dir);
    if let Some((_, w)) = &bad {
        println!("{}\n{w}", texts[1]);
    }
    bad.is_some()
}

