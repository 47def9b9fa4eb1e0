//! Turns a generated unit into a declaration and the adapter that lets the
//! runner drive the mock made from it.
use crate::gen::*;
use crate::ty::*;
use std::fmt::Write;

pub fn generics(ps: &[Param], lts: &[String]) -> String {
    let mut v: Vec<String> = lts.to_vec();
    for p in ps {
        if p.in_where || p.bounds.is_empty() {
            v.push(p.name.clone());
        } else {
            v.push(format!("{}: {}", p.name, p.bounds));
        }
    }
    if v.is_empty() {
        String::new()
    } else {
        format!("<{}>", v.join(", "))
    }
}
/// the generics of the declaration itself
fn generics_dflt(u: &Unit) -> String {
    let g = generics(&u.params, &[]);
    match u.dflt {
        0 => g,
        1 => {
            let e = Env { params: &u.params, inst: &vec![0; u.params.len()] };
            format!("{} = {}>", g.strip_suffix('>').unwrap(), Ty::Param(u.params.len() - 1).conc(&e))
        }
        _ => format!("{} = Self>", g.strip_suffix('>').unwrap()),
    }
}
pub fn wheres(ps: &[Param], extra: &[String]) -> String {
    let mut v: Vec<String> = extra.to_vec();
    for p in ps {
        if p.in_where && !p.bounds.is_empty() {
            v.push(format!("{}: {}", p.name, p.bounds));
        }
    }
    if v.is_empty() {
        String::new()
    } else {
        format!(" where {}", v.join(", "))
    }
}
pub fn names(ps: &[Param]) -> String {
    if ps.is_empty() {
        String::new()
    } else {
        format!("<{}>", ps.iter().map(|p| p.name.clone()).collect::<Vec<_>>().join(", "))
    }
}

pub fn recv_text(f: &Func) -> Option<String> {
    let lt = f.recv_lt.clone().map(|l| l + " ").unwrap_or_default();
    Some(match f.recv {
        Recv::None => return None,
        Recv::Ref => format!("&{lt}self"),
        Recv::Mut => format!("&{lt}mut self"),
        Recv::Own => "self".into(),
        Recv::OwnMut => "mut self".into(),
        Recv::Boxed => "self: Box<Self>".into(),
        Recv::MutBoxed => "mut self: Box<Self>".into(),
        Recv::Rc => "self: std::rc::Rc<Self>".into(),
        Recv::Arc => "self: std::sync::Arc<Self>".into(),
        Recv::PinBox => "self: std::pin::Pin<Box<Self>>".into(),
        Recv::RefBox => "self: &Box<Self>".into(),
    })
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// body `unimplemented!()`
    Body,
    /// `;`
    Semi,
    /// `mut` patterns are not allowed
    TraitDef,
}

pub fn signature(f: &Func, mode: Mode) -> String {
    let own = &f.params[f.n_class_params..];
    let mut args: Vec<String> = vec![];
    if let Some(r) = recv_text(f) {
        args.push(if mode == Mode::TraitDef { r.trim_start_matches("mut ").to_string() } else { r });
    }
    for a in &f.args {
        let pat = if mode == Mode::Body { &a.pat } else { &a.name };
        args.push(format!("{pat}: {}", fragment(&a.decl, &f.params)));
    }
    let ret = match &f.ret.decl {
        None => String::new(),
        Some(t) => format!(" -> {}", fragment(t, &f.params)),
    };
    format!(
        "{}{}{}fn {}{}({}){}{}",
        f.vis,
        if f.ret.is_async { "async " } else { "" },
        if f.is_unsafe { "unsafe " } else { "" },
        f.name,
        generics(own, &f.lifetimes),
        args.join(", "),
        ret,
        wheres(own, &f.where_extra)
    )
}

pub fn method(f: &Func, mode: Mode, with_concretize: bool) -> String {
    let mut s = String::new();
    for a in &f.attrs {
        let _ = writeln!(s, "        {a}");
    }
    if f.concretize && with_concretize {
        let _ = writeln!(s, "        #[mockall::concretize]");
    }
    let body_text = format!(" {{ {} }}", f.ret.body);
    let body = match mode {
        Mode::Body => &body_text,
        _ if f.default_body && mode == Mode::TraitDef => " { unimplemented!() }",
        _ => ";",
    };
    let _ = writeln!(s, "        {}{}", signature(f, mode), body);
    s
}

/// the trait's own definition (not mocked here)
pub fn trait_def(u: &Unit, i: usize, auto: bool) -> String {
    let t = &u.traits[i];
    let mut s = String::new();
    if t.is_async {
        s.push_str("    #[async_trait::async_trait]\n");
    }
    let ps: &[Param] = if t.generic { &u.params } else { &[] };
    let g = if auto { generics_dflt(u) } else { generics(ps, &[]) };
    let _ = writeln!(
        s,
        "    pub {}trait {}{}{}{} {{",
        if t.is_unsafe { "unsafe " } else { "" },
        t.name,
        g,
        if t.supers.is_empty() { String::new() } else { format!(": {}", t.supers) },
        wheres(ps, &[])
    );
    for (n, _) in &t.assoc {
        let _ = writeln!(s, "        type {n};");
    }
    for (n, ty, v) in &t.consts {
        if auto {
            let _ = writeln!(s, "        const {n}: {ty} = {v};");
        } else {
            let _ = writeln!(s, "        const {n}: {ty};");
        }
    }
    for f in u.funcs.iter().filter(|f| f.home == Some(i)) {
        s.push_str(&method(f, Mode::TraitDef, auto));
    }
    s.push_str("    }\n");
    s
}

thread_local! {
    static FRAG: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static ALIAS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// A type of a signature, some parts of which are marked to become fragments
/// of a macro_rules macro
fn fragment(t: &Ty, ps: &[Param]) -> String {
    let salt = FRAG.get();
    let text = t.decl(ps);
    let al = ALIAS.get();
    if al != 0 && !t.has_param() && can_alias(&text, ps) {
        let h = text.bytes().fold(al, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
        if (h >> 17) % 3 != 0 {
            return format!("\u{4}{text}\u{5}");
        }
    }
    if salt == 0 {
        return text;
    }
    let h = text.bytes().fold(salt, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    if (h >> 17) % 3 == 0 {
        return format!("\u{2}{text}\u{3}");
    }
    match t {
        Ty::App { decl, kids, .. } => crate::ty::fill(decl, &kids.iter().map(|k| fragment(k, ps)).collect::<Vec<_>>()),
        _ => text,
    }
}

/// Sized types without any lifetime, and not generic
fn can_alias(text: &str, ps: &[Param]) -> bool {
    let words: Vec<&str> = text.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
    !text.contains(['&', '\''])
        && !words.iter().any(|w| matches!(*w, "impl" | "dyn" | "fn" | "str" | "Path" | "OsStr" | "CStr" | "Lt" | "Tl" | "Self" | "self" | "super" | "crate"))
        && !(text.starts_with('[') && !text.contains(';'))
        && !words.iter().any(|w| ps.iter().any(|p| p.name == *w))
}

/// Replaces the marked types by aliases, which are declared after `open`
fn with_aliases(u: &Unit, s: &str, open: &str) -> String {
    if u.aliases == 0 {
        return s.to_string();
    }
    let mut types: Vec<&str> = vec![];
    let mut out = String::new();
    let name = |i: usize| ["Alias", "number_t", "T0", "Id"][i % 4].to_string() + &"_".repeat(i / 4);
    for piece in s.split('\u{4}') {
        match piece.split_once('\u{5}') {
            None => out.push_str(piece),
            Some((ty, rest)) => {
                let i = types.iter().position(|t| *t == ty).unwrap_or_else(|| {
                    types.push(ty);
                    types.len() - 1
                });
                let _ = write!(out, "{}{rest}", name(i));
            }
        }
    }
    let mut decls = String::new();
    for (i, ty) in types.iter().enumerate() {
        let vis = ["", "pub ", "pub(crate) ", "pub(super) ", ""][(u.aliases as usize + i) % 5];
        let _ = writeln!(decls, "        #[allow(non_camel_case_types, dead_code)] {vis}type {} = {ty};", name(i));
    }
    // before the functions, or after them
    if u.aliases % 2 == 0 {
        out.replacen(open, &format!("{open}\n{decls}"), 1)
    } else {
        let end = out.rfind("    }").unwrap();
        format!("{}{decls}{}", &out[..end], &out[end..])
    }
}

/// The declaration, possibly as what a macro_rules macro expands to
pub fn decl(u: &Unit) -> String {
    FRAG.set(u.frag);
    ALIAS.set(u.aliases);
    let s = plain_decl(u);
    ALIAS.set(0);
    let s = with_aliases(u, &s, &format!("pub mod {} {{", u.name));
    FRAG.set(0);
    if u.frag == 0 {
        return s;
    }
    let mut types: Vec<&str> = vec![];
    let mut out = String::new();
    for piece in s.split('\u{2}') {
        match piece.split_once('\u{3}') {
            None => out.push_str(piece),
            Some((ty, rest)) => {
                let i = types.iter().position(|t| *t == ty).unwrap_or_else(|| {
                    types.push(ty);
                    types.len() - 1
                });
                let _ = write!(out, "$t{i}{rest}");
            }
        }
    }
    let ps: String = (0..types.len()).map(|i| format!("$t{i}:ty;")).collect();
    let args: String = types.iter().map(|t| format!("{t};")).collect();
    format!("    macro_rules! declare {{ ({ps}) => {{\n{out}    }} }}\n    declare! {{ {args} }}\n")
}

fn plain_decl(u: &Unit) -> String {
    let mut s = String::new();
    let g = generics(&u.params, &[]);
    let w = wheres(&u.params, &[]);
    let n = names(&u.params);
    let gd = generics_dflt(u);
    let phantom = if u.params.is_empty() {
        ";".to_string()
    } else {
        format!("(pub std::marker::PhantomData<({},)>){w};", u.params.iter().map(|p| p.name.clone()).collect::<Vec<_>>().join(", "))
    };
    for a in &u.attrs {
        let _ = writeln!(s, "    {a}");
    }
    let mocked: String;
    match u.kind {
        Kind::AutoTrait => {
            let ty: Vec<String> = u.traits[0].assoc.iter().map(|(n, t)| format!("type {n} = {};", t.decl(&u.params))).collect();
            let am = if ty.is_empty() { "#[automock]".to_string() } else { format!("#[automock({})]", ty.join(" ")) };
            let _ = writeln!(s, "    {am}");
            s.push_str(&trait_def(u, 0, true));
        }
        Kind::AutoImpl => {
            let _ = writeln!(s, "    pub struct {}{g}{phantom}", u.name);
            let _ = writeln!(s, "    #[automock]\n    impl{g} {}{n}{w} {{", u.name);
            for f in &u.funcs {
                s.push_str(&method(f, Mode::Body, true));
            }
            s.push_str("    }\n");
        }
        Kind::AutoTraitImpl => {
            s.push_str(&trait_def(u, 0, false));
            let t = &u.traits[0];
            let _ = writeln!(s, "    pub struct {}{g}{phantom}", u.name);
            let _ = writeln!(s, "    #[automock]\n    impl{g} {} for {}{n}{w} {{", trait_ref(t, &u.params), u.name);
            for (n, ty) in &t.assoc {
                let _ = writeln!(s, "        type {n} = {};", ty.decl(&u.params));
            }
            for f in &u.funcs {
                s.push_str(&method(f, Mode::Body, true));
            }
            s.push_str("    }\n");
        }
        Kind::Mock => {
            for i in 0..u.traits.len() {
                s.push_str(&trait_def(u, i, false));
            }
            let _ = writeln!(s, "    mock! {{\n    {}pub {}{gd}{w} {{", if u.debug { "#[derive(Debug)] " } else { "" }, u.name);
            for f in u.funcs.iter().filter(|f| f.home.is_none()) {
                s.push_str(&method(f, Mode::Semi, true));
            }
            s.push_str("    }\n");
            for (i, t) in u.traits.iter().enumerate() {
                if t.is_async {
                    s.push_str("    #[async_trait::async_trait]\n");
                }
                let _ = writeln!(
                    s,
                    "    {}impl{g} {} for {}{n}{w} {{",
                    if t.is_unsafe { "unsafe " } else { "" },
                    trait_ref(t, &u.params),
                    u.name
                );
                for (n, ty) in &t.assoc {
                    let _ = writeln!(s, "        type {n} = {};", ty.decl(&u.params));
                }
                for (n, ty, v) in &t.consts {
                    let _ = writeln!(s, "        const {n}: {ty} = {v};");
                }
                for f in u.funcs.iter().filter(|f| f.home == Some(i)) {
                    s.push_str(&method(f, Mode::Semi, true));
                }
                s.push_str("    }\n");
            }
            s.push_str("    }\n");
        }
        Kind::Module => {
            mocked = u.funcs.iter().map(|f| method(f, Mode::Body, true)).collect();
            let _ = writeln!(s, "    #[automock]\n    pub mod {} {{\n        #[allow(unused_imports)] use rt::*;\n        #[allow(unused_imports)] use std::{{path::Path, ffi::{{OsStr, CStr}}}};\n{mocked}    }}", u.name);
        }
        Kind::Ffi => {
            // one block or several
            let mut m = String::new();
            let mut last = NO_ABI;
            for f in &u.funcs {
                if f.abi != last && last != NO_ABI {
                    m.push_str("        }\n");
                }
                if f.abi == NO_ABI {
                    m.push_str(&method(f, Mode::Body, true));
                } else {
                    if f.abi != last {
                        let ue = if u.uext { "unsafe " } else { "" };
                        m.push_str(&if f.abi.is_empty() { format!("        {ue}extern {{\n") } else { format!("        {ue}extern \"{}\" {{\n", f.abi) });
                    }
                    m.push_str(&method(f, Mode::Semi, true));
                }
                last = f.abi;
            }
            if last != NO_ABI {
                m.push_str("        }\n");
            }
            let _ = writeln!(s, "    #[automock]\n    pub mod ffi {{\n{m}    }}");
        }
    }
    s
}

/// Items with the same signatures as the mocked functions that only pass on
/// their arguments: they compile if the mock takes and returns what it should
pub fn twins(u: &Unit) -> String {
    let mut s = String::new();
    if !u.twins {
        return s;
    }
    let mock = mock_name(u);
    let mode = if u.kind == Kind::Mock { Mode::Semi } else { Mode::Body };
    let fwd = |f: &Func, path: String| -> String {
        let mut a: Vec<String> = if f.recv == Recv::None { vec![] } else { vec!["self".into()] };
        a.extend(f.args.iter().map(|a| a.name.clone()));
        let tf: Vec<String> = f.params[f.n_class_params..].iter().map(|p| p.name.clone()).collect();
        let c = format!("{path}::{}{}({})", f.name, turbofish(&tf), a.join(", "));
        let c = if f.is_unsafe || f.abi != NO_ABI { format!("unsafe {{ {c} }}") } else { c };
        if f.ret.is_async {
            format!("{c}.await")
        } else {
            c
        }
    };
    let bare = |f: &Func| -> Func {
        let mut f = f.clone();
        f.vis = String::new();
        f
    };
    match u.kind {
        Kind::Module | Kind::Ffi => {
            let _ = writeln!(s, "    #[allow(warnings)] pub mod twins {{\n        use super::*;");
            for f in &u.funcs {
                let _ = writeln!(s, "        {} {{ {} }}", signature(&bare(f), mode), fwd(f, format!("super::{mock}")));
                if f.abi != NO_ABI {
                    let a: Vec<String> = f.args.iter().map(|a| a.decl.decl(&f.params)).collect();
                    let r = f.ret.decl.as_ref().map_or(String::new(), |t| format!(" -> {}", t.decl(&f.params)));
                    let _ = writeln!(s, "        const _: unsafe extern \"{}\" fn({}){r} = super::{mock}::{};", mock_abi(f.abi), a.join(", "), f.name);
                    if f.abi != "Rust" {
                        // the mock stands in for the symbol, too
                        let _ = writeln!(s, "        pub mod sym_{0} {{ use super::*; {3}extern \"{1}\" {{ pub {2}; }} }}", f.name, mock_abi(f.abi), signature(&bare(f), Mode::Semi), if u.uext { "unsafe " } else { "" });
                    }
                }
            }
            let _ = writeln!(s, "    }}");
        }
        Kind::AutoImpl | Kind::Mock => {
            let g = generics(&u.params, &[]);
            let w = wheres(&u.params, &["Self: Sized".into()]);
            let w2 = wheres(&u.params, &[]);
            let n = names(&u.params);
            let _ = writeln!(s, "    #[allow(warnings)] pub trait Twin{g}{w} {{");
            let fs: Vec<Func> = u.funcs.iter().filter(|f| f.home.is_none()).map(bare).collect();
            for f in &fs {
                let _ = writeln!(s, "        {};", signature(f, Mode::TraitDef));
            }
            let _ = writeln!(s, "    }}\n    #[allow(warnings)] impl{g} Twin{n} for {mock}{n}{w2} {{");
            for f in &fs {
                let _ = writeln!(s, "        {} {{ {} }}", signature(f, Mode::Body), fwd(f, format!("<{mock}{n}>")));
            }
            let _ = writeln!(s, "    }}");
        }
        _ => {}
    }
    s
}

pub struct Slot {
    pub func: usize,
    pub cls: usize,
    pub m: usize,
}

pub fn slots(u: &Unit) -> Vec<Slot> {
    let mut v = vec![];
    for (i, f) in u.funcs.iter().enumerate() {
        for c in 0..u.n_cls.max(1) {
            for m in 0..f.n_inst {
                v.push(Slot { func: i, cls: c, m });
            }
        }
    }
    v
}

fn inst(u: &Unit, f: &Func, cls: usize, m: usize) -> Inst {
    let _ = u;
    (0..f.params.len()).map(|i| if i < f.n_class_params { cls } else { m }).collect()
}

pub fn class_ty(u: &Unit, cls: usize) -> String {
    let e = Env { params: &u.params, inst: &vec![cls; u.params.len()] };
    let mut a: Vec<String> = (0..u.params.len()).map(|i| Ty::Param(i).conc(&e)).collect();
    if cls == 0 && u.dflt == 1 {
        a.pop();
    }
    if a.is_empty() {
        mock_name(u)
    } else {
        format!("{}<{}>", mock_name(u), a.join(", "))
    }
}

fn turbofish(v: &[String]) -> String {
    if v.is_empty() {
        String::new()
    } else {
        format!("::<{}>", v.join(", "))
    }
}

fn list(n: usize, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect::<Vec<_>>().join(", ")
}

/// statements that configure expectation `ex` according to `sp`
fn apply(f: &Func, e: &Env) -> String {
    let n = f.args.len();
    let params = list(n, |i| format!("a{i}"));
    let tys = list(n, |i| format!("rt::e(&a{i})"));
    let mut s = String::new();
    let w = &mut s;
    let _ = writeln!(w, "        for m in &sp.mods {{ match m {{");
    if f.concretize || n == 0 {
        let _ = writeln!(w, "            Mod::Match(Matcher::With(_)) => {{}}");
    } else {
        let _ = writeln!(
            w,
            "            Mod::Match(Matcher::With(p)) => {{ ex.with({}); }}",
            list(n, |i| format!("env.pred(sp.id, p, {i})"))
        );
    }
    let _ = writeln!(w, "            Mod::Match(Matcher::Any) => {{}}");
    let _ = writeln!(
        w,
        "            Mod::Match(Matcher::Fun {{ w, mask, st: false }}) => {{ let t = env.test(sp.id, w, *mask); ex.withf(move |{params}| t.test(&[{tys}])); }}"
    );
    let _ = writeln!(
        w,
        "            Mod::Match(Matcher::Fun {{ w, mask, st: true }}) => {{ let t = env.test(sp.id, w, *mask); let ns = rt::not_send(); ex.withf_st(move |{params}| {{ ns.touch(); t.test(&[{tys}]) }}); }}"
    );
    let _ = writeln!(w, "            Mod::Times(t) => rt::times!(ex, *t),");
    let _ = writeln!(w, "            Mod::Seq(i) => {{ ex.in_sequence(&mut env.seqs[*i]); }}");
    let k = ret_k(f, e);
    let muts: Vec<usize> = (0..n).filter(|i| f.args[*i].mutref && !f.concretize).collect();
    let write = if muts.is_empty() {
        String::new()
    } else {
        format!("if t.write() {{ {} }} ", muts.iter().map(|i| format!("rt::bump(a{i});")).collect::<String>())
    };
    let mk = f.ret.mk.replace("{}", "c");
    let body = format!("let c = t.run(&[{tys}]); {write}{mk}");
    let konst = f.ret.own.conc(e);
    match f.ret.kind {
        RK::Ref => {
            let _ = writeln!(
                w,
                "            Mod::Ret(Ret::Const {{ code, .. }}) => {{ let v: {konst} = rt::mk(*code); ex.return_const(v); }}"
            );
        }
        RK::RefMut => {
            let _ = writeln!(w, "            Mod::Ret(Ret::Var {{ code }}) => {{ let v: {konst} = rt::mk(*code); ex.return_var(v); }}");
            for st in [false, true] {
                let _ = writeln!(
                    w,
                    "            Mod::Ret(Ret::Returning {{ f, st: {st} }}) => {{ let t = env.act(sp.id, f, {k}); {}ex.returning{}(move |{params}| {{ {}{body} }}); }}",
                    if st { "let ns = rt::not_send(); " } else { "" },
                    if st { "_st" } else { "" },
                    if st { "ns.touch(); " } else { "" },
                );
            }
        }
        RK::Owned => {
            if f.ret.konst && f.ret.own.props(e) & C != 0 {
                for st in [false, true] {
                    if !st && f.ret.own.props(e) & S == 0 {
                        continue;
                    }
                    let _ = writeln!(
                        w,
                        "            Mod::Ret(Ret::Const {{ code, st: {st} }}) => {{ let v: {konst} = rt::mk(*code); ex.return_const{}(v); }}",
                        if st { "_st" } else { "" }
                    );
                }
            }
            for st in [false, true] {
                for (pat, m) in [("Returning", "returning"), ("Once", "return_once")] {
                    let _ = writeln!(
                        w,
                        "            Mod::Ret(Ret::{pat} {{ f, st: {st} }}) => {{ let t = env.act(sp.id, f, {k}); {}ex.{m}{}(move |{params}| {{ {}{body} }}); }}",
                        if st { "let ns = rt::not_send(); " } else { "" },
                        if st { "_st" } else { "" },
                        if st { "ns.touch(); " } else { "" },
                    );
                }
            }
        }
    }
    let _ = writeln!(w, "            _ => unreachable!(\"{{:?}}\", m),\n        }} }}");
    s
}

fn ret_k(f: &Func, e: &Env) -> String {
    format!("<{} as rt::Mk>::K", f.ret.own.conc(e))
}

/// The adapter module's text, and the declaration around it
pub fn unit_text(u: &Unit, idx: usize) -> String {
    let mut s = String::new();
    let w = &mut s;
    let _ = writeln!(
        w,
        "pub mod decl {{\n    #![deny(warnings)]\n    #![allow(dead_code, unused_imports, unused_variables, unused_mut, missing_abi, clippy::all)]\n    use mockall::*;\n    use rt::*;\n    use std::{{path::Path, ffi::{{OsStr, CStr}}}};\n"
    );
    let start = w.lines().count();
    let _ = start;
    w.push_str(&decl(u));
    w.push_str(&twins(u));
    let _ = writeln!(w, "}}");
    let _ = writeln!(
        w,
        "pub mod adapter {{\n    #![allow(warnings)]\n    use super::decl::*;\n    use rt::*;\n    use rt::model::*;\n    use rt::run::*;"
    );
    if u.self_ty {
        // a mock's code is always 0
        let b: Vec<String> = u.params.iter().map(|p| format!("{}: {}", p.name, p.bounds)).collect();
        let g = if b.is_empty() { String::new() } else { format!("<{}>", b.join(", ")) };
        let n = names(&u.params);
        let m = mock_name(u);
        let _ = writeln!(w, "    impl{g} rt::Mk for {m}{n} {{ const K: u64 = 1; fn mk(_: u64) -> Self {{ Self::new() }} }}\n    impl{g} rt::Enc for {m}{n} {{ fn enc(&self) -> u64 {{ 0 }} }}");
    }
    let is_mod = u.n_cls == 0;
    let sl = slots(u);
    // functions: (func, cls) pairs
    let mut fns: Vec<(usize, Option<usize>, usize)> = vec![]; // func, cls, store
    let mut fn_of = vec![];
    for s in &sl {
        let f = &u.funcs[s.func];
        let stat = f.recv == Recv::None;
        let key = if stat && !is_mod { (s.func, Some(s.cls)) } else { (s.func, None) };
        let at = fns.iter().position(|x| (x.0, x.1) == key).unwrap_or_else(|| {
            let store = fns.iter().position(|x| x.0 == s.func).unwrap_or(fns.len());
            fns.push((key.0, key.1, store));
            fns.len() - 1
        });
        fn_of.push(at);
    }
    let mock = mock_name(u);
    let visible = |f: &Func| -> Vec<usize> { (f.n_class_params..f.params.len()).filter(|i| !f.hidden.contains(i)).collect() };
    // expect and call functions
    for (si, sl1) in sl.iter().enumerate() {
        let f = &u.funcs[sl1.func];
        let ins = inst(u, f, sl1.cls, sl1.m);
        let e = Env { params: &f.params, inst: &ins };
        let vis: Vec<String> = visible(f).iter().map(|i| Ty::Param(*i).conc(&e)).collect();
        let cls = class_ty(u, sl1.cls);
        if f.recv != Recv::None {
            let _ = writeln!(
                w,
                "    fn expect_{si}(b: &mut BoxObj, sp: &Spec, env: &mut Env) {{\n        let ex = b.downcast_mut::<{cls}>().unwrap().expect_{}{}();",
                f.name.trim_start_matches("r#"),
                turbofish(&vis)
            );
            w.push_str(&apply(f, &e));
            let _ = writeln!(w, "    }}");
        }
        // call
        let _ = writeln!(w, "    fn call_{si}(b: &mut Option<BoxObj>, a: &[u64], mutate: Option<u64>) -> CallRes {{");
        for (i, a) in f.args.iter().enumerate() {
            let _ = writeln!(w, "        let mut a{i}: {} = rt::mk(a[{i}]);", a.own.conc(&e));
        }
        let o = match f.recv {
            Recv::None => None,
            Recv::Ref | Recv::Mut => Some(format!("obj::<{cls}>(b)")),
            Recv::Own | Recv::OwnMut => Some(format!("*own::<{cls}>(b)")),
            Recv::Boxed | Recv::MutBoxed => Some(format!("own::<{cls}>(b)")),
            Recv::Rc => Some(format!("std::rc::Rc::<{cls}>::from(own::<{cls}>(b))")),
            Recv::Arc => Some(format!("std::sync::Arc::<{cls}>::from(own::<{cls}>(b))")),
            Recv::PinBox => Some(format!("Box::into_pin(own::<{cls}>(b))")),
            Recv::RefBox => {
                let _ = writeln!(w, "        let pb = PutBack::<{cls}>::new(b);");
                Some("pb.get()".into())
            }
        };
        let mut tf: Vec<String> = vec![];
        let own = f.n_class_params..f.params.len();
        if !visible(f).is_empty() {
            for i in own {
                tf.push(if f.hidden.contains(&i) { "_".into() } else { Ty::Param(i).conc(&e) });
            }
        }
        let path = match (u.kind, f.home) {
            (Kind::Ffi, _) if u.twins && f.abi != "Rust" && f.abi != NO_ABI && sl1.func % 2 == 1 => format!("twins::sym_{0}::{0}", f.name),
            (Kind::Module | Kind::Ffi, _) => format!("{mock}::{}", f.name),
            (_, Some(h)) => {
                let t = &u.traits[h];
                let args: Vec<String> = if t.generic { (0..u.params.len()).map(|i| Ty::Param(i).conc(&e)).collect() } else { vec![] };
                let targs = if args.is_empty() { String::new() } else { format!("<{}>", args.join(", ")) };
                format!("<{cls} as {}{targs}>::{}", t.name, f.name)
            }
            _ => format!("<{cls}>::{}", f.name),
        };
        let mut args: Vec<String> = o.into_iter().collect();
        for (i, a) in f.args.iter().enumerate() {
            args.push(a.pass.replacen("{}", &format!("a{i}"), 1));
        }
        let call = format!("{path}{}({})", turbofish(&tf), args.join(", "));
        let call = if f.is_unsafe || f.abi != NO_ABI { format!("unsafe {{ {call} }}") } else { call };
        let _ = writeln!(w, "        let mut r = {call};");
        let _ = writeln!(w, "        let code: u64 = {};", f.ret.enc.replacen("{}", "r", 1));
        if f.ret.mutable {
            let _ = writeln!(w, "        if let Some(m) = mutate {{ *r = rt::mk(m); }}");
        }
        let after: Vec<String> =
            f.args.iter().enumerate().filter(|(_, a)| a.mutref).map(|(i, _)| format!("rt::e(&a{i})")).collect();
        let _ = writeln!(w, "        CallRes {{ code, after: vec![{}] }}\n    }}", after.join(", "));
    }
    // contexts
    for (fi, (func, cls, _)) in fns.iter().enumerate() {
        let f = &u.funcs[*func];
        if f.recv != Recv::None {
            continue;
        }
        let bare = f.name.trim_start_matches("r#");
        let c = match cls {
            Some(c) => format!("<{}>::{bare}_context()", class_ty(u, *c)),
            None => format!("{mock}::{bare}_context()"),
        };
        let _ = writeln!(
            w,
            "    fn ctx_{fi}() -> CtxH {{\n        let ctx = {c};\n        Box::new(move |cmd| match cmd {{\n            CtxCmd::Checkpoint => ctx.checkpoint(),\n            CtxCmd::Expect(slot, sp, env) => match slot {{"
        );
        for (si, sl1) in sl.iter().enumerate() {
            if fn_of[si] != fi {
                continue;
            }
            let ins = inst(u, f, sl1.cls, sl1.m);
            let e = Env { params: &f.params, inst: &ins };
            let vis: Vec<String> = visible(f).iter().map(|i| Ty::Param(*i).conc(&e)).collect();
            let _ = writeln!(w, "                {si} => {{ let mut ex = ctx.expect{}();", turbofish(&vis));
            w.push_str(&apply(f, &e));
            let _ = writeln!(w, "                }}");
        }
        let _ = writeln!(w, "                _ => unreachable!(),\n            }},\n        }})\n    }}");
    }
    // meta
    let _ = writeln!(w, "    pub fn unit() -> Unit {{\n        let meta = Meta {{\n            name: \"u{idx}\".into(), n_cls: {}, n_modules: {}, threads: true, nightly: {},", u.n_cls, is_mod as usize, u.nightly);
    let _ = writeln!(w, "            fns: vec![");
    for (func, _, store) in &fns {
        let f = &u.funcs[*func];
        let _ = writeln!(
            w,
            "                FnMeta {{ is_static: {}, store: {store}, module: {}, name: \"{}\".into() }},",
            f.recv == Recv::None,
            if is_mod { "Some(0)" } else { "None" },
            f.name
        );
    }
    let _ = writeln!(w, "            ],\n            slots: vec![");
    let mut lists: Vec<(usize, usize, usize)> = vec![];
    for (si, sl1) in sl.iter().enumerate() {
        let f = &u.funcs[sl1.func];
        let ins = inst(u, f, sl1.cls, sl1.m);
        let e = Env { params: &f.params, inst: &ins };
        let list = if f.concretize {
            match lists.iter().find(|l| l.0 == sl1.func && l.1 == sl1.cls) {
                Some(l) => l.2,
                None => {
                    lists.push((sl1.func, sl1.cls, si));
                    si
                }
            }
        } else {
            si
        };
        let args = f
            .args
            .iter()
            .map(|a| format!("ArgMeta {{ k: <{} as rt::Mk>::K, mutref: {} }}", a.own.conc(&e), a.mutref))
            .collect::<Vec<_>>()
            .join(", ");
        let dbg = f
            .args
            .iter()
            .map(|a| if a.cls == "lt" { "dbg_in::<u32>(\"Lt(\", \")\")".into() } else if a.cls == "dyn" && a.pass.contains("Send") { "dbg_code(\"Val(\", \")\")".into() } else if a.shows { format!("dbgs::<{}>()", a.own.conc(&e)) } else { "None".into() })
            .collect::<Vec<_>>()
            .join(", ");
        let p = f.ret.own.props(&e);
        let default = if f.ret.default && p & F != 0 && f.ret.kind != RK::RefMut || f.ret.kind == RK::RefMut && p & F != 0 {
            format!("Some(rt::e(&<{} as Default>::default()))", f.ret.own.conc(&e))
        } else {
            "None".into()
        };
        let _ = writeln!(
            w,
            "                SlotMeta {{ list: {list}, func: {}, cls: {}, args: vec![{args}], ret_k: {}, ref_kind: RefKind::{}, has_with: {}, ret_clone: {}, ret_send: {}, ret_default: {default}, mutable: {}, can_write: {}, consuming: {}, path: \"{mock}::{}\".into(), dbg: vec![{dbg}] }},",
            fn_of[si],
            if is_mod { "None".to_string() } else { format!("Some({})", sl1.cls) },
            ret_k(f, &e),
            match f.ret.kind {
                RK::Owned => "Owned",
                RK::Ref => "Ref",
                RK::RefMut => "RefMut",
            },
            !f.concretize && !f.args.is_empty(),
            f.ret.konst && p & C != 0,
            p & S != 0,
            f.ret.mutable,
            !f.concretize,
            f.recv.consuming(),
            f.name,
        );
    }
    let _ = writeln!(w, "            ],\n        }};");
    let _ = writeln!(w, "        let local = (0..meta.slots.len()).collect();\n        Unit {{ meta, local,\n            classes: vec![");
    for c in 0..u.n_cls {
        let cls = class_ty(u, c);
        let _ = writeln!(
            w,
            "                ClassFns {{ new: || Box::new(<{cls}>::new()), checkpoint: |o| o.downcast_mut::<{cls}>().unwrap().checkpoint(), debug: |o| {} }},",
            if u.debug { format!("format!(\"{{:?}}\", o.downcast_ref::<{cls}>().unwrap())") } else { format!("\"{mock}\".to_string()") }
        );
    }
    let _ = writeln!(w, "            ],\n            ctxs: vec![");
    for (fi, (func, _, _)) in fns.iter().enumerate() {
        let _ = writeln!(w, "                {},", if u.funcs[*func].recv == Recv::None { format!("Some(ctx_{fi} as fn() -> CtxH)") } else { "None".into() });
    }
    let _ = writeln!(w, "            ],\n            slots: vec![");
    for (si, sl1) in sl.iter().enumerate() {
        let f = &u.funcs[sl1.func];
        let _ = writeln!(
            w,
            "                SlotFns {{ expect: {}, call: call_{si} }},",
            if f.recv == Recv::None { "None".into() } else { format!("Some(expect_{si})") }
        );
    }
    let _ = writeln!(w, "            ],\n            modules: vec![{}],\n        }}\n    }}", if is_mod { format!("{mock}::checkpoint as fn()") } else { String::new() });
    let _ = writeln!(w, "}}");
    s
}

pub fn main_text(units: &[usize]) -> String {
    let mut s = String::new();
    for i in units {
        let _ = writeln!(s, "pub mod u{i};");
    }
    s.push_str("fn main() { rt::serve(vec![");
    for i in units {
        let _ = write!(s, "u{i}::adapter::unit(), ");
    }
    s.push_str("]) }\n");
    s
}
