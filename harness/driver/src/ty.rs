//! Types of generated programs: each knows how the declaration writes it and
//! what it concretely is for an instantiation of the generic parameters.

pub const C: u32 = 1; // Clone
pub const D: u32 = 2; // Debug
pub const F: u32 = 4; // Default
pub const S: u32 = 8; // Send
pub const Y: u32 = 16; // Sync
pub const P: u32 = 32; // Copy
pub const E: u32 = 64; // PartialEq
pub const ALL: u32 = 127;

#[derive(Clone, Debug)]
pub enum Ty {
    /// written the same everywhere
    Atom(&'static str, u32),
    /// generic parameter, by index into the environment
    Param(usize),
    /// spelled in some way in the declaration, meaning `conc`
    Named { decl: String, conc: Box<Ty> },
    /// `decl`/`conc` with `{}` for each kid; properties: always, and those
    /// that hold if all kids have them
    App { decl: String, conc: String, kids: Vec<Ty>, always: u32, and: u32 },
}

#[derive(Clone, Debug)]
pub struct Param {
    pub name: String,
    /// bounds in the declaration
    pub bounds: String,
    pub in_where: bool,
    /// the bounds include Debug
    pub debug: bool,
    pub insts: Vec<Ty>,
}

/// Choice of one instantiation for every parameter
pub type Inst = Vec<usize>;

pub struct Env<'a> {
    pub params: &'a [Param],
    pub inst: &'a [usize],
}

pub fn fill(f: &str, kids: &[String]) -> String {
    let mut out = String::new();
    let mut it = kids.iter();
    let mut rest = f;
    while let Some(i) = rest.find("{}") {
        out.push_str(&rest[..i]);
        out.push_str(it.next().map(|s| s.as_str()).unwrap_or("?"));
        rest = &rest[i + 2..];
    }
    out + rest
}

impl Ty {
    pub fn app1(f: &str, kid: Ty, always: u32, and: u32) -> Ty {
        Ty::App { decl: f.into(), conc: f.into(), kids: vec![kid], always, and }
    }
    pub fn app(f: &str, kids: Vec<Ty>, always: u32, and: u32) -> Ty {
        Ty::App { decl: f.into(), conc: f.into(), kids, always, and }
    }
    pub fn decl(&self, ps: &[Param]) -> String {
        match self {
            Ty::Atom(s, _) => s.to_string(),
            Ty::Param(i) => ps[*i].name.clone(),
            Ty::Named { decl, .. } => decl.clone(),
            Ty::App { decl, kids, .. } => fill(decl, &kids.iter().map(|k| k.decl(ps)).collect::<Vec<_>>()),
        }
    }
    pub fn conc(&self, e: &Env) -> String {
        match self {
            Ty::Atom(s, _) => s.to_string(),
            Ty::Param(i) => {
                let p = &e.params[*i];
                p.insts[e.inst[*i] % p.insts.len()].conc(e)
            }
            Ty::Named { conc, .. } => conc.conc(e),
            Ty::App { conc, kids, .. } => fill(conc, &kids.iter().map(|k| k.conc(e)).collect::<Vec<_>>()),
        }
    }
    pub fn props(&self, e: &Env) -> u32 {
        match self {
            Ty::Atom(_, p) => *p,
            Ty::Param(i) => {
                let p = &e.params[*i];
                p.insts[e.inst[*i] % p.insts.len()].props(e)
            }
            Ty::Named { conc, .. } => conc.props(e),
            Ty::App { kids, always, and, .. } => kids.iter().fold(*and, |a, k| a & k.props(e)) | always,
        }
    }
    /// Is Debug known where the declaration stands?
    pub fn shows(&self, ps: &[Param]) -> bool {
        match self {
            Ty::Atom(_, p) => p & D != 0,
            Ty::Param(i) => ps.get(*i).map_or(false, |p| p.debug),
            Ty::Named { conc, .. } => conc.shows(ps),
            Ty::App { kids, always, and, .. } => always & D != 0 || and & D != 0 && kids.iter().all(|k| k.shows(ps)),
        }
    }
    pub fn has_param(&self) -> bool {
        match self {
            Ty::Param(_) => true,
            Ty::App { kids, .. } => kids.iter().any(|k| k.has_param()),
            Ty::Named { conc, .. } => conc.has_param(),
            _ => false,
        }
    }
}

pub const ATOMS: &[Ty] = &[
    Ty::Atom("u32", ALL),
    Ty::Atom("i64", ALL),
    Ty::Atom("String", ALL & !P),
    Ty::Atom("u8", ALL),
    Ty::Atom("u16", ALL),
    Ty::Atom("i32", ALL),
    Ty::Atom("u64", ALL),
    Ty::Atom("usize", ALL),
    Ty::Atom("bool", ALL),
    Ty::Atom("char", ALL),
    Ty::Atom("f64", ALL),
    Ty::Atom("&'static str", ALL),
    Ty::Atom("Pt", ALL),
    Ty::Atom("NoDebug", C | S | Y),
    Ty::Atom("Bare", S | Y),
    Ty::Atom("std::path::PathBuf", ALL & !P),
    Ty::Atom("std::ffi::OsString", ALL & !P),
    Ty::Atom("std::ffi::CString", ALL & !P),
    Ty::Atom("Box<dyn Val + Send + Sync>", S | Y),
    Ty::Atom("u128", ALL),
    Ty::Atom("Zst", ALL),
    Ty::Atom("Cl", ALL & !P),
    Ty::Atom("Local", C | D),
];
/// FFI-safe
pub const FFI_ATOMS: &[Ty] = &[
    Ty::Atom("u32", ALL),
    Ty::Atom("i64", ALL),
    Ty::Atom("u8", ALL),
    Ty::Atom("i32", ALL),
    Ty::Atom("u64", ALL),
    Ty::Atom("bool", ALL),
    Ty::Atom("f64", ALL),
];

/// a type built around another
pub fn wrap(i: usize, t: Ty) -> Ty {
    match i % 11 {
        0 => Ty::app1("Option<{}>", t, F, ALL & !F),
        1 => Ty::app1("Vec<{}>", t, F, ALL & !F & !P),
        2 => Ty::app1("Box<{}>", t, 0, ALL & !P),
        3 => Ty::app1("({}, u8)", t, 0, ALL),
        4 => Ty::app1("Wrap<{}>", t, 0, ALL & !P),
        5 => Ty::app1("[{}; 2]", t, 0, ALL),
        6 => Ty::app1("Result<{}, String>", t, 0, ALL & !P & !F),
        7 => Ty::app1("std::sync::Arc<{}>", t, C, D | F | E | S | Y),
        8 => Ty::app1("std::collections::BTreeMap<u8, {}>", t, F, ALL & !F & !P),
        9 => Ty::app1("({},)", t, 0, ALL),
        _ => Ty::app1("std::collections::VecDeque<{}>", t, F, ALL & !F & !P),
    }
}

/// a type that mentions another in an unusual place
pub fn deep(i: usize, t: Ty) -> Ty {
    let two = |s: &str, always| Ty::App { decl: s.into(), conc: s.into(), kids: vec![t.clone(), t.clone()], always, and: 0 };
    match i % 6 {
        0 => two("Box<dyn Fn({}, u8) -> {} + Send + Sync>", S | Y),
        1 => two("fn({}, u8) -> {}", C | D | S | Y | P | E),
        2 => Ty::app1("Box<dyn Tag<{}> + Send + Sync>", t, S | Y, 0),
        3 => Ty::app1("Box<dyn Has<Out = {}> + Send + Sync>", t, S | Y, 0),
        4 => Ty::app1("&'static {}", t, C | P, D | E),
        _ => Ty::app1("std::marker::PhantomData<{}>", t, C | D | P | F | E, S | Y),
    }
}
