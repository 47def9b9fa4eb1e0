//! Generates declarations to be mocked.
use crate::g::G;
use crate::ty::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    AutoTrait,
    Mock,
    AutoImpl,
    Module,
    Ffi,
    AutoTraitImpl,
}
pub const KINDS: [Kind; 6] = [Kind::AutoTrait, Kind::Mock, Kind::AutoImpl, Kind::Module, Kind::Ffi, Kind::AutoTraitImpl];

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Recv {
    None,
    Ref,
    Mut,
    Own,
    OwnMut,
    Boxed,
    MutBoxed,
    Rc,
    Arc,
    PinBox,
    RefBox,
}
impl Recv {
    pub fn consuming(self) -> bool {
        !matches!(self, Recv::None | Recv::Ref | Recv::Mut | Recv::RefBox)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RK {
    Owned,
    Ref,
    RefMut,
}

#[derive(Clone, Debug)]
pub struct Arg {
    pub name: String,
    /// as written in the declaration
    pub pat: String,
    pub decl: Ty,
    /// owned type the harness makes values of
    pub own: Ty,
    /// how a value is passed; `{}` is the owned variable
    pub pass: String,
    pub mutref: bool,
    /// Debug is visible through this argument
    pub shows: bool,
    /// short class name for evidence
    pub cls: &'static str,
}

#[derive(Clone, Debug)]
pub struct Ret {
    /// None: no return type written
    pub decl: Option<Ty>,
    pub kind: RK,
    /// what return_const / return_var take, what closures return (unless `mk` says otherwise)
    pub own: Ty,
    /// makes the closure's value from code `{}`
    pub mk: String,
    /// encodes the returned `{}`
    pub enc: String,
    /// can return_const be used
    pub konst: bool,
    pub closure_send: bool,
    /// type whose Default a missing action returns (nightly)
    pub default: bool,
    pub mutable: bool,
    pub is_async: bool,
    /// body of the original
    pub body: &'static str,
    pub cls: &'static str,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub recv: Recv,
    /// `&'a self`
    pub recv_lt: Option<String>,
    /// class parameters, then the function's own
    pub params: Vec<Param>,
    pub n_class_params: usize,
    /// own parameters that are closures, impl-like or concretized: not given to expect
    pub hidden: Vec<usize>,
    pub lifetimes: Vec<String>,
    pub args: Vec<Arg>,
    pub ret: Ret,
    pub concretize: bool,
    pub is_unsafe: bool,
    pub attrs: Vec<String>,
    pub vis: String,
    pub where_extra: Vec<String>,
    pub default_body: bool,
    /// of foreign functions
    pub abi: &'static str,
    /// None: inherent/module; Some(i): of trait i
    pub home: Option<usize>,
    /// instantiations of the own parameters
    pub n_inst: usize,
}

#[derive(Clone, Debug)]
pub struct TraitDef {
    pub name: String,
    /// generic over the class parameters
    pub generic: bool,
    pub supers: String,
    pub assoc: Vec<(String, Ty)>,
    pub consts: Vec<(String, String, String)>,
    pub is_async: bool,
    pub is_unsafe: bool,
}

#[derive(Clone, Debug)]
pub struct Unit {
    pub kind: Kind,
    pub name: String,
    pub params: Vec<Param>,
    pub n_cls: usize,
    pub traits: Vec<TraitDef>,
    pub funcs: Vec<Func>,
    pub attrs: Vec<String>,
    pub nightly: bool,
    /// foreign blocks are written `unsafe extern`
    pub uext: bool,
    /// declared by way of a macro_rules macro, some types being its arguments
    pub frag: u64,
    /// modules: some types are written as aliases from within the module
    pub aliases: u64,
    /// the last type parameter has a default: 1 the first instantiation's type,
    /// 2 Self
    pub dflt: u8,
    /// mock! only: derives Debug
    pub debug: bool,
    pub spot: Spot,
    pub twins: bool,
    /// functions take or return the mock itself
    pub self_ty: bool,
}

/// not a foreign function
pub const NO_ABI: &str = "-";

/// the ABI of a foreign function's mock: the unwinding form
pub fn mock_abi(abi: &str) -> String {
    match abi {
        "" => "C-unwind".into(),
        "Rust" | NO_ABI => "Rust".into(),
        a if a.ends_with("-unwind") => abi.into(),
        a => format!("{a}-unwind"),
    }
}

/// The feature a unit is made to show
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Spot {
    Plain,
    RefArgs,
    MutArgs,
    RefRet,
    MutRet,
    Static,
    GenMethod,
    GenRet,
    GenStatic,
    GenStruct,
    GenStructStatic,
    Closure,
    Concretize,
    Receivers,
    Async,
    Future,
    ImplRet,
    Lifetimes,
    StaticRef,
    Assoc,
    SelfTy,
    DynArgs,
    NonSend,
    ManyArgs,
    MultiTrait,
    NoArgs,
}
pub const SPOTS: &[Spot] = &[
    Spot::Plain,
    Spot::RefArgs,
    Spot::MutArgs,
    Spot::RefRet,
    Spot::MutRet,
    Spot::Static,
    Spot::GenMethod,
    Spot::GenRet,
    Spot::GenStatic,
    Spot::GenStruct,
    Spot::GenStructStatic,
    Spot::Closure,
    Spot::Concretize,
    Spot::Receivers,
    Spot::Async,
    Spot::Future,
    Spot::ImplRet,
    Spot::Lifetimes,
    Spot::StaticRef,
    Spot::Assoc,
    Spot::SelfTy,
    Spot::DynArgs,
    Spot::NonSend,
    Spot::ManyArgs,
    Spot::MultiTrait,
    Spot::NoArgs,
];

/// kinds of units that can show a feature
pub fn kinds_of(s: Spot) -> &'static [Kind] {
    use Kind::*;
    match s {
        Spot::Plain | Spot::RefArgs | Spot::MutArgs | Spot::NoArgs | Spot::ManyArgs => &[AutoTrait, Mock, AutoImpl, Module, AutoTraitImpl, Ffi],
        Spot::Static => &[AutoTrait, Mock, AutoImpl, AutoTraitImpl],
        Spot::RefRet | Spot::MutRet | Spot::Receivers => &[AutoTrait, Mock, AutoImpl, AutoTraitImpl],
        Spot::GenMethod | Spot::GenRet => &[AutoTrait, Mock, AutoImpl, AutoTraitImpl],
        Spot::GenStatic | Spot::Closure => &[AutoTrait, Mock, AutoImpl, Module],
        Spot::GenStruct | Spot::GenStructStatic => &[AutoTrait, Mock, AutoImpl],
        Spot::Concretize => &[AutoTrait, Mock, AutoImpl, Module],
        Spot::Async => &[AutoTrait, Mock],
        Spot::Future | Spot::ImplRet => &[Mock, AutoImpl, Module],
        Spot::Lifetimes => &[AutoTrait, Mock, AutoImpl],
        Spot::StaticRef => &[AutoTrait, Mock, AutoImpl, Module],
        Spot::Assoc => &[AutoTrait, Mock, AutoTraitImpl],
        Spot::SelfTy => &[AutoTrait, Mock, AutoImpl],
        Spot::DynArgs => &[AutoTrait, Mock, AutoImpl],
        Spot::NonSend => &[AutoTrait, Mock, AutoImpl, Module],
        Spot::MultiTrait => &[Mock],
    }
}

pub struct Cx<'a, 'g> {
    pub g: &'a mut G<'g>,
    pub kind: Kind,
    pub params: Vec<Param>,
    pub n_class: usize,
    /// other spellings of types to use (associated types, Self, paths)
    pub extra: Vec<Ty>,
    /// percentage of types taken from `extra`
    pub extra_pct: u32,
    /// function pointers may be made here, and so no `dyn` arguments
    pub fnptr_ok: bool,
    pub nightly: bool,
    /// the unit has class parameters, perhaps not usable here
    pub unit_generic: bool,
}

fn bounds(g: &mut G) -> (&'static str, bool, Vec<Ty>) {
    let t = |v: &[usize]| v.iter().map(|i| ATOMS[*i].clone()).collect::<Vec<_>>();
    match g.n(8) {
        0 => ("'static", false, t(&[0, 2, 12, 13, 14, 9])),
        1 => ("std::fmt::Debug + 'static", true, t(&[0, 2, 12, 8, 4])),
        2 => ("Clone + 'static", false, t(&[0, 2, 12, 13])),
        3 => ("Copy + std::fmt::Debug + 'static", true, t(&[0, 12, 9, 4])),
        4 => ("Default + PartialEq + 'static", false, t(&[0, 2, 12])),
        5 => ("Val + 'static", false, t(&[0, 2, 12, 13, 14])),
        6 => ("Send + Sync + 'static", false, t(&[0, 2, 12, 14])),
        _ => ("Clone + std::fmt::Debug + Send + 'static", true, t(&[12, 3, 2])),
    }
}

impl Cx<'_, '_> {
    fn params_of(&mut self, name: &str) -> Param {
        let (b, debug, pool) = bounds(self.g);
        let named: Vec<Ty> = self.extra.iter().filter(|t| matches!(t, Ty::Named { .. })).cloned().collect();
        let b = if !named.is_empty() && self.g.p(40) {
            let d = self.g.pick(&named).decl(&[]);
            format!("Rel<{d}> + {b}")
        } else {
            b.to_string()
        };
        let i = self.g.n(pool.len());
        let j = (i + 1 + self.g.n(pool.len() - 1)) % pool.len();
        // two types which share their name
        let twins = self.g.p(20);
        Param {
            name: name.into(),
            bounds: b.into(),
            in_where: self.g.p(25),
            debug,
            insts: if twins { vec![Ty::Atom("TwinA", ALL), Ty::Atom("TwinB", ALL)] } else { vec![pool[i].clone(), pool[j].clone()] },
        }
    }

    fn atom(&mut self) -> Ty {
        if self.kind == Kind::Ffi {
            return self.g.pick(FFI_ATOMS).clone();
        }
        if !self.extra.is_empty() && self.g.p(self.extra_pct) {
            return self.g.pick(&self.extra.clone()).clone();
        }
        if !self.params.is_empty() && self.g.p(45) {
            return Ty::Param(self.g.n(self.params.len()));
        }
        if self.g.p(if self.nightly { 14 } else { 4 }) {
            return Ty::Atom("Zst", ALL);
        }
        let n = ATOMS.len() - 1;
        ATOMS[self.g.n(n)].clone()
    }

    pub fn ty(&mut self, depth: usize) -> Ty {
        let a = self.atom();
        if depth > 0 && matches!(a, Ty::Named { .. }) && self.g.p(30) {
            // Fn objects are refused where associated types are replaced
            let nofn = matches!(self.kind, Kind::AutoTrait | Kind::AutoTraitImpl);
            let mut k = if nofn { 1 + self.g.n(5) } else { self.g.n(6) };
            if k == 1 && (!self.fnptr_ok || !self.params.is_empty() || self.unit_generic) {
                k = 2;
            }
            let d = deep(k, a);
            return if self.g.p(25) { wrap(self.g.n(11), d) } else { d };
        }
        if self.kind == Kind::Ffi || depth == 0 || !self.g.p(35) {
            return a;
        }
        let t = wrap(self.g.n(11), a);
        if depth > 1 && self.g.p(30) {
            wrap(self.g.n(11), t)
        } else {
            t
        }
    }

    pub fn arg(&mut self, i: usize, style: usize) -> Arg {
        let name = format!("a{i}");
        let mut pat = name.clone();
        let style = if self.fnptr_ok && !self.extra.is_empty() && matches!(style, 5 | 6 | 7 | 11 | 12 | 13) { 0 } else { style };
        let ref_ty = |own: &Ty, lt: &str| Ty::App {
            decl: format!("&{lt}{{}}"),
            conc: "&{}".into(),
            kids: vec![own.clone()],
            always: S | Y | C | P,
            and: D | E,
        };
        let simple = |decl: Ty, own: Ty, pass: &str, cls: &'static str, shows: bool| Arg {
            name: name.clone(),
            pat: name.clone(),
            decl,
            own,
            pass: pass.into(),
            mutref: false,
            shows,
            cls,
        };
        let ps = self.params.clone();
        if self.kind == Kind::Ffi {
            let t = self.atom();
            return simple(t.clone(), t, "{}", "own", true);
        }
        match style {
            1 => {
                let t = self.ty(1);
                let sh = t.shows(&ps);
                simple(ref_ty(&t, ""), t, "&{}", "ref", sh)
            }
            2 => {
                let t = self.ty(1);
                let sh = t.shows(&ps);
                let mut a = simple(Ty::app1("&mut {}", t.clone(), 0, D), t, "&mut {}", "mut", sh);
                a.mutref = true;
                a
            }
            3 => {
                let (d, o) = *self.g.pick(&[
                    ("&str", "String"),
                    ("&Path", "std::path::PathBuf"),
                    ("&OsStr", "std::ffi::OsString"),
                    ("&CStr", "std::ffi::CString"),
                ]);
                simple(Ty::Atom(d, D), Ty::Atom(o, ALL & !P), "&{}", "deref", true)
            }
            4 => {
                let t = self.ty(1);
                let sh = t.shows(&ps);
                simple(Ty::app1("&[{}]", t.clone(), 0, D), Ty::app1("Vec<{}>", t, F, D), "&{}", "slice", sh)
            }
            5 => {
                let t = self.ty(0);
                let sh = t.shows(&ps);
                simple(Ty::app1("Option<&{}>", t.clone(), 0, D), Ty::app1("Option<{}>", t, F, D), "{}.as_ref()", "optref", sh)
            }
            6 => {
                let o = self.g.pick(&[Ty::Atom("Pt", ALL), Ty::Atom("u32", ALL), Ty::Atom("String", ALL & !P)]).clone();
                simple(Ty::Atom("&dyn Val", 0), o, "&{}", "dyn", false)
            }
            7 => {
                let o = self.g.pick(&[Ty::Atom("Pt", ALL), Ty::Atom("u32", ALL)]).clone();
                simple(Ty::Atom("&(dyn Val + Send)", D), o, "&{} as &(dyn Val + Send)", "dyn", false)
            }
            11 => simple(Ty::Atom("Lt<'b, u32>", D), Ty::Atom("u32", ALL), "Lt(&{})", "lt", false),
            12 => {
                let t = self.ty(1);
                let sh = t.shows(&ps);
                pat = format!("mut {name}");
                let mut a = simple(t.clone(), t, "{}", "own", sh);
                if matches!(self.kind, Kind::AutoImpl | Kind::Module) {
                    a.pat = pat;
                }
                a
            }
            _ => {
                let t = self.ty(2);
                let sh = t.shows(&ps);
                simple(t.clone(), t, "{}", "own", sh)
            }
        }
    }

    pub fn ret_owned(&mut self, t: Ty, cls: &'static str) -> Ret {
        Ret {
            decl: Some(t.clone()),
            kind: RK::Owned,
            own: t,
            mk: "rt::mk({})".into(),
            enc: "rt::e(&{})".into(),
            konst: true,
            closure_send: true,
            default: true,
            mutable: false,
            is_async: false,
            body: "unimplemented!()",
            cls,
        }
    }
    pub fn unit_ret(&mut self) -> Ret {
        let mut r = self.ret_owned(Ty::Atom("()", ALL), "unit");
        r.decl = None;
        r
    }
    pub fn ret_ref(&mut self, lt: &str) -> Ret {
        let (decl, own, cls): (Ty, Ty, &'static str) = match self.g.n(7) {
            1 => (Ty::Atom("str", 0), Ty::Atom("String", ALL & !P), "ref-str"),
            2 => (Ty::Atom("Path", 0), Ty::Atom("std::path::PathBuf", ALL & !P), "ref-path"),
            3 => {
                let t = self.ty(0);
                (Ty::app1("[{}]", t.clone(), 0, 0), Ty::app1("Vec<{}>", t, F, ALL & !F & !P), "ref-slice")
            }
            4 => (
                Ty::Atom("dyn SyncVal", 0),
                Ty::Atom("Box<dyn SyncVal>", S | Y),
                "ref-dyn",
            ),
            5 => {
                let (d, o) = *self.g.pick(&[("OsStr", "std::ffi::OsString"), ("CStr", "std::ffi::CString")]);
                (Ty::Atom(d, 0), Ty::Atom(o, ALL & !P), "ref-ffistr")
            }
            _ => {
                let t = self.ty(1);
                (t.clone(), t, "ref")
            }
        };
        let mut r = self.ret_owned(own, cls);
        r.decl = Some(Ty::App { decl: format!("&{lt}{{}}"), conc: "&{}".into(), kids: vec![decl], always: 0, and: 0 });
        r.kind = RK::Ref;
        r
    }
    pub fn ret_mut(&mut self, lt: &str) -> Ret {
        let t = self.ty(1);
        let mut r = self.ret_owned(t.clone(), "refmut");
        r.decl = Some(Ty::App { decl: format!("&{lt}mut {{}}"), conc: "&mut {}".into(), kids: vec![t], always: 0, and: 0 });
        r.kind = RK::RefMut;
        r.mutable = true;
        r
    }
    pub fn ret_special(&mut self, cls: usize) -> Ret {
        let dynfn = Ty::Atom("Box<dyn Fn(u32) -> u32 + Send>", S);
        let mut r;
        match cls {
            0 => {
                r = self.ret_owned(dynfn, "impl-fn");
                r.decl = Some(Ty::Atom("impl Fn(u32) -> u32 + Send", 0));
                r.body = "|x| x";
                r.enc = "{ let f = &{}; f(0) as u64 }".into();
                r.konst = false;
            }
            1 => {
                r = self.ret_owned(Ty::Atom("u32", ALL), "impl-iter");
                r.decl = Some(Ty::Atom("impl Iterator<Item = u32>", 0));
                r.body = "std::iter::once(0)";
                r.mk = "Box::new(std::iter::once(rt::mk::<u32>({})))".into();
                r.enc = "{ let mut it = {}; rt::e(&it.next().unwrap()) }".into();
                r.konst = false;
            }
            2 => {
                r = self.ret_owned(Ty::Atom("Pt", ALL), "impl-trait");
                r.decl = Some(Ty::Atom("impl std::fmt::Debug + Send", 0));
                r.body = "5u32";
                r.mk = "Box::new(rt::mk::<rt::Pt>({}))".into();
                r.enc = "rt::pt_of(&format!(\"{:?}\", {}))".into();
                r.konst = false;
            }
            3 | 4 => {
                let t = self.ty(0);
                r = self.ret_owned(t.clone(), "impl-future");
                r.decl = Some(Ty::app1("impl std::future::Future<Output = {}>", t, 0, 0));
                r.body = "async { unimplemented!() }";
                r.mk = "Box::pin(std::future::ready(rt::mk({})))".into();
                r.enc = "rt::e(&rt::now({}))".into();
                r.konst = false;
                if cls == 4 {
                    if let Some(Ty::App { decl, .. }) = &mut r.decl {
                        decl.push_str(" + Send");
                    }
                }
            }
            5 => {
                r = self.ret_owned(Ty::Atom("u32", ALL), "impl-stream");
                r.decl = Some(Ty::Atom("impl futures::Stream<Item = u32>", 0));
                r.body = "futures::stream::iter([0])";
                r.mk = "Box::pin(futures::stream::iter([rt::mk::<u32>({})]))".into();
                r.enc = "rt::first({})".into();
                r.konst = false;
            }
            6 => {
                let t = self.ty(1);
                r = self.ret_owned(t, "async");
                r.is_async = true;
                r.enc = "rt::e(&rt::now({}))".into();
            }
            7 => {
                let t = self.ty(0);
                r = self.ret_owned(Ty::Atom("", 0), "box-future");
                r.own = Ty::app1("{}", t.clone(), 0, ALL);
                r.decl = Some(Ty::app1("std::pin::Pin<Box<dyn std::future::Future<Output = {}> + Send>>", t, 0, 0));
                r.mk = "Box::pin(std::future::ready(rt::mk({})))".into();
                r.enc = "rt::e(&rt::now({}))".into();
                r.konst = false;
            }
            _ => {
                r = self.ret_owned(dynfn.clone(), "box-dyn");
                r.decl = Some(Ty::Atom("Box<dyn Fn(u32) -> u32 + Send>", S));
                r.konst = false;
            }
        }
        r.default = false;
        r
    }
}

/// How often the generator leaves the spotlight
#[derive(Clone, Debug)]
pub struct Opts {
    pub e2024: bool,
    pub nightly: bool,
    /// number of functions
    pub max_funcs: usize,
    /// doc comments, attributes, odd visibilities, unsafe, where clauses
    pub deco: u32,
    /// add callers with the very same signatures
    pub twins: bool,
    /// types from several modules, by all kinds of paths
    pub places: bool,
    /// percentage declared by way of macro_rules
    pub frag: u32,
}

impl Cx<'_, '_> {
    fn pick_recv(&mut self, spot: Spot) -> Recv {
        use Recv::*;
        match self.kind {
            Kind::Module | Kind::Ffi => return None,
            _ => {}
        }
        match spot {
            Spot::Static | Spot::GenStatic | Spot::GenStructStatic => None,
            Spot::MutRet => Mut,
            Spot::RefRet => Ref,
            Spot::Receivers => *self.g.pick(&[Own, Boxed, RefBox, Rc, Arc, PinBox, OwnMut, MutBoxed]),
            _ => self.g.w(&[(10, Ref), (5, Mut), (3, None), (1, Own), (1, Boxed)]),
        }
    }

    pub fn func(&mut self, idx: usize, spot: Spot, home: Option<usize>, async_trait: bool, opts: &Opts) -> Func {
        let recv = {
            let mut r = self.pick_recv(spot);
            if r == Recv::OwnMut && matches!(self.kind, Kind::AutoTrait) {
                r = Recv::Own;
            }
            if r == Recv::MutBoxed && matches!(self.kind, Kind::AutoTrait) {
                r = Recv::Boxed;
            }
            r
        };
        let stat = recv == Recv::None;
        self.fnptr_ok = spot != Spot::Lifetimes && self.g.p(60);
        let mut f = Func {
            name: format!("f{idx}"),
            recv,
            recv_lt: None,
            params: self.params.clone(),
            n_class_params: self.n_class,
            hidden: vec![],
            lifetimes: vec![],
            args: vec![],
            ret: self.unit_ret(),
            concretize: false,
            is_unsafe: false,
            attrs: vec![],
            vis: String::new(),
            where_extra: vec![],
            default_body: false,
            abi: NO_ABI,
            home,
            n_inst: 1,
        };
        let is_ffi = self.kind == Kind::Ffi;
        let is_async = !is_ffi && (spot == Spot::Async || async_trait && matches!(spot, Spot::Plain | Spot::RefArgs | Spot::NoArgs) && self.g.p(60));
        let generic = !is_ffi
            && !is_async
            && !matches!(spot, Spot::Concretize | Spot::Lifetimes | Spot::Future | Spot::DynArgs)
            && (matches!(spot, Spot::GenMethod | Spot::GenRet | Spot::GenStatic) || self.g.p(12));
        if generic {
            let n = self.g.w(&[(12, 1), (5, 2), (2, 3), (1, 4), (1, 5)]);
            for i in 0..n {
                let p = self.params_of(&format!("G{idx}{}", (b'A' + i as u8) as char));
                f.params.push(p);
            }
            f.n_inst = 2;
        }
        let saved = std::mem::replace(&mut self.params, f.params.clone());
        // arguments
        let n = match spot {
            Spot::NoArgs => 0,
            Spot::ManyArgs => self.g.w(&[(3, 4), (2, 5), (2, 6), (1, 7), (1, 8), (1, 9), (1, 10), (1, 12), (1, 14)]),
            _ => {
                if self.g.p(10) {
                    0
                } else {
                    1 + self.g.n(3)
                }
            }
        };
        if spot == Spot::Concretize {
            f.concretize = true;
            let k = 1 + self.g.p(30) as usize;
            for j in 0..k {
                let nonstatic = self.g.p(50);
                f.params.push(Param {
                    name: format!("X{j}"),
                    bounds: if nonstatic { "Val".into() } else { "Val + 'static".into() },
                    in_where: self.g.p(40),
                    debug: false,
                    insts: vec![Ty::Atom("Pt", ALL), Ty::Atom("u32", ALL), Ty::Atom("String", ALL & !P)],
                });
                f.hidden.push(f.params.len() - 1);
            }
            f.n_inst = 2 + self.g.n(2);
        }
        if spot == Spot::Closure {
            f.params.push(Param {
                name: "Fx".into(),
                bounds: "Fn(u32) -> u32 + Send + 'static".into(),
                in_where: self.g.p(40),
                debug: false,
                insts: vec![Ty::Atom("Box<dyn Fn(u32) -> u32 + Send>", S)],
            });
            f.hidden.push(f.params.len() - 1);
        }
        let lt_ok = f.params.len() == f.n_class_params && !(stat && self.unit_generic);
        for i in 0..n {
            let style = match spot {
                Spot::RefArgs => *self.g.pick(&[1, 3, 4, 0]),
                Spot::MutArgs => *self.g.pick(&[2, 0, 1]),
                Spot::DynArgs => *self.g.pick(&[6, 7, 0]),
                Spot::Lifetimes => *self.g.pick(&[11, 0, 1, 5]),
                Spot::Receivers | Spot::Static => *self.g.pick(&[0, 1, 3]),
                Spot::Async => *self.g.pick(&[0, 1, 3]),
                Spot::Future | Spot::ImplRet => 0,
                _ => self.g.w(&[(8, 0), (3, 1), (2, 3), (1, 4), (1, 2), (1, 12)]),
            };
            // lifetimes do not go with generic expectations
            let style = if !lt_ok && matches!(style, 5 | 6 | 7 | 11) { style % 2 } else { style };
            let a = self.arg(i, style);
            f.args.push(a);
        }
        if spot == Spot::Concretize {
            for (j, h) in f.hidden.clone().into_iter().enumerate() {
                let t = Ty::Param(h);
                let i = f.args.len();
                let form = self.g.n(4);
                let (decl, own, pass, mutref) = match form {
                    1 => (Ty::app1("&{}", t.clone(), 0, 0), t, "&{}", false),
                    2 => (Ty::app1("&mut {}", t.clone(), 0, 0), t, "&mut {}", false),
                    3 => (Ty::app1("&[{}]", t.clone(), 0, 0), Ty::app1("Vec<{}>", t, 0, 0), "&{}", false),
                    _ => (t.clone(), t, "{}", false),
                };
                let _ = j;
                let a = Arg {
                    name: format!("a{i}"),
                    pat: format!("a{i}"),
                    decl,
                    own,
                    pass: pass.into(),
                    mutref,
                    shows: false,
                    cls: ["conc-own", "conc-ref", "conc-mut", "conc-slice"][form],
                };
                let at = self.g.n(f.args.len() + 1);
                f.args.insert(at, a);
            }
        }
        if spot == Spot::Closure {
            let h = f.hidden[0];
            let i = f.args.len();
            f.args.push(Arg {
                name: format!("a{i}"),
                pat: format!("a{i}"),
                decl: Ty::Param(h),
                own: Ty::Atom("Box<dyn Fn(u32) -> u32 + Send>", S),
                pass: "{ let c = rt::e(&{}) as u32; move |x: u32| x + c }".into(),
                mutref: false,
                shows: false,
                cls: "closure",
            });
        }
        // names follow positions
        for (i, a) in f.args.iter_mut().enumerate() {
            a.pat = a.pat.replace(&a.name, &format!("a{i}"));
            a.name = format!("a{i}");
        }
        // return
        let can_ref = recv == Recv::Ref && !f.concretize;
        let can_mut = recv == Recv::Mut && !f.concretize && f.args.iter().all(|a| a.cls != "dyn");
        let visible: Vec<usize> = (f.n_class_params..f.params.len()).filter(|i| !f.hidden.contains(i)).collect();
        self.params.truncate(f.params.len() - f.hidden.len());
        f.ret = match spot {
            _ if is_async => self.ret_special(6),
            Spot::RefRet => self.ret_ref(""),
            Spot::MutRet => self.ret_mut(""),
            Spot::GenRet => {
                let t = Ty::Param(visible[self.g.n(visible.len())]);
                let t = if self.g.p(40) { wrap(self.g.n(11), t) } else { t };
                if can_ref && self.g.p(30) {
                    let mut r = self.ret_owned(t.clone(), "ref");
                    r.decl = Some(Ty::app1("&{}", t, 0, 0));
                    r.kind = RK::Ref;
                    r
                } else {
                    self.ret_owned(t, "gen")
                }
            }
            Spot::Future => {
                let k = 3 + self.g.n(3);
                let k = if self.kind == Kind::Module && k == 5 { 5 } else { k };
                { let k = if self.g.p(30) { 7 } else { k }; self.ret_special(k) }
            }
            Spot::ImplRet => {
                let k = self.g.n(3);
                { let k = if self.g.p(25) { 8 } else { k }; self.ret_special(k) }
            }
            Spot::StaticRef => {
                if self.g.p(50) {
                    self.ret_owned(Ty::Atom("&'static str", ALL), "static-ref")
                } else {
                    self.ret_owned(Ty::Atom("&'static Pt", ALL & !F), "static-ref")
                }
            }
            Spot::Lifetimes if !stat && lt_ok => {
                let r = self.g.n(4);
                let mut ret;
                match r {
                    0 if matches!(f.recv, Recv::Ref | Recv::Mut) && f.args.iter().all(|a| a.cls != "lt" && a.cls != "optref") => {
                        // fn f(&self) -> Lt<'_, u32>
                        ret = self.ret_owned(Ty::Atom("Lt<'static, u32>", C | D | S | Y | E), "anon-lt");
                        ret.decl = Some(Ty::Atom("Lt<'_, u32>", 0));
                    }
                    1 => {
                        f.lifetimes.push("'a".into());
                        ret = self.ret_owned(Ty::Atom("Lt<'static, u32>", C | D | S | Y | E), "named-lt");
                        ret.decl = Some(Ty::Atom("Lt<'a, u32>", 0));
                        if self.g.p(50) && matches!(f.recv, Recv::Ref | Recv::Mut) {
                            f.recv_lt = Some("'a".into());
                        }
                    }
                    2 if can_ref => {
                        f.lifetimes.push("'a".into());
                        f.recv_lt = Some("'a".into());
                        ret = self.ret_owned(Ty::Atom("Option<&'static Pt>", ALL), "opt-lt");
                        ret.decl = Some(Ty::Atom("Option<&'a Pt>", 0));
                    }
                    _ => {
                        f.lifetimes.push("'a".into());
                        if let Some(a) = f.args.iter_mut().find(|a| a.cls == "ref") {
                            if let Ty::App { decl, .. } = &mut a.decl {
                                *decl = "&'a {}".into();
                            }
                        } else {
                            f.lifetimes.clear();
                        }
                        ret = self.unit_ret();
                    }
                }
                // an argument with a lifetime makes elision ambiguous only for static functions
                ret
            }
            _ => {
                let r = self.g.n(10);
                if r == 0 {
                    self.unit_ret()
                } else if r <= 2 && can_ref {
                    self.ret_ref("")
                } else if r <= 3 && can_mut {
                    self.ret_mut("")
                } else {
                    let t = if spot == Spot::NonSend && self.g.p(60) { Ty::Atom("Local", C | D) } else { self.ty(2) };
                    self.ret_owned(t, "owned")
                }
            }
        };
        if spot == Spot::NonSend {
            if let Some(a) = f.args.iter_mut().find(|a| a.cls == "own") {
                a.own = Ty::Atom("Local", C | D);
                a.decl = a.own.clone();
                a.shows = true;
            }
        }
        // borrowed arguments inside of other types need a named lifetime as
        // soon as the function has one
        if f.args.iter().any(|a| a.cls == "lt") {
            f.lifetimes.push("'b".into());
        }
        {
            for a in f.args.iter_mut().filter(|a| a.cls == "optref") {
                if !f.lifetimes.contains(&"'c".to_string()) {
                    f.lifetimes.push("'c".into());
                }
                if let Ty::App { decl, .. } = &mut a.decl {
                    *decl = "Option<&'c {}>".into();
                }
            }
        }
        let fnptr = self.g.p(12);
        if fnptr && !is_ffi && !generic && !self.unit_generic && f.lifetimes.is_empty() && matches!(spot, Spot::Plain | Spot::ManyArgs | Spot::RefRet | Spot::Static) {
            let t = Ty::Atom("fn(u32) -> u32", C | D | S | Y | P | E);
            if f.args.iter().all(|a| a.cls != "dyn" && a.cls != "lt") {
                if let Some(a) = f.args.iter_mut().find(|a| a.cls == "own") {
                    a.own = t.clone();
                    a.decl = t;
                    a.shows = true;
                    a.cls = "fnptr";
                }
            }
        }
        if is_ffi && f.ret.decl.is_some() {
            let t = self.atom();
            f.ret = self.ret_owned(t, "owned");
        }
        // decoration
        let pub_ = match self.kind {
            Kind::AutoTrait | Kind::AutoTraitImpl => "",
            Kind::Mock if home.is_some() => "",
            _ => "pub ",
        };
        f.vis = pub_.into();
        if self.g.p(opts.deco) {
            f.attrs.push("/// Documentation".into());
        }
        if self.g.p(opts.deco / 2) && f.ret.decl.is_some() && !f.ret.is_async && home.is_none() && !is_ffi && !f.ret.cls.starts_with("impl") {
            f.attrs.push("#[must_use]".into());
        }
        if self.g.p(opts.deco / 2) && matches!(self.kind, Kind::AutoTrait | Kind::Mock) && !is_async {
            f.is_unsafe = true;
        }
        if self.kind == Kind::AutoTrait && self.g.p(opts.deco / 2) && !is_async && f.ret.cls != "impl-future" {
            f.default_body = !f.recv.consuming();
        }
        if self.kind == Kind::AutoTrait && self.g.p(opts.deco / 2) && !is_async && f.recv != Recv::RefBox {
            f.where_extra.push("Self: Sized".into());
        }
        self.params = saved;
        f
    }
}

pub fn unit(id: usize, kind: Kind, spot: Spot, v: &[u32], opts: &Opts) -> Unit {
    let mut g = G::new(v);
    let mut cx = Cx { g: &mut g, kind, params: vec![], n_class: 0, extra: vec![], extra_pct: 0, fnptr_ok: false, nightly: opts.nightly, unit_generic: false };
    let genstruct = matches!(kind, Kind::AutoTrait | Kind::Mock | Kind::AutoImpl)
        && (matches!(spot, Spot::GenStruct | Spot::GenStructStatic) || cx.g.p(15))
        && spot != Spot::Async;
    let mut params = vec![];
    if genstruct {
        for i in 0..1 + cx.g.p(30) as usize {
            params.push(cx.params_of(["T", "U"][i]));
        }
    }
    let n_cls = match kind {
        Kind::Module | Kind::Ffi => 0,
        _ if genstruct => 2,
        _ => 1,
    };
    cx.params = params.clone();
    cx.n_class = params.len();
    cx.unit_generic = genstruct;
    let dflt = if !params.is_empty() && matches!(kind, Kind::AutoTrait | Kind::Mock) && cx.g.p(25) {
        if kind == Kind::AutoTrait && cx.g.p(30) { 2 } else { 1 }
    } else {
        0
    };
    let mut u = Unit {
        kind,
        name: {
            let (a, b) = match kind {
                Kind::AutoTrait => ("Tr", ["_Tr", "r#Tr", "Mock"]),
                Kind::Module => ("md", ["_md", "r#mod", "md_"]),
                Kind::Ffi => ("ffi", ["ffi"; 3]),
                _ => ("Foo", ["_Foo", "r#Foo", "Mock"]),
            };
            if cx.g.p(8) { cx.g.pick(&b).to_string() } else { a.to_string() }
        },
        params: params.clone(),
        n_cls,
        traits: vec![],
        funcs: vec![],
        attrs: vec![],
        nightly: opts.nightly,
        uext: opts.e2024 || kind == Kind::Ffi && cx.g.p(30),
        frag: if cx.g.p(opts.frag) { 1 + cx.g.n(1000) as u64 } else { 0 },
        dflt,
        aliases: if matches!(kind, Kind::Module | Kind::Ffi) && opts.frag > 0 && cx.g.p(35) { 1 + cx.g.n(1000) as u64 } else { 0 },
        debug: kind != Kind::Mock || cx.g.p(60),
        spot,
        twins: opts.twins,
        self_ty: false,
    };
    // traits
    let nt = match kind {
        Kind::AutoTrait | Kind::AutoTraitImpl => 1,
        Kind::Mock => match spot {
            Spot::MultiTrait => 2 + cx.g.n(2),
            Spot::Assoc | Spot::Async => 1,
            Spot::ImplRet | Spot::Future => 0,
            _ => cx.g.n(3),
        },
        _ => 0,
    };
    for i in 0..nt {
        let name = if kind == Kind::AutoTrait { u.name.clone() } else { format!("Tr{i}") };
        let mut t = TraitDef {
            name: name.clone(),
            generic: !params.is_empty() && (kind == Kind::AutoTrait || cx.g.p(60)),
            supers: String::new(),
            assoc: vec![],
            consts: vec![],
            is_async: spot == Spot::Async && (kind == Kind::AutoTrait || kind == Kind::Mock),
            is_unsafe: false,
        };
        if t.is_async {
            // async_trait's business
            u.frag = 0;
        }
        if spot == Spot::Assoc && i == 0 {
            for j in 0..1 + cx.g.n(2) {
                let ty = cx.ty(1);
                t.assoc.push((["Item", "Error", "Key"][j].to_string(), ty));
            }
        }
        if spot == Spot::SelfTy && i == 0 {
            t.supers = "Sized".into();
        }
        u.traits.push(t);
    }
    let mock = mock_name(&u);
    let nf = 2 + cx.g.n(opts.max_funcs.saturating_sub(1).max(1));
    for i in 0..nf {
        // every second function is in the spotlight, at least
        let s = if i == 0 || cx.g.p(55) {
            spot
        } else {
            let c: Vec<Spot> = SPOTS
                .iter()
                .copied()
                .filter(|s| kinds_of(*s).contains(&kind) && !matches!(s, Spot::Async | Spot::SelfTy | Spot::Assoc | Spot::GenStruct | Spot::GenStructStatic | Spot::MultiTrait))
                .collect();
            *cx.g.pick(&c)
        };
        let home = match kind {
            Kind::AutoTrait | Kind::AutoTraitImpl => Some(0),
            Kind::Mock if nt > 0 => {
                if spot == Spot::Assoc || spot == Spot::SelfTy || spot == Spot::Async && i == 0 {
                    Some(0)
                } else {
                    let r = cx.g.n(nt + 1);
                    if r == nt {
                        None
                    } else {
                        Some(r)
                    }
                }
            }
            _ => None,
        };
        // impl Trait in return position only in inherent methods (on stable)
        let s = if home.is_some() && matches!(s, Spot::ImplRet | Spot::Future) { Spot::Plain } else { s };
        // Vec of types special to the spot
        cx.extra.clear();
        if let (Spot::Assoc, Some(h)) = (spot, home) {
            let t = &u.traits[h];
            for (n, ty) in &t.assoc {
                let tn = trait_ref(t, &params);
                // in mock!, only the qualified form is documented
                if kind != Kind::Mock {
                    cx.extra.push(Ty::Named { decl: format!("Self::{n}"), conc: Box::new(ty.clone()) });
                }
                cx.extra.push(Ty::Named { decl: format!("<Self as {tn}>::{n}"), conc: Box::new(ty.clone()) });
            }
            cx.extra_pct = 70;
        }
        if spot == Spot::SelfTy {
            u.self_ty = true;
            cx.extra.push(Ty::Named { decl: "Self".into(), conc: Box::new(self_conc(&u)) });
            cx.extra_pct = 50;
        }
        // methods of a trait that is not generic cannot mention the parameters
        let generic_home = home.map_or(true, |h| u.traits[h].generic);
        let saved = cx.params.clone();
        if !generic_home {
            // keep indices: parameters stay, but are not used in types
            cx.params = vec![];
            cx.n_class = 0;
        }
        let at = home.map_or(false, |h| u.traits[h].is_async);
        let mut f = cx.func(i, s, home, at, opts);
        if kind == Kind::Ffi {
            // symbols are global
            f.name = format!("f{i}_{id}");
            f.abi = *cx.g.pick(&["C", "C", "", "system", "sysv64", "C-unwind", "Rust", "win64", NO_ABI]);
        }
        if kind != Kind::Ffi && cx.g.p(12) {
            // one name each for functions of different places
            let pool = [["r#type", "r#while"], ["_f", "r#in"], ["fx_0y", "r#dyn"], ["été", "r#mut"], ["f3_", "r#static"], ["f55", "r#ref"]];
            f.name = (*cx.g.pick(&pool[i % 6])).to_string() + &"_".repeat(i / 6);
        }
        if !generic_home {
            shift_params(&mut f, &params);
        }
        cx.params = saved;
        cx.n_class = params.len();
        let _ = &mock;
        u.funcs.push(f);
    }
    u
}

/// `f` was made without class parameters: insert them in front
fn shift_params(f: &mut Func, class: &[Param]) {
    let k = class.len();
    fn sh(t: &mut Ty, k: usize) {
        match t {
            Ty::Param(i) => *i += k,
            Ty::App { kids, .. } => kids.iter_mut().for_each(|t| sh(t, k)),
            // names are of the mocked type's, not the function's
            _ => {}
        }
    }
    for a in &mut f.args {
        sh(&mut a.decl, k);
        sh(&mut a.own, k);
    }
    if let Some(d) = &mut f.ret.decl {
        sh(d, k);
    }
    sh(&mut f.ret.own, k);
    for h in &mut f.hidden {
        *h += k;
    }
    let mut ps = class.to_vec();
    ps.append(&mut f.params);
    f.params = ps;
    f.n_class_params = k;
    for a in f.args.iter_mut().filter(|a| matches!(a.cls, "own" | "ref" | "mut" | "slice" | "optref")) {
        a.shows = a.own.shows(&f.params);
    }
}

/// The mock as a type
fn self_conc(u: &Unit) -> Ty {
    let kids: Vec<Ty> = (0..u.params.len()).map(Ty::Param).collect();
    let m = mock_name(u);
    let s = if kids.is_empty() { m } else { format!("{m}<{}>", vec!["{}"; kids.len()].join(", ")) };
    Ty::App { decl: s.clone(), conc: s, kids, always: if u.debug { D } else { 0 }, and: S | Y }
}

pub fn trait_ref(t: &TraitDef, params: &[Param]) -> String {
    if t.generic {
        format!("{}<{}>", t.name, params.iter().map(|p| p.name.clone()).collect::<Vec<_>>().join(", "))
    } else {
        t.name.clone()
    }
}

/// name of the generated mock, without arguments
pub fn mock_name(u: &Unit) -> String {
    match u.kind {
        Kind::Module => format!("mock_{}", u.name.trim_start_matches("r#")),
        Kind::Ffi => "mock_ffi".into(),
        _ => format!("Mock{}", u.name.trim_start_matches("r#")),
    }
}
