//! Driving the real compiler and interpreter, and an independent view of what they produced.
use crate::prog::{big, V};
use num_bigint::BigUint;
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use typed_arena::Arena;
use zokrates_ast::ir::{self, LinComb, RuntimeError, Solver, Statement, Witness};
use zokrates_ast::typed::abi::Abi;
use zokrates_common::{CompileConfig, Resolver};
use zokrates_core::compile as zc;
use zokrates_field::Field;
use zokrates_interpreter::{Error as IErr, Interpreter};

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = payload(i.payload());
        let loc = i
            .location()
            .map(|l| {
                let f = l.file();
                format!("{}", f.rsplit("/repo/").next().unwrap_or(f))
            })
            .unwrap_or_default();
        let s = format!("panic in {}: {}", loc, cut(&msg, 300));
        if std::env::var("VH_PANICS").is_ok() {
            eprintln!("{} {:?}", s, i.location());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "?".into())
}

pub fn cut(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        format!("{}…", s.chars().take(n).collect::<String>())
    }
}

/// Runs f; a panic becomes Err(description).
pub fn guard<X>(f: impl FnOnce() -> X) -> Result<X, String> {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

// ------------------------------------------------------------------ compilation

#[derive(Debug, Clone)]
pub enum CompErr {
    Rejected(String),
    Panic(String),
}

impl CompErr {
    pub fn text(&self) -> &str {
        match self {
            CompErr::Rejected(s) | CompErr::Panic(s) => s,
        }
    }
    pub fn is_panic(&self) -> bool {
        matches!(self, CompErr::Panic(_))
    }
}

pub struct Comp<'a, T> {
    pub prog: ir::Prog<'a, T>,
    pub abi: Abi,
}

/// In-memory modules, for import tests.
pub struct MapResolver(pub BTreeMap<String, String>);
impl Resolver<std::io::Error> for MapResolver {
    fn resolve(&self, cur: PathBuf, imp: PathBuf) -> Result<(String, PathBuf), std::io::Error> {
        let imp_s = imp.display().to_string();
        let key = if imp_s.starts_with("./") || imp_s.starts_with("../") {
            let mut parts: Vec<String> = cur
                .parent()
                .map(|p| p.display().to_string())
                .unwrap_or_default()
                .split('/')
                .filter(|s| !s.is_empty())
                .map(|s| s.to_string())
                .collect();
            for c in imp_s.split('/') {
                match c {
                    "." | "" => {}
                    ".." => {
                        parts.pop();
                    }
                    c => parts.push(c.to_string()),
                }
            }
            parts.join("/")
        } else {
            imp_s
        };
        let key = key.trim_end_matches(".zok").to_string();
        self.0
            .get(&key)
            .map(|s| (s.clone(), PathBuf::from(key.clone())))
            .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::NotFound, format!("no module {}", key)))
    }
}

pub fn stdlib_root() -> String {
    "/repo/zokrates_stdlib/stdlib".to_string()
}

pub fn compile<'a, T: Field>(src: &str, arena: &'a Arena<String>) -> Result<Comp<'a, T>, CompErr> {
    compile_with::<T>(src, arena, None, false)
}

pub fn compile_std<'a, T: Field>(src: &str, arena: &'a Arena<String>) -> Result<Comp<'a, T>, CompErr> {
    let root = stdlib_root();
    let r = zokrates_fs_resolver::FileSystemResolver::with_stdlib_root(&root);
    compile_with::<T>(src, arena, Some(&r), false)
}

pub fn compile_with<'a, T: Field>(
    src: &str,
    arena: &'a Arena<String>,
    resolver: Option<&dyn Resolver<std::io::Error>>,
    debug: bool,
) -> Result<Comp<'a, T>, CompErr> {
    compile_at(src, "main.zok", arena, resolver, debug)
}

/// errors are shown as "file: error"
pub fn compile_file<'a, T: Field>(path: &str, arena: &'a Arena<String>) -> Result<Comp<'a, T>, CompErr> {
    let root = stdlib_root();
    let r = zokrates_fs_resolver::FileSystemResolver::with_stdlib_root(&root);
    compile_at(&std::fs::read_to_string(path).unwrap(), path, arena, Some(&r), false)
}

fn compile_at<'a, T: Field>(
    src: &str,
    at: &str,
    arena: &'a Arena<String>,
    resolver: Option<&dyn Resolver<std::io::Error>>,
    debug: bool,
) -> Result<Comp<'a, T>, CompErr> {
    let src = src.to_string();
    let r = guard(|| {
        zc::compile::<T, std::io::Error>(
            src,
            PathBuf::from(at),
            resolver,
            CompileConfig::default().debug(debug),
            arena,
        )
        .map(|a| {
            let (p, abi) = a.into_inner();
            (p.collect(), abi)
        })
        .map_err(|e| {
            e.0.iter()
                .map(|e| if at == "main.zok" { e.value().to_string() } else { format!("{}: {}", e.file().display(), e.value()) })
                .collect::<Vec<_>>()
                .join(" | ")
        })
    });
    match r {
        Err(p) => Err(CompErr::Panic(p)),
        Ok(Err(e)) => Err(CompErr::Rejected(e)),
        Ok(Ok((prog, abi))) => Ok(Comp { prog, abi }),
    }
}

pub fn check_only<T: Field>(src: &str) -> Result<(), CompErr> {
    let s = src.to_string();
    match guard(|| {
        zc::check::<T, std::io::Error>(s, PathBuf::from("main.zok"), None, &CompileConfig::default()).map_err(|e| {
            e.0.iter()
                .map(|e| e.value().to_string())
                .collect::<Vec<_>>()
                .join(" | ")
        })
    }) {
        Err(p) => Err(CompErr::Panic(p)),
        Ok(Err(e)) => Err(CompErr::Rejected(e)),
        Ok(Ok(())) => Ok(()),
    }
}

// ------------------------------------------------------------------ execution

pub enum Exec<T> {
    Ok(Witness<T>, String),
    /// a constraint does not hold; the error carried by it
    Unsat(Option<RuntimeError>),
    /// reported in some other way
    Failed(String),
    Panic(String),
}

impl<T> Exec<T> {
    pub fn show(&self) -> String {
        match self {
            Exec::Ok(..) => "success".into(),
            Exec::Unsat(Some(e)) => format!("unsatisfied constraint: {}", e),
            Exec::Unsat(None) => "unsatisfied constraint without an error".into(),
            Exec::Failed(s) => format!("failed: {}", s),
            Exec::Panic(s) => format!("panicked: {}", s),
        }
    }
    pub fn ok(&self) -> Option<&Witness<T>> {
        match self {
            Exec::Ok(w, _) => Some(w),
            _ => None,
        }
    }
}

pub fn fe<T: Field>(x: &BigUint) -> T {
    T::try_from(conv_to(x)).expect("in field")
}

// num-bigint appears once in the tree, but keep the conversion in one place
pub fn conv_to(x: &BigUint) -> num_bigint::BigUint {
    x.clone()
}

pub fn be<T: Field>(x: &T) -> BigUint {
    x.to_biguint()
}

pub fn modulus<T: Field>() -> BigUint {
    T::max_value().to_biguint() + big(1)
}

pub fn execute<T: Field>(p: &ir::Prog<T>, inputs: &[BigUint]) -> Exec<T> {
    execute_with(p, inputs, &Interpreter::default())
}

pub fn execute_with<T: Field>(p: &ir::Prog<T>, inputs: &[BigUint], it: &Interpreter) -> Exec<T> {
    let ins: Vec<T> = inputs.iter().map(fe).collect();
    let mut log: Vec<u8> = vec![];
    let r = guard(|| it.execute_with_log_stream(&ins, p.statements.iter(), &p.arguments, &p.solvers, &mut log));
    let log = String::from_utf8_lossy(&log).to_string();
    match r {
        Err(e) => Exec::Panic(e),
        Ok(Ok(w)) => Exec::Ok(w, log),
        Ok(Err(e)) => match e {
            IErr::UnsatisfiedConstraint { error } => Exec::Unsat(error),
            e => Exec::Failed(e.to_string()),
        },
    }
}

pub fn outputs<T: Field>(w: &Witness<T>, n: usize) -> Option<Vec<BigUint>> {
    (0..n)
        .map(|i| w.0.get(&ir::Variable::public(i)).map(be))
        .collect()
}

pub fn flat_inputs(args: &[V]) -> Vec<BigUint> {
    let mut o = vec![];
    args.iter().for_each(|a| a.flat(&mut o));
    o
}

// ------------------------------------------------------------------ an independent view of the constraint system

pub type Lc = Vec<(isize, BigUint)>;

#[derive(Clone, Debug)]
pub struct Con {
    pub a: Lc,
    pub b: Lc,
    pub c: Lc,
    pub err: Option<RuntimeError>,
}

#[derive(Clone, Debug)]
pub struct Dir {
    pub kind: String,
    pub ins: Vec<(Lc, Lc)>,
    pub outs: Vec<isize>,
}

#[derive(Clone, Debug)]
pub enum St {
    Con(Con),
    Dir(Dir),
    Log(Vec<Lc>),
}

#[derive(Clone, Debug)]
pub struct Cir {
    pub p: BigUint,
    pub args: Vec<(isize, bool)>,
    pub nret: usize,
    pub stmts: Vec<St>,
}

pub fn lc<T: Field>(l: &LinComb<T>) -> Lc {
    l.value.iter().map(|(v, c)| (v.id, be(c))).collect()
}

pub fn solver_kind<T: Field>(s: &Solver<T>) -> String {
    match s {
        Solver::Zir(_) => "Zir".into(),
        Solver::Ref(_) => "Ref".into(),
        s => s.to_string(),
    }
}

pub fn cir<T: Field>(p: &ir::Prog<T>) -> Cir {
    Cir {
        p: modulus::<T>(),
        args: p.arguments.iter().map(|a| (a.id.id, a.private)).collect(),
        nret: p.return_count,
        stmts: p
            .statements
            .iter()
            .map(|s| match s {
                Statement::Constraint(s) => St::Con(Con {
                    a: lc(&s.quad.left),
                    b: lc(&s.quad.right),
                    c: lc(&s.lin),
                    err: s.error.clone(),
                }),
                Statement::Directive(d) => St::Dir(Dir {
                    kind: solver_kind(&d.solver),
                    ins: d.inputs.iter().map(|q| (lc(&q.left), lc(&q.right))).collect(),
                    outs: d.outputs.iter().map(|v| v.id).collect(),
                }),
                Statement::Log(l) => St::Log(
                    l.expressions
                        .iter()
                        .flat_map(|(_, e)| e.iter().map(lc).collect::<Vec<_>>())
                        .collect(),
                ),
                Statement::Block(_) => panic!("block statement in a finished program"),
            })
            .collect(),
    }
}

pub type Wit = BTreeMap<isize, BigUint>;

pub fn wit<T: Field>(w: &Witness<T>) -> Wit {
    w.0.iter().map(|(v, x)| (v.id, be(x))).collect()
}

pub fn eval_lc(l: &Lc, w: &Wit, p: &BigUint) -> Option<BigUint> {
    let mut acc = big(0);
    for (v, c) in l {
        acc += w.get(v)? * c;
    }
    Some(acc % p)
}

impl Cir {
    /// None when the assignment satisfies every constraint, otherwise what is wrong
    pub fn violated(&self, w: &Wit) -> Option<String> {
        if w.get(&0) != Some(&big(1)) {
            return Some("the constant-one variable is not 1".into());
        }
        for (i, s) in self.stmts.iter().enumerate() {
            if let St::Con(c) = s {
                let (a, b, cc) = (
                    eval_lc(&c.a, w, &self.p),
                    eval_lc(&c.b, w, &self.p),
                    eval_lc(&c.c, w, &self.p),
                );
                match (a, b, cc) {
                    (Some(a), Some(b), Some(cc)) => {
                        if (a * b) % &self.p != cc {
                            return Some(format!("constraint {} does not hold", i));
                        }
                    }
                    _ => return Some(format!("constraint {} mentions an unassigned variable", i)),
                }
            }
        }
        None
    }

    pub fn ncons(&self) -> usize {
        self.stmts.iter().filter(|s| matches!(s, St::Con(_))).count()
    }

    pub fn show(&self) -> String {
        let l = |l: &Lc| {
            l.iter()
                .map(|(v, c)| {
                    let c = if c > &(&self.p / big(2)) {
                        format!("-{}", &self.p - c)
                    } else {
                        format!("{}", c)
                    };
                    format!("{}*{}", c, vname(*v))
                })
                .collect::<Vec<_>>()
                .join(" + ")
        };
        self.stmts
            .iter()
            .map(|s| match s {
                St::Con(c) => format!("({}) * ({}) == {}", l(&c.a), l(&c.b), l(&c.c)),
                St::Dir(d) => format!(
                    "# {} = {}({})",
                    d.outs.iter().map(|v| vname(*v)).collect::<Vec<_>>().join(","),
                    d.kind,
                    d.ins
                        .iter()
                        .map(|(a, b)| format!("({})*({})", l(a), l(b)))
                        .collect::<Vec<_>>()
                        .join("; ")
                ),
                St::Log(_) => "log".into(),
            })
            .collect::<Vec<_>>()
            .join("\n")
    }
}

pub fn vname(v: isize) -> String {
    if v == 0 {
        "~one".into()
    } else if v < 0 {
        format!("~out_{}", -v - 1)
    } else {
        format!("_{}", v - 1)
    }
}

// ------------------------------------------------------------------ curves

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Curve {
    Bn128,
    Bls12_381,
    Bls12_377,
    Bw6_761,
    Pallas,
    Vesta,
}

pub const CURVES: &[Curve] = &[
    Curve::Bn128,
    Curve::Bls12_381,
    Curve::Bls12_377,
    Curve::Bw6_761,
    Curve::Pallas,
    Curve::Vesta,
];

#[macro_export]
macro_rules! by_curve {
    ($c:expr, $T:ident => $e:expr) => {
        match $c {
            $crate::engine::Curve::Bn128 => {
                type $T = zokrates_field::Bn128Field;
                $e
            }
            $crate::engine::Curve::Bls12_381 => {
                type $T = zokrates_field::Bls12_381Field;
                $e
            }
            $crate::engine::Curve::Bls12_377 => {
                type $T = zokrates_field::Bls12_377Field;
                $e
            }
            $crate::engine::Curve::Bw6_761 => {
                type $T = zokrates_field::Bw6_761Field;
                $e
            }
            $crate::engine::Curve::Pallas => {
                type $T = zokrates_field::PallasField;
                $e
            }
            $crate::engine::Curve::Vesta => {
                type $T = zokrates_field::VestaField;
                $e
            }
        }
    };
}

impl Curve {
    pub fn name(self) -> &'static str {
        match self {
            Curve::Bn128 => "bn128",
            Curve::Bls12_381 => "bls12_381",
            Curve::Bls12_377 => "bls12_377",
            Curve::Bw6_761 => "bw6_761",
            Curve::Pallas => "pallas",
            Curve::Vesta => "vesta",
        }
    }
    /// published moduli of the scalar fields, not taken from the code under test
    pub fn p(self) -> BigUint {
        let s = match self {
            Curve::Bn128 => "21888242871839275222246405745257275088548364400416034343698204186575808495617",
            Curve::Bls12_381 => "52435875175126190479447740508185965837690552500527637822603658699938581184513",
            Curve::Bls12_377 => "8444461749428370424248824938781546531375899335154063827935233455917409239041",
            Curve::Bw6_761 => "258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177",
            Curve::Pallas => "28948022309329048855892746252171976963363056481941647379679742748393362948097",
            Curve::Vesta => "28948022309329048855892746252171976963363056481941560715954676764349967630337",
        };
        BigUint::parse_bytes(s.as_bytes(), 10).unwrap()
    }
}

/// statements, in full, as text that does not depend on the type of the field
pub fn shown<T: Field>(p: &ir::Prog<T>, resolve: bool) -> Vec<String> {
    p.statements
        .iter()
        .map(|s| match s {
            Statement::Constraint(c) => {
                format!("con {:?} {:?} {:?} {:?}", lc(&c.quad.left), lc(&c.quad.right), lc(&c.lin), c.error)
            }
            Statement::Directive(d) => {
                let sv = match &d.solver {
                    Solver::Ref(r) if resolve => match p.solvers.get(r.index) {
                        Some(Solver::Zir(f)) => format!("{}", f),
                        _ => "missing solver".to_string(),
                    },
                    Solver::Zir(f) => format!("{}", f),
                    s => format!("{:?}", s.to_string()),
                };
                format!(
                    "dir {} {:?} {:?}",
                    sv,
                    d.inputs.iter().map(|q| (lc(&q.left), lc(&q.right))).collect::<Vec<_>>(),
                    d.outputs.iter().map(|v| v.id).collect::<Vec<_>>()
                )
            }
            Statement::Log(l) => format!(
                "log {:?} {:?}",
                l.format_string,
                l.expressions
                    .iter()
                    .map(|(t, e)| (t.to_string(), e.iter().map(lc).collect::<Vec<_>>()))
                    .collect::<Vec<_>>()
            ),
            Statement::Block(_) => "block".into(),
        })
        .collect()
}

/// the outcome of an execution as comparable text
pub fn outcome<T: Field>(p: &ir::Prog<T>, ins: &[BigUint]) -> String {
    match execute(p, ins) {
        Exec::Ok(w, l) => format!("ok {:?} log {:?}", wit(&w), l),
        e => e.show(),
    }
}

