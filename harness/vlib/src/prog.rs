//! Random well-typed ZoKrates programs, their rendering to source text and an independent reference semantics
//! (mathematical integers, written from the language book), against which compiled code is judged.
use crate::prng::Rng;
use num_bigint::BigUint;
use std::collections::BTreeMap;

pub fn big(x: u64) -> BigUint {
    BigUint::from(x)
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Ty {
    F,
    B,
    U(u32),
    Arr(Box<Ty>, usize),
    St(usize),
    Tup(Vec<Ty>),
    /// array whose length is a generic parameter
    ArrN(Box<Ty>, String),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V {
    F(BigUint),
    B(bool),
    U(u32, u64),
    A(Vec<V>),
}

impl V {
    pub fn flat(&self, out: &mut Vec<BigUint>) {
        match self {
            V::F(x) => out.push(x.clone()),
            V::B(b) => out.push(big(*b as u64)),
            V::U(_, x) => out.push(big(*x)),
            V::A(v) => v.iter().for_each(|x| x.flat(out)),
        }
    }
    pub fn flatten(&self) -> Vec<BigUint> {
        let mut o = vec![];
        self.flat(&mut o);
        o
    }
    pub fn u(&self) -> u64 {
        match self {
            V::U(_, x) => *x,
            _ => panic!("not a uint: {:?}", self),
        }
    }
    pub fn b(&self) -> bool {
        match self {
            V::B(x) => *x,
            _ => panic!("not a bool: {:?}", self),
        }
    }
    pub fn a(&self) -> &Vec<V> {
        match self {
            V::A(x) => x,
            _ => panic!("not an aggregate: {:?}", self),
        }
    }
    pub fn a_mut(&mut self) -> &mut Vec<V> {
        match self {
            V::A(x) => x,
            _ => panic!("not an aggregate"),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Un {
    Neg,
    Pos,
    Not,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    BAnd,
    BOr,
    BXor,
    And,
    Or,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}

impl Op {
    fn s(self) -> &'static str {
        use Op::*;
        match self {
            Add => "+",
            Sub => "-",
            Mul => "*",
            Div => "/",
            Rem => "%",
            BAnd => "&",
            BOr => "|",
            BXor => "^",
            And => "&&",
            Or => "||",
            Eq => "==",
            Ne => "!=",
            Lt => "<",
            Le => "<=",
            Gt => ">",
            Ge => ">=",
        }
    }
    fn prec(self) -> u8 {
        use Op::*;
        match self {
            Or => 2,
            And => 3,
            Eq | Ne | Lt | Le | Gt | Ge => 4,
            BOr => 5,
            BXor => 6,
            BAnd => 7,
            Add | Sub => 9,
            Mul | Div | Rem => 10,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum E {
    /// value, written without a type suffix, hexadecimal
    Lit(V, bool, bool),
    Var(String),
    Un(Un, Box<E>),
    Bin(Op, Box<E>, Box<E>),
    Pow(Box<E>, Box<E>),
    Shift(bool, Box<E>, Box<E>),
    Tern(Box<E>, Box<E>, Box<E>),
    IfE(Box<E>, Vec<S>, Box<E>, Vec<S>, Box<E>),
    Idx(Box<E>, Box<E>),
    Slice(Box<E>, Option<usize>, Option<usize>),
    ArrLit(Vec<(bool, E)>),
    ArrRep(Box<E>, Box<E>),
    StLit(usize, Vec<E>),
    Mem(Box<E>, String, usize),
    TupLit(Vec<E>),
    TupGet(Box<E>, usize),
    Call(usize, Vec<E>, Option<String>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Acc {
    Idx(E),
    Mem(String, usize),
    Tup(usize),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum S {
    Def(bool, Ty, String, E),
    Assign(String, Vec<Acc>, E),
    For(String, E, E, Vec<S>),
    Assert(E, Option<String>),
    Log(Vec<String>, Vec<(Ty, E)>),
    Return(E),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Fun {
    pub name: String,
    pub generics: Vec<String>,
    pub params: Vec<(Ty, bool, String)>,
    pub ret: Ty,
    pub body: Vec<S>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Param {
    pub ty: Ty,
    pub private: Option<bool>,
    pub mutable: bool,
    pub name: String,
}

#[derive(Clone, Debug)]
pub struct Program {
    pub structs: Vec<(String, Vec<(String, Ty)>)>,
    pub consts: Vec<(String, Ty, E)>,
    pub funs: Vec<Fun>,
    pub params: Vec<Param>,
    pub ret: Ty,
    pub body: Vec<S>,
    pub full_parens: bool,
    pub p: BigUint,
}

// ------------------------------------------------------------------ rendering

pub struct R<'a> {
    pub p: &'a Program,
    pub full: bool,
}

impl<'a> R<'a> {
    pub fn ty(&self, t: &Ty) -> String {
        fn dims(r: &R, t: &Ty) -> (String, String) {
            match t {
                Ty::Arr(i, n) => {
                    let (b, d) = dims(r, i);
                    (b, format!("[{}]{}", n, d))
                }
                Ty::ArrN(i, n) => {
                    let (b, d) = dims(r, i);
                    (b, format!("[{}]{}", n, d))
                }
                t => (r.ty(t), String::new()),
            }
        }
        match t {
            Ty::F => "field".into(),
            Ty::B => "bool".into(),
            Ty::U(w) => format!("u{}", w),
            Ty::Arr(..) | Ty::ArrN(..) => {
                let (b, d) = dims(self, t);
                format!("{}{}", b, d)
            }
            Ty::St(i) => self.p.structs[*i].0.clone(),
            Ty::Tup(ts) => {
                if ts.len() == 1 {
                    format!("({},)", self.ty(&ts[0]))
                } else {
                    format!(
                        "({})",
                        ts.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(", ")
                    )
                }
            }
        }
    }

    fn prec(e: &E) -> u8 {
        match e {
            E::Lit(..) | E::Var(_) => 14,
            E::Un(..) => 11,
            E::Bin(o, ..) => o.prec(),
            E::Pow(..) => 12,
            E::Shift(..) => 8,
            E::Tern(..) => 1,
            _ => 13,
        }
    }

    fn at(&self, e: &E, min: u8) -> String {
        let s = self.e(e);
        let pr = Self::prec(e);
        if pr < min || (self.full && pr < 13) {
            format!("({})", s)
        } else {
            s
        }
    }

    pub fn lit(&self, v: &V, bare: bool, hex: bool) -> String {
        match v {
            V::F(x) => {
                if bare {
                    format!("{}", x)
                } else {
                    format!("{}f", x)
                }
            }
            V::B(b) => format!("{}", b),
            V::U(w, x) => {
                if hex {
                    format!("0x{:0width$x}", x, width = (*w / 4) as usize)
                } else if bare {
                    format!("{}", x)
                } else if x % 2 == 0 {
                    format!("{}u{}", x, w)
                } else {
                    format!("{}_u{}", x, w)
                }
            }
            V::A(_) => unreachable!(),
        }
    }

    pub fn e(&self, e: &E) -> String {
        match e {
            E::Lit(v, bare, hex) => self.lit(v, *bare, *hex),
            E::Var(n) => n.clone(),
            E::Un(o, x) => format!(
                "{}{}",
                match o {
                    Un::Neg => "-",
                    Un::Pos => "+",
                    Un::Not => "!",
                },
                self.at(x, 12)
            ),
            E::Bin(o, a, b) => {
                let p = o.prec();
                format!("{} {} {}", self.at(a, p), o.s(), self.at(b, p + 1))
            }
            E::Pow(a, b) => {
                let base = match **a {
                    // postfix terms only
                    _ => self.at(a, 13),
                };
                let ex = match **b {
                    E::Lit(..) | E::Var(_) => self.e(b),
                    _ => format!("({})", self.e(b)),
                };
                format!("{} ** {}", base, ex)
            }
            E::Shift(l, a, b) => format!(
                "{} {} {}",
                self.at(a, 8),
                if *l { "<<" } else { ">>" },
                self.at(b, 9)
            ),
            E::Tern(c, a, b) => format!("{} ? {} : {}", self.at(c, 2), self.e(a), self.at(b, 1)),
            E::IfE(c, sa, a, sb, b) => {
                let mut o = format!("if {} {{ ", self.e(c));
                sa.iter().for_each(|s| self.s(s, &mut o, 0));
                o.push_str(&self.e(a));
                o.push_str(" } else { ");
                sb.iter().for_each(|s| self.s(s, &mut o, 0));
                o.push_str(&self.e(b));
                o.push_str(" }");
                o
            }
            E::Idx(a, i) => format!("{}[{}]", self.at(a, 13), self.e(i)),
            E::Slice(a, f, t) => format!(
                "{}[{}..{}]",
                self.at(a, 13),
                f.map(|x| x.to_string()).unwrap_or_default(),
                t.map(|x| x.to_string()).unwrap_or_default()
            ),
            E::ArrLit(xs) => format!(
                "[{}]",
                xs.iter()
                    .map(|(s, e)| if *s {
                        format!("...{}", self.e(e))
                    } else {
                        self.e(e)
                    })
                    .collect::<Vec<_>>()
                    .join(", ")
            ),
            E::ArrRep(x, n) => format!("[{}; {}]", self.e(x), self.e(n)),
            E::StLit(i, es) => format!(
                "{} {{ {} }}",
                self.p.structs[*i].0,
                self.p.structs[*i]
                    .1
                    .iter()
                    .zip(es)
                    .map(|((n, _), e)| format!("{}: {}", n, self.e(e)))
                    .collect::<Vec<_>>()
                    .join(", ")
            ),
            E::Mem(a, n, _) => format!("{}.{}", self.at(a, 13), n),
            E::TupLit(es) => {
                if es.len() == 1 {
                    format!("({},)", self.e(&es[0]))
                } else {
                    format!(
                        "({})",
                        es.iter().map(|t| self.e(t)).collect::<Vec<_>>().join(", ")
                    )
                }
            }
            E::TupGet(a, i) => format!("{}.{}", self.at(a, 13), i),
            E::Call(f, args, g) => format!(
                "{}{}({})",
                self.p.funs[*f].name,
                g.as_ref().map(|g| format!("::<{}>", g)).unwrap_or_default(),
                args.iter().map(|t| self.e(t)).collect::<Vec<_>>().join(", ")
            ),
        }
    }

    pub fn s(&self, s: &S, o: &mut String, ind: usize) {
        let pad = if ind == 0 { "".into() } else { " ".repeat(4 * ind) };
        let end = if ind == 0 { " " } else { "\n" };
        o.push_str(&pad);
        match s {
            S::Def(m, t, n, e) => {
                o.push_str(&format!(
                    "{} {}{} = {};",
                    self.ty(t),
                    if *m { "mut " } else { "" },
                    n,
                    self.e(e)
                ));
            }
            S::Assign(n, acc, e) => {
                o.push_str(n);
                for a in acc {
                    match a {
                        Acc::Idx(i) => o.push_str(&format!("[{}]", self.e(i))),
                        Acc::Mem(m, _) => o.push_str(&format!(".{}", m)),
                        Acc::Tup(i) => o.push_str(&format!(".{}", i)),
                    }
                }
                o.push_str(&format!(" = {};", self.e(e)));
            }
            S::For(n, a, b, body) => {
                o.push_str(&format!(
                    "for u32 {} in {}..{} {{{}",
                    n,
                    self.at(a, 1),
                    self.at(b, 1),
                    end
                ));
                for s in body {
                    self.s(s, o, if ind == 0 { 0 } else { ind + 1 });
                }
                o.push_str(&pad);
                o.push('}');
            }
            S::Assert(e, m) => {
                o.push_str(&match m {
                    Some(m) => format!("assert({}, \"{}\");", self.e(e), m),
                    None => format!("assert({});", self.e(e)),
                });
            }
            S::Log(parts, es) => {
                o.push_str(&format!(
                    "log(\"{}\"{}{});",
                    parts.join("{}"),
                    ", ",
                    es.iter().map(|(_, e)| self.e(e)).collect::<Vec<_>>().join(", ")
                ));
            }
            S::Return(e) => o.push_str(&format!("return {};", self.e(e))),
        }
        o.push_str(end);
    }
}

impl Program {
    pub fn render(&self) -> String {
        let r = R {
            p: self,
            full: self.full_parens,
        };
        let mut o = String::new();
        for (n, fs) in &self.structs {
            o.push_str(&format!("struct {} {{\n", n));
            for (f, t) in fs {
                o.push_str(&format!("    {} {};\n", r.ty(t), f));
            }
            o.push_str("}\n");
        }
        for (n, t, e) in &self.consts {
            o.push_str(&format!("const {} {} = {};\n", r.ty(t), n, r.e(e)));
        }
        for f in &self.funs {
            o.push_str(&format!(
                "def {}{}({}) -> {} {{\n",
                f.name,
                if f.generics.is_empty() {
                    "".into()
                } else {
                    format!("<{}>", f.generics.join(", "))
                },
                f.params
                    .iter()
                    .map(|(t, m, n)| format!("{} {}{}", r.ty(t), if *m { "mut " } else { "" }, n))
                    .collect::<Vec<_>>()
                    .join(", "),
                r.ty(&f.ret)
            ));
            f.body.iter().for_each(|s| r.s(s, &mut o, 1));
            o.push_str("}\n");
        }
        o.push_str(&format!(
            "def main({}) -> {} {{\n",
            self.params
                .iter()
                .map(|p| format!(
                    "{}{} {}{}",
                    match p.private {
                        None => "",
                        Some(true) => "private ",
                        Some(false) => "public ",
                    },
                    r.ty(&p.ty),
                    if p.mutable { "mut " } else { "" },
                    p.name
                ))
                .collect::<Vec<_>>()
                .join(", "),
            r.ty(&self.ret)
        ));
        self.body.iter().for_each(|s| r.s(s, &mut o, 1));
        o.push_str("}\n");
        o
    }
}

// ------------------------------------------------------------------ reference semantics

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Stop {
    /// execution must fail; message of the assertion responsible if it is one
    Fail(Option<String>),
    /// a panicking subexpression sits where the compiler may legitimately fold it away: no verdict
    Poison,
}

pub struct Ev<'a> {
    pub p: &'a Program,
    pub m: &'a BigUint,
    /// something legitimately allowed to fail (non-executed branch, dynamic comparison out of range) was met
    pub may_fail: bool,
    pub env: Vec<(String, V)>,
    pub steps: usize,
    pub log: String,
    /// the part of the log which main writes by itself
    pub sure_log: String,
    pub nbits: u32,
    pub depth: usize,
    pub feats: BTreeMap<&'static str, usize>,
    pub in_branch: usize,
    /// inside a call whose value may be folded away: failures give no verdict
    pub lenient: usize,
}

pub fn mask(w: u32, x: u128) -> u64 {
    (x & ((1u128 << w) - 1)) as u64
}

impl<'a> Ev<'a> {
    pub fn new(p: &'a Program) -> Self {
        Ev {
            p,
            m: &p.p,
            may_fail: false,
            env: vec![],
            steps: 0,
            log: String::new(),
            sure_log: String::new(),
            nbits: p.p.bits() as u32,
            depth: 0,
            feats: BTreeMap::new(),
            in_branch: 0,
            lenient: 0,
        }
    }

    fn feat(&mut self, f: &'static str) {
        *self.feats.entry(f).or_default() += 1;
    }

    fn panic<X>(&mut self, strict: bool) -> Result<X, Stop> {
        if strict && self.lenient == 0 {
            Err(Stop::Fail(None))
        } else {
            Err(Stop::Poison)
        }
    }

    pub fn run(&mut self, args: &[V]) -> Result<V, Stop> {
        for (n, _, e) in &self.p.consts {
            let v = self.e(e, true)?;
            self.env.push((n.clone(), v));
        }
        let nc = self.env.len();
        for (p, a) in self.p.params.iter().zip(args) {
            self.env.push((p.name.clone(), a.clone()));
        }
        let body = &self.p.body;
        let r = self.block(body)?;
        self.env.truncate(nc);
        Ok(r.expect("no return"))
    }

    fn block(&mut self, b: &'a [S]) -> Result<Option<V>, Stop> {
        for s in b {
            if let Some(v) = self.s(s)? {
                return Ok(Some(v));
            }
        }
        Ok(None)
    }

    fn s(&mut self, s: &'a S) -> Result<Option<V>, Stop> {
        self.steps += 1;
        match s {
            S::Def(_, _, n, e) => {
                let v = self.e(e, true)?;
                self.env.push((n.clone(), v));
            }
            S::Assign(n, acc, e) => {
                let v = self.e(e, true)?;
                let mut path = vec![];
                for a in acc {
                    path.push(match a {
                        Acc::Idx(i) => {
                            let c = self.is_lit(i);
                            (self.e(i, true)?.u() as usize, !c)
                        }
                        Acc::Mem(_, i) | Acc::Tup(i) => (*i, false),
                    });
                }
                if path.iter().any(|p| p.1) {
                    self.feat("dynamic-write");
                }
                let slot = self.env.iter_mut().rev().find(|x| x.0 == *n).unwrap();
                let mut cur = &mut slot.1;
                for (i, _) in path {
                    let v = cur.a_mut();
                    if i >= v.len() {
                        return Err(if self.lenient > 0 { Stop::Poison } else { Stop::Fail(None) });
                    }
                    cur = &mut v[i];
                }
                *cur = v;
            }
            S::For(n, a, b, body) => {
                let a = self.e(a, true)?.u();
                let b = self.e(b, true)?.u();
                self.feat(if b > a { "loop" } else { "empty-loop" });
                for i in a..b {
                    let l = self.env.len();
                    self.env.push((n.clone(), V::U(32, i)));
                    self.block(body)?;
                    self.env.truncate(l);
                }
            }
            S::Assert(e, m) => {
                self.feat("assert");
                if !self.e(e, true)?.b() {
                    return Err(if self.lenient > 0 { Stop::Poison } else { Stop::Fail(m.clone()) });
                }
            }
            S::Log(parts, es) => {
                let mut o = parts[0].clone();
                for ((t, e), part) in es.iter().zip(&parts[1..]) {
                    let v = self.e(e, true)?;
                    o.push_str(&self.json(t, &v));
                    o.push_str(part);
                }
                o.push('\n');
                self.log.push_str(&o);
                if self.depth == 0 && self.in_branch == 0 {
                    self.sure_log.push_str(&o);
                }
            }
            S::Return(e) => return Ok(Some(self.e(e, true)?)),
        }
        Ok(None)
    }

    /// The JSON form of a value, as the documentation of the ABI describes it.
    pub fn json(&self, t: &Ty, v: &V) -> String {
        match (t, v) {
            (_, V::F(x)) => format!("\"{}\"", x),
            (_, V::U(w, x)) => format!("\"0x{:0width$x}\"", x, width = (*w / 4) as usize),
            (_, V::B(b)) => b.to_string(),
            (Ty::Arr(t, _), V::A(v)) | (Ty::ArrN(t, _), V::A(v)) => format!(
                "[{}]",
                v.iter().map(|x| self.json(t, x)).collect::<Vec<_>>().join(",")
            ),
            (Ty::Tup(ts), V::A(v)) => format!(
                "[{}]",
                v.iter()
                    .zip(ts)
                    .map(|(x, t)| self.json(t, x))
                    .collect::<Vec<_>>()
                    .join(",")
            ),
            (Ty::St(i), V::A(v)) => format!(
                "{{{}}}",
                v.iter()
                    .zip(&self.p.structs[*i].1)
                    .map(|(x, (n, t))| format!("\"{}\":{}", n, self.json(t, x)))
                    .collect::<Vec<_>>()
                    .join(",")
            ),
            _ => unreachable!(),
        }
    }

    fn is_lit(&self, e: &E) -> bool {
        matches!(e, E::Lit(..))
    }

    fn shadow(&mut self, ss: &'a [S], e: &'a E) {
        // both branches are executed: a panic in the branch not taken may make the whole execution fail
        let l = self.env.len();
        let backup = self.env.clone();
        let log = self.log.clone();
        self.in_branch += 1;
        let r = self.block(ss).and_then(|_| self.e(e, true));
        self.in_branch -= 1;
        if r.is_err() {
            self.may_fail = true;
            self.feat("panic-in-other-branch");
        }
        self.env = backup;
        self.env.truncate(l);
        self.log = log;
    }

    fn taken(&mut self, ss: &'a [S], e: &'a E, strict: bool) -> Result<V, Stop> {
        let l = self.env.len();
        self.in_branch += 1;
        let r = self.block(ss).and_then(|_| self.e(e, strict));
        self.in_branch -= 1;
        self.env.truncate(l);
        r
    }

    pub fn e(&mut self, e: &'a E, strict: bool) -> Result<V, Stop> {
        self.steps += 1;
        Ok(match e {
            E::Lit(v, ..) => v.clone(),
            E::Var(n) => self
                .env
                .iter()
                .rev()
                .find(|x| x.0 == *n)
                .unwrap_or_else(|| panic!("unbound {}", n))
                .1
                .clone(),
            E::Un(o, x) => {
                let v = self.e(x, strict)?;
                match (o, v) {
                    (Un::Pos, v) => v,
                    (Un::Neg, V::F(x)) => V::F((self.m - x) % self.m),
                    (Un::Neg, V::U(w, x)) => V::U(w, mask(w, (1u128 << w) - x as u128)),
                    (Un::Not, V::B(b)) => V::B(!b),
                    (Un::Not, V::U(w, x)) => V::U(w, mask(w, !(x as u128))),
                    _ => unreachable!(),
                }
            }
            E::Bin(o, a, b) => {
                let absorbing = matches!(o, Op::Mul | Op::BAnd | Op::BOr | Op::And | Op::Or | Op::Div | Op::Rem | Op::Lt | Op::Le | Op::Gt | Op::Ge | Op::Eq | Op::Ne)
                    || a == b;
                let st = strict && !absorbing;
                let x = self.e(a, st)?;
                let y = self.e(b, st)?;
                self.bin(*o, x, y, strict, a, b)?
            }
            E::Pow(a, n) => {
                let x = self.e(a, false)?;
                let n = self.e(n, false)?.u();
                match x {
                    V::F(x) => V::F(x.modpow(&big(n), self.m)),
                    _ => unreachable!(),
                }
            }
            E::Shift(l, a, n) => {
                let x = self.e(a, false)?;
                let n = self.e(n, false)?.u();
                match x {
                    V::U(w, x) => V::U(
                        w,
                        if n >= w as u64 {
                            0
                        } else if *l {
                            mask(w, (x as u128) << n)
                        } else {
                            x >> n
                        },
                    ),
                    _ => unreachable!(),
                }
            }
            E::Tern(c, a, b) => {
                let c = self.e(c, false)?.b();
                let (t, n) = if c { (a, b) } else { (b, a) };
                self.shadow(&[], n);
                self.taken(&[], t, strict)?
            }
            E::IfE(c, sa, a, sb, b) => {
                let c = self.e(c, false)?.b();
                self.feat("if-block");
                let (st, t, sn, n) = if c { (sa, a, sb, b) } else { (sb, b, sa, a) };
                self.shadow(sn, n);
                self.taken(st, t, strict)?
            }
            E::Idx(a, i) => {
                let v = self.e(a, false)?;
                if !self.is_lit(i) {
                    self.feat("dynamic-read");
                }
                let i = self.e(i, false)?.u() as usize;
                let v = v.a();
                if i >= v.len() {
                    // an unused value may never be read
                    return self.panic(false);
                }
                v[i].clone()
            }
            E::Slice(a, f, t) => {
                let v = self.e(a, false)?;
                let v = v.a();
                self.feat("slice");
                V::A(v[f.unwrap_or(0)..t.unwrap_or(v.len())].to_vec())
            }
            E::ArrLit(xs) => {
                let mut o = vec![];
                for (sp, x) in xs {
                    let v = self.e(x, strict)?;
                    if *sp {
                        self.feat("spread");
                        o.extend(v.a().iter().cloned());
                    } else {
                        o.push(v);
                    }
                }
                V::A(o)
            }
            E::ArrRep(x, n) => {
                let v = self.e(x, strict)?;
                let n = self.e(n, strict)?.u() as usize;
                V::A(vec![v; n])
            }
            E::StLit(_, es) | E::TupLit(es) => {
                let mut o = vec![];
                for x in es {
                    o.push(self.e(x, strict)?);
                }
                V::A(o)
            }
            E::Mem(a, _, i) | E::TupGet(a, i) => {
                let v = self.e(a, false)?;
                v.a()[*i].clone()
            }
            E::Call(f, args, g) => {
                self.feat("call");
                let f = &self.p.funs[*f];
                let mut new = vec![];
                for a in args {
                    new.push(self.e(a, strict)?);
                }
                let nc = self.p.consts.len();
                let mut env: Vec<(String, V)> = self.env[..nc.min(self.env.len())].to_vec();
                // generics: from the argument lengths, or explicit
                for (gi, gn) in f.generics.iter().enumerate() {
                    let mut val = None;
                    for ((t, _, _), v) in f.params.iter().zip(&new) {
                        if let Ty::ArrN(_, n) = t {
                            if n == gn {
                                val = Some(v.a().len());
                            }
                        }
                    }
                    if val.is_none() {
                        val = g.as_ref().and_then(|g| g.split(", ").nth(gi).and_then(|x| x.parse().ok()));
                    }
                    env.push((gn.clone(), V::U(32, val.expect("generic") as u64)));
                }
                for ((_, _, n), v) in f.params.iter().zip(new) {
                    env.push((n.clone(), v));
                }
                let saved = std::mem::replace(&mut self.env, env);
                self.depth += 1;
                self.lenient += !strict as usize;
                let r = self.block(&f.body);
                self.lenient -= !strict as usize;
                self.depth -= 1;
                self.env = saved;
                match r? {
                    Some(v) => v,
                    None => unreachable!("function without return"),
                }
            }
        })
    }

    fn bin(&mut self, o: Op, x: V, y: V, strict: bool, ea: &E, eb: &E) -> Result<V, Stop> {
        use Op::*;
        let m = self.m;
        Ok(match (o, x, y) {
            (Eq, x, y) => V::B(x == y),
            (Ne, x, y) => V::B(x != y),
            (And, x, y) => V::B(x.b() && y.b()),
            (Or, x, y) => V::B(x.b() || y.b()),
            (Add, V::F(x), V::F(y)) => V::F((x + y) % m),
            (Sub, V::F(x), V::F(y)) => V::F((x + m - y) % m),
            (Mul, V::F(x), V::F(y)) => V::F(x * y % m),
            (Div, V::F(x), V::F(y)) => {
                if y == big(0) {
                    return self.panic(strict);
                }
                self.feat("field-div");
                V::F(x * y.modpow(&(m - big(2)), m) % m)
            }
            (Lt | Le | Gt | Ge, V::F(x), V::F(y)) => {
                if !(self.is_lit(ea) || self.is_lit(eb)) {
                    let d = if x > y { &x - &y } else { &y - &x };
                    if d.bits().max(x.bits()).max(y.bits()) as u32 > self.nbits - 2 {
                        self.may_fail = true;
                        self.feat("field-cmp-wide");
                    } else {
                        self.feat("field-cmp-dynamic");
                    }
                } else {
                    self.feat("field-cmp-const");
                }
                V::B(match o {
                    Lt => x < y,
                    Le => x <= y,
                    Gt => x > y,
                    _ => x >= y,
                })
            }
            (o, V::U(w, x), V::U(_, y)) => {
                let (a, b) = (x as u128, y as u128);
                match o {
                    Add => V::U(w, mask(w, a + b)),
                    Sub => V::U(w, mask(w, a + (1u128 << w) - b)),
                    Mul => V::U(w, mask(w, a * b)),
                    Div | Rem => {
                        if b == 0 {
                            return self.panic(strict);
                        }
                        self.feat("uint-div");
                        V::U(w, mask(w, if o == Div { a / b } else { a % b }))
                    }
                    BAnd => V::U(w, x & y),
                    BOr => V::U(w, x | y),
                    BXor => V::U(w, x ^ y),
                    Lt => V::B(x < y),
                    Le => V::B(x <= y),
                    Gt => V::B(x > y),
                    Ge => V::B(x >= y),
                    _ => unreachable!(),
                }
            }
            (o, x, y) => unreachable!("{:?} {:?} {:?}", o, x, y),
        })
    }
}

// ------------------------------------------------------------------ generation

#[derive(Clone, Debug)]
pub struct Profile {
    pub w_field: usize,
    pub w_bool: usize,
    pub w_uint: usize,
    pub composites: bool,
    pub functions: bool,
    pub loops: bool,
    pub asserts: bool,
    pub logs: bool,
    /// dynamic (run-time) array indices
    pub dyn_index: bool,
    pub conditionals: bool,
    pub division: bool,
    pub field_cmp: bool,
    pub consts: bool,
    /// weight of literals relative to variables among leaves, 1..=10
    pub lit_weight: usize,
    pub max_depth: usize,
    pub stmts: usize,
    pub widths: Vec<u32>,
}

impl Profile {
    pub fn base() -> Self {
        Profile {
            w_field: 4,
            w_bool: 2,
            w_uint: 3,
            composites: true,
            functions: true,
            loops: true,
            asserts: false,
            logs: false,
            dyn_index: true,
            conditionals: true,
            division: true,
            field_cmp: true,
            consts: true,
            lit_weight: 3,
            max_depth: 4,
            stmts: 6,
            widths: vec![8, 16, 32, 64],
        }
    }
}

#[derive(Clone)]
struct Vi {
    name: String,
    ty: Ty,
    mutable: bool,
    /// compile-time constant of type u32 with known value bound (exclusive)
    cbound: Option<usize>,
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub pf: Profile,
    pub prog: Program,
    env: Vec<Vi>,
    budget: isize,
    /// calls allowed only to functions below this index
    fun_limit: usize,
    no_call: usize,
    loop_mult: usize,
    in_const: bool,
}

const NAMES: &[&str] = &[
    "a", "b", "c", "d", "x", "y", "z", "acc", "field1", "inx", "form", "asd", "mutable", "u8x", "iff", "tmp_0", "R", "boolean",
];

impl<'r> Gen<'r> {
    pub fn program(r: &'r mut Rng, pf: &Profile, p: &BigUint) -> Program {
        let full = r.chance(1, 4);
        let mut g = Gen {
            r,
            pf: pf.clone(),
            prog: Program {
                structs: vec![],
                consts: vec![],
                funs: vec![],
                params: vec![],
                ret: Ty::F,
                body: vec![],
                full_parens: full,
                p: p.clone(),
            },
            env: vec![],
            budget: 0,
            fun_limit: 0,
            no_call: 0,
            loop_mult: 1,
            in_const: false,
        };
        g.build();
        g.prog
    }

    fn prim(&mut self) -> Ty {
        let (f, b, u) = (self.pf.w_field, self.pf.w_bool, self.pf.w_uint);
        match self.r.weighted(&[f, b, u]) {
            0 => Ty::F,
            1 => Ty::B,
            _ => Ty::U(*self.r.pick(&self.pf.widths.clone())),
        }
    }

    fn ty(&mut self, d: usize) -> Ty {
        if d == 0 || !self.pf.composites || self.r.chance(1, 2) {
            return self.prim();
        }
        match self.r.below(4) {
            0 | 1 => {
                let n = self.r.range(1, 4);
                Ty::Arr(Box::new(self.ty(d - 1)), n)
            }
            2 if !self.prog.structs.is_empty() => Ty::St(self.r.below(self.prog.structs.len())),
            _ => {
                let n = self.r.range(1, 3);
                Ty::Tup((0..n).map(|_| self.ty(d - 1)).collect())
            }
        }
    }

    pub fn size(p: &Program, t: &Ty) -> usize {
        match t {
            Ty::F | Ty::B | Ty::U(_) => 1,
            Ty::Arr(t, n) => n * Self::size(p, t),
            Ty::Tup(ts) => ts.iter().map(|t| Self::size(p, t)).sum(),
            Ty::St(i) => p.structs[*i].1.iter().map(|t| Self::size(p, &t.1)).sum(),
            Ty::ArrN(..) => 4,
        }
    }

    fn name(&mut self) -> String {
        self.r.pick(NAMES).to_string()
    }

    /// a parameter name, distinct from the others of the same function
    fn pname(&mut self, used: &[String]) -> String {
        loop {
            let n = self.name();
            if !used.contains(&n) {
                return n;
            }
        }
    }

    fn build(&mut self) {
        if self.pf.composites {
            for i in 0..self.r.below(3) {
                let n = self.r.range(1, 3);
                let fs = (0..n)
                    .map(|j| {
                        let t = self.ty(if i == 0 { 1 } else { 2 });
                        (format!("{}{}", ["m", "val", "structx"][j], j), t)
                    })
                    .collect();
                self.prog.structs.push((format!("S{}", i), fs));
            }
        }
        if self.pf.consts {
            for i in 0..self.r.below(3) {
                let t = self.ty(1);
                self.budget = 6;
                self.no_call += 1;
                let saved = self.pf.clone();
                self.pf.division = false;
                self.pf.dyn_index = false;
                self.in_const = true;
                let e = self.e(&t, 2, true);
                self.in_const = false;
                self.pf = saved;
                self.no_call -= 1;
                let n = format!("K{}", i);
                self.prog.consts.push((n.clone(), t.clone(), e));
                self.env.push(Vi {
                    name: n,
                    ty: t,
                    mutable: false,
                    cbound: None,
                });
            }
        }
        let base = self.env.clone();
        if self.pf.functions {
            for i in 0..self.r.below(4) {
                self.env = base.clone();
                let f = if self.r.chance(1, 3) {
                    self.generic_fun(i)
                } else {
                    self.fun(i)
                };
                self.prog.funs.push(f);
                self.fun_limit = self.prog.funs.len();
            }
        }
        self.env = base;
        let n = self.r.range(1, 4);
        let mut used = vec![];
        let mut total = 0;
        for _ in 0..n {
            let t = self.ty(2);
            total += Self::size(&self.prog, &t);
            if total > 14 && !used.is_empty() {
                break;
            }
            let name = self.pname(&used);
            used.push(name.clone());
            let mutable = self.r.chance(1, 4);
            let private = *self.r.pick(&[None, Some(true), Some(false)]);
            self.env.push(Vi {
                name: name.clone(),
                ty: t.clone(),
                mutable,
                cbound: None,
            });
            self.prog.params.push(Param {
                ty: t,
                private,
                mutable,
                name,
            });
        }
        let ret = loop {
            let t = self.ty(2);
            if Self::size(&self.prog, &t) <= 10 {
                break t;
            }
        };
        self.prog.ret = ret.clone();
        let n = self.r.range(1, self.pf.stmts);
        self.prog.body = self.body(n, &ret, 1);
    }

    fn body(&mut self, n: usize, ret: &Ty, d: usize) -> Vec<S> {
        let mut out = vec![];
        for _ in 0..n {
            self.stmt(&mut out, d);
        }
        self.budget = 12;
        let md = self.pf.max_depth;
        let e = self.e(ret, md, true);
        out.push(S::Return(e));
        out
    }

    fn fun(&mut self, i: usize) -> Fun {
        let np = self.r.range(1, 3);
        let mut params: Vec<(Ty, bool, String)> = vec![];
        let mut used = vec![];
        for _ in 0..np {
            let t = self.ty(1);
            let n = self.pname(&used);
            used.push(n.clone());
            let m = self.r.chance(1, 3);
            self.env.push(Vi {
                name: n.clone(),
                ty: t.clone(),
                mutable: m,
                cbound: None,
            });
            params.push((t, m, n));
        }
        let ret = self.ty(1);
        let n = self.r.below(3);
        let saved = self.pf.clone();
        self.pf.max_depth = 3;
        let body = self.body(n, &ret, 1);
        self.pf = saved;
        // overloads share a name when their parameter types differ
        let mut name = format!("f{}", self.r.below(2));
        let sig: Vec<Ty> = params.iter().map(|p| p.0.clone()).collect();
        if self.prog.funs.iter().any(|f| {
            f.name == name
                && (!f.generics.is_empty()
                    || f.params.len() == params.len()
                        && f.params.iter().zip(&sig).all(|(a, b)| &a.0 == b || true))
        }) {
            name = format!("g{}", i);
        }
        Fun {
            name,
            generics: vec![],
            params,
            ret,
            body,
        }
    }

    fn generic_fun(&mut self, i: usize) -> Fun {
        let t = if self.r.chance(3, 4) { self.prim() } else { self.ty(1) };
        let name = format!("gen{}", i);
        let md = 2;
        let var = |n: &str| E::Var(n.to_string());
        let idx = |a: &str, i: &str| E::Idx(Box::new(E::Var(a.into())), Box::new(E::Var(i.into())));
        let push = |g: &mut Self, n: &str, t: &Ty| {
            g.env.push(Vi {
                name: n.into(),
                ty: t.clone(),
                mutable: false,
                cbound: None,
            })
        };
        let arr = Ty::ArrN(Box::new(t.clone()), "N".into());
        let lit32 = |x: u64| E::Lit(V::U(32, x), true, false);
        match self.r.below(3) {
            0 => {
                // fold
                push(self, "ai", &t);
                push(self, "r", &t);
                self.budget = 8;
                let step = self.e(&t, md, true);
                Fun {
                    name,
                    generics: vec!["N".into()],
                    params: vec![(arr, false, "arr".into()), (t.clone(), false, "s".into())],
                    ret: t.clone(),
                    body: vec![
                        S::Def(true, t.clone(), "r".into(), var("s")),
                        S::For(
                            "i".into(),
                            lit32(0),
                            var("N"),
                            vec![
                                S::Def(false, t.clone(), "ai".into(), idx("arr", "i")),
                                S::Assign("r".into(), vec![], step),
                            ],
                        ),
                        S::Return(var("r")),
                    ],
                }
            }
            1 => {
                // map over two arrays
                push(self, "ai", &t);
                push(self, "bi", &t);
                push(self, "i", &Ty::U(32));
                self.budget = 8;
                let step = self.e(&t, md, true);
                Fun {
                    name,
                    generics: vec!["N".into()],
                    params: vec![(arr.clone(), true, "arr".into()), (arr.clone(), false, "brr".into())],
                    ret: arr.clone(),
                    body: vec![
                        S::For(
                            "i".into(),
                            lit32(0),
                            var("N"),
                            vec![
                                S::Def(false, t.clone(), "ai".into(), idx("arr", "i")),
                                S::Def(
                                    false,
                                    t.clone(),
                                    "bi".into(),
                                    E::Idx(
                                        Box::new(var("brr")),
                                        Box::new(E::Bin(
                                            Op::Sub,
                                            Box::new(E::Bin(Op::Sub, Box::new(var("N")), Box::new(var("i")))),
                                            Box::new(lit32(1)),
                                        )),
                                    ),
                                ),
                                S::Assign("arr".into(), vec![Acc::Idx(var("i"))], step),
                            ],
                        ),
                        S::Return(var("arr")),
                    ],
                }
            }
            _ => {
                // explicit generic: build an array of M copies
                push(self, "s", &t);
                self.budget = 8;
                let el = self.e(&t, md, true);
                Fun {
                    name,
                    generics: vec!["M".into()],
                    params: vec![(t.clone(), false, "s".into())],
                    ret: Ty::ArrN(Box::new(t), "M".into()),
                    body: vec![S::Return(E::ArrRep(Box::new(el), Box::new(var("M"))))],
                }
            }
        }
    }

    fn stmt(&mut self, out: &mut Vec<S>, d: usize) {
        self.budget = 10;
        let md = self.pf.max_depth;
        let muts: Vec<Vi> = self.visible().into_iter().filter(|v| v.mutable).collect();
        let w_assign = if muts.is_empty() { 0 } else { 5 };
        let w_loop = if self.pf.loops && d <= 2 && self.loop_mult <= 6 { 2 } else { 0 };
        let w_assert = if self.pf.asserts { 3 } else { 0 };
        let w_log = if self.pf.logs { 5 } else { 0 };
        match self.r.weighted(&[5, w_assign, w_loop, w_assert, w_log]) {
            0 => {
                let t = self.ty(2);
                let e = self.e(&t, md, true);
                let n = self.name();
                let m = self.r.chance(1, 2);
                self.env.push(Vi {
                    name: n.clone(),
                    ty: t.clone(),
                    mutable: m,
                    cbound: None,
                });
                out.push(S::Def(m, t, n, e));
            }
            1 => {
                let v = self.r.pick(&muts).clone();
                let mut acc = vec![];
                let mut t = v.ty.clone();
                loop {
                    if self.r.chance(1, 3) && !matches!(t, Ty::Arr(..)) {
                        break;
                    }
                    match t.clone() {
                        Ty::Arr(i, n) if self.r.chance(5, 6) => {
                            acc.push(Acc::Idx(self.index(n)));
                            t = *i;
                        }
                        Ty::St(s) => {
                            let k = self.r.below(self.prog.structs[s].1.len());
                            let (n, ft) = self.prog.structs[s].1[k].clone();
                            acc.push(Acc::Mem(n, k));
                            t = ft;
                        }
                        Ty::Tup(ts) => {
                            let k = self.r.below(ts.len());
                            acc.push(Acc::Tup(k));
                            t = ts[k].clone();
                        }
                        _ => break,
                    }
                }
                let e = self.e(&t, md, true);
                out.push(S::Assign(v.name, acc, e));
            }
            2 => {
                let n = self.name();
                let cv: Vec<Vi> = self.visible().into_iter().filter(|v| v.cbound.is_some()).collect();
                let hi = self.r.range(0, 4);
                let (a, b, bound, cnt) = if !cv.is_empty() && self.r.chance(1, 3) {
                    // triangular loop on an outer counter
                    let o = self.r.pick(&cv).clone();
                    (
                        E::Var(o.name.clone()),
                        E::Lit(V::U(32, hi as u64), true, false),
                        hi.max(1),
                        hi.max(1),
                    )
                } else {
                    let lo = self.r.range(0, 1);
                    (
                        E::Lit(V::U(32, lo as u64), true, false),
                        E::Lit(V::U(32, hi as u64), self.r.chance(1, 2), false),
                        hi.max(1),
                        hi.max(1),
                    )
                };
                let l = self.env.len();
                self.env.push(Vi {
                    name: n.clone(),
                    ty: Ty::U(32),
                    mutable: false,
                    cbound: Some(bound),
                });
                let lm = self.loop_mult;
                self.loop_mult *= cnt;
                let mut body = vec![];
                for _ in 0..self.r.range(1, 2) {
                    self.stmt(&mut body, d + 1);
                }
                self.loop_mult = lm;
                self.env.truncate(l);
                out.push(S::For(n, a, b, body));
            }
            3 => {
                let e = self.e(&Ty::B, md, true);
                let m = if self.r.chance(2, 3) {
                    Some(format!("msg {} #{}", out.len(), self.r.below(1000)))
                } else {
                    None
                };
                // most random conditions are false half of the time: weaken them so that programs often get past
                let e = if self.r.chance(1, 2) {
                    let o = self.e(&Ty::B, 1, true);
                    E::Bin(Op::Or, Box::new(e), Box::new(o))
                } else {
                    e
                };
                out.push(S::Assert(e, m));
            }
            _ => {
                let k = self.r.range(0, 3);
                let parts = (0..=k)
                    .map(|i| format!("{}{}", ["p", " q=", "", "[~", "]"][self.r.below(5)], i))
                    .collect();
                let es = (0..k)
                    .map(|_| {
                        let t = self.ty(2);
                        self.budget = 6;
                        let e = self.e(&t, 2, false);
                        (t, e)
                    })
                    .collect::<Vec<_>>();
                if es.is_empty() {
                    return;
                }
                out.push(S::Log(parts, es));
            }
        }
    }

    fn visible(&self) -> Vec<Vi> {
        let mut seen: Vec<&str> = vec![];
        let mut out = vec![];
        for v in self.env.iter().rev() {
            if !seen.contains(&v.name.as_str()) {
                seen.push(&v.name);
                out.push(v.clone());
            }
        }
        out
    }

    fn index(&mut self, n: usize) -> E {
        let cv: Vec<Vi> = self
            .visible()
            .into_iter()
            .filter(|v| v.cbound.map(|b| b <= n).unwrap_or(false))
            .collect();
        if !cv.is_empty() && self.r.chance(2, 3) {
            return E::Var(self.r.pick(&cv).name.clone());
        }
        if self.pf.dyn_index && self.r.chance(1, 3) {
            let e = self.e(&Ty::U(32), 1, false);
            if self.r.chance(3, 4) {
                return E::Bin(
                    Op::BAnd,
                    Box::new(e),
                    Box::new(E::Lit(V::U(32, [0, 0, 1, 1, 3][n.min(4)]), false, false)),
                );
            }
            // a literal index out of bounds is refused at compile time: keep only run-time ones
            if Self::has_runtime(&e) {
                return e;
            }
        }
        let i = self.r.below(n) as u64;
        E::Lit(V::U(32, i), self.r.chance(1, 2), false)
    }

    fn has_runtime(e: &E) -> bool {
        matches!(e, E::Var(n) if !n.starts_with('K'))
    }

    pub fn litv(r: &mut Rng, t: &Ty, p: &BigUint) -> V {
        match t {
            Ty::F => V::F(match r.below(10) {
                0 => big(0),
                1 => big(1),
                2 => p - big(1),
                3 => p - big(2),
                4 => (p - big(1)) / big(2),
                5 => {
                    let k = r.below(p.bits());
                    ((big(1) << k) + big(r.below(3) as u64) + p - big(1)) % p
                }
                6 => r.big_below(p),
                _ => big(r.below(20) as u64),
            }),
            Ty::B => V::B(r.chance(1, 2)),
            Ty::U(w) => {
                let max = mask(*w, u128::MAX);
                V::U(
                    *w,
                    match r.below(10) {
                        0 => 0,
                        1 => 1,
                        2 => max,
                        3 => max - 1,
                        4 => 1u64 << (w - 1),
                        5 => (1u64 << r.below(*w as usize)).wrapping_sub(r.below(2) as u64) & max,
                        6 | 7 => r.u64() & max,
                        _ => r.below(8) as u64,
                    },
                )
            }
            _ => unreachable!(),
        }
    }

    pub fn input(r: &mut Rng, prog: &Program, t: &Ty) -> V {
        match t {
            Ty::Arr(t, n) => V::A((0..*n).map(|_| Self::input(r, prog, t)).collect()),
            Ty::Tup(ts) => V::A(ts.iter().map(|t| Self::input(r, prog, t)).collect()),
            Ty::St(i) => V::A(prog.structs[*i].1.iter().map(|t| Self::input(r, prog, &t.1)).collect()),
            t => Self::litv(r, t, &prog.p),
        }
    }

    fn lit(&mut self, t: &Ty, bare_ok: bool) -> E {
        let v = Self::litv(self.r, t, &self.prog.p.clone());
        let bare = bare_ok && self.r.chance(1, 2);
        let hex = !bare && matches!(v, V::U(..)) && self.r.chance(1, 3);
        E::Lit(v, bare, hex)
    }

    fn b(e: E) -> Box<E> {
        Box::new(e)
    }

    /// paths from visible variables to a value of type t
    fn access(&mut self, t: &Ty) -> Option<E> {
        let vis = self.visible();
        let mut c: Vec<E> = vec![];
        for v in &vis {
            self.paths(E::Var(v.name.clone()), &v.ty.clone(), t, 3, &mut c);
        }
        if c.is_empty() {
            None
        } else {
            let i = self.r.below(c.len());
            Some(c.swap_remove(i))
        }
    }

    fn paths(&mut self, e: E, have: &Ty, want: &Ty, d: usize, c: &mut Vec<E>) {
        if have == want {
            c.push(e.clone());
        }
        if d == 0 {
            return;
        }
        match have {
            Ty::Arr(i, n) => {
                if *n > 0 {
                    let save = self.pf.dyn_index;
                    if d < 3 {
                        self.pf.dyn_index = false;
                    }
                    self.budget -= 1;
                    let ix = if self.budget < -3 {
                        E::Lit(V::U(32, self.r.below(*n) as u64), false, false)
                    } else {
                        self.index(*n)
                    };
                    self.pf.dyn_index = save;
                    self.paths(E::Idx(Self::b(e.clone()), Self::b(ix)), i, want, d - 1, c);
                }
                if let Ty::Arr(wi, wn) = want {
                    if wi == i && wn <= n {
                        let f = self.r.range(0, n - wn);
                        let to = f + wn;
                        let fo = if f == 0 && self.r.chance(1, 2) { None } else { Some(f) };
                        let too = if to == *n && self.r.chance(1, 2) { None } else { Some(to) };
                        c.push(E::Slice(Self::b(e), fo, too));
                    }
                }
            }
            Ty::Tup(ts) => {
                for (i, x) in ts.iter().enumerate() {
                    self.paths(E::TupGet(Self::b(e.clone()), i), x, want, d - 1, c);
                }
            }
            Ty::St(s) => {
                for (i, (n, x)) in self.prog.structs[*s].1.clone().iter().enumerate() {
                    self.paths(E::Mem(Self::b(e.clone()), n.clone(), i), x, want, d - 1, c);
                }
            }
            _ => {}
        }
    }

    /// an expression of type t; `bare` says that the context fixes the type of unsuffixed literals
    pub fn e(&mut self, t: &Ty, d: usize, bare: bool) -> E {
        self.budget -= 1;
        if d == 0 || self.budget <= 0 {
            return self.leaf(t, bare);
        }
        if self.r.chance(1, 6) {
            return self.leaf(t, bare);
        }
        if self.pf.conditionals && self.r.chance(1, 9) {
            let c = self.e(&Ty::B, d - 1, false);
            if self.r.chance(1, 2) {
                let a = self.e(t, d - 1, false);
                let b = self.e(t, d - 1, false);
                return E::Tern(Self::b(c), Self::b(a), Self::b(b));
            }
            let a = self.e(t, d - 1, false);
            let b = self.e(t, d - 1, false);
            return E::IfE(Self::b(c), vec![], Self::b(a), vec![], Self::b(b));
        }
        if self.no_call == 0 && self.r.chance(1, 6) {
            if let Some(e) = self.call(t, d - 1) {
                return e;
            }
        }
        match t {
            Ty::F => {
                let wd = if self.pf.division { 1 } else { 0 };
                match self.r.weighted(&[4, 4, 4, wd, 1, 2, 2]) {
                    0 => self.bin(Op::Add, t, d, bare),
                    1 => self.bin(Op::Sub, t, d, bare),
                    2 => self.bin(Op::Mul, t, d, bare),
                    3 => self.bin(Op::Div, t, d, bare),
                    4 => E::Un(Un::Pos, Self::b(self.e(t, d - 1, false))),
                    5 => E::Un(Un::Neg, Self::b(self.e(t, d - 1, false))),
                    _ => {
                        let x = self.e(t, d - 1, false);
                        let n = *self.r.pick(&[0u64, 1, 2, 2, 3, 4, 5, 7, 8, 13]);
                        let ex = E::Lit(V::U(32, n), self.r.chance(1, 2), false);
                        E::Pow(Self::b(x), Self::b(ex))
                    }
                }
            }
            Ty::U(w) => {
                let wd = if self.pf.division { 1 } else { 0 };
                match self.r.weighted(&[3, 3, 3, wd, wd, 2, 2, 2, 2, 1, 1, 2]) {
                    0 => self.bin(Op::Add, t, d, bare),
                    1 => self.bin(Op::Sub, t, d, bare),
                    2 => self.bin(Op::Mul, t, d, bare),
                    3 => self.bin(Op::Div, t, d, bare),
                    4 => self.bin(Op::Rem, t, d, bare),
                    5 => self.bin(Op::BAnd, t, d, bare),
                    // `|` is not evaluated in constant definitions, which is reported
                    6 if self.in_const => self.bin(Op::BAnd, t, d, bare),
                    6 => self.bin(Op::BOr, t, d, bare),
                    7 => self.bin(Op::BXor, t, d, bare),
                    8 => {
                        let x = self.e(t, d - 1, false);
                        let n = match self.r.below(6) {
                            0 => *w as u64,
                            1 => *w as u64 - 1,
                            2 => 0,
                            _ => self.r.below(*w as usize + 2) as u64,
                        };
                        let s = E::Lit(V::U(32, n), self.r.chance(1, 2), false);
                        E::Shift(self.r.chance(1, 2), Self::b(x), Self::b(s))
                    }
                    9 => E::Un(Un::Neg, Self::b(self.e(t, d - 1, false))),
                    10 => E::Un(Un::Pos, Self::b(self.e(t, d - 1, false))),
                    _ => E::Un(Un::Not, Self::b(self.e(t, d - 1, false))),
                }
            }
            Ty::B => match self.r.weighted(&[3, 3, 3, 4, 4]) {
                0 => self.bin(Op::And, t, d, false),
                1 => self.bin(Op::Or, t, d, false),
                2 => E::Un(Un::Not, Self::b(self.e(t, d - 1, false))),
                3 => {
                    let t = if self.r.chance(3, 4) { self.prim() } else { self.ty(2) };
                    let o = if self.r.chance(1, 2) { Op::Eq } else { Op::Ne };
                    self.bin(o, &t, d, false)
                }
                _ => {
                    let t = if self.pf.w_uint == 0 || (self.pf.field_cmp && self.pf.w_field > 0 && self.r.chance(1, 3)) {
                        Ty::F
                    } else {
                        Ty::U(*self.r.pick(&self.pf.widths.clone()))
                    };
                    if t == Ty::F && !self.pf.field_cmp {
                        return self.leaf(&Ty::B, bare);
                    }
                    let o = *self.r.pick(&[Op::Lt, Op::Le, Op::Gt, Op::Ge]);
                    if t == Ty::F && self.r.chance(1, 2) {
                        let l = self.lit(&t, false);
                        let x = self.e(&t, d - 1, false);
                        return if self.r.chance(1, 2) {
                            E::Bin(o, Self::b(l), Self::b(x))
                        } else {
                            E::Bin(o, Self::b(x), Self::b(l))
                        };
                    }
                    self.bin(o, &t, d, false)
                }
            },
            Ty::Arr(i, n) => {
                match self.r.below(4) {
                    0 if *n > 1 => {
                        // spread of a shorter array plus elements
                        let k = self.r.range(1, n - 1);
                        let sp = self.e(&Ty::Arr(i.clone(), k), d - 1, false);
                        let mut xs: Vec<(bool, E)> = (0..n - k).map(|_| (false, self.e(i, d - 1, false))).collect();
                        let at = self.r.below(xs.len() + 1);
                        xs.insert(at, (true, sp));
                        E::ArrLit(xs)
                    }
                    1 => {
                        let x = self.e(i, d - 1, false);
                        E::ArrRep(Self::b(x), Self::b(E::Lit(V::U(32, *n as u64), true, false)))
                    }
                    _ => E::ArrLit((0..*n).map(|_| (false, self.e(i, d - 1, false))).collect()),
                }
            }
            Ty::St(s) => {
                let fs = self.prog.structs[*s].1.clone();
                E::StLit(*s, fs.iter().map(|f| self.e(&f.1, d - 1, false)).collect())
            }
            Ty::Tup(ts) => E::TupLit(ts.iter().map(|t| self.e(t, d - 1, false)).collect()),
            Ty::ArrN(..) => unreachable!(),
        }
    }

    fn bin(&mut self, o: Op, t: &Ty, d: usize, _bare: bool) -> E {
        let a = self.e(t, d - 1, false);
        // an unsuffixed literal takes its type from the other operand
        let typed = !matches!(a, E::Lit(_, true, _)) && !matches!(t, Ty::B);
        let b = if typed && self.r.chance(1, 5) {
            self.leaf(t, true)
        } else {
            self.e(t, d - 1, false)
        };
        if self.r.chance(1, 4) && matches!(b, E::Lit(..)) && !matches!(b, E::Lit(_, true, _)) {
            return E::Bin(o, Self::b(b), Self::b(a));
        }
        E::Bin(o, Self::b(a), Self::b(b))
    }

    fn leaf(&mut self, t: &Ty, bare: bool) -> E {
        let lw = self.pf.lit_weight;
        if self.r.below(10) >= lw {
            if let Some(e) = self.access(t) {
                return e;
            }
        }
        match t {
            Ty::F | Ty::B | Ty::U(_) => self.lit(t, bare),
            Ty::Arr(i, n) => {
                if self.r.chance(1, 4) {
                    let x = self.leaf(i, false);
                    E::ArrRep(Self::b(x), Self::b(E::Lit(V::U(32, *n as u64), true, false)))
                } else {
                    E::ArrLit((0..*n).map(|_| (false, self.leaf(i, false))).collect())
                }
            }
            Ty::St(s) => {
                let fs = self.prog.structs[*s].1.clone();
                E::StLit(*s, fs.iter().map(|f| self.leaf(&f.1, false)).collect())
            }
            Ty::Tup(ts) => E::TupLit(ts.iter().map(|t| self.leaf(t, false)).collect()),
            Ty::ArrN(..) => unreachable!(),
        }
    }

    fn call(&mut self, t: &Ty, d: usize) -> Option<E> {
        let mut c = vec![];
        for (i, f) in self.prog.funs.iter().enumerate().take(self.fun_limit) {
            if f.generics.is_empty() {
                if f.ret == *t {
                    c.push((i, 0));
                }
            } else {
                match (&f.ret, t) {
                    (Ty::ArrN(a, _), Ty::Arr(b, n)) if a == b && *n > 0 => c.push((i, *n)),
                    (r, t) if r == t => c.push((i, self.r.range(1, 3))),
                    _ => {}
                }
            }
        }
        if c.is_empty() {
            return None;
        }
        let (i, n) = *self.r.pick(&c);
        let f = self.prog.funs[i].clone();
        self.no_call += 1;
        let args = f
            .params
            .iter()
            .map(|(t, _, _)| {
                let t = match t {
                    Ty::ArrN(t, _) => Ty::Arr(t.clone(), n),
                    t => t.clone(),
                };
                self.e(&t, d.min(2), false)
            })
            .collect();
        self.no_call -= 1;
        let g = if f.generics == vec!["M".to_string()] {
            Some(n.to_string())
        } else if !f.generics.is_empty() && self.r.chance(1, 3) {
            Some(n.to_string())
        } else {
            None
        };
        Some(E::Call(i, args, g))
    }
}
