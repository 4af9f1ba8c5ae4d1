//! S04: what assembly blocks compile to, by enumerating every assignment over small prime fields
use super::files::any_curve;
use crate::dynf::{self, D};
use crate::engine::*;
use crate::prng::Rng;
use crate::run::*;
use num_bigint::BigUint;
use num_traits::{ToPrimitive, Zero};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use typed_arena::Arena;

#[derive(Clone, Debug)]
enum E {
    K(u64),
    /// a scalar
    X(usize),
    /// the element of an array at the loop counter
    At(usize),
    Add(Box<E>, Box<E>),
    Sub(Box<E>, Box<E>),
    Mul(Box<E>, Box<E>),
    Div(Box<E>, Box<E>),
    Neg(Box<E>),
    Pow(Box<E>, u32),
    If(Box<C>, Box<E>, Box<E>),
}

#[derive(Clone, Debug)]
enum C {
    Eq(E, E),
    Not(Box<C>),
    And(Box<C>, Box<C>),
    Or(Box<C>, Box<C>),
}

#[derive(Clone, Debug)]
enum S {
    /// x <-- e
    Hint(E, E),
    /// whole array <-- [..]
    Hints(usize, usize, Vec<E>),
    /// x <== e
    Def(E, E),
    /// a === b
    Con(E, E),
}

#[derive(Clone, Debug)]
enum T {
    Asm(Vec<S>),
    /// a loop over the elements of an array
    Loop(usize, usize, Vec<S>),
    /// x = e
    Set(E, E),
    /// x = f_i(e..)
    Call(E, usize, Vec<E>),
    Assert(E, E),
}

/// scalars: parameters first
#[derive(Clone, Debug)]
struct F {
    params: usize,
    /// name of each scalar
    names: Vec<String>,
    /// declarations: (text, scalars, initial values)
    decls: Vec<(String, Vec<(usize, E)>)>,
    arrays: Vec<(usize, usize, String)>,
    body: Vec<T>,
    ret: Vec<E>,
}

struct P {
    funcs: Vec<F>,
    main: F,
}

fn bx(e: E) -> Box<E> {
    Box::new(e)
}

impl E {
    fn show(&self, f: &F) -> String {
        match self {
            E::K(n) => n.to_string(),
            E::X(i) => f.names[*i].clone(),
            E::At(b) => format!("{}[i]", f.arrays.iter().find(|a| a.0 == *b).unwrap().2),
            E::Add(a, b) => format!("({} + {})", a.show(f), b.show(f)),
            E::Sub(a, b) => format!("({} - {})", a.show(f), b.show(f)),
            E::Mul(a, b) => format!("{} * {}", a.show(f), b.show(f)),
            E::Div(a, b) => format!("(({}) / ({}))", a.show(f), b.show(f)),
            E::Neg(a) => format!("(-({}))", a.show(f)),
            E::Pow(a, n) => format!("(({}) ** {})", a.show(f), n),
            E::If(c, a, b) => format!("({} ? {} : {})", c.show(f), a.show(f), b.show(f)),
        }
    }
    fn mentions(&self, x: &E) -> bool {
        match (self, x) {
            (E::X(i), E::X(j)) => i == j,
            (E::At(i), E::At(j)) => i == j,
            (E::X(_), _) | (E::At(_), _) | (E::K(_), _) => false,
            (E::Add(a, b), _) | (E::Sub(a, b), _) | (E::Mul(a, b), _) | (E::Div(a, b), _) => a.mentions(x) || b.mentions(x),
            (E::Neg(a), _) | (E::Pow(a, _), _) => a.mentions(x),
            (E::If(..), _) => true,
        }
    }
}

impl C {
    fn show(&self, f: &F) -> String {
        match self {
            C::Eq(a, b) => {
                let b = b.show(f);
                // two untyped numbers are not comparable
                let a = a.show(f);
                let number = |s: &str| !s.bytes().any(|c| c.is_ascii_lowercase());
                if number(&a) && number(&b) {
                    format!("{} == (0f + {})", a, b)
                } else {
                    format!("{} == {}", a, b)
                }
            }
            C::Not(c) => format!("!({})", c.show(f)),
            C::And(a, b) => format!("({}) && ({})", a.show(f), b.show(f)),
            C::Or(a, b) => format!("({}) || ({})", a.show(f), b.show(f)),
        }
    }
}

#[derive(Debug)]
enum Stop {
    /// division by zero while computing the witness
    Div,
    /// an unsatisfied constraint or assertion
    Unsat,
}

/// where the values of unconstrained assignments come from
enum Mode<'a> {
    Honest,
    Given(&'a [BigUint], usize),
    Count(usize),
}

struct Env<'a, 'b> {
    p: &'a BigUint,
    mode: &'a mut Mode<'b>,
    prog: &'a P,
}

impl Env<'_, '_> {
    fn e(&self, e: &E, v: &[BigUint], i: usize) -> Result<BigUint, Stop> {
        let p = self.p;
        Ok(match e {
            E::K(n) => BigUint::from(*n) % p,
            E::X(k) => v[*k].clone(),
            E::At(b) => v[*b + i].clone(),
            E::Add(a, b) => (self.e(a, v, i)? + self.e(b, v, i)?) % p,
            E::Sub(a, b) => (self.e(a, v, i)? + p - self.e(b, v, i)?) % p,
            E::Mul(a, b) => (self.e(a, v, i)? * self.e(b, v, i)?) % p,
            E::Div(a, b) => {
                let (a, b) = (self.e(a, v, i)?, self.e(b, v, i)?);
                if b.is_zero() {
                    return Err(Stop::Div);
                }
                a * b.modpow(&(p - 2u32), p) % p
            }
            E::Neg(a) => (p - self.e(a, v, i)?) % p,
            E::Pow(a, n) => self.e(a, v, i)?.modpow(&BigUint::from(*n), p),
            E::If(c, a, b) => {
                if self.c(c, v, i)? {
                    self.e(a, v, i)?
                } else {
                    self.e(b, v, i)?
                }
            }
        })
    }
    fn c(&self, c: &C, v: &[BigUint], i: usize) -> Result<bool, Stop> {
        Ok(match c {
            C::Eq(a, b) => self.e(a, v, i)? == self.e(b, v, i)?,
            C::Not(c) => !self.c(c, v, i)?,
            C::And(a, b) => self.c(a, v, i)? && self.c(b, v, i)?,
            C::Or(a, b) => self.c(a, v, i)? || self.c(b, v, i)?,
        })
    }
    fn at(x: &E, i: usize) -> usize {
        match x {
            E::X(k) => *k,
            E::At(b) => b + i,
            _ => unreachable!(),
        }
    }
    fn hint(&mut self, e: &E, v: &[BigUint], i: usize) -> Result<BigUint, Stop> {
        match self.mode {
            Mode::Honest => self.e(e, v, i),
            Mode::Given(g, n) => {
                *n += 1;
                Ok(g[*n - 1].clone())
            }
            Mode::Count(n) => {
                *n += 1;
                Ok(BigUint::zero())
            }
        }
    }
    fn counting(&self) -> bool {
        matches!(self.mode, Mode::Count(_))
    }
    fn asm(&mut self, s: &[S], v: &mut [BigUint], i: usize) -> Result<(), Stop> {
        for s in s {
            match s {
                S::Hint(x, e) => v[Self::at(x, i)] = self.hint(e, v, i)?,
                S::Hints(b, _, es) => {
                    let mut n = vec![];
                    for e in es {
                        n.push(self.hint(e, v, i)?);
                    }
                    for (k, x) in n.into_iter().enumerate() {
                        v[b + k] = x;
                    }
                }
                // the variable does not occur in the expression
                S::Def(x, e) => v[Self::at(x, i)] = self.e(e, v, i)?,
                S::Con(a, b) => {
                    if self.e(a, v, i)? != self.e(b, v, i)? && !self.counting() {
                        return Err(Stop::Unsat);
                    }
                }
            }
        }
        Ok(())
    }
    fn run(&mut self, f: &F, args: Vec<BigUint>) -> Result<Vec<BigUint>, Stop> {
        let mut v = args;
        v.resize(f.names.len(), BigUint::zero());
        for (_, d) in &f.decls {
            for (i, e) in d {
                v[*i] = self.e(e, &v, 0)?;
            }
        }
        for t in &f.body {
            match t {
                T::Asm(s) => self.asm(s, &mut v, 0)?,
                T::Loop(_, n, s) => {
                    for i in 0..*n {
                        self.asm(s, &mut v, i)?;
                    }
                }
                T::Set(x, e) => v[Self::at(x, 0)] = self.e(e, &v, 0)?,
                T::Call(x, k, es) => {
                    let a = es.iter().map(|e| self.e(e, &v, 0)).collect::<Result<Vec<_>, _>>()?;
                    let prog = self.prog;
                    v[Self::at(x, 0)] = self.run(&prog.funcs[*k], a)?.remove(0);
                }
                T::Assert(a, b) => {
                    if self.e(a, &v, 0)? != self.e(b, &v, 0)? && !self.counting() {
                        return Err(Stop::Unsat);
                    }
                }
            }
        }
        f.ret.iter().map(|e| self.e(e, &v, 0)).collect()
    }
}

// ------------------------------------------------------------------ generation

struct G<'a> {
    r: &'a mut Rng,
    p: u64,
}

impl G<'_> {
    fn k(&mut self) -> E {
        E::K(match self.r.below(6) {
            0 => 0,
            1 | 2 => 1,
            3 => 2,
            4 => self.p - 1,
            _ => self.r.below(self.p as usize) as u64,
        })
    }
    fn leaf(&mut self, vars: &[E]) -> E {
        if vars.is_empty() || self.r.chance(1, 6) {
            self.k()
        } else {
            self.r.pick(vars).clone()
        }
    }
    fn lin(&mut self, vars: &[E], d: usize) -> E {
        if d == 0 || self.r.chance(1, 3) {
            return self.leaf(vars);
        }
        match self.r.below(5) {
            0 | 1 => E::Add(bx(self.lin(vars, d - 1)), bx(self.lin(vars, d - 1))),
            2 => E::Sub(bx(self.lin(vars, d - 1)), bx(self.lin(vars, d - 1))),
            3 => E::Mul(bx(self.k()), bx(self.leaf(vars))),
            _ => E::Mul(bx(self.leaf(vars)), bx(self.k())),
        }
    }
    /// a product of two linear terms, and perhaps more linear terms
    fn quad(&mut self, vars: &[E]) -> E {
        let q = E::Mul(bx(self.lin(vars, 1)), bx(self.lin(vars, 1)));
        match self.r.below(7) {
            0 => E::Add(bx(q), bx(self.lin(vars, 1))),
            1 => E::Sub(bx(self.lin(vars, 1)), bx(q)),
            2 => E::Neg(bx(q)),
            3 => self.lin(vars, 2),
            4 => {
                // with a common factor
                let x = self.leaf(vars);
                E::Add(bx(E::Mul(bx(x.clone()), bx(self.leaf(vars)))), bx(E::Mul(bx(self.leaf(vars)), bx(x))))
            }
            _ => q,
        }
    }
    fn any(&mut self, vars: &[E], d: usize) -> E {
        if d == 0 || self.r.chance(1, 4) {
            return self.leaf(vars);
        }
        match self.r.below(10) {
            0 | 1 => E::Add(bx(self.any(vars, d - 1)), bx(self.any(vars, d - 1))),
            2 => E::Sub(bx(self.any(vars, d - 1)), bx(self.any(vars, d - 1))),
            3 | 4 => E::Mul(bx(self.any(vars, d - 1)), bx(self.any(vars, d - 1))),
            5 => E::Pow(bx(self.any(vars, d - 1)), self.r.below(4) as u32),
            6 => E::Neg(bx(self.any(vars, d - 1))),
            7 => {
                // an inverse
                let x = self.any(vars, d - 1);
                E::If(Box::new(C::Eq(x.clone(), E::K(0))), bx(self.leaf(vars)), bx(E::Div(bx(self.leaf(vars)), bx(x))))
            }
            8 => E::If(Box::new(self.cond(vars, d - 1)), bx(self.any(vars, d - 1)), bx(self.any(vars, d - 1))),
            _ => E::Div(bx(self.any(vars, d - 1)), bx(self.leaf(vars))),
        }
    }
    fn cond(&mut self, vars: &[E], d: usize) -> C {
        match self.r.below(if d == 0 { 2 } else { 5 }) {
            0 | 1 => C::Eq(self.leaf(vars), self.leaf(vars)),
            2 => C::Not(Box::new(self.cond(vars, d - 1))),
            3 => C::And(Box::new(self.cond(vars, d - 1)), Box::new(self.cond(vars, d - 1))),
            _ => C::Or(Box::new(self.cond(vars, d - 1)), Box::new(self.cond(vars, d - 1))),
        }
    }

    /// a group of assembly statements which belong together
    fn idiom(&mut self, targets: &[E], vars: &[E], o: &mut Vec<S>) {
        let x = self.r.pick(targets).clone();
        let y = self.leaf(vars);
        let m = |a: &E, b: &E| E::Mul(bx(a.clone()), bx(b.clone()));
        match self.r.below(9) {
            0 => {
                o.push(S::Hint(x.clone(), self.any(vars, 2)));
                if self.r.chance(2, 3) {
                    o.push(S::Con(m(&x, &E::Sub(bx(x.clone()), bx(E::K(1)))), E::K(0)));
                }
            }
            1 => {
                // division
                let (a, b) = (self.leaf(vars), self.leaf(vars));
                if b.mentions(&x) || a.mentions(&x) {
                    return;
                }
                o.push(S::Hint(x.clone(), E::If(Box::new(C::Eq(b.clone(), E::K(0))), bx(E::K(0)), bx(E::Div(bx(a.clone()), bx(b.clone()))))));
                o.push(if self.r.chance(1, 2) { S::Con(a, m(&x, &b)) } else { S::Con(m(&b, &x), a) });
            }
            2 => {
                // is y zero
                let z = self.r.pick(targets).clone();
                if z.mentions(&x) || y.mentions(&x) || y.mentions(&z) {
                    return;
                }
                o.push(S::Hint(x.clone(), E::If(Box::new(C::Eq(y.clone(), E::K(0))), bx(E::K(0)), bx(E::Div(bx(E::K(1)), bx(y.clone()))))));
                o.push(S::Def(z.clone(), E::Sub(bx(E::K(1)), bx(m(&y, &x)))));
                o.push(S::Con(m(&y, &z), E::K(0)));
            }
            3 | 4 => {
                let e = self.quad(vars);
                if !e.mentions(&x) {
                    o.push(S::Def(x, e));
                }
            }
            5 => {
                // the value is fixed by a linear constraint, some time later
                let e = self.lin(vars, 2);
                if e.mentions(&x) {
                    return;
                }
                o.push(S::Hint(x.clone(), e.clone()));
                let z = self.r.pick(targets).clone();
                let q = self.quad(vars);
                if self.r.chance(1, 2) && !z.mentions(&x) && !e.mentions(&z) && !q.mentions(&z) {
                    o.push(S::Def(z, q));
                }
                o.push(if self.r.chance(1, 2) { S::Con(e, x) } else { S::Con(x, e) });
            }
            6 => o.push(S::Con(self.lin(vars, 1), self.quad(vars))),
            7 => o.push(S::Con(self.quad(vars), self.lin(vars, 1))),
            _ => o.push(S::Hint(x, self.any(vars, 3))),
        }
    }

    fn func(&mut self, params: usize, funcs: usize, main: bool, fparams: &[usize], id: usize) -> F {
        let mut f = F { params, names: vec![], decls: vec![], arrays: vec![], body: vec![], ret: vec![] };
        for i in 0..params {
            f.names.push(format!("{}{}", if main { "a" } else { "q" }, i));
        }
        let mut vars: Vec<E> = (0..params).map(E::X).collect();
        let mut targets = vec![];
        let n = self.r.range(1, 3);
        for d in 0..n {
            let init = |g: &mut Self, vars: &[E]| if g.r.chance(1, 2) { g.k() } else { g.lin(vars, 1) };
            let b = f.names.len();
            match self.r.below(if main { 5 } else { 3 }) {
                0 | 1 | 2 => {
                    let e = init(self, &vars);
                    let t = format!("field mut x{} = {};", d, e.show(&f));
                    f.names.push(format!("x{}", d));
                    f.decls.push((t, vec![(b, e)]));
                    targets.push(E::X(b));
                }
                3 => {
                    let (e, g) = (init(self, &vars), init(self, &vars));
                    let t = format!("field[2] mut v{} = [{}, {}];", d, e.show(&f), g.show(&f));
                    for k in 0..2 {
                        f.names.push(format!("v{}[{}]", d, k));
                        targets.push(E::X(b + k));
                    }
                    f.decls.push((t, vec![(b, e), (b + 1, g)]));
                    f.arrays.push((b, 2, format!("v{}", d)));
                }
                _ => {
                    let (e, g) = (init(self, &vars), init(self, &vars));
                    let t = format!("Zq mut s{} = Zq {{ f: {}, g: {} }};", d, e.show(&f), g.show(&f));
                    f.names.push(format!("s{}.f", d));
                    f.names.push(format!("s{}.g", d));
                    targets.push(E::X(b));
                    targets.push(E::X(b + 1));
                    f.decls.push((t, vec![(b, e), (b + 1, g)]));
                }
            }
            vars = (0..f.names.len()).map(E::X).collect();
        }
        for _ in 0..self.r.range(1, if main { 4 } else { 2 }) {
            match self.r.below(9) {
                0 | 1 | 2 | 3 | 4 => {
                    let mut o = vec![];
                    for _ in 0..self.r.range(1, 3) {
                        if !f.arrays.is_empty() && self.r.chance(1, 6) {
                            let a = self.r.pick(&f.arrays).clone();
                            let es = (0..a.1).map(|_| self.any(&vars, 2)).collect();
                            o.push(S::Hints(a.0, a.1, es));
                        } else {
                            self.idiom(&targets, &vars, &mut o);
                        }
                    }
                    if !o.is_empty() {
                        f.body.push(T::Asm(o));
                    }
                }
                5 if !f.arrays.is_empty() => {
                    let a = self.r.pick(&f.arrays).clone();
                    let mut vs: Vec<E> = vars.iter().filter(|v| !matches!(v, E::X(k) if (a.0..a.0 + a.1).contains(k))).cloned().collect();
                    vs.push(E::At(a.0));
                    let mut o = vec![];
                    self.idiom(&[E::At(a.0)], &vs, &mut o);
                    if !o.is_empty() {
                        f.body.push(T::Loop(a.0, a.1, o));
                    }
                }
                6 if funcs > 0 => {
                    let k = self.r.below(funcs);
                    let es = (0..fparams[k]).map(|_| self.lin(&vars, 1)).collect();
                    f.body.push(T::Call(self.r.pick(&targets).clone(), k, es));
                }
                7 => f.body.push(T::Assert(self.quad(&vars), self.lin(&vars, 1))),
                _ => f.body.push(T::Set(self.r.pick(&targets).clone(), self.quad(&vars))),
            }
        }
        let _ = id;
        f.ret = if main {
            let mut v: Vec<E> = targets.clone();
            if self.r.chance(1, 3) && v.len() > 1 {
                v.remove(self.r.below(v.len()));
            }
            v
        } else {
            vec![self.quad(&vars)]
        };
        f
    }
}

fn render(p: &P) -> String {
    let mut s = String::from("struct Zq {\n    field f;\n    field g;\n}\n");
    let asm = |f: &F, b: &[S], ind: &str, s: &mut String| {
        s.push_str(&format!("{}asm {{\n", ind));
        for x in b {
            let l = match x {
                S::Hint(x, e) => format!("{} <-- {};", x.show(f), e.show(f)),
                S::Hints(b, _, es) => format!(
                    "{} <-- [{}];",
                    f.arrays.iter().find(|a| a.0 == *b).unwrap().2,
                    es.iter().map(|e| e.show(f)).collect::<Vec<_>>().join(", ")
                ),
                S::Def(x, e) => format!("{} <== {};", x.show(f), e.show(f)),
                S::Con(a, b) => format!("{} === {};", a.show(f), b.show(f)),
            };
            s.push_str(&format!("{}    {}\n", ind, l));
        }
        s.push_str(&format!("{}}}\n", ind));
    };
    let body = |f: &F, s: &mut String| {
        for (d, _) in &f.decls {
            s.push_str(&format!("    {}\n", d));
        }
        for t in &f.body {
            match t {
                T::Asm(b) => asm(f, b, "    ", s),
                T::Loop(_, n, b) => {
                    s.push_str(&format!("    for u32 i in 0..{} {{\n", n));
                    asm(f, b, "        ", s);
                    s.push_str("    }\n");
                }
                T::Set(x, e) => s.push_str(&format!("    {} = {};\n", x.show(f), e.show(f))),
                T::Call(x, k, es) => s.push_str(&format!("    {} = f{}({});\n", x.show(f), k, es.iter().map(|e| e.show(f)).collect::<Vec<_>>().join(", "))),
                T::Assert(a, b) => s.push_str(&format!("    assert({});\n", C::Eq(a.clone(), b.clone()).show(f))),
            }
        }
        s.push_str(&match f.ret.len() {
            1 => format!("    return {};\n}}\n", f.ret[0].show(f)),
            _ => format!("    return [{}];\n}}\n", f.ret.iter().map(|e| e.show(f)).collect::<Vec<_>>().join(", ")),
        });
    };
    for (i, f) in p.funcs.iter().enumerate() {
        let a: Vec<String> = (0..f.params).map(|k| format!("field {}", f.names[k])).collect();
        s.push_str(&format!("def f{}({}) -> field {{\n", i, a.join(", ")));
        body(f, &mut s);
    }
    let f = &p.main;
    let a: Vec<String> = (0..f.params).map(|k| format!("{}field {}", if k % 2 == 1 { "private " } else { "" }, f.names[k])).collect();
    let t = if f.ret.len() == 1 { "field".to_string() } else { format!("field[{}]", f.ret.len()) };
    s.push_str(&format!("def main({}) -> {} {{\n", a.join(", "), t));
    body(f, &mut s);
    s
}

// ------------------------------------------------------------------ every solution of a system over a small field

type Sol = BTreeSet<Vec<u64>>;

struct Solve<'a> {
    p: u64,
    cons: Vec<[Vec<(isize, u64)>; 3]>,
    nret: usize,
    out: &'a mut Sol,
    nodes: u64,
    budget: u64,
}

impl Solve<'_> {
    /// false when the budget is used up
    fn go(&mut self, w: &BTreeMap<isize, u64>) -> bool {
        self.nodes += 1;
        if self.nodes > self.budget {
            return false;
        }
        let p = self.p;
        let mut w = w.clone();
        // an open constraint with few unknowns
        let mut open: Option<(usize, isize)>;
        loop {
            open = None;
            let mut changed = false;
            for c in &self.cons {
                let mut unknown: Vec<isize> = c.iter().flatten().map(|x| x.0).filter(|v| !w.contains_key(v)).collect();
                unknown.sort();
                unknown.dedup();
                let at = |l: &Vec<(isize, u64)>| l.iter().map(|(v, k)| w.get(v).copied().unwrap_or(0) * k % p).sum::<u64>() % p;
                let (a, b, d) = (at(&c[0]), at(&c[1]), at(&c[2]));
                if unknown.is_empty() {
                    if a * b % p != d {
                        return true;
                    }
                    continue;
                }
                if unknown.len() == 1 {
                    let u = unknown[0];
                    let k = |l: &Vec<(isize, u64)>| l.iter().filter(|x| x.0 == u).map(|x| x.1).sum::<u64>() % p;
                    let (x, y, z) = (k(&c[0]), k(&c[1]), k(&c[2]));
                    // (a + x u)(b + y u) = d + z u
                    let (q2, q1, q0) = (x * y % p, (a * y + b * x + (p - z)) % p, (a * b + (p - d)) % p);
                    if q2 == 0 && q1 != 0 {
                        let mut inv = 1;
                        while inv * q1 % p != 1 {
                            inv += 1;
                        }
                        w.insert(u, (p - q0) % p * inv % p);
                        changed = true;
                        continue;
                    }
                    if q2 == 0 && q0 != 0 {
                        return true;
                    }
                    if q2 == 0 {
                        // says nothing about the unknown as long as the others have these values
                        continue;
                    }
                }
                if open.map_or(true, |o| unknown.len() < o.0) {
                    open = Some((unknown.len(), unknown[0]));
                }
            }
            if !changed {
                break;
            }
        }
        let branch = match open {
            Some((_, u)) => Some(u),
            None => (1..=self.nret as isize).map(|i| -i).find(|o| !w.contains_key(o)),
        };
        match branch {
            Some(u) => {
                for x in 0..p {
                    w.insert(u, x);
                    if !self.go(&w) {
                        return false;
                    }
                }
                true
            }
            None => {
                self.out.insert((1..=self.nret as isize).map(|i| w[&-i]).collect());
                true
            }
        }
    }
}

fn s04(ctx: &mut Ctx, _idx: u64) {
    let mut r = ctx.rng.clone();
    let small = if r.chance(4, 5) { Some(*r.pick(&[3u64, 5, 5, 7, 7, 11, 13])) } else { None };
    let curve = any_curve(ctx);
    match small {
        Some(p) => dynf::select_small(p),
        None => dynf::select(curve),
    }
    let p = small.map(BigUint::from).unwrap_or(curve.p());
    let mut g = G { r: &mut r, p: small.unwrap_or(100) };
    let nf = g.r.below(3);
    let fparams: Vec<usize> = (0..nf).map(|_| g.r.range(1, 2)).collect();
    let mut funcs = vec![];
    for i in 0..nf {
        let f = g.func(fparams[i], i, false, &fparams, i);
        funcs.push(f);
    }
    let np = g.r.range(1, 3);
    let main = g.func(np, nf, true, &fparams, 0);
    let prog = P { funcs, main };
    let src = render(&prog);
    ctx.case = json!({"source": src, "prime": p.to_string()});
    let arena = Arena::new();
    let zeros = vec![BigUint::zero(); prog.main.params];
    let mut m = Mode::Count(0);
    let _ = Env { p: &p, mode: &mut m, prog: &prog }.run(&prog.main, zeros);
    let hints = match m {
        Mode::Count(n) => n,
        _ => 0,
    };
    let honest = |args: &[BigUint]| Env { p: &p, mode: &mut Mode::Honest, prog: &prog }.run(&prog.main, args.to_vec());
    let c = match compile::<D>(&src, &arena) {
        Ok(c) => c,
        // fields this small have no room for 32 bit integers
        Err(e) if e.is_panic() && format!("{:?}", e).contains("max_bitwidth / 2") => return ctx.count("refused_field_too_small"),
        Err(e) if e.is_panic() => return ctx.violation(&format!("panic:{}", src), format!("compiling crashed: {:?}\n{}", e, src)),
        Err(e) => {
            // what cannot be satisfied may be refused
            let why = ["Non-quadratic", "ivision by zero", "ssertion failed", "Constraint", "constraint"].iter().find(|w| e.text().contains(**w));
            match why {
                Some(w) => ctx.count(&format!("refused_{}", w.replace(' ', "_"))),
                None => return ctx.violation(&format!("refused:{}", src), format!("refused: {}\n{}", e.text(), src)),
            }
            // a constant division by zero is refused wherever it is
            if !e.text().contains("Non-quadratic") && !e.text().contains("ivision by zero") {
                for _ in 0..8 {
                    let args: Vec<BigUint> = (0..prog.main.params).map(|_| r.big_below(&p)).collect();
                    if honest(&args).is_ok() {
                        return ctx.violation(&format!("refused:{}", src), format!("refused although inputs {:?} satisfy it: {}\n{}", args, e.text(), src));
                    }
                }
            }
            return;
        }
    };
    ctx.count("compiled");
    let ci = cir(&c.prog);
    let nret = prog.main.ret.len();
    for round in 0..4 {
        let args: Vec<BigUint> = (0..prog.main.params).map(|_| if r.chance(1, 3) { BigUint::from(r.below(2)) } else { r.big_below(&p) }).collect();
        ctx.eval();
        let want = honest(&args);
        let got = execute(&c.prog, &args);
        match (&want, &got) {
            (Ok(v), Exec::Ok(w, _)) => {
                if outputs(w, nret).as_ref() != Some(v) {
                    return ctx.violation(&format!("outputs:{}", src), format!("inputs {:?}: outputs {:?} instead of {:?} over {}\n{}", args, outputs(w, nret), v, p, src));
                }
                if let Some(e) = ci.violated(&wit(w)) {
                    return ctx.violation(&format!("witness:{}", src), format!("inputs {:?}: {}\n{}", args, e, src));
                }
                ctx.count("honest_satisfied");
                ctx.nontrivial((&src, &args));
            }
            (Err(Stop::Unsat), Exec::Unsat(..)) => ctx.count("honest_unsatisfied"),
            // which of several reasons to stop comes first is not specified
            (Err(_), Exec::Unsat(..) | Exec::Failed(..)) => ctx.count("honest_stopped"),
            // a product with zero is zero, whatever its other factor is
            (Err(Stop::Div), Exec::Ok(..)) => ctx.count("division_not_needed"),
            // a variable which the constraints determine does not keep the value which `<--` gives it; whether
            // the result is one the source allows is settled below
            (Err(Stop::Unsat), Exec::Ok(w, _)) if hints > 0 => {
                if let Some(e) = ci.violated(&wit(w)) {
                    return ctx.violation(&format!("witness:{}", src), format!("inputs {:?}: {}\n{}", args, e, src));
                }
                ctx.count("determined_instead_of_assigned")
            }
            (_, Exec::Panic(e)) => return ctx.violation(&format!("crash:{}", src), format!("inputs {:?}: execution crashed: {}\n{}", args, e, src)),
            (w, g) => return ctx.violation(&format!("honest:{}", src), format!("inputs {:?} over {}: expected {:?}, but execution gave {}\n{}", args, p, w, g.show(), src)),
        }
        let q = match small {
            Some(q) if (q as f64).powi(hints as i32) < 30_000.0 && round < 3 => q,
            _ => continue,
        };
        // what the source allows, whatever the unconstrained assignments are
        let mut allowed = Sol::new();
        let total = q.pow(hints as u32);
        for n in 0..total {
            let mut k = n;
            let given: Vec<BigUint> = (0..hints)
                .map(|_| {
                    let x = k % q;
                    k /= q;
                    BigUint::from(x)
                })
                .collect();
            match (Env { p: &p, mode: &mut Mode::Given(&given, 0), prog: &prog }).run(&prog.main, args.clone()) {
                Ok(v) => {
                    allowed.insert(v.iter().map(|x| x.to_u64().unwrap()).collect());
                }
                Err(Stop::Unsat) => {}
                // a division outside of unconstrained assignments: none is generated
                Err(Stop::Div) => unreachable!(),
            }
        }
        let mut sat = Sol::new();
        let small_lc = |l: &Lc| -> Vec<(isize, u64)> { l.iter().map(|(v, k)| (*v, k.to_u64().unwrap())).collect() };
        let cons = ci
            .stmts
            .iter()
            .filter_map(|s| match s {
                St::Con(c) => Some([small_lc(&c.a), small_lc(&c.b), small_lc(&c.c)]),
                _ => None,
            })
            .collect();
        let mut w: BTreeMap<isize, u64> = BTreeMap::new();
        w.insert(0, 1);
        for ((v, _), x) in ci.args.iter().zip(&args) {
            w.insert(*v, x.to_u64().unwrap());
        }
        let mut s = Solve { p: q, cons, nret, out: &mut sat, nodes: 0, budget: if ctx.thorough { 400_000 } else { 60_000 } };
        let done = s.go(&w);
        ctx.add("solver_nodes", s.nodes);
        ctx.add("source_assignments", total);
        if let Some(x) = sat.iter().find(|x| !allowed.contains(*x)) {
            return ctx.violation(
                &format!("unsound:{}", src),
                format!("inputs {:?} over {}: the constraints hold with outputs {:?}, which the source does not allow\n{}\n{}", args, q, x, src, ci.show()),
            );
        }
        if !done {
            ctx.count("systems_not_exhausted");
            continue;
        }
        ctx.count(if sat.is_empty() { "systems_without_solution" } else { "systems_enumerated" });
        if let Ok(v) = &want {
            let v: Vec<u64> = v.iter().map(|x| x.to_u64().unwrap()).collect();
            if !sat.contains(&v) {
                return ctx.violation(&format!("incomplete:{}", src), format!("inputs {:?} over {}: the honest outputs {:?} do not satisfy the constraints\n{}", args, q, v, src));
            }
        }
        if sat == allowed {
            ctx.count("solutions_equal_the_source");
        }
        let n = sat.len();
        ctx.sample(|| json!({"source": src, "prime": q, "inputs": args.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "output_tuples_allowed_by_the_source": allowed.len(), "output_tuples_satisfying_the_constraints": n}));
    }
    ctx.rng = r;
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "S04",
        level: "exploration",
        rule: "a case is a generated program with assembly blocks; non-trivial cases are distinct programs and inputs whose execution satisfied every constraint",
        assumptions: &["programs which hold over small prime fields behave alike over the fields of the curves"],
        quick: 6000,
        thorough: 200_000,
        quick_s: 45,
        thorough_s: 800,
        run: s04,
        require: &["compiled", "honest_satisfied", "honest_unsatisfied", "systems_enumerated", "solutions_equal_the_source"],
    }]
}
