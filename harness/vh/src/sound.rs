//! The adversary: given a constraint system and values for the inputs, look for assignments of the remaining variables
//! that satisfy every constraint although the honest execution says otherwise (different outputs, or a failure).
//! Constraint propagation with a complete case split where possible, so that "none" is a proof for these inputs.
use crate::engine::*;
use crate::prog::big;
use num_bigint::BigUint;
use std::cell::Cell;
use std::collections::{HashMap, VecDeque};
use std::rc::Rc;
use zokrates_ast::ir::{self, Statement};
use zokrates_field::Field;

type L<T> = Vec<(u32, T)>;
/// constant + sum
type Lin<T> = (T, L<T>);

struct C<T> {
    a: L<T>,
    b: L<T>,
    c: L<T>,
}

enum Undo<T> {
    Val(u32),
    Dom(u32, Option<(T, T)>),
    Def(u32),
    Pivot(u32),
    PopCon,
}

#[derive(Debug)]
pub enum Verdict {
    /// no satisfying assignment with (other) outputs exists
    None,
    /// a satisfying assignment that must not exist; checked with independent arithmetic
    Found(Wit),
    /// the search was not exhaustive
    Unknown(&'static str),
}

/// bound on one search
const TIME: std::time::Duration = std::time::Duration::from_millis(2500);

pub struct Adversary<T> {
    ids: Vec<isize>,
    idx: HashMap<isize, u32>,
    cons: Vec<C<T>>,
    watch: Vec<Vec<u32>>,
    val: Vec<Option<T>>,
    dom: Vec<Option<(T, T)>>,
    def: Vec<Option<Rc<Lin<T>>>>,
    pivot: Vec<Option<u32>>,
    queue: VecDeque<u32>,
    inq: Vec<bool>,
    trail: Vec<Undo<T>>,
    p: BigUint,
    half: BigUint,
    outs: Vec<u32>,
    nargs: usize,
    args: Vec<u32>,
    want: Option<Vec<T>>,
    budget: u64,
    nodes: u64,
    deadline: std::time::Instant,
    work: Cell<u32>,
    blown: Cell<bool>,
    incomplete: Option<&'static str>,
    small: Option<u64>,
    found: Option<Wit>,
    pub stats: Stats,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub nodes: u64,
    pub evals: u64,
    pub conflicts: u64,
    pub splits: u64,
}

struct Conflict;
type R = Result<(), Conflict>;

fn modpow<T: Field>(b: T, e: &BigUint) -> T {
    let mut r = T::one();
    let bits = e.to_bytes_be();
    for byte in bits {
        for i in (0..8).rev() {
            r = r * r;
            if byte >> i & 1 == 1 {
                r = r * b;
            }
        }
    }
    r
}

/// Tonelli and Shanks; None when x is not a square
pub fn sqrt<T: Field>(x: T) -> Option<T> {
    if x.is_zero() {
        return Some(x);
    }
    let p = modulus::<T>();
    if p == big(2) {
        return Some(x);
    }
    let one = T::one();
    let pm1 = &p - big(1);
    if modpow(x, &(&pm1 / big(2))) != one {
        return None;
    }
    let mut q = pm1.clone();
    let mut s = 0;
    while &q % big(2) == big(0) {
        q = q / big(2);
        s += 1;
    }
    let mut z = T::from(2);
    while modpow(z, &(&pm1 / big(2))) == one {
        z = z + one;
    }
    let mut m = s;
    let mut c = modpow(z, &q);
    let mut t = modpow(x, &q);
    let mut r = modpow(x, &((&q + big(1)) / big(2)));
    while t != one {
        let mut i = 0;
        let mut u = t;
        while u != one {
            u = u * u;
            i += 1;
        }
        let mut b = c;
        for _ in 0..(m - i - 1) {
            b = b * b;
        }
        m = i;
        c = b * b;
        t = t * c;
        r = r * b;
    }
    Some(r)
}

fn add_to<T: Field>(l: &mut L<T>, extra: &[(u32, T)], k: T) {
    for (v, c) in extra {
        l.push((*v, *c * k));
    }
}

fn norm<T: Field>(mut l: L<T>) -> L<T> {
    if l.windows(2).all(|w| w[0].0 < w[1].0) {
        l.retain(|x| !x.1.is_zero());
        return l;
    }
    l.sort_by_key(|x| x.0);
    let mut o: L<T> = Vec::with_capacity(l.len());
    for (v, c) in l {
        match o.last_mut() {
            Some(x) if x.0 == v => x.1 = x.1 + c,
            _ => o.push((v, c)),
        }
    }
    o.retain(|x| !x.1.is_zero());
    o
}

impl<T: Field> Adversary<T> {
    pub fn new(p: &ir::Prog<T>) -> Self {
        let mut s = Adversary {
            ids: vec![],
            idx: HashMap::new(),
            cons: vec![],
            watch: vec![],
            val: vec![],
            dom: vec![],
            def: vec![],
            pivot: vec![],
            queue: VecDeque::new(),
            inq: vec![],
            trail: vec![],
            p: modulus::<T>(),
            half: modulus::<T>() / big(2),
            outs: vec![],
            nargs: 0,
            args: vec![],
            want: None,
            budget: 0,
            nodes: 0,
            deadline: std::time::Instant::now(),
            work: Cell::new(0),
            blown: Cell::new(false),
            incomplete: None,
            small: None,
            found: None,
            stats: Stats::default(),
        };
        if s.p < big(70000) {
            s.small = s.p.to_string().parse().ok();
        }
        s.var(0);
        for st in p.statements.iter() {
            if let Statement::Constraint(c) = st {
                let mut f = |l: &ir::LinComb<T>| -> L<T> { norm(l.value.iter().map(|(v, c)| (s.var(v.id), *c)).collect()) };
                let c = C { a: f(&c.quad.left), b: f(&c.quad.right), c: f(&c.lin) };
                s.push_con(c);
            }
        }
        for a in &p.arguments {
            let v = s.var(a.id.id);
            s.args.push(v);
        }
        s.nargs = s.args.len();
        for i in 0..p.return_count {
            let v = s.var(-(i as isize) - 1);
            s.outs.push(v);
        }
        s
    }

    fn var(&mut self, id: isize) -> u32 {
        if let Some(v) = self.idx.get(&id) {
            return *v;
        }
        let v = self.ids.len() as u32;
        self.ids.push(id);
        self.idx.insert(id, v);
        self.watch.push(vec![]);
        self.val.push(None);
        self.dom.push(None);
        self.def.push(None);
        v
    }

    fn push_con(&mut self, c: C<T>) {
        let i = self.cons.len() as u32;
        let mut vs: Vec<u32> = c.a.iter().chain(&c.b).chain(&c.c).map(|x| x.0).collect();
        vs.sort();
        vs.dedup();
        for v in vs {
            self.watch[v as usize].push(i);
        }
        self.cons.push(c);
        self.pivot.push(None);
        self.inq.push(false);
    }

    fn pop_con(&mut self) {
        let c = self.cons.pop().unwrap();
        let i = self.cons.len() as u32;
        self.pivot.pop();
        self.inq.pop();
        let mut vs: Vec<u32> = c.a.iter().chain(&c.b).chain(&c.c).map(|x| x.0).collect();
        vs.sort();
        vs.dedup();
        for v in vs {
            let w = &mut self.watch[v as usize];
            debug_assert_eq!(w.last(), Some(&i));
            w.pop();
        }
    }

    fn enqueue(&mut self, v: u32) {
        for k in 0..self.watch[v as usize].len() {
            let c = self.watch[v as usize][k];
            if !self.inq[c as usize] {
                self.inq[c as usize] = true;
                self.queue.push_back(c);
            }
        }
    }

    fn assign(&mut self, v: u32, x: T) -> R {
        match self.val[v as usize] {
            Some(y) => {
                if y == x {
                    Ok(())
                } else {
                    Err(Conflict)
                }
            }
            None => {
                if let Some((a, b)) = self.dom[v as usize] {
                    if x != a && x != b {
                        return Err(Conflict);
                    }
                }
                self.val[v as usize] = Some(x);
                self.trail.push(Undo::Val(v));
                self.enqueue(v);
                Ok(())
            }
        }
    }

    fn set_dom(&mut self, v: u32, a: T, b: T) -> R {
        if let Some(x) = self.val[v as usize] {
            return if x == a || x == b { Ok(()) } else { Err(Conflict) };
        }
        if a == b {
            return self.assign(v, a);
        }
        match self.dom[v as usize] {
            Some((c, d)) => {
                let k: Vec<T> = [a, b].iter().copied().filter(|x| *x == c || *x == d).collect();
                match k.len() {
                    0 => Err(Conflict),
                    1 => self.assign(v, k[0]),
                    _ => Ok(()),
                }
            }
            None => {
                self.trail.push(Undo::Dom(v, None));
                self.dom[v as usize] = Some((a, b));
                self.enqueue(v);
                Ok(())
            }
        }
    }

    fn undo(&mut self, to: usize) {
        while self.trail.len() > to {
            match self.trail.pop().unwrap() {
                Undo::Val(v) => self.val[v as usize] = None,
                Undo::Dom(v, o) => self.dom[v as usize] = o,
                Undo::Def(v) => self.def[v as usize] = None,
                Undo::Pivot(c) => self.pivot[c as usize] = None,
                Undo::PopCon => self.pop_con(),
            }
        }
        while let Some(c) = self.queue.pop_front() {
            if (c as usize) < self.inq.len() {
                self.inq[c as usize] = false;
            }
        }
    }

    fn expand(&self, l: &[(u32, T)], k: T, skip: Option<u32>, out: &mut Lin<T>) {
        for (v, c) in l {
            // repeated substitution can grow exponentially: give the search up
            if self.work.get() > 60_000 {
                self.blown.set(true);
                return;
            }
            self.work.set(self.work.get() + 1);
            let c = if k == T::one() { *c } else { *c * k };
            match self.val[*v as usize] {
                Some(x) => out.0 = out.0 + x * c,
                None => match &self.def[*v as usize] {
                    Some(d) if Some(*v) != skip => {
                        out.0 = out.0 + d.0 * c;
                        let d = d.clone();
                        self.expand(&d.1, c, skip, out);
                    }
                    _ => out.1.push((*v, c)),
                },
            }
        }
    }

    fn residual(&self, l: &[(u32, T)], skip: Option<u32>) -> Lin<T> {
        let mut o = (T::zero(), vec![]);
        self.work.set(0);
        self.expand(l, T::one(), skip, &mut o);
        (o.0, norm(o.1))
    }

    fn eval(&mut self, ci: u32) -> R {
        self.stats.evals += 1;
        if (self.blown.get() || self.stats.evals % 64 == 0) && self.late() {
            self.budget = 0;
        }
        let skip = self.pivot[ci as usize];
        let (a, b, c) = {
            let q = &self.cons[ci as usize];
            (self.residual(&q.a, skip), self.residual(&q.b, skip), self.residual(&q.c, skip))
        };
        self.budget = self.budget.saturating_sub(1 + ((a.1.len() + b.1.len() + c.1.len()) / 16) as u64);
        let m1 = T::zero() - T::one();
        if a.1.is_empty() || b.1.is_empty() {
            let (k, o) = if a.1.is_empty() { (a.0, b) } else { (b.0, a) };
            let mut l = o.1;
            for x in l.iter_mut() {
                x.1 = x.1 * k;
            }
            add_to(&mut l, &c.1, m1);
            return self.linear(ci, o.0 * k - c.0, norm(l));
        }
        self.quadratic(a, b, c)
    }

    fn quadratic(&mut self, a: Lin<T>, b: Lin<T>, c: Lin<T>) -> R {
        let one = T::one();
        // A is a multiple of B and C is affine in A: a quadratic in the form A
        let v = a.1[0].0;
        let single = a.1.len() == 1 && b.1.len() == 1 && b.1[0].0 == v && (c.1.is_empty() || (c.1.len() == 1 && c.1[0].0 == v));
        if single {
            let (a1, b1) = (a.1[0].1, b.1[0].1);
            let c1 = c.1.first().map(|x| x.1).unwrap_or(T::zero());
            let q2 = a1 * b1;
            let q1 = a1 * b.0 + b1 * a.0 - c1;
            let q0 = a.0 * b.0 - c.0;
            let two = one + one;
            if let Some((r1, r2)) = self.roots(q2, q1, q0, two) {
                return self.set_dom(v, r1, r2);
            }
            return Err(Conflict);
        }
        // both factors range over few values
        if c.1.is_empty() && c.0.is_zero() {
            for (x, y) in [(&a, &b), (&b, &a)] {
                if x.1.len() == 1 {
                    let r = (T::zero() - x.0) / x.1[0].1;
                    let v = x.1[0].0;
                    if let Some((d, e)) = self.dom[v as usize] {
                        if r != d && r != e {
                            // x cannot be 0, so y is
                            if y.1.len() == 1 {
                                return self.assign(y.1[0].0, (T::zero() - y.0) / y.1[0].1);
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }

    fn roots(&self, a: T, b: T, c: T, two: T) -> Option<(T, T)> {
        let zero = T::zero();
        if c.is_zero() {
            return Some((zero, (zero - b) / a));
        }
        if two.is_zero() {
            return None;
        }
        let d = b * b - (two + two) * a * c;
        let s = sqrt(d)?;
        let den = two * a;
        Some(((zero - b + s) / den, (zero - b - s) / den))
    }

    /// k + l = 0
    fn linear(&mut self, ci: u32, k: T, l: L<T>) -> R {
        let zero = T::zero();
        if l.is_empty() {
            return if k.is_zero() { Ok(()) } else { Err(Conflict) };
        }
        if l.len() == 1 {
            return self.assign(l[0].0, (zero - k) / l[0].1);
        }
        let wild = l.iter().filter(|x| self.dom[x.0 as usize].is_none()).count();
        if wild == 0 {
            return self.subset(k, &l);
        }
        if self.pivot[ci as usize].is_none() {
            // eliminate one of the unbounded variables
            let pv = *l
                .iter()
                .filter(|x| self.dom[x.0 as usize].is_none())
                .max_by_key(|x| !self.outs.contains(&x.0))
                .unwrap();
            let f = (zero - T::one()) / pv.1;
            let d: L<T> = l.iter().filter(|x| x.0 != pv.0).map(|x| (x.0, x.1 * f)).collect();
            self.def[pv.0 as usize] = Some(Rc::new((k * f, d)));
            self.trail.push(Undo::Def(pv.0));
            self.pivot[ci as usize] = Some(pv.0);
            self.trail.push(Undo::Pivot(ci));
            self.enqueue(pv.0);
        }
        Ok(())
    }

    /// every variable of l has two possible values: reason over the integers
    fn subset(&mut self, k: T, l: &L<T>) -> R {
        let zero = T::zero();
        // x = lo + (hi - lo) * y
        let mut k = k;
        let mut ys: Vec<(u32, T, bool)> = vec![];
        for (v, c) in l {
            let (a, b) = self.dom[*v as usize].unwrap();
            k = k + *c * a;
            ys.push((*v, *c * (b - a), false));
        }
        let t = zero - k;
        // scale so that the coefficients are small
        let mut best: Option<(BigUint, T)> = None;
        let mut scales = vec![T::one(), ys[0].1, ys[ys.len() - 1].1];
        if ys.len() > 2 {
            scales.push(ys[1].1);
        }
        for s in scales {
            let si = T::one() / s;
            let tot: BigUint = ys.iter().map(|y| self.abs(y.1 * si).0).fold(big(0), |a, b| a + b);
            if best.as_ref().map(|b| tot < b.0).unwrap_or(true) {
                best = Some((tot, si));
            }
        }
        let (total, si) = best.unwrap();
        let mut target = be(&(t * si));
        let mut cs: Vec<(BigUint, usize)> = vec![];
        for (i, y) in ys.iter_mut().enumerate() {
            let (m, neg) = self.abs(y.1 * si);
            if neg {
                y.2 = true;
                target += &m;
            }
            cs.push((m, i));
        }
        target = target % &self.p;
        cs.sort_by(|a, b| b.0.cmp(&a.0));
        let mut sup = true;
        let mut rest = total.clone();
        for c in &cs {
            rest -= &c.0;
            if c.0 <= rest {
                sup = false;
                break;
            }
        }
        if target > total {
            return Err(Conflict);
        }
        let nk = (&total - &target) / &self.p; // target + k p, k = 0..=nk
        if sup {
            if nk > big(64) {
                return Ok(());
            }
            let mut sols: Vec<Vec<bool>> = vec![];
            let mut cand = target.clone();
            while cand <= total {
                let mut r = cand.clone();
                let mut sol = vec![false; ys.len()];
                for c in &cs {
                    if c.0 <= r {
                        r -= &c.0;
                        sol[c.1] = true;
                    }
                }
                if r == big(0) {
                    sols.push(sol);
                }
                cand += &self.p;
            }
            return self.common(&ys, &sols);
        }
        if ys.len() <= 10 {
            let mut sols = vec![];
            for m in 0..1u32 << ys.len() {
                let mut s = zero;
                for (i, y) in ys.iter().enumerate() {
                    if m >> i & 1 == 1 {
                        s = s + y.1;
                    }
                }
                if s == t {
                    // in terms of the positive variables below
                    sols.push((0..ys.len()).map(|i| (m >> i & 1 == 1) != ys[i].2).collect::<Vec<bool>>());
                }
            }
            return self.common(&ys, &sols);
        }
        if nk > big(0) {
            return Ok(());
        }
        // bounds: 0 <= rest <= total - c
        for c in &cs {
            let v = ys[c.1].0;
            let neg = ys[c.1].2;
            if c.0 > target {
                self.pick(v, neg)?;
            } else if &total - &c.0 < target {
                self.pick(v, !neg)?;
            }
        }
        Ok(())
    }

    fn pick(&mut self, v: u32, hi: bool) -> R {
        if self.val[v as usize].is_some() {
            return Ok(());
        }
        let (a, b) = self.dom[v as usize].unwrap();
        self.assign(v, if hi { b } else { a })
    }

    fn common(&mut self, ys: &[(u32, T, bool)], sols: &[Vec<bool>]) -> R {
        if sols.is_empty() {
            return Err(Conflict);
        }
        for (i, y) in ys.iter().enumerate() {
            let x = sols[0][i];
            if sols.iter().all(|s| s[i] == x) {
                self.pick(y.0, x != y.2)?;
            }
        }
        Ok(())
    }

    fn abs(&self, x: T) -> (BigUint, bool) {
        let x = be(&x);
        if x > self.half {
            (&self.p - x, true)
        } else {
            (x, false)
        }
    }

    fn propagate(&mut self) -> R {
        while let Some(c) = self.queue.pop_front() {
            self.inq[c as usize] = false;
            if self.budget == 0 {
                return Ok(());
            }
            self.eval(c)?;
            if self.outputs_equal() {
                return Ok(());
            }
        }
        Ok(())
    }

    fn outputs_equal(&self) -> bool {
        match &self.want {
            None => false,
            Some(w) => self.outs.iter().zip(w).all(|(v, x)| self.val[*v as usize] == Some(*x)),
        }
    }

    /// unresolved constraints, as (unknowns, index)
    fn open(&self) -> Vec<(usize, u32)> {
        let mut o = vec![];
        for (i, q) in self.cons.iter().enumerate() {
            let n = q
                .a
                .iter()
                .chain(&q.b)
                .chain(&q.c)
                .filter(|x| self.val[x.0 as usize].is_none())
                .count();
            if n > 0 {
                o.push((n, i as u32));
            }
        }
        o.sort();
        o
    }

    fn sweep(&mut self) -> R {
        loop {
            let before = self.trail.len();
            for (_, c) in self.open() {
                if self.budget == 0 {
                    return Ok(());
                }
                self.eval(c)?;
                self.propagate()?;
                if self.outputs_equal() {
                    return Ok(());
                }
            }
            if self.trail.len() == before {
                return Ok(());
            }
        }
    }

    fn search(&mut self, depth: usize) {
        self.nodes += 1;
        self.stats.nodes += 1;
        if self.found.is_some() || self.late() {
            return;
        }
        if self.propagate().is_err() || self.sweep().is_err() {
            self.stats.conflicts += 1;
            return;
        }
        if self.outputs_equal() {
            return;
        }
        if self.budget == 0 || depth > 3000 {
            self.incomplete = Some("budget");
            return;
        }
        // choose a split
        let mut split: Option<(usize, Split<T>)> = None;
        let open = self.open();
        let mut really_open = false;
        let mut stuck: Option<u32> = None;
        for (_, ci) in &open {
            let skip = self.pivot[*ci as usize];
            let (a, b, c) = {
                let q = &self.cons[*ci as usize];
                (self.residual(&q.a, skip), self.residual(&q.b, skip), self.residual(&q.c, skip))
            };
            let lin = a.1.is_empty() || b.1.is_empty();
            if lin && skip.is_some() {
                continue; // solved for its pivot
            }
            if lin && {
                let (k, o) = if a.1.is_empty() { (a.0, &b) } else { (b.0, &a) };
                let mut l: L<T> = o.1.iter().map(|x| (x.0, x.1 * k)).collect();
                add_to(&mut l, &c.1, T::zero() - T::one());
                norm(l).is_empty()
            } {
                continue; // no unknown left, and it was checked
            }
            let mut vars: Vec<(u32, T)> = a.1.iter().chain(&b.1).chain(&c.1).copied().collect();
            // a constraint on one two-valued variable that only states its domain
            vars.sort_by_key(|x| x.0);
            let mut only: Vec<u32> = vars.iter().map(|x| x.0).collect();
            only.dedup();
            if !lin && only.len() == 1 {
                if self.dom[only[0] as usize].is_some() {
                    continue; // it states the domain of this variable
                }
            }
            really_open = true;
            let n = only.len();
            if let Some((best, _)) = &split {
                if *best <= n {
                    continue;
                }
            }
            let bits: Vec<(u32, BigUint)> = vars
                .iter()
                .filter(|x| self.dom[x.0 as usize].is_some())
                .map(|x| (x.0, self.abs(x.1).0))
                .collect();
            if let Some(b) = bits.iter().max_by(|x, y| x.1.cmp(&y.1)) {
                split = Some((n, Split::Bit(b.0)));
            } else if !lin && c.1.is_empty() && c.0.is_zero() {
                split = Some((n + 1, Split::Zero(a, b)));
            } else if !lin {
                // a square equal to a constant
                let f = b.1[0].1 / a.1[0].1;
                let same = a.1.len() == b.1.len()
                    && a.1.iter().zip(&b.1).all(|(x, y)| x.0 == y.0 && x.1 * f == y.1)
                    && a.0 * f == b.0;
                if same && c.1.is_empty() {
                    split = Some((n + 1, Split::Square(a, c.0 / f)));
                } else {
                    stuck = Some(only[0]);
                }
            }
        }
        if !really_open {
            // only free variables are left
            self.complete();
            return;
        }
        self.stats.splits += 1;
        match split {
            Some((_, Split::Bit(v))) => {
                let (a, b) = self.dom[v as usize].unwrap();
                for x in [a, b] {
                    self.branch(depth, |s| s.assign(v, x));
                }
            }
            Some((_, Split::Zero(a, b))) => {
                for f in [a, b] {
                    self.branch(depth, |s| {
                        s.extra(f);
                        Ok(())
                    });
                }
            }
            Some((_, Split::Square(a, k))) => match sqrt(k) {
                None => {
                    self.stats.conflicts += 1;
                }
                Some(r) => {
                    for x in [r, T::zero() - r] {
                        let mut f = a.clone();
                        f.0 = f.0 - x;
                        self.branch(depth, |s| {
                            s.extra(f);
                            Ok(())
                        });
                    }
                }
            },
            None => {
                let v = match stuck {
                    Some(v) => v,
                    None => {
                        self.incomplete = Some("no split");
                        return;
                    }
                };
                if let Some(p) = self.small {
                    for x in 0..p {
                        if self.budget == 0 {
                            self.incomplete = Some("budget");
                            return;
                        }
                        self.branch(depth, |s| s.assign(v, T::from(x as u128)));
                        if self.found.is_some() {
                            return;
                        }
                    }
                } else {
                    self.incomplete = Some("free field element");
                    for x in [0u128, 1, 2, 12345] {
                        if self.budget == 0 {
                            return;
                        }
                        self.branch(depth, |s| s.assign(v, T::from(x)));
                        if self.found.is_some() {
                            return;
                        }
                    }
                }
            }
        }
    }

    /// the linear form f is zero in this branch
    fn extra(&mut self, f: Lin<T>) {
        let mut l = f.1;
        l.push((0, f.0));
        let i = self.cons.len() as u32;
        self.push_con(C { a: vec![(0, T::one())], b: norm(l), c: vec![] });
        self.trail.push(Undo::PopCon);
        self.inq[i as usize] = true;
        self.queue.push_back(i);
    }

    fn branch(&mut self, depth: usize, f: impl FnOnce(&mut Self) -> R) {
        if self.found.is_some() {
            return;
        }
        let t = self.trail.len();
        if f(self).is_ok() {
            self.search(depth + 1);
        } else {
            self.stats.conflicts += 1;
        }
        self.undo(t);
    }

    /// every constraint is satisfied whatever the remaining free variables are
    fn complete(&mut self) {
        let t = self.trail.len();
        let r = (|| -> R {
            if let Some(w) = self.want.clone() {
                // make the outputs differ, if that is still possible
                let free: Vec<(u32, T)> = self
                    .outs
                    .iter()
                    .zip(&w)
                    .filter(|(v, _)| self.val[**v as usize].is_none())
                    .map(|(v, x)| (*v, *x))
                    .collect();
                let differs = self
                    .outs
                    .iter()
                    .zip(&w)
                    .any(|(v, x)| self.val[*v as usize].map(|y| y != *x).unwrap_or(false));
                if !differs {
                    for (v, x) in free {
                        if self.val[v as usize].is_none() {
                            // through the free variables it depends on
                            let l = self.residual(&[(v, T::one())], None);
                            let y = x + T::one();
                            match l.1.first() {
                                None => continue,
                                Some((u, c)) => {
                                    for z in &l.1[1..] {
                                        if self.val[z.0 as usize].is_none() {
                                            let z0 = self.dom[z.0 as usize].map(|d| d.0).unwrap_or(T::zero());
                                            self.assign(z.0, z0)?;
                                        }
                                    }
                                    let l2 = self.residual(&[(*u, *c)], None);
                                    let _ = l2;
                                    let rest = self.residual(&[(v, T::one())], None);
                                    if let Some((u, c)) = rest.1.first() {
                                        let g = match self.dom[*u as usize] {
                                            Some((a, b)) => {
                                                if rest.0 + *c * a != x {
                                                    a
                                                } else {
                                                    b
                                                }
                                            }
                                            None => (y - rest.0) / *c,
                                        };
                                        self.assign(*u, g)?;
                                    }
                                }
                            }
                            self.propagate_all()?;
                        }
                    }
                }
            }
            loop {
                self.propagate_all()?;
                let f = (0..self.val.len()).find(|i| self.val[*i].is_none() && self.def[*i].is_none());
                match f {
                    Some(i) => {
                        let x = self.dom[i].map(|d| d.0).unwrap_or(T::zero());
                        self.assign(i as u32, x)?;
                    }
                    None => break,
                }
            }
            for i in 0..self.val.len() {
                if self.val[i].is_none() {
                    let l = self.residual(&[(i as u32, T::one())], None);
                    if !l.1.is_empty() {
                        return Err(Conflict);
                    }
                    self.assign(i as u32, l.0)?;
                }
            }
            Ok(())
        })();
        if r.is_ok() {
            if self.outputs_equal() {
                if self.outs.iter().any(|_| true) {
                    // the outputs are determined up to the free variables we could not move
                    self.incomplete.get_or_insert("free variables");
                }
            } else {
                self.found = Some(
                    self.ids
                        .iter()
                        .zip(&self.val)
                        .map(|(id, v)| (*id, be(&v.unwrap())))
                        .collect(),
                );
            }
        } else {
            self.incomplete.get_or_insert("completion");
        }
        self.undo(t);
    }

    /// out of time: what is left of the search is not done, so nothing can be concluded from it
    fn late(&mut self) -> bool {
        if self.blown.get() {
            self.incomplete = Some("expansion");
            return true;
        }
        if std::time::Instant::now() > self.deadline {
            self.incomplete = Some("time");
            return true;
        }
        false
    }

    fn propagate_all(&mut self) -> R {
        let mut k = 0;
        while let Some(c) = self.queue.pop_front() {
            k += 1;
            if k % 64 == 0 && self.late() {
                self.inq[c as usize] = false;
                return Err(Conflict);
            }
            self.inq[c as usize] = false;
            self.eval(c)?;
        }
        Ok(())
    }

    /// is there an assignment with exactly these inputs and outputs?
    pub fn attack_outputs(&mut self, ci: &Cir, inputs: &[BigUint], outs: &[BigUint], budget: u64) -> Verdict {
        let n = self.args.len();
        let o = self.outs.clone();
        self.args.extend(&o);
        let mut v = inputs.to_vec();
        v.extend(outs.iter().cloned());
        let r = self.attack(ci, &v, None, budget);
        self.args.truncate(n);
        r
    }

    /// `want`: the honest outputs (look for other ones); None: any satisfying assignment counts
    pub fn attack(&mut self, ci: &Cir, inputs: &[BigUint], want: Option<&[BigUint]>, budget: u64) -> Verdict {
        self.undo(0);
        self.budget = budget;
        self.nodes = 0;
        self.blown.set(false);
        self.deadline = std::time::Instant::now() + TIME;
        self.incomplete = None;
        self.found = None;
        self.want = want.map(|w| w.iter().map(fe).collect());
        let r = (|| -> R {
            self.assign(0, T::one())?;
            for (i, x) in inputs.iter().enumerate() {
                let v = self.args[i];
                self.assign(v, fe(x))?;
            }
            Ok(())
        })();
        if r.is_err() {
            self.undo(0);
            return Verdict::None;
        }
        // the constraints on one variable first: they give its domain
        for c in 0..self.cons.len() {
            if !self.inq[c] {
                self.inq[c] = true;
                let q = &self.cons[c];
                let mut it = q.a.iter().chain(&q.b).chain(&q.c).map(|x| x.0).filter(|v| *v != 0);
                let v = it.next();
                if it.all(|w| Some(w) == v) {
                    self.queue.push_front(c as u32);
                } else {
                    self.queue.push_back(c as u32);
                }
            }
        }
        self.search(0);
        self.undo(0);
        if let Some(w) = self.found.take() {
            // independent confirmation
            let ok = ci.violated(&w).is_none()
                && self.args.iter().zip(inputs).all(|(v, x)| w.get(&self.ids[*v as usize]) == Some(x))
                && match want {
                    None => true,
                    Some(o) => (0..o.len()).any(|i| w.get(&(-(i as isize) - 1)) != Some(&o[i])),
                };
            return if ok { Verdict::Found(w) } else { Verdict::Unknown("unconfirmed") };
        }
        match self.incomplete {
            Some(s) => Verdict::Unknown(s),
            None if self.blown.get() => Verdict::Unknown("expansion"),
            None => Verdict::None,
        }
    }
}

enum Split<T> {
    Bit(u32),
    Zero(Lin<T>, Lin<T>),
    Square(Lin<T>, T),
}
