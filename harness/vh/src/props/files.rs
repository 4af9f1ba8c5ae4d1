//! Files and exports: compiled programs, witnesses, R1CS (circom), SMT-LIB2, bellperson circuits.
use crate::dynf::{self, D};
use crate::engine::*;
use crate::prng::Rng;
use crate::prog::*;
use crate::run::{Ctx, Prop};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use typed_arena::Arena;
use zokrates_ast::ir::{self, Variable, Witness};
use zokrates_field::*;

/// hand-written programs with assembly blocks, which carry solvers of their own
const ASM: &[&str] = &[
    "def main(field a, private field b) -> field {\n    field mut c = 0;\n    asm {\n        c <== a * b;\n    }\n    return c + K;\n}\n",
    "def main(private field a) -> bool {\n    field mut i = 0;\n    field mut z = 0;\n    asm {\n        i <-- a == 0 ? 0 : K / a;\n        z <== K - a * i;\n        a * z === 0;\n    }\n    return z == K;\n}\n",
    "def main(public field a, field b) -> (field, field) {\n    field[2] mut c = [0, 0];\n    for u32 j in 0..2 {\n        asm {\n            c[j] <-- a ** K2 + b;\n            c[j] - b === a ** K2;\n        }\n    }\n    return (c[0], c[1]);\n}\n",
    "def main(private field a, private field b) -> field {\n    log(\"{} {}\", b, a);\n    return a * K;\n}\n",
    "def main(private field a, field b) -> field {\n    field mut x = 0;\n    field mut y = 0;\n    field mut z = 0;\n    asm {\n        x <-- a * a + b;\n        y <-- a * a - b;\n        z <-- a * a + b * K;\n        a * a === x - b;\n        a * a === y + b;\n        a * a === z - b * K;\n    }\n    return x * y + z;\n}\n",
    "def f<N>(field a) -> field {\n    field mut x = 0;\n    asm {\n        x <-- a ** N;\n        x === a ** N;\n    }\n    return x;\n}\ndef main(private field a, field b) -> field[3] {\n    return [f::<K2>(a), f::<5>(b), f::<K2>(a + b)];\n}\n",
];

pub struct Src {
    pub src: String,
    pub inputs: Vec<Vec<BigUint>>,
}

pub fn source(ctx: &mut Ctx, curve: Curve, runs: usize) -> Src {
    let p = curve.p();
    if ctx.rng.chance(1, 8) {
        let k = ctx.rng.range(1, 1 << 20);
        let t = ctx.rng.pick(ASM).to_string();
        let n = t.split("main(").nth(1).unwrap().split(')').next().unwrap().matches("field").count();
        let src = t.replace("K2", &format!("{}", k % 7)).replace('K', &k.to_string());
        let inputs = (0..runs)
            .map(|_| {
                (0..n)
                    .map(|_| if ctx.rng.chance(1, 4) { big(ctx.rng.below(3) as u64) } else { ctx.rng.big_below(&p) })
                    .collect()
            })
            .collect();
        return Src { src, inputs };
    }
    let pf = Profile {
        asserts: ctx.rng.chance(1, 2),
        logs: ctx.rng.chance(1, 2),
        stmts: ctx.rng.range(1, 6),
        max_depth: ctx.rng.range(2, 4),
        ..Profile::base()
    };
    let mut r = ctx.rng.clone();
    let prog = Gen::program(&mut r, &pf, &p);
    let inputs = (0..runs)
        .map(|_| flat_inputs(&prog.params.iter().map(|p| Gen::input(&mut r, &prog, &p.ty)).collect::<Vec<_>>()))
        .collect();
    ctx.rng = r;
    Src { src: prog.render(), inputs }
}

pub fn any_curve(ctx: &mut Ctx) -> Curve {
    *ctx.rng.pick(CURVES)
}

fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0u64, |a, x| (a << 8) | *x as u64)
}

struct Header {
    secs: Vec<(u64, u64, u64)>,
}

fn header(b: &[u8]) -> Header {
    // magic 4, version 4, curve 4, constraints 4, returns 4, then 4 x (type u32, offset u64, length u64)
    Header {
        secs: (0..4)
            .map(|i| {
                let o = 20 + i * 20;
                (le(&b[o..o + 4]), le(&b[o + 4..o + 12]), le(&b[o + 12..o + 20]))
            })
            .collect(),
    }
}

fn e01(ctx: &mut Ctx, _idx: u64) {
    let curve = any_curve(ctx);
    dynf::select(curve);
    let s = source(ctx, curve, 3);
    ctx.case = json!({"source": s.src, "curve": curve.name()});
    let debug = ctx.rng.chance(1, 2);
    let arena = Arena::new();
    let c = match compile_with::<D>(&s.src, &arena, None, debug) {
        Ok(c) => c,
        Err(_) => return ctx.count("not_compiled"),
    };
    let ci = cir(&c.prog);
    let src = &s.src;
    let bad = |ctx: &mut Ctx, what: &str| ctx.violation(&format!("{}:{}", what.split(':').next().unwrap(), src), format!("{}\n({})\n{}", what, curve.name(), src));
    // what appears in no constraint can take any value in a proof
    let mut free: BTreeSet<isize> = ci.args.iter().filter(|a| a.1).map(|a| a.0).collect();
    for s in &ci.stmts {
        if let St::Dir(d) = s {
            free.extend(d.outs.iter().cloned());
        }
    }
    for s in &ci.stmts {
        if let St::Con(c) = s {
            for l in [&c.a, &c.b, &c.c] {
                l.iter().for_each(|x| {
                    free.remove(&x.0);
                });
            }
        }
    }
    let bytes = match vf::write(&c.prog) {
        Err(e) => return bad(ctx, &format!("writing the program panicked: {}", e)),
        Ok(Err(e)) => {
            return if e.contains("unconstrained variable") && !free.is_empty() {
                ctx.count("reported_unconstrained_variables")
            } else {
                bad(ctx, &format!("writing the program failed: {} (unconstrained: {:?})", e, free))
            }
        }
        Ok(Ok((n, b))) => {
            if !free.is_empty() {
                return bad(ctx, &format!("unconstrained variables: {:?} are in no constraint, and this is not reported", free.iter().map(|v| vname(*v)).collect::<Vec<_>>()));
            }
            if n != ci.ncons() {
                return bad(ctx, &format!("number of constraints: {} reported, {} present", n, ci.ncons()));
            }
            b
        }
    };
    ctx.count("programs_written");
    ctx.max("file_bytes", bytes.len() as u64);
    let h = header(&bytes);
    if h.secs.iter().map(|s| s.0).collect::<Vec<_>>() != [1, 2, 3, 4] {
        return bad(ctx, &format!("header: sections of types {:?}", h.secs.iter().map(|s| s.0).collect::<Vec<_>>()));
    }
    let got = match vf::load(&bytes) {
        Ok(g) => g,
        Err(e) => return bad(ctx, &format!("reading a written program failed: {}", e)),
    };
    let (cv, name) = (got.curve(), got.name());
    if cv != curve {
        return bad(ctx, &format!("curve: written for {}, read for {}", curve.name(), cv.name()));
    }
    if name != curve.name() {
        return bad(ctx, &format!("curve name: {} is said to be {}", curve.name(), name));
    }
    let gc = got.cir();
    if gc.args != ci.args || gc.nret != ci.nret {
        return bad(ctx, &format!("signature: {:?} -> {} became {:?} -> {}", ci.args, ci.nret, gc.args, gc.nret));
    }
    let (a, b) = (shown(&c.prog, true), got.shown());
    if a != b {
        let i = a.iter().zip(&b).position(|(a, b)| a != b).unwrap_or(a.len().min(b.len()));
        return bad(ctx, &format!("statements: {} and {} of them; number {} was {:?} and became {:?}", a.len(), b.len(), i, a.get(i), b.get(i)));
    }
    if got.modules() != format!("{:?}", c.prog.module_map) {
        return bad(ctx, "module map: it changed");
    }
    match got.rewrite() {
        Ok(b) if b == bytes => {}
        Ok(_) => return bad(ctx, "writing again: the file differs"),
        Err(e) => return bad(ctx, &format!("writing again: {}", e)),
    }
    let outs: Vec<String> = s.inputs.iter().map(|i| got.outcome(i)).collect();
    for (i, o) in s.inputs.iter().zip(&outs) {
        ctx.eval();
        let mem = outcome(&c.prog, i);
        if &mem != o {
            return bad(ctx, &format!("execution: inputs {:?}: {} from memory, {} from the file", i, cut(&mem, 300), cut(o, 300)));
        }
        ctx.count("executions_compared");
    }
    if s.inputs.len() > 0 && ci.stmts.len() > 2 {
        ctx.nontrivial(&s.src);
    }
    ctx.sample(|| json!({"source": s.src, "bytes": bytes.len(), "outcomes": outs.iter().map(|o| cut(o, 200)).collect::<Vec<_>>()}));
    // files that are cut short or damaged
    for _ in 0..3 {
        let n = match ctx.rng.below(3) {
            0 => ctx.rng.below(bytes.len()),
            1 => bytes.len() - 1 - ctx.rng.below(8.min(bytes.len() - 1)),
            _ => (h.secs[1].1 as usize + ctx.rng.below(h.secs[1].2 as usize + 1)).min(bytes.len() - 1),
        };
        ctx.eval();
        match vf::load(&bytes[..n]) {
            Err(_) => ctx.count("truncated_files_refused"),
            Ok(_) => return bad(ctx, &format!("truncated: the first {} of {} bytes are accepted as a program", n, bytes.len())),
        }
    }
    let (o, l) = (h.secs[1].1 as usize, h.secs[1].2 as usize);
    if l > 0 && o + l <= bytes.len() {
        for _ in 0..4 {
            let mut b = bytes.clone();
            let at = o + ctx.rng.below(l);
            b[at] = match ctx.rng.below(3) {
                0 => b[at] ^ (1 << ctx.rng.below(8)),
                1 => 0xff,
                _ => ctx.rng.below(256) as u8,
            };
            ctx.eval();
            // how many statements the section holds, and whether it consists of statements at all
            match (vf::statements(&b[o..o + l]), vf::load(&b)) {
                (None, Ok(_)) => {
                    return bad(ctx, &format!("damaged: byte {} of the file changed to {:#x}: what follows is not a program, and is dropped silently", at, b[at]))
                }
                (None, Err(_)) => ctx.count("damaged_files_refused"),
                (Some(k), Ok(g)) => {
                    let n = g.len();
                    if n != k {
                        return bad(ctx, &format!("damaged: {} statements in the file, {} read", k, n));
                    }
                    ctx.count("damaged_files_still_programs");
                }
                (Some(_), Err(_)) => ctx.count("damaged_files_refused"),
            }
        }
    }
    // header
    let at = ctx.rng.below(12);
    let mut b = bytes.clone();
    b[at] ^= 1 << ctx.rng.below(8);
    ctx.eval();
    match vf::load(&b) {
        Err(_) => ctx.count("wrong_headers_refused"),
        Ok(_) => bad(ctx, &format!("header: byte {} of magic number, version or curve changed, and still accepted", at)),
    }
}

// ------------------------------------------------------------------ witnesses

fn random_witness<T: Field>(r: &mut Rng, p: &BigUint, n: usize) -> Witness<T> {
    let mut w = Witness::empty();
    let outs = r.below(5);
    for i in 0..outs {
        w.insert(Variable::public(i), fe(&r.big_below(p)));
    }
    if r.chance(5, 6) {
        w.insert(Variable::one(), T::one());
    }
    for _ in 0..n {
        let id = match r.below(4) {
            0 => r.below(1 << 30),
            _ => r.below(2 * n + 1),
        };
        let v = match r.below(5) {
            0 => BigUint::zero(),
            1 => p - big(1),
            2 => big(r.u64()),
            _ => r.big_below(p),
        };
        w.insert(Variable::new(id), fe(&v));
    }
    w
}

fn e02_t<T: Field>(ctx: &mut Ctx, curve: Curve) {
    let p = curve.p();
    let n = ctx.rng.below(60);
    let mut r = ctx.rng.clone();
    let w: Witness<T> = random_witness(&mut r, &p, n);
    ctx.rng = r;
    let want = wit(&w);
    ctx.case = json!({"curve": curve.name(), "witness": format!("{:?}", want)});
    let bad = |ctx: &mut Ctx, what: String| ctx.violation(&format!("witness:{}", what), format!("{}: {} {:?}", curve.name(), what, want));
    let mut b = vec![];
    if let Err(e) = w.write(&mut b) {
        return bad(ctx, format!("writing failed: {}", e));
    }
    ctx.eval();
    ctx.nontrivial(&b);
    match guard(|| Witness::<T>::read(&b[..])) {
        Ok(Ok(x)) if wit(&x) == want => ctx.count("witnesses_read_back"),
        Ok(Ok(x)) => return bad(ctx, format!("read back differently: {:?}", wit(&x))),
        Ok(Err(e)) => return bad(ctx, format!("reading failed: {}", e)),
        Err(e) => return bad(ctx, format!("reading panicked: {}", e)),
    }
    // outputs in order
    let outs: Vec<BigUint> = (0..).map_while(|i| want.get(&(-1 - i as isize)).cloned()).collect();
    match guard(|| w.return_values()) {
        Ok(v) if v.iter().map(be).collect::<Vec<_>>() == outs => ctx.count("return_values_compared"),
        v => return bad(ctx, format!("return values are {:?}", v)),
    }
    // text forms
    let name = |i: isize| {
        if i == 0 {
            "~one".to_string()
        } else if i < 0 {
            format!("~out_{}", -i - 1)
        } else {
            format!("_{}", i - 1)
        }
    };
    let text: BTreeSet<String> = want.iter().map(|(k, v)| format!("{} {}", name(*k), v)).collect();
    let got: BTreeSet<String> = w.to_string().lines().map(|s| s.to_string()).collect();
    if text != got {
        return bad(ctx, format!("shown as {:?}", got));
    }
    let mut j = vec![];
    w.write_json(&mut j).unwrap();
    let v: BTreeMap<String, String> = serde_json::from_slice(&j).unwrap_or_default();
    let wj: BTreeMap<String, String> = want.iter().map(|(k, v)| (name(*k), v.to_string())).collect();
    if v != wj {
        return bad(ctx, format!("as JSON: {:?}", v));
    }
    ctx.count("text_forms_compared");
    // damage
    if b.len() > 8 {
        let k = ctx.rng.below(b.len());
        match guard(|| Witness::<T>::read(&b[..k])) {
            Ok(Err(_)) => ctx.count("truncated_witnesses_refused"),
            Ok(Ok(x)) => return bad(ctx, format!("its first {} of {} bytes are accepted as {:?}", k, b.len(), wit(&x))),
            Err(e) => return bad(ctx, format!("reading its first {} bytes panics: {}", k, e)),
        }
        // an entry is a variable (8 bytes) and a value, the value in little-endian order
        let each = (b.len() - 8) / want.len();
        let e = ctx.rng.below(want.len());
        let at = 8 + e * each + 8;
        let mut c = b.clone();
        let over = &p + ctx.rng.big_below(&big(1000));
        let mut ov = over.to_bytes_le();
        if ov.len() <= each - 8 {
            ov.resize(each - 8, 0);
            c[at..at + each - 8].copy_from_slice(&ov);
            match guard(|| Witness::<T>::read(&c[..])) {
                Ok(Err(_)) => ctx.count("values_above_the_prime_refused"),
                Ok(Ok(x)) => return bad(ctx, format!("with a value of {} in it, read as {:?}", over, wit(&x))),
                Err(e) => return bad(ctx, format!("with a value of {} in it, reading panics: {}", over, e)),
            }
        }
    }
    ctx.sample(|| json!({"curve": curve.name(), "witness": cut(&format!("{:?}", want), 400)}));
}

fn e02(ctx: &mut Ctx, _idx: u64) {
    let curve = any_curve(ctx);
    match curve {
        Curve::Bn128 => e02_t::<Bn128Field>(ctx, curve),
        Curve::Bls12_381 => e02_t::<Bls12_381Field>(ctx, curve),
        Curve::Bls12_377 => e02_t::<Bls12_377Field>(ctx, curve),
        Curve::Bw6_761 => e02_t::<Bw6_761Field>(ctx, curve),
        Curve::Pallas => e02_t::<PallasField>(ctx, curve),
        Curve::Vesta => e02_t::<VestaField>(ctx, curve),
    }
}

// ------------------------------------------------------------------ circom

pub struct R1cs {
    pub n8: usize,
    pub prime: BigUint,
    pub wires: usize,
    pub out: usize,
    pub pubin: usize,
    pub prv: usize,
    pub labels: u64,
    pub cons: Vec<[Vec<(usize, BigUint)>; 3]>,
    pub map: Vec<u64>,
}

fn sections(b: &[u8], magic: &[u8], version: u64) -> Result<BTreeMap<u64, Vec<u8>>, String> {
    if b.len() < 12 || &b[..4] != magic || le(&b[4..8]) != version {
        return Err("bad magic number or version".into());
    }
    let n = le(&b[8..12]);
    let mut o = 12;
    let mut m = BTreeMap::new();
    for _ in 0..n {
        if o + 12 > b.len() {
            return Err("a section header is missing".into());
        }
        let (t, l) = (le(&b[o..o + 4]), le(&b[o + 4..o + 12]) as usize);
        o += 12;
        if o + l > b.len() {
            return Err(format!("section {} of length {} runs past the end", t, l));
        }
        if m.insert(t, b[o..o + l].to_vec()).is_some() {
            return Err(format!("section {} appears twice", t));
        }
        o += l;
    }
    if o != b.len() {
        return Err(format!("{} bytes after the last section", b.len() - o));
    }
    Ok(m)
}

struct Rd<'a>(&'a [u8], usize);
impl<'a> Rd<'a> {
    fn n(&mut self, k: usize) -> Result<u64, String> {
        Ok(le(self.b(k)?))
    }
    fn b(&mut self, k: usize) -> Result<&'a [u8], String> {
        if self.1 + k > self.0.len() {
            return Err("a section is too short".into());
        }
        self.1 += k;
        Ok(&self.0[self.1 - k..self.1])
    }
    fn end(&self) -> Result<(), String> {
        if self.1 == self.0.len() {
            Ok(())
        } else {
            Err(format!("a section is {} bytes too long", self.0.len() - self.1))
        }
    }
}

pub fn parse_r1cs(b: &[u8]) -> Result<R1cs, String> {
    let m = sections(b, b"r1cs", 1)?;
    let h = m.get(&1).ok_or("no header section")?;
    let mut r = Rd(h, 0);
    let n8 = r.n(4)? as usize;
    let prime = BigUint::from_bytes_le(r.b(n8)?);
    let (wires, out, pubin, prv) = (r.n(4)? as usize, r.n(4)? as usize, r.n(4)? as usize, r.n(4)? as usize);
    let labels = r.n(8)?;
    let nc = r.n(4)? as usize;
    r.end().map_err(|e| format!("header: {}", e))?;
    let cs = m.get(&2).ok_or("no constraint section")?;
    let mut r = Rd(cs, 0);
    let mut cons = vec![];
    for _ in 0..nc {
        let mut t: [Vec<(usize, BigUint)>; 3] = Default::default();
        for l in t.iter_mut() {
            let k = r.n(4)?;
            for _ in 0..k {
                let w = r.n(4)? as usize;
                if w >= wires {
                    return Err(format!("wire {} of {}", w, wires));
                }
                let c = BigUint::from_bytes_le(r.b(n8)?);
                if c >= prime {
                    return Err("a coefficient above the prime".into());
                }
                l.push((w, c));
            }
        }
        cons.push(t);
    }
    r.end().map_err(|e| format!("constraints: {}", e))?;
    let t = m.get(&3).ok_or("no wire table")?;
    let mut r = Rd(t, 0);
    let map = (0..wires).map(|_| r.n(8)).collect::<Result<Vec<_>, _>>()?;
    r.end().map_err(|e| format!("wire table: {}", e))?;
    Ok(R1cs { n8, prime, wires, out, pubin, prv, labels, cons, map })
}

pub fn parse_wtns(b: &[u8]) -> Result<(BigUint, Vec<BigUint>), String> {
    let m = sections(b, b"wtns", 2)?;
    let h = m.get(&1).ok_or("no header section")?;
    let mut r = Rd(h, 0);
    let n8 = r.n(4)? as usize;
    let prime = BigUint::from_bytes_le(r.b(n8)?);
    let n = r.n(4)?;
    r.end()?;
    let mut r = Rd(m.get(&2).ok_or("no values")?, 0);
    let v = (0..n).map(|_| Ok(BigUint::from_bytes_le(r.b(n8)?))).collect::<Result<Vec<_>, String>>()?;
    r.end()?;
    Ok((prime, v))
}

fn e04(ctx: &mut Ctx, _idx: u64) {
    let curve = any_curve(ctx);
    dynf::select(curve);
    let s = source(ctx, curve, 3);
    ctx.case = json!({"source": s.src, "curve": curve.name()});
    let arena = Arena::new();
    let c = match compile::<D>(&s.src, &arena) {
        Ok(c) => c,
        Err(_) => return ctx.count("not_compiled"),
    };
    let ci = cir(&c.prog);
    let src = &s.src;
    let bad = |ctx: &mut Ctx, what: String| ctx.violation(&format!("{}:{}", what.split(':').next().unwrap(), src), format!("{}\n({})\n{}", what, curve.name(), src));
    let mut b = vec![];
    let p2 = c.prog.clone();
    match guard(|| zokrates_circom::write_r1cs(&mut b, p2).map_err(|e| e.to_string())) {
        Ok(Ok(())) => {}
        e => return bad(ctx, format!("r1cs writer: {:?}", e)),
    }
    let r = match parse_r1cs(&b) {
        Ok(r) => r,
        Err(e) => return bad(ctx, format!("r1cs file: {}", e)),
    };
    ctx.count("r1cs_files_parsed");
    ctx.eval();
    let pubs: Vec<isize> = ci.args.iter().filter(|a| !a.1).map(|a| a.0).collect();
    let prvs: Vec<isize> = ci.args.iter().filter(|a| a.1).map(|a| a.0).collect();
    if r.prime != curve.p() || r.n8 % 8 != 0 {
        return bad(ctx, format!("r1cs header: prime {} in {} bytes", r.prime, r.n8));
    }
    if (r.out, r.pubin, r.prv) != (ci.nret, pubs.len(), prvs.len()) {
        return bad(ctx, format!("r1cs header: {} outputs, {} public and {} private inputs, where there are {}, {} and {}", r.out, r.pubin, r.prv, ci.nret, pubs.len(), prvs.len()));
    }
    if r.wires < 1 + r.out + r.pubin + r.prv || r.labels < r.wires as u64 {
        return bad(ctx, format!("r1cs header: {} wires and {} labels for {} outputs and {} inputs", r.wires, r.labels, r.out, r.pubin + r.prv));
    }
    if r.map.iter().any(|x| *x >= r.labels) || r.map.get(0) != Some(&0) {
        return bad(ctx, "r1cs wire table: a label out of range".into());
    }
    // wires: one, outputs, public inputs, then the rest in any order, each standing for one variable
    let mut var: Vec<Option<isize>> = vec![None; r.wires];
    let mut wire: BTreeMap<isize, usize> = BTreeMap::new();
    let fixed: Vec<isize> = std::iter::once(0)
        .chain((0..ci.nret as isize).map(|i| -1 - i))
        .chain(pubs.iter().cloned())
        .collect();
    for (i, v) in fixed.iter().enumerate() {
        var[i] = Some(*v);
        wire.insert(*v, i);
    }
    let cons: Vec<&Con> = ci.stmts.iter().filter_map(|s| if let St::Con(c) = s { Some(c) } else { None }).collect();
    if cons.len() != r.cons.len() {
        return bad(ctx, format!("r1cs constraints: {} written, {} in the program", r.cons.len(), cons.len()));
    }
    // the wires of the remaining variables are read off the constraints, and must be consistent; a wire or variable
    // in a combination whose counterpart is not known yet is matched by its coefficient when that decides it
    let mut progress = true;
    let mut done = vec![false; cons.len() * 3];
    while progress {
        progress = false;
        for (i, (a, b)) in cons.iter().zip(&r.cons).enumerate() {
            for (k, (l, m)) in [&a.a, &a.b, &a.c].iter().zip(b.iter()).enumerate() {
                if done[i * 3 + k] {
                    continue;
                }
                let mut l: Vec<(isize, BigUint)> = l.iter().filter(|x| !x.1.is_zero()).cloned().collect();
                let mut m: Vec<(usize, BigUint)> = m.iter().filter(|x| !x.1.is_zero()).cloned().collect();
                // strike out known pairs
                let mut j = 0;
                while j < l.len() {
                    if let Some(w) = wire.get(&l[j].0) {
                        match m.iter().position(|x| x.0 == *w && x.1 == l[j].1) {
                            Some(q) => {
                                m.remove(q);
                                l.remove(j);
                                continue;
                            }
                            None => return bad(ctx, format!("r1cs constraint {}: {:?} in the program became {:?}", i, cons[i], r.cons[i])),
                        }
                    }
                    j += 1;
                }
                if l.len() != m.len() || m.iter().any(|x| var[x.0].is_some()) {
                    return bad(ctx, format!("r1cs constraint {}: {:?} in the program became {:?}", i, cons[i], r.cons[i]));
                }
                if l.is_empty() {
                    done[i * 3 + k] = true;
                    progress = true;
                    continue;
                }
                for (v, c) in &l {
                    let same_l = l.iter().filter(|x| x.1 == *c).count();
                    let cand: Vec<usize> = m.iter().filter(|x| x.1 == *c).map(|x| x.0).collect();
                    if cand.len() != same_l {
                        return bad(ctx, format!("r1cs constraint {}: {:?} in the program became {:?}", i, cons[i], r.cons[i]));
                    }
                    if cand.len() == 1 {
                        wire.insert(*v, cand[0]);
                        var[cand[0]] = Some(*v);
                        progress = true;
                        break;
                    }
                }
            }
        }
    }
    let decided = done.iter().all(|d| *d);
    ctx.count(if decided { "wires_identified" } else { "wires_partly_identified" });
    for ins in &s.inputs {
        if let Exec::Ok(w, _) = execute(&c.prog, ins) {
            let mut b = vec![];
            let wv = wit(&w);
            let public = c.prog.public_inputs();
            match guard(|| zokrates_circom::write_witness(&mut b, w, public).map_err(|e| e.to_string())) {
                Ok(Ok(())) => {}
                e => return bad(ctx, format!("witness writer: {:?}", e)),
            }
            let (p, vals) = match parse_wtns(&b) {
                Ok(x) => x,
                Err(e) => return bad(ctx, format!("witness file: {}", e)),
            };
            ctx.eval();
            if p != curve.p() || vals.len() != r.wires {
                return bad(ctx, format!("witness file: {} values for {} wires (prime {})", vals.len(), r.wires, p));
            }
            for (i, v) in var.iter().enumerate() {
                if let Some(v) = v {
                    if wv.get(v) != Some(&vals[i]) {
                        return bad(ctx, format!("witness file: wire {} stands for {} = {:?}, but has value {} (inputs {:?})", i, vname(*v), wv.get(v), vals[i], ins));
                    }
                    ctx.count("wire_values_compared");
                }
            }
            for (i, c) in r.cons.iter().enumerate() {
                let ev = |l: &Vec<(usize, BigUint)>| l.iter().fold(BigUint::zero(), |a, (w, c)| (a + c * &vals[*w]) % &p);
                if ev(&c[0]) * ev(&c[1]) % &p != ev(&c[2]) {
                    return bad(ctx, format!("witness file: constraint {} of the r1cs file does not hold (inputs {:?})", i, ins));
                }
            }
            ctx.count("witnesses_checked_against_r1cs");
            if cons.len() > 1 {
                ctx.nontrivial((&s.src, ins));
            }
            ctx.sample(|| json!({"source": s.src, "wires": r.wires, "constraints": r.cons.len()}));
        }
    }
}

// ------------------------------------------------------------------ SMT-LIB2

#[derive(Debug, Clone)]
enum Sx {
    A(String),
    L(Vec<Sx>),
}

fn sexps(s: &str) -> Result<Vec<Sx>, String> {
    let mut st: Vec<Vec<Sx>> = vec![vec![]];
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            ';' => {
                while i < b.len() && b[i] != '\n' {
                    i += 1;
                }
            }
            '(' => st.push(vec![]),
            ')' => {
                let l = st.pop().unwrap();
                st.last_mut().ok_or("unbalanced parentheses")?.push(Sx::L(l));
            }
            c if c.is_whitespace() => {}
            '|' => {
                let j = b[i + 1..].iter().position(|c| *c == '|').ok_or("unterminated symbol")? + i + 1;
                st.last_mut().unwrap().push(Sx::A(b[i..=j].iter().collect()));
                i = j;
            }
            _ => {
                let mut j = i;
                while j < b.len() && !b[j].is_whitespace() && !"()|;".contains(b[j]) {
                    j += 1;
                }
                st.last_mut().unwrap().push(Sx::A(b[i..j].iter().collect()));
                i = j - 1;
            }
        }
        i += 1;
    }
    if st.len() != 1 {
        return Err("unbalanced parentheses".into());
    }
    Ok(st.pop().unwrap())
}

#[derive(Debug, Clone, PartialEq)]
enum Sv {
    I(num_bigint::BigInt),
    B(bool),
}

fn sev(x: &Sx, env: &BTreeMap<String, num_bigint::BigInt>) -> Result<Sv, String> {
    use num_bigint::BigInt;
    match x {
        Sx::A(a) => {
            if let Ok(n) = a.parse::<BigInt>() {
                if a.starts_with('-') {
                    return Err(format!("{} is not a numeral", a));
                }
                return Ok(Sv::I(n));
            }
            match a.as_str() {
                "true" => Ok(Sv::B(true)),
                "false" => Ok(Sv::B(false)),
                _ => env.get(a).cloned().map(Sv::I).ok_or(format!("{} is not declared", a)),
            }
        }
        Sx::L(l) => {
            let op = match l.get(0) {
                Some(Sx::A(a)) => a.as_str(),
                _ => return Err("not an application".into()),
            };
            let args = l[1..].iter().map(|x| sev(x, env)).collect::<Result<Vec<_>, _>>()?;
            let int = |v: &Sv| if let Sv::I(i) = v { Ok(i.clone()) } else { Err("an integer is expected".to_string()) };
            let boo = |v: &Sv| if let Sv::B(i) = v { Ok(*i) } else { Err("a boolean is expected".to_string()) };
            match op {
                "+" | "*" if args.len() >= 2 => {
                    let v = args.iter().map(int).collect::<Result<Vec<_>, _>>()?;
                    Ok(Sv::I(if op == "+" {
                        v.iter().fold(BigInt::zero(), |a, b| a + b)
                    } else {
                        v.iter().fold(BigInt::one(), |a, b| a * b)
                    }))
                }
                "-" if args.len() >= 1 => {
                    let v = args.iter().map(int).collect::<Result<Vec<_>, _>>()?;
                    Ok(Sv::I(if v.len() == 1 { -v[0].clone() } else { v[1..].iter().fold(v[0].clone(), |a, b| a - b) }))
                }
                "mod" if args.len() == 2 => {
                    let (a, m) = (int(&args[0])?, int(&args[1])?);
                    if m.is_zero() {
                        return Err("mod 0".into());
                    }
                    let r = &a % &m;
                    Ok(Sv::I(if r < BigInt::zero() { r + m } else { r }))
                }
                "=" if args.len() >= 2 => Ok(Sv::B(args.windows(2).all(|w| w[0] == w[1]))),
                "and" => {
                    let v = args.iter().map(boo).collect::<Result<Vec<_>, _>>()?;
                    Ok(Sv::B(v.iter().all(|b| *b)))
                }
                "or" => {
                    let v = args.iter().map(boo).collect::<Result<Vec<_>, _>>()?;
                    Ok(Sv::B(v.iter().any(|b| *b)))
                }
                "not" if args.len() == 1 => Ok(Sv::B(!boo(&args[0])?)),
                "<" | "<=" | ">" | ">=" if args.len() == 2 => {
                    let (a, b) = (int(&args[0])?, int(&args[1])?);
                    Ok(Sv::B(match op {
                        "<" => a < b,
                        "<=" => a <= b,
                        ">" => a > b,
                        _ => a >= b,
                    }))
                }
                _ => Err(format!("unknown application of {} to {} arguments", op, args.len())),
            }
        }
    }
}

fn e05(ctx: &mut Ctx, _idx: u64) {
    let small = ctx.rng.chance(1, 4);
    let curve = any_curve(ctx);
    dynf::select(curve);
    let s = source(ctx, curve, 3);
    let _ = small;
    ctx.case = json!({"source": s.src, "curve": curve.name()});
    let arena = Arena::new();
    let c = match compile::<D>(&s.src, &arena) {
        Ok(c) => c,
        Err(_) => return ctx.count("not_compiled"),
    };
    let ci = cir(&c.prog);
    let src = &s.src;
    let bad = |ctx: &mut Ctx, what: String| ctx.violation(&format!("{}:{}", what.split(':').next().unwrap(), src), format!("{}\n({})\n{}", what, curve.name(), src));
    let text = match guard(|| ir::smtlib2::SMTLib2Display(&c.prog).to_string()) {
        Ok(t) => t,
        Err(e) => return bad(ctx, format!("smtlib2 writer: panicked: {}", e)),
    };
    let xs = match sexps(&text) {
        Ok(x) => x,
        Err(e) => return bad(ctx, format!("smtlib2 text: {}", e)),
    };
    let mut decl: BTreeSet<String> = BTreeSet::new();
    let mut asserts = vec![];
    for x in &xs {
        match x {
            Sx::L(l) => match (&l[..], l.get(0)) {
                ([Sx::A(_), Sx::A(n), Sx::A(t)], Some(Sx::A(k))) if k == "declare-const" => {
                    if t != "Int" || !decl.insert(n.clone()) {
                        return bad(ctx, format!("smtlib2 declarations: {} of sort {}", n, t));
                    }
                }
                ([Sx::A(_), a], Some(Sx::A(k))) if k == "assert" => asserts.push(a),
                _ => return bad(ctx, format!("smtlib2 text: {:?}", x)),
            },
            x => return bad(ctx, format!("smtlib2 text: {:?}", x)),
        }
    }
    ctx.count("formulas_parsed");
    let p = curve.p();
    let mut vars: BTreeSet<isize> = BTreeSet::new();
    vars.insert(0);
    for s in &ci.stmts {
        if let St::Con(c) = s {
            for l in [&c.a, &c.b, &c.c] {
                vars.extend(l.iter().map(|x| x.0));
            }
        }
    }
    let name = |i: isize| format!("|{}|", if i == 0 { "~one".into() } else if i < 0 { format!("~out_{}", -i - 1) } else { format!("_{}", i - 1) });
    for v in &vars {
        if !decl.contains(&name(*v)) {
            return bad(ctx, format!("smtlib2 declarations: {} is not declared", name(*v)));
        }
    }
    let formula = |w: &Wit, prime: &BigUint, r: &mut Rng| -> Result<bool, String> {
        let mut env: BTreeMap<String, num_bigint::BigInt> = BTreeMap::new();
        for d in &decl {
            // declared but unconstrained variables can have any value
            env.insert(d.clone(), num_bigint::BigInt::from(r.u64()));
        }
        for (k, v) in w {
            env.insert(name(*k), v.clone().into());
        }
        env.insert("|~prime|".into(), prime.clone().into());
        let mut all = true;
        for a in &asserts {
            match sev(a, &env)? {
                Sv::B(b) => all &= b,
                _ => return Err("an assertion is not a boolean".into()),
            }
        }
        Ok(all)
    };
    let mut r = Rng::new(ctx.rng.u64());
    for ins in &s.inputs {
        if let Exec::Ok(w, _) = execute(&c.prog, ins) {
            let w = wit(&w);
            ctx.eval();
            match formula(&w, &p, &mut r) {
                Ok(true) => ctx.count("witnesses_satisfy_the_formula"),
                x => return bad(ctx, format!("smtlib2 formula: {:?} under a valid witness (inputs {:?})", x, ins)),
            }
            if vars.len() > 1 {
                ctx.nontrivial((&s.src, ins));
            }
            for k in 0..6 {
                let mut m = w.clone();
                let ks: Vec<isize> = vars.iter().cloned().collect();
                let n = if k < 4 { 1 } else { r.range(1, 4) };
                for _ in 0..n {
                    let v = *r.pick(&ks);
                    let old = m.get(&v).cloned().unwrap_or_default();
                    let new = match r.below(5) {
                        0 => (&old + big(1)) % &p,
                        1 => (&p - (&old % &p)) % &p,
                        2 => big(r.below(2) as u64),
                        // the same value modulo the prime: the formula is about integers
                        3 if v != 0 => &old + &p,
                        _ => r.big_below(&p),
                    };
                    m.insert(v, new);
                }
                let want = m.get(&0) == Some(&big(1)) && ci.stmts.iter().all(|s| match s {
                    St::Con(c) => {
                        let e = |l: &Lc| eval_lc(l, &m, &p).unwrap();
                        e(&c.a) * e(&c.b) % &p == e(&c.c)
                    }
                    _ => true,
                });
                ctx.eval();
                match formula(&m, &p, &mut r) {
                    Ok(x) if x == want => ctx.count(if want { "assignments_satisfying_both" } else { "assignments_violating_both" }),
                    x => return bad(ctx, format!("smtlib2 formula: {:?} under an assignment for which the constraints are {}: {:?}", x, want, m)),
                }
            }
            match formula(&w, &(&p + big(2)), &mut r) {
                Ok(false) => {}
                x => return bad(ctx, format!("smtlib2 formula: {:?} with a different prime", x)),
            }
            ctx.sample(|| json!({"source": s.src, "formula": cut(&text, 600)}));
        }
    }
}

// ------------------------------------------------------------------ bellperson

fn e06(ctx: &mut Ctx, _idx: u64) {
    let curve = *ctx.rng.pick(&[Curve::Pallas, Curve::Vesta]);
    dynf::select(curve);
    let s = source(ctx, curve, 3);
    ctx.case = json!({"source": s.src, "curve": curve.name()});
    let arena = Arena::new();
    let c = match compile::<D>(&s.src, &arena) {
        Ok(c) => c,
        Err(_) => return ctx.count("not_compiled"),
    };
    let prog = match vf::write(&c.prog) {
        Ok(Ok((_, b))) => match vf::load(&b) {
            Ok(p) => p,
            Err(_) => return ctx.count("not_read"),
        },
        _ => return ctx.count("not_written"),
    };
    let ci = prog.cir();
    let src = &s.src;
    let p = curve.p();
    let bad = |ctx: &mut Ctx, what: String| ctx.violation(&format!("{}:{}", what.split(':').next().unwrap(), src), format!("{}\n({})\n{}", what, curve.name(), src));
    let mut vars: BTreeSet<isize> = ci.args.iter().map(|a| a.0).collect();
    vars.insert(0);
    vars.extend((0..ci.nret as isize).map(|i| -1 - i));
    for s in &ci.stmts {
        if let St::Con(c) = s {
            for l in [&c.a, &c.b, &c.c] {
                vars.extend(l.iter().map(|x| x.0));
            }
        }
    }
    let cons: Vec<&Con> = ci.stmts.iter().filter_map(|s| if let St::Con(c) = s { Some(c) } else { None }).collect();
    let pubs: Vec<isize> = ci.args.iter().filter(|a| !a.1).map(|a| a.0).chain((0..ci.nret as isize).map(|i| -1 - i)).collect();
    let check = |ctx: &mut Ctx, wv: &Wit, valid: bool| -> bool {
        ctx.eval();
        let b = match prog.bell(Some(wv)) {
            Some(Ok(b)) if !b.missing => b,
            Some(Ok(_)) => {
                bad(ctx, "synthesis: assignments are missing".into());
                return false;
            }
            Some(Err(e)) => {
                bad(ctx, format!("synthesis: {}", e));
                return false;
            }
            None => return false,
        };
        let want: Vec<BigUint> = pubs.iter().map(|v| wv[v].clone()).collect();
        if b.ins != want || b.public != want {
            bad(ctx, format!("public inputs: the circuit has {:?}, the verifier is given {:?}, expected {:?}", b.ins, b.public, want));
            return false;
        }
        if cons.len() != b.cons.len() {
            bad(ctx, format!("constraints: {} of {}", b.cons.len(), cons.len()));
            return false;
        }
        for (i, (c, g)) in cons.iter().zip(&b.cons).enumerate() {
            let e = |l: &Lc| eval_lc(l, wv, &p).unwrap();
            let x = (e(&c.a), e(&c.b), e(&c.c));
            if &x != g {
                bad(ctx, format!("constraint {}: under an assignment it is {:?}, in the circuit {:?}", i, x, g));
                return false;
            }
            if valid && &x.0 * &x.1 % &p != x.2 {
                bad(ctx, format!("constraint {}: violated by a witness", i));
                return false;
            }
            ctx.count("constraints_compared");
        }
        true
    };
    for ins in &s.inputs {
        if let Some(w) = prog.run(ins) {
            if !check(ctx, &w, true) {
                return;
            }
            ctx.count("valid_witnesses");
        }
    }
    for _ in 0..2 {
        let w: Wit = vars.iter().map(|v| (*v, if *v == 0 { big(1) } else { ctx.rng.big_below(&p) })).collect();
        if !check(ctx, &w, false) {
            return;
        }
        ctx.count("random_assignments");
        if ci.ncons() > 1 {
            ctx.nontrivial((src, ctx.evals));
        }
    }
    // the shape without values is the same
    match prog.bell(None) {
        Some(Ok(b)) if b.cons.len() == cons.len() && b.ins.len() == pubs.len() => {}
        Some(Ok(b)) => return bad(ctx, format!("synthesis without a witness: {} constraints, {} public inputs", b.cons.len(), b.ins.len())),
        Some(Err(e)) => return bad(ctx, format!("synthesis without a witness: {}", e)),
        None => {}
    }
    ctx.sample(|| json!({"source": src, "constraints": ci.ncons()}));
}

pub fn props() -> Vec<Prop> {
    let d = |id, rule, run, quick, thorough, require| Prop {
        id,
        level: "exploration",
        rule,
        assumptions: &[],
        quick,
        thorough,
        quick_s: 60,
        thorough_s: 600,
        run,
        require,
    };
    vec![
        d("E01", "written programs are read back", e01 as fn(&mut Ctx, u64), 8000, 100000, &["programs_written", "executions_compared", "damaged_files_refused"]),
        d("E02", "written witnesses are read back", e02, 40000, 400000, &["witnesses_read_back"]),
        d("E04", "circom files describe the program", e04, 8000, 100000, &["witnesses_checked_against_r1cs", "wires_identified"]),
        d("E05", "the SMT formula is the constraint system", e05, 6000, 60000, &["witnesses_satisfy_the_formula", "assignments_violating_both"]),
        d("E06", "bellperson circuits are the program", e06, 6000, 60000, &["valid_witnesses", "random_assignments"]),
    ]
}
