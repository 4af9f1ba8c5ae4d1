//! Determinism of compilation; the ABI.
use super::files::{any_curve, source};
use vlib::by_curve;
use crate::dynf::{self, D};
use crate::engine::*;
use crate::prng::Rng;
use crate::prog::*;
use crate::run::{Ctx, Prop};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use serde_json::{json, Value as J};
use typed_arena::Arena;
use zokrates_abi::{Decode, Encode};
use zokrates_ast::ir;
use zokrates_ast::typed::types::{ConcreteStructMember, ConcreteStructType, ConcreteTupleType, ConcreteType, UBitwidth};
use zokrates_field::Field;

// ------------------------------------------------------------------ determinism

/// programs whose compilation goes through sets and maps: several dynamic indices, many names, overloads, modules
fn many_names(r: &mut Rng) -> (String, usize) {
    let n = r.range(2, 6);
    let dims = r.range(1, 4);
    let sizes: Vec<usize> = (0..dims).map(|_| r.range(1, 4)).collect();
    let ty = format!("field{}", sizes.iter().map(|s| format!("[{}]", s)).collect::<String>());
    let mut s = String::new();
    for i in 0..n {
        s += &format!("const field K{} = {};\n", i, r.below(1000));
        s += &format!("struct S{} {{ {} }}\n", i, (0..r.range(1, 4)).map(|k| format!("field m{};", k)).collect::<Vec<_>>().join(" "));
    }
    // overloads
    for i in 0..r.range(1, 5) {
        let t = ["field", "bool", "u8", "u32", "field[2]"][i];
        s += &format!("def f({} a) -> field {{\n    return {};\n}}\n", t, r.below(100));
    }
    for i in 0..r.range(1, 4) {
        s += &format!("def g<N>(field[{}][N] a) -> field {{\n    return {};\n}}\n", i + 1, r.below(100));
    }
    let idx: Vec<String> = (0..dims).map(|i| format!("u32 i{}", i)).collect();
    s += &format!("def main({} mut a, {}, field x, field y) -> ({}, field) {{\n", ty, idx.join(", "), ty);
    for _ in 0..r.range(1, 3) {
        let mut ix: Vec<usize> = (0..dims).collect();
        r.shuffle(&mut ix);
        let at: String = (0..dims).map(|k| if r.chance(1, 6) { format!("[{}]", r.below(sizes[k])) } else { format!("[i{}]", ix[k]) }).collect();
        s += &format!("    a{} = {};\n", at, ["x", "y", "x * y", "x + K0", "f(x) + y", "g([[x, y]])"][r.below(6)]);
        if r.chance(1, 3) {
            s += "    assert(x != y + K1);\n";
        }
        if r.chance(1, 3) {
            s += "    log(\"{} {}\", x, y);\n";
        }
    }
    let z = (0..dims).map(|_| "[0]").collect::<String>();
    s += &format!("    return (a, a{} * x + K{} + f(y));\n}}\n", z, n - 1);
    (s, sizes.iter().product::<usize>() + dims + 2)
}

struct Built {
    bytes: Result<Vec<u8>, String>,
    abi: String,
    text: Vec<String>,
    r1cs: Vec<u8>,
    smt: String,
    tags: String,
    runs: Vec<String>,
}

fn build(src: &str, mods: Option<&MapResolver>, debug: bool, ins: &[Vec<BigUint>]) -> Result<Built, String> {
    let arena = Arena::new();
    let c = compile_with::<D>(src, &arena, mods.map(|m| m as &dyn zokrates_common::Resolver<std::io::Error>), debug).map_err(|e| e.text().to_string())?;
    let mut r1cs = vec![];
    let p2 = c.prog.clone();
    let _ = guard(|| zokrates_circom::write_r1cs(&mut r1cs, p2).map_err(|e| e.to_string()));
    Ok(Built {
        bytes: match vf::write(&c.prog) {
            Ok(r) => r.map(|x| x.1),
            Err(e) => Err(e),
        },
        abi: serde_json::to_string(&c.abi).unwrap_or_default(),
        text: shown(&c.prog, true),
        r1cs,
        smt: guard(|| ir::smtlib2::SMTLib2Display(&c.prog).to_string()).unwrap_or_default(),
        tags: format!("{:?} {} {:?}", c.prog.arguments, c.prog.return_count, c.prog.module_map),
        runs: ins.iter().map(|i| outcome(&c.prog, i)).collect(),
    })
}

fn d01(ctx: &mut Ctx, _idx: u64) {
    let curve = any_curve(ctx);
    dynf::select(curve);
    let p = curve.p();
    let mut mods = None;
    let (mut src, ins) = if ctx.rng.chance(1, 2) {
        let mut r = ctx.rng.clone();
        let (s, n) = many_names(&mut r);
        ctx.rng = r;
        let ins = (0..2).map(|_| (0..n).map(|_| if ctx.rng.chance(2, 3) { big(ctx.rng.below(4) as u64) } else { ctx.rng.big_below(&p) }).collect::<Vec<_>>()).collect();
        (s, ins)
    } else {
        let s = source(ctx, curve, 2);
        (s.src, s.inputs)
    };
    // everything but main in a module of its own, next to a few more
    if let (true, Some(at)) = (ctx.rng.chance(1, 3), src.find("def main(")) {
        let (lib, main) = src.split_at(at);
        if !lib.is_empty() && !lib.contains("import") {
            let mut m = std::collections::BTreeMap::new();
            let k = ctx.rng.range(1, 5);
            let mut names = vec![];
            for l in lib.lines() {
                let w: Vec<&str> = l.split_whitespace().collect();
                match w.get(0) {
                    Some(&"const") => names.push(w[w.iter().position(|x| *x == "=").unwrap_or(1) - 1].to_string()),
                    Some(&"struct") => names.push(w[1].split('<').next().unwrap().to_string()),
                    Some(&"def") => names.push(w[1].split(|c| c == '(' || c == '<').next().unwrap().to_string()),
                    _ => {}
                }
            }
            names.sort();
            names.dedup();
            m.insert("lib".to_string(), lib.to_string());
            let mut new = String::new();
            for i in 0..k {
                m.insert(format!("m{}", i), format!("const field Q{} = {};\ndef h{}(field a) -> field {{\n    return a * a + Q{};\n}}\n", i, i + 7, i, i));
                new += &format!("from \"m{}\" import h{};\n", i, i);
            }
            new += &format!("from \"lib\" import {};\n", names.join(", "));
            src = new + main;
            mods = Some(MapResolver(m));
            ctx.count("programs_of_several_modules");
        }
    }
    let debug = ctx.rng.chance(1, 3);
    ctx.case = json!({"source": src, "curve": curve.name(), "modules": mods.as_ref().map(|m| m.0.clone())});
    let first = build(&src, mods.as_ref(), debug, &ins);
    ctx.count(if first.is_ok() { "programs" } else { "rejected_programs" });
    if let (Err(e), true) = (&first, ctx.verbose) {
        println!("{}\n{}", e, src);
    }
    let bad = |ctx: &mut Ctx, what: String| ctx.violation(&format!("{}:{}", what.split(':').next().unwrap(), src), format!("{}\n({})\n{}", what, curve.name(), src));
    for k in 0..4 {
        let again = if k == 2 {
            // a thread that has compiled nothing yet
            std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(1 << 28)
                    .spawn_scoped(s, || {
                        dynf::select(curve);
                        build(&src, mods.as_ref(), debug, &ins)
                    })
                    .unwrap()
                    .join()
                    .unwrap_or_else(|_| Err("thread".into()))
            })
        } else {
            build(&src, mods.as_ref(), debug, &ins)
        };
        ctx.eval();
        match (&first, &again) {
            (Err(_), Err(_)) => ctx.count("rejections_repeated"),
            (Ok(a), Ok(b)) => {
                if a.text != b.text {
                    let i = a.text.iter().zip(&b.text).position(|(a, b)| a != b).unwrap_or(a.text.len().min(b.text.len()));
                    return bad(ctx, format!("statements: two compilations of one source differ: {:?} or {:?}", a.text.get(i), b.text.get(i)));
                }
                if a.tags != b.tags {
                    return bad(ctx, format!("signature or modules: two compilations differ: {} or {}", a.tags, b.tags));
                }
                if a.abi != b.abi {
                    return bad(ctx, format!("abi: two compilations differ: {} or {}", a.abi, b.abi));
                }
                if a.bytes != b.bytes {
                    return bad(ctx, "file: two compilations give different files".into());
                }
                if a.r1cs != b.r1cs {
                    return bad(ctx, "r1cs: two compilations give different files".into());
                }
                if a.smt != b.smt {
                    return bad(ctx, "smtlib2: two compilations give different formulas".into());
                }
                if a.runs != b.runs {
                    return bad(ctx, format!("execution: {:?} or {:?}", a.runs, b.runs));
                }
                ctx.count("compilations_compared");
                ctx.nontrivial(&src);
            }
            _ => {
                let e = first.as_ref().err().or(again.as_ref().err()).unwrap();
                return bad(ctx, format!("acceptance: the same source is accepted and refused: {}", e));
            }
        }
    }
    if let Ok(b) = &first {
        ctx.add("executions_compared", 4 * b.runs.len() as u64);
        let n = b.text.len();
        ctx.sample(|| json!({"source": src, "statements": n, "compilations": 5}));
    }
}

// ------------------------------------------------------------------ ABI

fn ctype(p: &Program, t: &Ty) -> ConcreteType {
    match t {
        Ty::F => ConcreteType::FieldElement,
        Ty::B => ConcreteType::Boolean,
        Ty::U(w) => ConcreteType::Uint(UBitwidth::from(*w as usize)),
        Ty::Arr(t, n) => ConcreteType::array((ctype(p, t), *n as u32)),
        Ty::Tup(ts) => ConcreteType::Tuple(ConcreteTupleType::new(ts.iter().map(|t| ctype(p, t)).collect())),
        Ty::St(i) => ConcreteType::Struct(ConcreteStructType::new(
            "main".into(),
            p.structs[*i].0.clone(),
            vec![],
            p.structs[*i].1.iter().map(|(n, t)| ConcreteStructMember::new(n.clone(), ctype(p, t))).collect(),
        )),
        Ty::ArrN(..) => unreachable!(),
    }
}

/// the type as the documentation of the ABI specifies it
fn jtype(p: &Program, t: &Ty) -> serde_json::Map<String, J> {
    let mut m = serde_json::Map::new();
    let mut put = |t: &str, c: Option<J>| {
        m.insert("type".into(), json!(t));
        if let Some(c) = c {
            m.insert("components".into(), c);
        }
    };
    match t {
        Ty::F => put("field", None),
        Ty::B => put("bool", None),
        Ty::U(w) => put(&format!("u{}", w), None),
        Ty::Arr(t, n) => {
            let mut c = jtype(p, t);
            c.insert("size".into(), json!(n));
            put("array", Some(J::Object(c)))
        }
        Ty::Tup(ts) => put("tuple", Some(json!({"elements": ts.iter().map(|t| J::Object(jtype(p, t))).collect::<Vec<_>>()}))),
        Ty::St(i) => {
            let ms: Vec<J> = p.structs[*i]
                .1
                .iter()
                .map(|(n, t)| {
                    let mut c = jtype(p, t);
                    c.insert("name".into(), json!(n));
                    J::Object(c)
                })
                .collect();
            put("struct", Some(json!({"name": p.structs[*i].0, "generics": [], "members": ms})))
        }
        Ty::ArrN(..) => unreachable!(),
    }
    m
}

fn unflat(p: &Program, t: &Ty, v: &mut std::vec::IntoIter<BigUint>) -> Option<V> {
    Some(match t {
        Ty::F => V::F(v.next()?),
        Ty::B => {
            let x = v.next()?;
            if x.is_zero() {
                V::B(false)
            } else if x.is_one() {
                V::B(true)
            } else {
                return None;
            }
        }
        Ty::U(w) => V::U(*w, {
            let x = v.next()?;
            let d = x.to_u64_digits_();
            if x.bits() > *w as usize {
                return None;
            }
            d
        }),
        Ty::Arr(t, n) => V::A((0..*n).map(|_| unflat(p, t, v)).collect::<Option<_>>()?),
        Ty::Tup(ts) => V::A(ts.iter().map(|t| unflat(p, t, v)).collect::<Option<_>>()?),
        Ty::St(i) => V::A(p.structs[*i].1.iter().map(|t| unflat(p, &t.1, v)).collect::<Option<_>>()?),
        Ty::ArrN(..) => return None,
    })
}

trait Low {
    fn to_u64_digits_(&self) -> u64;
}
impl Low for BigUint {
    fn to_u64_digits_(&self) -> u64 {
        self.to_bytes_le().iter().take(8).rev().fold(0, |a, x| (a << 8) | *x as u64)
    }
}

fn rand_ty(r: &mut Rng, p: &mut Program, d: usize) -> Ty {
    match r.below(if d == 0 { 3 } else { 7 }) {
        0 => Ty::F,
        1 => Ty::B,
        2 => Ty::U(*r.pick(&[8, 16, 32, 64])),
        3 | 4 => {
            let n = if r.chance(1, 8) { 0 } else { r.range(1, 4) };
            Ty::Arr(Box::new(rand_ty(r, p, d - 1)), n)
        }
        5 => Ty::Tup((0..r.range(1, 4)).map(|_| rand_ty(r, p, d - 1)).collect()),
        _ => {
            if !p.structs.is_empty() && r.chance(1, 3) {
                return Ty::St(r.below(p.structs.len()));
            }
            let n = if r.chance(1, 12) { 0 } else { r.range(1, 4) };
            // names in an order that sorting would change
            let mut names: Vec<String> = ["b", "a", "zz", "a_b", "A", "c0", "type", "name", "size", "members"].iter().map(|s| s.to_string()).collect();
            r.shuffle(&mut names);
            let ms: Vec<(String, Ty)> = names.into_iter().take(n).map(|m| (m, rand_ty(r, p, d - 1))).collect();
            p.structs.push((format!("S{}", p.structs.len()), ms));
            Ty::St(p.structs.len() - 1)
        }
    }
}

fn input(r: &mut Rng, prog: &Program, t: &Ty) -> V {
    Gen::input(r, prog, t)
}

/// a JSON text of the value, in one of the accepted notations of numbers, with members in any order
fn notation(r: &mut Rng, p: &Program, t: &Ty, v: &V) -> J {
    match (t, v) {
        (_, V::F(x)) => match r.below(4) {
            0 => json!(format!("0x{}", x.to_str_radix(16))),
            1 => json!(format!("0x{:0>64}", x.to_str_radix(16))),
            _ => json!(x.to_string()),
        },
        (_, V::U(w, x)) => match r.below(4) {
            0 => json!(x.to_string()),
            1 => json!(format!("0x{:X}", x)),
            2 => json!(format!("0x{:x}", x)),
            _ => json!(format!("0x{:0n$x}", x, n = *w as usize / 4)),
        },
        (_, V::B(b)) => json!(b),
        (Ty::Arr(t, _), V::A(v)) => J::Array(v.iter().map(|x| notation(r, p, t, x)).collect()),
        (Ty::Tup(ts), V::A(v)) => J::Array(v.iter().zip(ts).map(|(x, t)| notation(r, p, t, x)).collect()),
        (Ty::St(i), V::A(v)) => {
            let mut ms: Vec<(String, J)> = v.iter().zip(&p.structs[*i].1).map(|(x, (n, t))| (n.clone(), notation(r, p, t, x))).collect();
            r.shuffle(&mut ms);
            J::Object(ms.into_iter().collect())
        }
        _ => unreachable!(),
    }
}

/// what a text means as a number: None if it is not one in a documented notation; a bare hexadecimal or decorated
/// number may be refused, but never be read as anything else
enum Num {
    Is(BigUint),
    MayBe(BigUint),
    Not,
}

fn number(s: &str) -> Num {
    let dec = |s: &str| !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit());
    let hex = |s: &str| !s.is_empty() && s.bytes().all(|c| c.is_ascii_hexdigit());
    if dec(s) {
        let v = BigUint::parse_bytes(s.as_bytes(), 10).unwrap();
        return if s.len() > 1 && s.starts_with('0') { Num::MayBe(v) } else { Num::Is(v) };
    }
    if let Some(h) = s.strip_prefix("0x") {
        if hex(h) {
            return Num::Is(BigUint::parse_bytes(h.as_bytes(), 16).unwrap());
        }
        let t: String = h.chars().filter(|c| *c != '_').collect();
        let t = t.strip_prefix('+').unwrap_or(&t).to_string();
        return if hex(&t) && !h.starts_with('_') { Num::MayBe(BigUint::parse_bytes(t.as_bytes(), 16).unwrap()) } else { Num::Not };
    }
    let t: String = s.strip_prefix('+').unwrap_or(s).chars().filter(|c| *c != '_').collect();
    if dec(&t) {
        return Num::MayBe(BigUint::parse_bytes(t.as_bytes(), 10).unwrap());
    }
    if hex(&t) {
        return Num::MayBe(BigUint::parse_bytes(t.as_bytes(), 16).unwrap());
    }
    Num::Not
}

fn hostile_text(r: &mut Rng, p: &BigUint, bits: usize) -> String {
    let bound = if bits == 0 { p.clone() } else { BigUint::one() << bits };
    let small = r.u64() >> (r.below(60) as u32 + 2);
    let near = match r.below(4) {
        0 => bound.clone(),
        1 => &bound + big(small % 5),
        2 => &bound - big(1 + small % 5),
        _ => &bound * big(1 + small % 300) + big(small % 7),
    };
    match r.below(18) {
        0 | 1 => near.to_string(),
        2 | 3 => format!("0x{}", near.to_str_radix(16)),
        4 => format!("0{}", small),
        5 => format!("00{}", small % 100),
        6 => format!("-{}", small % 10),
        7 => format!("+{}", small % 10),
        8 => format!("0x0x{:x}", small % 200),
        9 => format!("{:x}", small % 250),
        10 => format!(" {}", small % 250),
        11 => format!("{} ", small % 250),
        12 => format!("{}_{}", 1 + small % 9, small % 9),
        13 => ["", "0x", "x", "true", "1.0", "1e1", "0b1", "0X10", "𝟙", "١", "NaN", "-0", "0x-1"][r.below(13)].to_string(),
        14 => format!("0x{:0>100}", small % 250),
        15 => "9".repeat(r.range(1, 100)),
        16 => format!("0x{}", "f".repeat(r.range(1, 100))),
        _ => format!("0x0{:x}", small % 256),
    }
}

enum Judged {
    Is(V),
    MayBe(V),
    Refused,
}

/// what a JSON value means for a type
fn judge(p: &Program, t: &Ty, j: &J) -> Judged {
    let all = |xs: Vec<Judged>| {
        let mut may = false;
        let mut o = vec![];
        for x in xs {
            match x {
                Judged::Is(v) => o.push(v),
                Judged::MayBe(v) => {
                    may = true;
                    o.push(v)
                }
                Judged::Refused => return Judged::Refused,
            }
        }
        if may {
            Judged::MayBe(V::A(o))
        } else {
            Judged::Is(V::A(o))
        }
    };
    match (t, j) {
        (Ty::F, J::String(s)) | (Ty::U(_), J::String(s)) => {
            let (v, sure) = match number(s) {
                Num::Is(v) => (v, true),
                Num::MayBe(v) => (v, false),
                Num::Not => return Judged::Refused,
            };
            let bound = if let Ty::U(w) = t { BigUint::one() << (*w as usize) } else { p.p.clone() };
            if v >= bound {
                return Judged::Refused;
            }
            let v = if let Ty::U(w) = t { V::U(*w, v.to_u64_digits_()) } else { V::F(v) };
            if sure {
                Judged::Is(v)
            } else {
                Judged::MayBe(v)
            }
        }
        (Ty::B, J::Bool(b)) => Judged::Is(V::B(*b)),
        (Ty::Arr(t, n), J::Array(a)) if a.len() == *n => all(a.iter().map(|x| judge(p, t, x)).collect()),
        (Ty::Tup(ts), J::Array(a)) if a.len() == ts.len() => all(a.iter().zip(ts).map(|(x, t)| judge(p, t, x)).collect()),
        (Ty::St(i), J::Object(o)) if o.len() == p.structs[*i].1.len() && p.structs[*i].1.iter().all(|(n, _)| o.contains_key(n)) => {
            all(p.structs[*i].1.iter().map(|(n, t)| judge(p, t, &o[n])).collect())
        }
        _ => Judged::Refused,
    }
}

/// damages one place of a JSON value
fn damage(r: &mut Rng, p: &BigUint, j: &mut J, bits: usize) {
    let here = r.chance(1, 3);
    match j {
        J::Array(a) if !a.is_empty() && !here => {
            let i = r.below(a.len());
            return damage(r, p, &mut a[i], bits);
        }
        J::Object(o) if !o.is_empty() && !here => {
            let k = r.below(o.len());
            let k = o.keys().nth(k).unwrap().clone();
            return damage(r, p, o.get_mut(&k).unwrap(), bits);
        }
        J::String(_) if !r.chance(1, 6) => {
            let b = if r.chance(1, 2) { bits } else { *r.pick(&[0, 8, 16, 32, 64]) };
            *j = json!(hostile_text(r, p, b));
            return;
        }
        _ => {}
    }
    match (r.below(8), &mut *j) {
        (0, J::Array(a)) => a.push(json!("1")),
        (1, J::Array(a)) if !a.is_empty() => {
            a.pop();
        }
        (2, J::Array(a)) if !a.is_empty() => {
            let x = a[0].clone();
            a.push(x);
        }
        (0, J::Object(o)) => {
            o.insert("extra".into(), json!("1"));
        }
        (1, J::Object(o)) if !o.is_empty() => {
            let k = o.keys().next().unwrap().clone();
            o.remove(&k);
        }
        (2, J::Object(o)) if !o.is_empty() => {
            let k = o.keys().next().unwrap().clone();
            let v = o.remove(&k).unwrap();
            o.insert(format!("{}_", k), v);
        }
        (3, j) => *j = json!(1),
        (4, j) => *j = J::Null,
        (5, j) => *j = json!({}),
        (6, j) => *j = json!([]),
        (7, j) => *j = json!(r.chance(1, 2)),
        (_, j) => *j = json!("1"),
    }
}

fn e03(ctx: &mut Ctx, _idx: u64) {
    let curve = any_curve(ctx);
    dynf::select(curve);
    if ctx.rng.chance(1, 4) {
        return e03_program(ctx, curve);
    }
    by_curve!(curve, T => e03_values::<T>(ctx, curve))
}

fn e03_values<T: Field>(ctx: &mut Ctx, curve: Curve) {
    let p = curve.p();
    let mut r = ctx.rng.clone();
    let mut prog = Program { structs: vec![], consts: vec![], funs: vec![], params: vec![], ret: Ty::F, body: vec![], full_parens: false, p: p.clone() };
    let tys: Vec<Ty> = (0..r.below(4)).map(|_| rand_ty(&mut r, &mut prog, 3)).collect();
    let vals: Vec<V> = tys.iter().map(|t| input(&mut r, &prog, t)).collect();
    let ctys: Vec<ConcreteType> = tys.iter().map(|t| ctype(&prog, t)).collect();
    let flat = flat_inputs(&vals);
    let canon: J = J::Array(
        tys.iter()
            .zip(&vals)
            .map(|(t, v)| serde_json::from_str(&Ev::new(&prog).json(t, v)).unwrap())
            .collect(),
    );
    let text = J::Array(tys.iter().zip(&vals).map(|(t, v)| notation(&mut r, &prog, t, v)).collect());
    ctx.case = json!({"types": ctys.iter().map(|t| t.to_string()).collect::<Vec<_>>(), "values": text, "curve": curve.name()});
    let case = ctx.case.clone();
    let bad = |ctx: &mut Ctx, what: String| ctx.violation(&format!("{}:{}", what.split(':').next().unwrap(), case), format!("{}\n({}) {}", what, curve.name(), case));
    ctx.eval();
    let spaced = if r.chance(1, 2) { serde_json::to_string_pretty(&text).unwrap() } else { text.to_string() };
    let enc = |s: &str| guard(|| zokrates_abi::parse_strict::<T>(s, ctys.clone()).map(|v| v.encode().iter().map(be).collect::<Vec<_>>()));
    match enc(&spaced) {
        Ok(Ok(v)) if v == flat => ctx.count("inputs_parsed"),
        Ok(Ok(v)) => return bad(ctx, format!("parsing: the values are {:?}, read as {:?}", flat, v)),
        Ok(Err(e)) => return bad(ctx, format!("parsing: refused: {}", e)),
        Err(e) => return bad(ctx, format!("parsing: {}", e)),
    }
    let fl: Vec<T> = flat.iter().map(fe).collect();
    match guard(|| zokrates_abi::Values::<T>::decode(fl.clone(), ctys.clone()).into_serde_json()) {
        Ok(j) if j == canon => ctx.count("values_decoded"),
        Ok(j) => return bad(ctx, format!("decoding: {} became {}", canon, j)),
        Err(e) => return bad(ctx, format!("decoding: {}", e)),
    }
    match guard(|| zokrates_abi::Values::<T>::decode(fl.clone(), ctys.clone()).encode()) {
        Ok(v) if v == fl => ctx.count("values_encoded_again"),
        v => return bad(ctx, format!("encoding again: {:?}", v)),
    }
    for (t, c) in tys.iter().zip(&ctys) {
        let want = J::Object(jtype(&prog, t));
        let got = serde_json::to_value(c).unwrap_or(J::Null);
        if got != want {
            return bad(ctx, format!("type: {} is written as {}, expected {}", c, got, want));
        }
        match guard(|| serde_json::from_str::<ConcreteType>(&want.to_string()).map_err(|e| e.to_string())) {
            Ok(Ok(t2)) if serde_json::to_value(&t2).unwrap_or(J::Null) == want => ctx.count("types_read_back"),
            x => return bad(ctx, format!("type: {} is read as {:?}", want, x)),
        }
    }
    if flat.len() > 1 {
        ctx.nontrivial(case.to_string());
    }
    ctx.sample(|| case.clone());
    // hostile values
    for _ in 0..8 {
        let mut j = text.clone();
        for _ in 0..r.range(1, 2) {
            let bits = *r.pick(&[0, 8, 16, 32, 64]);
            damage(&mut r, &p, &mut j, bits);
        }
        let want = match &j {
            J::Array(_) => judge(&prog, &Ty::Tup(tys.clone()), &j),
            _ => Judged::Refused,
        };
        ctx.eval();
        let got = enc(&j.to_string());
        match (want, got) {
            (_, Err(e)) => return bad(ctx, format!("hostile values: {} {}", j, e)),
            (Judged::Refused, Ok(Err(_))) => ctx.count("hostile_values_refused"),
            (Judged::MayBe(_), Ok(Err(_))) => ctx.count("decorated_numbers_refused"),
            (Judged::Is(v), Ok(Ok(g))) if v.flatten() == g => ctx.count("changed_values_read"),
            (Judged::MayBe(v), Ok(Ok(g))) if v.flatten() == g => ctx.count("decorated_numbers_read"),
            (Judged::Refused, Ok(Ok(g))) => return bad(ctx, format!("hostile values: {} is read as {:?}", j, g)),
            (Judged::Is(v), x) => return bad(ctx, format!("values: {} is {:?}, read as {:?}", j, v, x)),
            (Judged::MayBe(v), x) => return bad(ctx, format!("values: {} can only be {:?}, read as {:?}", j, v, x)),
        }
    }
    let s = text.to_string();
    let cutat = r.below(s.len());
    if s.is_char_boundary(cutat) {
        match enc(&s[..cutat]) {
            Ok(Err(_)) => ctx.count("truncated_texts_refused"),
            x => return bad(ctx, format!("truncated: {:?} is read as {:?}", &s[..cutat], x)),
        }
    }
    ctx.rng = r;
}

fn e03_program(ctx: &mut Ctx, curve: Curve) {
    let p = curve.p();
    let pf = Profile { stmts: ctx.rng.range(1, 4), max_depth: 2, ..Profile::base() };
    let mut r = ctx.rng.clone();
    let prog = Gen::program(&mut r, &pf, &p);
    let args: Vec<Vec<V>> = (0..3).map(|_| prog.params.iter().map(|q| Gen::input(&mut r, &prog, &q.ty)).collect()).collect();
    let src = prog.render();
    ctx.case = json!({"source": src, "curve": curve.name()});
    let arena = Arena::new();
    let c = match compile::<D>(&src, &arena) {
        Ok(c) => c,
        Err(_) => return ctx.count("not_compiled"),
    };
    let bad = |ctx: &mut Ctx, what: String| ctx.violation(&format!("{}:{}", what.split(':').next().unwrap(), src), format!("{}\n({})\n{}", what, curve.name(), src));
    let want = json!({
        "inputs": prog.params.iter().map(|q| {
            let mut m = jtype(&prog, &q.ty);
            m.insert("name".into(), json!(q.name));
            m.insert("public".into(), json!(q.private != Some(true)));
            J::Object(m)
        }).collect::<Vec<_>>(),
        "output": jtype(&prog, &prog.ret),
    });
    ctx.eval();
    let got = serde_json::to_value(&c.abi).unwrap_or(J::Null);
    if got != want {
        return bad(ctx, format!("abi: {} where {} was expected", got, want));
    }
    ctx.count("abis_compared");
    // the specification as the tool reads it again
    let abi: zokrates_ast::typed::abi::Abi = match serde_json::from_str(&serde_json::to_string_pretty(&c.abi).unwrap()) {
        Ok(a) => a,
        Err(e) => return bad(ctx, format!("abi: cannot be read again: {}", e)),
    };
    let sig = abi.signature();
    let vis: Vec<bool> = prog.params.iter().flat_map(|q| vec![q.private == Some(true); Gen::size(&prog, &q.ty)]).collect();
    let ci = cir(&c.prog);
    if ci.args.iter().map(|a| a.1).collect::<Vec<_>>() != vis || ci.nret != Gen::size(&prog, &prog.ret) {
        return bad(ctx, format!("signature: the program has arguments {:?} and {} return values", ci.args, ci.nret));
    }
    for a in &args {
        let j = J::Array(prog.params.iter().zip(a).map(|(q, v)| notation(&mut r, &prog, &q.ty, v)).collect());
        ctx.eval();
        let fl = match guard(|| zokrates_abi::parse_strict::<D>(&j.to_string(), sig.inputs.clone()).map(|v| v.encode())) {
            Ok(Ok(v)) => v,
            x => return bad(ctx, format!("arguments: {} {:?}", j, x)),
        };
        let flat: Vec<BigUint> = fl.iter().map(be).collect();
        if flat != flat_inputs(a) {
            return bad(ctx, format!("arguments: {} is passed as {:?}", j, flat));
        }
        if let Exec::Ok(w, _) = execute(&c.prog, &flat) {
            let outs = outputs(&w, ci.nret).unwrap_or_default();
            let v = match unflat(&prog, &prog.ret, &mut outs.clone().into_iter()) {
                Some(v) => v,
                None => return bad(ctx, format!("results: {:?} are no values of the return type (arguments {})", outs, j)),
            };
            let want: J = serde_json::from_str(&Ev::new(&prog).json(&prog.ret, &v)).unwrap();
            match guard(|| zokrates_abi::Value::<D>::decode(w.return_values(), *sig.output.clone()).into_serde_json()) {
                Ok(g) if g == want => ctx.count("results_decoded"),
                g => return bad(ctx, format!("results: {:?} where {} was expected", g, want)),
            }
            ctx.nontrivial((&src, j.to_string()));
        }
    }
    ctx.rng = r;
}

pub fn props() -> Vec<Prop> {
    let d = |id, rule, run, quick, thorough, require| Prop {
        id,
        level: "exploration",
        rule,
        assumptions: &[],
        quick,
        thorough,
        quick_s: 60,
        thorough_s: 600,
        run,
        require,
    };
    vec![
        d("D01", "compilations of one source are identical", d01 as fn(&mut Ctx, u64), 2500, 60000, &["compilations_compared", "programs_of_several_modules", "executions_compared"]),
        d("E03", "values pass through the ABI unchanged", e03, 60000, 600000, &["inputs_parsed", "values_decoded", "hostile_values_refused", "abis_compared", "results_decoded"]),
    ]
}
