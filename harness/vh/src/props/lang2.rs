//! More of the language: failures, compile-time evaluation, spelling, field comparisons.
use crate::dynf::{self, D};
use crate::engine::*;
use crate::prng::Rng;
use crate::prog::*;
use crate::props::lang::{check_program, Opts};
use crate::run::{Ctx, Prop};
use crate::sound::{Adversary, Verdict};
use num_bigint::BigUint;
use serde_json::json;
use typed_arena::Arena;
use zokrates_ast::ir::RuntimeError;

fn pick_curve(r: &mut Rng) -> Curve {
    if r.chance(3, 5) {
        Curve::Bn128
    } else {
        *r.pick(CURVES)
    }
}

// ------------------------------------------------------------------ C04: what must fail fails

fn c04(ctx: &mut Ctx, idx: u64) {
    if idx % 4 == 0 {
        return out_of_bounds(ctx);
    }
    if idx % 4 == 1 {
        return assertions(ctx);
    }
    let mut r = ctx.rng.clone();
    let curve = pick_curve(&mut r);
    let mut pf = Profile::base();
    pf.asserts = true;
    pf.max_depth = *r.pick(&[2, 3, 4]);
    pf.lit_weight = *r.pick(&[1, 3, 5]);
    pf.composites = r.chance(1, 2);
    pf.conditionals = r.chance(2, 3);
    if r.chance(1, 3) {
        pf.w_field = 1;
        pf.w_uint = 6;
    }
    let prog = Gen::program(&mut r, &pf, &curve.p());
    ctx.rng = r;
    check_program(ctx, &prog, &Opts { runs: 6, curve, messages: true, logs: false });
}

/// a straight-line program of assertions with known truth: the first one that does not hold is reported
fn assertions(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let curve = pick_curve(&mut r);
    dynf::select(curve);
    let n = r.range(2, 6);
    let w = *r.pick(&[8u32, 16, 32, 64]);
    let lim = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    let mut src = String::new();
    let in_fun = r.chance(1, 3);
    let in_loop = !in_fun && r.chance(1, 3);
    // (operator, operands: index of an input or a constant)
    let ops = ["==", "!=", "<", "<=", ">", ">="];
    let mut conds = vec![];
    let nin = 3;
    for i in 0..n {
        let o = r.below(ops.len());
        let a = r.below(nin);
        let b = if r.chance(1, 2) { Err(r.below(nin)) } else { Ok(r.u64() & lim & 7) };
        let conj = r.chance(1, 4).then(|| (r.below(ops.len()), r.below(nin), r.below(nin)));
        let msg = if r.chance(4, 5) { Some(format!("check {} of {}", i, "abc")) } else { None };
        conds.push((o, a, b, conj, msg));
    }
    let nm = ["x", "y", "z"];
    let body: String = conds
        .iter()
        .map(|(o, a, b, conj, m)| {
            let b = match b {
                Err(i) => nm[*i].to_string(),
                Ok(k) => format!("{}", k),
            };
            let mut c = format!("{} {} {}", nm[*a], ops[*o], b);
            if let Some((o2, a2, b2)) = conj {
                c = format!("{} && {} {} {}", c, nm[*a2], ops[*o2], nm[*b2]);
            }
            match m {
                Some(m) => format!("    assert({}, \"{}\");\n", c, m),
                None => format!("    assert({});\n", c),
            }
        })
        .collect();
    let t = format!("u{}", w);
    if in_fun {
        src.push_str(&format!("def checks({t} x, {t} y, {t} z) -> {t} {{\n{body}    return x + y;\n}}\n"));
        src.push_str(&format!("def main({t} x, {t} y, {t} z) -> {t} {{\n    return checks(x, y, z) + 1;\n}}\n"));
    } else if in_loop {
        let body = body.replace("    assert", "        assert");
        src.push_str(&format!(
            "def main({t} x, {t} y, {t} z) -> {t} {{\n    {t} mut s = x;\n    for u32 i in 0..2 {{\n{body}        s = s + y;\n    }}\n    return s;\n}}\n"
        ));
    } else {
        src.push_str(&format!("def main({t} x, {t} y, {t} z) -> {t} {{\n{body}    return x ^ y;\n}}\n"));
    }
    ctx.case = json!({"source": src, "curve": curve.name()});
    let arena = Arena::new();
    let c = match compile::<D>(&src, &arena) {
        Ok(c) => c,
        Err(e) => {
            // a condition can be false whatever the inputs are (x != x)
            if e.is_panic() || !e.text().contains("ssertion") {
                ctx.violation(&format!("reject:{}", src), format!("{}\n{}", e.text(), src));
            }
            ctx.count("rejected_constant_false_assertion");
            return;
        }
    };
    let ci = cir(&c.prog);
    let mut adv = Adversary::new(&c.prog);
    for _ in 0..8 {
        let base = if r.chance(1, 2) { r.u64() & lim } else { r.u64() & 7 };
        let ins: Vec<u64> = (0..nin)
            .map(|_| match r.below(4) {
                0 => base,
                1 => base.wrapping_add(1) & lim,
                2 => r.u64() & 7,
                _ => r.u64() & lim,
            })
            .collect();
        let cmp = |o: usize, a: u64, b: u64| match o {
            0 => a == b,
            1 => a != b,
            2 => a < b,
            3 => a <= b,
            4 => a > b,
            _ => a >= b,
        };
        let first = conds.iter().position(|(o, a, b, conj, _)| {
            let b = match b {
                Err(i) => ins[*i],
                Ok(k) => *k,
            };
            let mut h = cmp(*o, ins[*a], b);
            if let Some((o2, a2, b2)) = conj {
                h &= cmp(*o2, ins[*a2], ins[*b2]);
            }
            !h
        });
        let bi: Vec<BigUint> = ins.iter().map(|x| big(*x)).collect();
        let ex = execute(&c.prog, &bi);
        ctx.eval();
        let shown = format!("inputs {:?}\n{}", ins, src);
        match (first, &ex) {
            (None, Exec::Ok(..)) => ctx.count("runs_succeeded"),
            (None, e) => {
                ctx.violation(&format!("failed:{}", src), format!("{} although every assertion holds; {}", e.show(), shown));
                return;
            }
            (Some(i), Exec::Ok(..)) => {
                ctx.violation(
                    &format!("accepted:{}", src),
                    format!("execution succeeded although assertion {} does not hold; {}", i, shown),
                );
                return;
            }
            (Some(i), Exec::Unsat(Some(RuntimeError::SourceAssertion(md)))) => {
                if md.message != conds[i].4 {
                    ctx.violation(
                        &format!("message:{}", src),
                        format!("reported {:?}, but the first assertion to fail says {:?}; {}", md.message, conds[i].4, shown),
                    );
                    return;
                }
                ctx.count("runs_failed_as_required");
                ctx.count("messages_matched");
                ctx.nontrivial((&src, &ins));
                ctx.sample(|| json!({"source": src, "inputs": ins, "reported": md.message}));
                match adv.attack(&ci, &bi, None, 20000) {
                    Verdict::None => ctx.count("attacks_refuted_exhaustively"),
                    Verdict::Unknown(_) => ctx.count("attacks_inconclusive"),
                    Verdict::Found(_) => {
                        ctx.violation(
                            &format!("provable:{}", src),
                            format!("assertion {} does not hold but a witness satisfies every constraint; {}", i, shown),
                        );
                        return;
                    }
                }
            }
            (Some(i), e) => {
                ctx.violation(
                    &format!("how:{}", src),
                    format!("assertion {} does not hold, which is reported as: {}; {}", i, e.show(), shown),
                );
                return;
            }
        }
    }
}

/// reads and writes at an input-dependent index, whose value is returned
fn out_of_bounds(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let curve = pick_curve(&mut r);
    dynf::select(curve);
    let el = r.below(4); // element: field, u8, bool, [field; 2], or a struct
    let n = r.range(1, 6);
    let m = r.range(1, 4);
    let (t, leaf) = match el {
        0 => ("field".to_string(), 1),
        1 => ("u8".into(), 1),
        2 => ("bool".into(), 1),
        _ => ("S".into(), 2),
    };
    let two = r.chance(1, 3);
    let write = r.chance(1, 2);
    let off = r.below(3) as u64;
    let idx = |v: &str| {
        if off == 0 {
            v.to_string()
        } else {
            format!("{} - {}", v, off)
        }
    };
    let dims = if two { format!("[{}][{}]", n, m) } else { format!("[{}]", n) };
    let at = if two { format!("[{}][{}]", idx("i"), idx("j")) } else { format!("[{}]", idx("i")) };
    let fun = r.chance(1, 3);
    let pre = "struct S {\n    field a;\n    u8 b;\n}\n";
    let acc = if el == 3 { *r.pick(&["", ".a", ".b"]) } else { "" };
    let src = if write {
        let (vt, v) = match (el, acc) {
            (0, _) | (3, ".a") => ("field", "v"),
            (3, "") => ("S", "v"),
            (2, _) => ("bool", "v"),
            _ => ("u8", "v"),
        };
        format!("{pre}def main({t}{dims} mut a, u32 i, u32 j, {vt} v) -> {t}{dims} {{\n    a{at}{acc} = {v};\n    return a;\n}}\n")
    } else {
        let rt = match acc {
            ".a" => "field".to_string(),
            ".b" => "u8".into(),
            _ => t.clone(),
        };
        if fun {
            format!("{pre}def get<N>({t}{d} a, u32 i, u32 j) -> {rt} {{\n    return a{at}{acc};\n}}\ndef main({t}{dims} a, u32 i, u32 j) -> {rt} {{\n    return get(a, i, j);\n}}\n",
                d = if two { format!("[N][{}]", m) } else { "[N]".into() })
        } else {
            format!("{pre}def main({t}{dims} a, u32 i, u32 j) -> {rt} {{\n    return a{at}{acc};\n}}\n")
        }
    };
    ctx.case = json!({"source": src, "curve": curve.name()});
    let arena = Arena::new();
    let c = match compile::<D>(&src, &arena) {
        Ok(c) => c,
        Err(e) => {
            ctx.violation(&format!("reject:{}", src), format!("{}\n{}", e.text(), src));
            return;
        }
    };
    let ci = cir(&c.prog);
    let mut adv = Adversary::new(&c.prog);
    let p = curve.p();
    let cells = if two { n * m } else { n };
    for _ in 0..10 {
        let mut ins: Vec<BigUint> = vec![];
        let mut val = |r: &mut Rng, k: usize| match (el, k) {
            (0, _) | (3, 0) => r.big_below(&p),
            (2, _) => big(r.below(2) as u64),
            _ => big(r.below(256) as u64),
        };
        for _ in 0..cells {
            for k in 0..leaf {
                ins.push(val(&mut r, k));
            }
        }
        let pick = |r: &mut Rng, n: usize| -> u64 {
            match r.below(6) {
                0 | 1 | 2 => r.below(n) as u64 + off,
                3 => n as u64 + off,
                4 => *r.pick(&[0xffffffffu64, 0x80000000, 256, 255, 1 << 16]),
                _ => r.below(2 * n + 4) as u64,
            }
        };
        let (i, j) = (pick(&mut r, n), pick(&mut r, m));
        ins.push(big(i));
        ins.push(big(j));
        let (ii, jj) = ((i.wrapping_sub(off)) & 0xffffffff, j.wrapping_sub(off) & 0xffffffff);
        let inb = ii < n as u64 && (!two || jj < m as u64);
        let lo = match acc {
            ".a" => 0..1,
            ".b" => 1..2,
            _ => 0..leaf,
        };
        let mut want: Vec<BigUint> = vec![];
        let cell = if inb { (if two { ii as usize * m + jj as usize } else { ii as usize }) * leaf } else { 0 };
        if write {
            let mut v = vec![];
            for k in lo.clone() {
                v.push(val(&mut r, k));
            }
            ins.extend(v.iter().cloned());
            if inb {
                want = ins[..cells * leaf].to_vec();
                for (k, x) in lo.zip(v) {
                    want[cell + k] = x;
                }
            }
        } else if inb {
            want = ins[cell + lo.start..cell + lo.end].to_vec();
        }
        let ex = execute(&c.prog, &ins);
        ctx.eval();
        let shown = format!("inputs {:?}\n{}", ins.iter().map(|x| x.to_string()).collect::<Vec<_>>(), src);
        match (&ex, inb) {
            (Exec::Ok(w, _), true) => {
                let got = outputs(w, ci.nret);
                if got.as_ref() != Some(&want) {
                    ctx.violation(&format!("wrong:{}", src), format!("outputs {:?}, expected {:?}; {}", got, want, shown));
                    return;
                }
                ctx.count("runs_succeeded");
                ctx.nontrivial((&src, &ins));
            }
            (Exec::Ok(w, _), false) => {
                ctx.violation(
                    &format!("oob:{}", src),
                    format!("an access out of bounds succeeded with outputs {:?}; {}", outputs(w, ci.nret), shown),
                );
                return;
            }
            (e, true) => {
                ctx.violation(&format!("failed:{}", src), format!("{} for an access within bounds; {}", e.show(), shown));
                return;
            }
            (e, false) => {
                if let Exec::Unsat(Some(e)) = e {
                    if e.is_malicious() {
                        ctx.violation(&format!("internal:{}", src), format!("reported as {}; {}", e, shown));
                        return;
                    }
                }
                ctx.count("out_of_bounds_refused");
                ctx.nontrivial((&src, &ins));
                match adv.attack(&ci, &ins, None, 20000) {
                    Verdict::None => ctx.count("attacks_refuted_exhaustively"),
                    Verdict::Unknown(_) => ctx.count("attacks_inconclusive"),
                    Verdict::Found(_) => {
                        ctx.violation(
                            &format!("provable:{}", src),
                            format!("a witness with an access out of bounds satisfies every constraint; {}", shown),
                        );
                        return;
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C05: compile-time evaluation

pub fn value_expr(p: &Program, t: &Ty, v: &V) -> E {
    match (t, v) {
        (Ty::Arr(t, _), V::A(vs)) => E::ArrLit(vs.iter().map(|v| (false, value_expr(p, t, v))).collect()),
        (Ty::Tup(ts), V::A(vs)) => E::TupLit(ts.iter().zip(vs).map(|(t, v)| value_expr(p, t, v)).collect()),
        (Ty::St(i), V::A(vs)) => E::StLit(*i, p.structs[*i].1.iter().zip(vs).map(|(t, v)| value_expr(p, &t.1, v)).collect()),
        (_, v) => E::Lit(v.clone(), false, false),
    }
}

fn c05(ctx: &mut Ctx, _idx: u64) {
    let mut r = ctx.rng.clone();
    let curve = pick_curve(&mut r);
    let mut pf = Profile::base();
    match r.below(4) {
        0 => {
            pf.w_uint = 8;
            pf.w_field = 0;
            pf.composites = false;
        }
        1 => {
            pf.w_field = 8;
            pf.w_uint = 0;
            pf.composites = false;
        }
        _ => {}
    }
    pf.asserts = r.chance(1, 4);
    pf.lit_weight = *r.pick(&[1, 2, 3]);
    pf.max_depth = *r.pick(&[2, 3, 4, 5]);
    let prog = Gen::program(&mut r, &pf, &curve.p());
    let vals: Vec<V> = prog.params.iter().map(|q| Gen::input(&mut r, &prog, &q.ty)).collect();
    for round in 0..3 {
        let mut q = prog.clone();
        q.params.clear();
        let mut defs = vec![];
        for (x, v) in prog.params.iter().zip(&vals) {
            if round == 0 || r.chance(1, 2) {
                defs.push(S::Def(x.mutable, x.ty.clone(), x.name.clone(), value_expr(&prog, &x.ty, v)));
            } else {
                q.params.push(x.clone());
            }
        }
        defs.extend(q.body.drain(..));
        q.body = defs;
        ctx.rng = r.clone();
        ctx.count(if round == 0 { "fully_constant_programs" } else { "partly_constant_programs" });
        check_program(ctx, &q, &Opts { runs: if round == 0 { 1 } else { 3 }, curve, messages: false, logs: false });
        if ctx.violations > 0 {
            return;
        }
    }
}

// ------------------------------------------------------------------ C06: spelling

const NAMES: &[&str] = &[
    "ifx", "forx", "inx", "return_", "returned", "structure", "constant", "mutable", "publication", "privately", "boolean", "fielder", "u8x", "u32_", "u64a",
    "asserted", "logger", "asmx", "defx", "importer", "from_", "asx", "trueish", "falsey", "elsewhere", "typed", "x", "a1", "mut_", "log_", "main_", "in_", "as_",
    "u", "f", "e", "iff", "fo", "tru", "u128", "u9", "fi", "str", "let", "while", "fn", "int", "bits", "Else", "If", "For", "IF",
];

/// whitespace or comments wherever there is whitespace already, and around some punctuation
fn respace(r: &mut Rng, s: &str) -> String {
    let mut o = String::new();
    let mut inq = false;
    let filler = |r: &mut Rng, o: &mut String| match r.below(8) {
        0 => o.push_str("  "),
        1 => o.push('\n'),
        2 => o.push('\t'),
        3 => o.push_str(" /* a; comment } */ "),
        4 => o.push_str(" // if x { return 1; }\n"),
        5 => o.push_str("\r\n"),
        _ => o.push(' '),
    };
    for c in s.chars() {
        if c == '"' {
            inq = !inq;
        }
        if !inq && (c == ' ' || c == '\n') {
            filler(r, &mut o);
        } else if !inq && "(){},;".contains(c) && r.chance(1, 8) {
            filler(r, &mut o);
            o.push(c);
            filler(r, &mut o);
        } else {
            o.push(c);
        }
    }
    o
}

fn rename(s: &str, map: &std::collections::BTreeMap<String, String>) -> String {
    let mut o = String::new();
    let mut w = String::new();
    let flush = |w: &mut String, o: &mut String| {
        if let Some(x) = map.get(w.as_str()) {
            o.push_str(x)
        } else {
            o.push_str(w)
        }
        w.clear();
    };
    for c in s.chars() {
        if c.is_ascii_alphanumeric() || c == '_' {
            w.push(c);
        } else {
            flush(&mut w, &mut o);
            o.push(c);
        }
    }
    flush(&mut w, &mut o);
    o
}

/// every name the program introduces
fn names(p: &Program) -> Vec<String> {
    let mut o = vec![];
    fn ss(b: &[S], o: &mut Vec<String>) {
        for s in b {
            match s {
                S::Def(_, _, n, e) => {
                    o.push(n.clone());
                    es(e, o)
                }
                S::For(n, a, b, body) => {
                    o.push(n.clone());
                    es(a, o);
                    es(b, o);
                    ss(body, o);
                }
                S::Assign(_, _, e) | S::Assert(e, _) | S::Return(e) => es(e, o),
                S::Log(..) => {}
            }
        }
    }
    fn es(e: &E, o: &mut Vec<String>) {
        match e {
            E::IfE(c, sa, a, sb, b) => {
                es(c, o);
                ss(sa, o);
                es(a, o);
                ss(sb, o);
                es(b, o);
            }
            E::Bin(_, a, b) | E::Pow(a, b) | E::Shift(_, a, b) | E::Idx(a, b) | E::ArrRep(a, b) => {
                es(a, o);
                es(b, o);
            }
            E::Tern(a, b, c) => {
                es(a, o);
                es(b, o);
                es(c, o);
            }
            E::Un(_, a) | E::Slice(a, ..) | E::Mem(a, ..) | E::TupGet(a, _) => es(a, o),
            E::ArrLit(v) => v.iter().for_each(|x| es(&x.1, o)),
            E::StLit(_, v) | E::TupLit(v) | E::Call(_, v, _) => v.iter().for_each(|x| es(x, o)),
            E::Lit(..) | E::Var(_) => {}
        }
    }
    for (n, _, e) in &p.consts {
        o.push(n.clone());
        es(e, &mut o);
    }
    for f in &p.funs {
        o.push(f.name.clone());
        o.extend(f.generics.clone());
        o.extend(f.params.iter().map(|x| x.2.clone()));
        ss(&f.body, &mut o);
    }
    for x in &p.params {
        o.push(x.name.clone());
    }
    for (n, fs) in &p.structs {
        o.push(n.clone());
        o.extend(fs.iter().map(|f| f.0.clone()));
    }
    ss(&p.body, &mut o);
    o.sort();
    o.dedup();
    o
}

fn c06(ctx: &mut Ctx, _idx: u64) {
    let mut r = ctx.rng.clone();
    let curve = pick_curve(&mut r);
    dynf::select(curve);
    let mut pf = Profile::base();
    pf.asserts = r.chance(1, 3);
    pf.max_depth = *r.pick(&[2, 3, 4]);
    pf.composites = r.chance(2, 3);
    let prog = Gen::program(&mut r, &pf, &curve.p());
    let mut a = prog.clone();
    a.full_parens = false;
    let mut b = prog.clone();
    b.full_parens = true;
    let base = a.render();
    let mut map = std::collections::BTreeMap::new();
    let ns = names(&prog);
    let mut used: Vec<String> = ns.clone();
    for n in &ns {
        if r.chance(1, 2) {
            let cand = if r.chance(2, 3) {
                r.pick(NAMES).to_string()
            } else {
                format!("{}{}", r.pick(NAMES), r.below(100))
            };
            if !used.contains(&cand) && !["u8", "u16", "u32", "u64"].contains(&cand.as_str()) {
                used.push(cand.clone());
                map.insert(n.clone(), cand);
            }
        }
    }
    let variants = [
        ("fully parenthesised", b.render()),
        ("with other white space and comments", respace(&mut r, &base)),
        ("with other identifiers", rename(&base, &map)),
        ("with other identifiers, white space and parentheses", {
            let s = rename(&b.render(), &map);
            respace(&mut r, &s)
        }),
    ];
    ctx.case = json!({"source": base, "curve": curve.name()});
    let arena = Arena::new();
    let first = compile::<D>(&base, &arena).map(|c| cir(&c.prog).show());
    for (what, s) in variants {
        let arena = Arena::new();
        ctx.eval();
        let other = compile::<D>(&s, &arena).map(|c| cir(&c.prog).show());
        match (&first, &other) {
            (Ok(x), Ok(y)) if x == y => {
                ctx.count("variants_compiled_identically");
                if x.lines().count() > 2 {
                    ctx.nontrivial(&s);
                }
                ctx.sample(|| json!({"source": base, "variant": s, "kind": what}));
            }
            (Err(x), Err(y)) if x.is_panic() == y.is_panic() => ctx.count("variants_rejected_alike"),
            (x, y) => {
                let d = |z: &Result<String, CompErr>| match z {
                    Ok(_) => "it compiles".to_string(),
                    Err(e) => e.text().to_string(),
                };
                ctx.violation(
                    &format!("spelling:{}", s),
                    format!("a program and the same program {} are compiled differently: {} / {}\n{}\n----\n{}", what, d(x), d(y), base, s),
                );
                return;
            }
        }
    }
}

// ------------------------------------------------------------------ C07: field comparisons

fn c07(ctx: &mut Ctx, idx: u64) {
    let mut r = ctx.rng.clone();
    let small = [5u64, 7, 11, 13, 17, 19, 23, 29, 31, 37, 61, 67, 127, 131, 251, 257];
    let exhaustive = idx % 2 == 0;
    let (p, nbits);
    if exhaustive {
        let q = small[(idx / 2) as usize % small.len()];
        dynf::select_small(q);
        p = big(q);
    } else {
        let c = *r.pick(CURVES);
        dynf::select(c);
        p = c.p();
    }
    nbits = p.bits();
    let ops = ["<", "<=", ">", ">="];
    let o = r.below(4);
    // operands: input, input expression, or constant
    let form = r.below(5);
    let edge = |r: &mut Rng| -> BigUint {
        let half = &p / big(2);
        let safe = BigUint::from(1u32) << (nbits - 2);
        let b = match r.below(8) {
            0 => big(0),
            1 => p.clone(),
            2 => half,
            3 => safe,
            4 => BigUint::from(1u32) << r.below(nbits),
            5 => BigUint::from(1u32) << (nbits - 1),
            _ => r.big_below(&p),
        };
        let d = r.below(5) as u64;
        (&b + &p + big(d) - big(2)) % &p
    };
    let k = edge(&mut r);
    let (l, rr) = match form {
        0 => ("x".to_string(), "y".to_string()),
        1 => ("x".into(), format!("{}", k)),
        2 => (format!("{}", k), "x".into()),
        3 => ("x * y".into(), format!("{}", k)),
        _ => ("x + 1".into(), "y - 1".into()),
    };
    let src = if r.chance(1, 3) {
        format!("def main(field x, field y) {{\n    assert({} {} {});\n    return;\n}}\n", l, ops[o], rr)
    } else {
        format!("def main(field x, field y) -> bool {{\n    return {} {} {};\n}}\n", l, ops[o], rr)
    };
    let assertion = src.contains("assert");
    ctx.case = json!({"source": src, "p": p.to_string()});
    let arena = Arena::new();
    let c = match compile::<D>(&src, &arena) {
        Ok(c) => c,
        Err(e) => {
            // x < 0, x > p - 1 asserted: never true
            let triv = assertion && form != 0 && form != 4;
            if !triv || e.is_panic() {
                ctx.violation(&format!("reject:{}", src), format!("{}\n{}", e.text(), src));
            }
            return;
        }
    };
    let ci = cir(&c.prog);
    let mut adv = Adversary::new(&c.prog);
    let pairs: Vec<(BigUint, BigUint)> = if exhaustive {
        let q = p.to_string().parse::<u64>().unwrap();
        let ys = if form == 1 || form == 2 { 1 } else { q };
        let all: Vec<_> = (0..q).flat_map(|x| (0..ys).map(move |y| (big(x), big(y)))).collect();
        if all.len() > 1500 {
            (0..1500).map(|_| all[r.below(all.len())].clone()).collect()
        } else {
            ctx.count("exhaustive_tables");
            all
        }
    } else {
        (0..12).map(|_| {
            let a = edge(&mut r);
            let b = match r.below(4) {
                0 => a.clone(),
                1 => (&a + big(1)) % &p,
                _ => edge(&mut r),
            };
            (a, b)
        }).collect()
    };
    let safe = BigUint::from(1u32) << (nbits - 2);
    for (n, (x, y)) in pairs.iter().enumerate() {
        let (a, b) = match form {
            0 => (x.clone(), y.clone()),
            1 => (x.clone(), k.clone()),
            2 => (k.clone(), x.clone()),
            3 => (x * y % &p, k.clone()),
            _ => ((x + big(1)) % &p, (y + &p - big(1)) % &p),
        };
        let truth = match o {
            0 => a < b,
            1 => a <= b,
            2 => a > b,
            _ => a >= b,
        };
        let dynamic = form == 0 || form == 4;
        // documented restriction, and both operands have to be in range
        let may = dynamic && (a >= safe || b >= safe);
        let ins = vec![x.clone(), y.clone()];
        let ex = execute(&c.prog, &ins);
        ctx.eval();
        let shown = format!("p = {}, {} {} {}\n{}", p, a, ops[o], b, src);
        match &ex {
            Exec::Ok(w, _) => {
                let got = if assertion { true } else { outputs(w, 1) == Some(vec![big(1)]) };
                if got != truth {
                    ctx.violation(&format!("wrong:{}", src), format!("evaluates to {}; {}", got, shown));
                    return;
                }
                ctx.count(if truth { "true" } else { "false" });
                ctx.nontrivial((&src, x, y));
            }
            e => {
                if !may && !(assertion && !truth) {
                    ctx.violation(&format!("failed:{}", src), format!("{}; {}", e.show(), shown));
                    return;
                }
                ctx.count(if may { "refused_wide_dynamic" } else { "assertion_refused" });
            }
        }
        // the prover cannot claim the opposite
        if n < 40 {
            let lie = vec![big(!truth as u64)];
            let v = if assertion {
                if truth {
                    continue;
                }
                adv.attack(&ci, &ins, None, 20000)
            } else {
                adv.attack_outputs(&ci, &ins, &lie, 20000)
            };
            match v {
                Verdict::None => ctx.count("attacks_refuted_exhaustively"),
                Verdict::Unknown(_) => ctx.count("attacks_inconclusive"),
                Verdict::Found(_) => {
                    ctx.violation(&format!("lie:{}", src), format!("a prover can claim {}; {}", !truth, shown));
                    return;
                }
            }
        }
    }
}

pub fn props() -> Vec<Prop> {
    let d = |id, rule, run, quick, thorough, require: &'static [&'static str]| Prop {
        id,
        level: "exploration",
        rule,
        assumptions: &[],
        quick,
        thorough,
        quick_s: 60,
        thorough_s: 600,
        run,
        require,
    };
    vec![
        d("C04", "runs that have to fail, or whose access is within bounds", c04 as fn(&mut Ctx, u64), 12000, 150000, &["runs_failed_as_required", "messages_matched", "out_of_bounds_refused", "attacks_refuted_exhaustively"]),
        d("C05", "programs with constant arguments", c05, 6000, 80000, &["runs_succeeded"]),
        d("C06", "variants whose compiled form was compared", c06, 4000, 60000, &["variants_compiled_identically"]),
        d("C07", "pairs of operands compared", c07, 1500, 20000, &["true", "false", "refused_wide_dynamic", "attacks_refuted_exhaustively"]),
    ]
}
