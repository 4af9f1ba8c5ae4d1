//! The standard library against independent implementations of what it claims to compute.
use crate::dynf::{self, D};
use crate::engine::*;
use crate::prng::Rng;
use crate::prog::big;
use crate::refs::{self, Pt};
use crate::run::{Ctx, Prop};
use crate::sound::{Adversary, Verdict};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use serde_json::json;
use typed_arena::Arena;

#[derive(Clone)]
enum Exp {
    Out(Vec<BigUint>),
    Refused,
    /// nothing is promised
    Any,
}
type Ins = Vec<BigUint>;

struct Job {
    name: String,
    src: String,
    curve: Curve,
    gen: Box<dyn Fn(&mut Rng) -> Ins>,
    spec: Box<dyn Fn(&[BigUint]) -> Exp>,
}

fn job(name: String, src: String, gen: impl Fn(&mut Rng) -> Ins + 'static, spec: impl Fn(&[BigUint]) -> Exp + 'static) -> Job {
    Job { name, src, curve: Curve::Bn128, gen: Box::new(gen), spec: Box::new(spec) }
}

fn word(r: &mut Rng, w: u32) -> BigUint {
    let max = (BigUint::one() << w as usize) - BigUint::one();
    match r.below(6) {
        0 => BigUint::zero(),
        1 => max,
        2 => BigUint::one() << r.below(w as usize),
        _ => big(r.u64()) & max,
    }
}
/// all zero, all one, a single bit, or random words
fn words(n: usize, w: u32) -> impl Fn(&mut Rng) -> Ins + Clone {
    move |r| {
        let max = (BigUint::one() << w as usize) - BigUint::one();
        match r.below(8) {
            0 => vec![BigUint::zero(); n],
            1 => vec![max; n],
            2 if n > 0 => {
                let mut v = vec![BigUint::zero(); n];
                let k = r.below(n);
                v[k] = BigUint::one() << r.below(w as usize);
                v
            }
            3 => (0..n).map(|_| word(r, w)).collect(),
            _ => (0..n).map(|_| big(r.u64()) & &max).collect(),
        }
    }
}
fn felt(r: &mut Rng) -> BigUint {
    let p = refs::bn128();
    match r.below(8) {
        0 => big(0),
        1 => big(r.below(4) as u64),
        2 => p - big(1 + r.below(3) as u64),
        3 => BigUint::one() << r.below(254),
        _ => r.big_below(&p),
    }
}
fn felts(n: usize) -> impl Fn(&mut Rng) -> Ins + Clone {
    move |r| (0..n).map(|_| felt(r)).collect()
}

fn u32s(v: &[BigUint]) -> Vec<u32> {
    v.iter().map(|x| (0..4).map(|i| (x.to_bytes_le().get(i).copied().unwrap_or(0) as u32) << (8 * i)).sum()).collect()
}
fn bytes(v: &[BigUint]) -> Vec<u8> {
    v.iter().map(|x| x.to_bytes_le()[0]).collect()
}
fn bools(v: &[BigUint]) -> Vec<bool> {
    v.iter().map(|x| !x.is_zero()).collect()
}
fn from32(v: &[u32]) -> Exp {
    Exp::Out(v.iter().map(|x| big(*x as u64)).collect())
}
fn from8(v: &[u8]) -> Exp {
    Exp::Out(v.iter().map(|x| big(*x as u64)).collect())
}
fn frombits(v: &[bool]) -> Exp {
    Exp::Out(v.iter().map(|x| big(*x as u64)).collect())
}
fn bits_of_words(v: &[u32]) -> Vec<bool> {
    v.iter().flat_map(|x| (0..32).rev().map(move |i| x >> i & 1 == 1)).collect()
}
fn bits_be(x: &BigUint, n: usize) -> Vec<bool> {
    (0..n).rev().map(|i| !((x >> i) & BigUint::one()).is_zero()).collect()
}
fn num(b: &[bool]) -> BigUint {
    b.iter().fold(BigUint::zero(), |a, x| (a << 1) + big(*x as u64))
}

fn params(n: usize, ty: &str) -> (String, String) {
    (
        (0..n).map(|i| format!("{} a{}", ty, i)).collect::<Vec<_>>().join(", "),
        (0..n).map(|i| format!("a{}", i)).collect::<Vec<_>>().join(", "),
    )
}

/// compiles once, executes many times
fn run(ctx: &mut Ctx, j: &Job, runs: usize) {
    dynf::select(j.curve);
    ctx.case = json!({"job": j.name, "source": j.src, "curve": j.curve.name()});
    let arena = Arena::new();
    let c = match compile_std::<D>(&j.src, &arena) {
        Ok(c) => c,
        Err(e) => {
            let ins = (j.gen)(&mut ctx.rng);
            if ins.is_empty() && matches!((j.spec)(&ins), Exp::Refused) {
                ctx.eval();
                ctx.count("refused_when_compiling");
                return;
            }
            return ctx.violation(
                &format!("{}:compile", j.name.split('<').next().unwrap()),
                format!("{} does not compile: {}\n{}", j.name, cut(e.text(), 600), j.src),
            )
        }
    };
    ctx.count("programs");
    ctx.max("statements", c.prog.statements.len() as u64);
    // the constraints are compared on every witness of small programs, once for large ones
    let ci = cir(&c.prog);
    let every = c.prog.statements.len() < 30_000;
    for k in 0..runs {
        let ins = (j.gen)(&mut ctx.rng);
        if ins.len() != c.prog.arguments.len() {
            panic!("{}: {} inputs for {} arguments", j.name, ins.len(), c.prog.arguments.len());
        }
        let shown = || cut(&ins.iter().map(|x| x.to_str_radix(10)).collect::<Vec<_>>().join(" "), 4000);
        let e = execute(&c.prog, &ins);
        ctx.eval();
        let want = (j.spec)(&ins);
        match (&e, &want) {
            (Exec::Ok(w, _), Exp::Out(o)) => {
                let got = outputs(w, c.prog.return_count);
                if got.as_ref() != Some(o) {
                    let i = got.as_ref().and_then(|g| g.iter().zip(o.iter()).position(|(a, b)| a != b)).unwrap_or(0);
                    return ctx.violation(
                        &format!("{}:value", j.name.split('<').next().unwrap()),
                        format!(
                            "{}({}) returned {:?}, specified {:?} (first difference at {})",
                            j.name,
                            shown(),
                            got.map(|g| cut(&g.iter().map(|x| x.to_str_radix(10)).collect::<Vec<_>>().join(" "), 1500)),
                            cut(&o.iter().map(|x| x.to_str_radix(10)).collect::<Vec<_>>().join(" "), 1500),
                            i
                        ),
                    );
                }
                if let Some(v) = if every || k == 0 { ci.violated(&wit(w)) } else { None } {
                    return ctx.violation(
                        &format!("{}:constraint", j.name.split('<').next().unwrap()),
                        format!("{}({}): the witness violates {}", j.name, shown(), v),
                    );
                }
                ctx.count("values_checked");
                ctx.nontrivial((&j.name, &ins.iter().map(|x| x.to_bytes_le()).collect::<Vec<_>>()));
                let (n, s) = (j.name.clone(), shown());
                ctx.sample(|| json!({"function": n, "inputs": cut(&s, 300)}));
            }
            (Exec::Ok(w, _), Exp::Refused) => {
                return ctx.violation(
                    &format!("{}:accepted", j.name.split('<').next().unwrap()),
                    format!("{}({}) is specified to be refused and returned {:?}", j.name, shown(), outputs(w, c.prog.return_count)),
                )
            }
            (Exec::Unsat(_), Exp::Refused) => ctx.count("refusals_checked"),
            (Exec::Failed(_), Exp::Refused) => ctx.count("refusals_checked"),
            (Exec::Panic(s), _) => {
                return ctx.violation(&format!("{}:panic", j.name.split('<').next().unwrap()), format!("{}({}): {}", j.name, shown(), s))
            }
            (_, Exp::Any) => ctx.count("undefined"),
            (e, Exp::Out(_)) => {
                return ctx.violation(
                    &format!("{}:refused", j.name.split('<').next().unwrap()),
                    format!("{}({}) was refused ({}) but has a value", j.name, shown(), e.show()),
                )
            }
        }
    }
}

/// looks for another output (or an accepted refusal) with the inputs fixed
fn attack(ctx: &mut Ctx, j: &Job, runs: usize, budget: u64) {
    dynf::select(j.curve);
    ctx.case = json!({"job": j.name, "source": j.src, "curve": j.curve.name()});
    let arena = Arena::new();
    let c = match compile_std::<D>(&j.src, &arena) {
        Ok(c) => c,
        Err(_) => return,
    };
    let ci = cir(&c.prog);
    let mut adv = Adversary::new(&c.prog);
    for _ in 0..runs {
        let ins = (j.gen)(&mut ctx.rng);
        let want = (j.spec)(&ins);
        let v = match &want {
            Exp::Out(o) => adv.attack(&ci, &ins, Some(o), budget),
            Exp::Refused => adv.attack(&ci, &ins, None, budget),
            Exp::Any => continue,
        };
        ctx.eval();
        match v {
            Verdict::None => ctx.count("attacks_refuted"),
            Verdict::Unknown(_) => ctx.count("attacks_undecided"),
            Verdict::Found(w) => {
                let o: Vec<_> = (0..c.prog.return_count).map(|i| w.get(&(-(i as isize) - 1)).map(|x| x.to_str_radix(10))).collect();
                return ctx.violation(
                    &format!("{}:unsound", j.name.split('<').next().unwrap()),
                    format!(
                        "{}({}): an assignment satisfies every constraint with other outputs {:?}",
                        j.name,
                        cut(&ins.iter().map(|x| x.to_str_radix(10)).collect::<Vec<_>>().join(" "), 1500),
                        o
                    ),
                );
            }
        }
    }
}

fn ref_guard(ctx: &mut Ctx) {
    thread_local! {
        static DONE: std::cell::Cell<bool> = std::cell::Cell::new(false);
    }
    if !DONE.with(|d| d.replace(true)) {
        if let Err(e) = refs::self_check() {
            panic!("{}", e);
        }
        ctx.count("reference_self_checks");
    }
}

// ------------------------------------------------------------------ hashes

fn hash_job(r: &mut Rng, kind: u64, constant: bool) -> Job {
    let u8s = |n| words(n, 8);
    match kind {
        // SHA-256 without padding: N blocks
        0 => {
            let n = r.range(1, 3);
            if r.chance(1, 2) {
                let k = [2, 4, 6][n - 1];
                let (ps, args) = params(k, "u32[8]");
                job(
                    format!("sha256/{}bit", k * 256),
                    format!("import \"hashes/sha256/{}bit\" as h;\ndef main({}) -> u32[8] {{\n    return h({});\n}}\n", k * 256, ps, args),
                    words(k * 8, 32),
                    |i| from32(&refs::sha_compress(&u32s(i))),
                )
            } else {
                job(
                    format!("sha256/sha256<{}>", n),
                    format!("import \"hashes/sha256/sha256\" as h;\ndef main(u32[{}][16] a) -> u32[8] {{\n    return h(a);\n}}\n", n),
                    words(n * 16, 32),
                    |i| from32(&refs::sha_compress(&u32s(i))),
                )
            }
        }
        1 => {
            let k = *r.pick(&[1usize, 2, 4]);
            let (ps, args) = params(k, "u32[8]");
            job(
                format!("sha256/{}bitPadded", k * 256),
                format!("import \"hashes/sha256/{}bitPadded\" as h;\ndef main({}) -> u32[8] {{\n    return h({});\n}}\n", k * 256, ps, args),
                words(k * 8, 32),
                |i| from32(&refs::sha_bits(&bits_of_words(&u32s(i)))),
            )
        }
        2 => {
            let n = if constant {
                { let l = [r.range(0, 10), r.range(52, 66), r.range(116, 130), r.range(0, 200)]; *r.pick(&l) }
            } else {
                *r.pick(&[0usize, 1, 3, 32, 54, 55, 56, 57, 64])
            };
            job(
                format!("sha256/sha256Padded<{}>", n),
                format!("import \"hashes/sha256/sha256Padded\" as h;\ndef main(u8[{}] a) -> u32[8] {{\n    return h(a);\n}}\n", n),
                u8s(n),
                |i| from32(&refs::sha_bits(&refs::bytes_to_bits(&bytes(i)))),
            )
        }
        3 => {
            let n = if constant {
                { let l = [r.range(1, 40), r.range(440, 452), r.range(508, 516), r.range(956, 964), 447, 959, r.range(1, 1500)]; *r.pick(&l) }
            } else {
                *r.pick(&[1usize, 7, 31, 33, 445, 446, 447, 448, 511, 512])
            };
            job(
                format!("sha256/sha256Padded bits<{}>", n),
                format!("from \"hashes/sha256/sha256Padded\" import sha256Padded as h;\ndef main(bool[{}] a) -> u32[8] {{\n    return h(a);\n}}\n", n),
                words(n, 1),
                |i| from32(&refs::sha_bits(&bools(i))),
            )
        }
        4 => match r.below(3) {
            0 => {
                let k = *r.pick(&[2usize, 4, 6]);
                let (ps, args) = params(k, "bool[256]");
                job(
                    format!("sha256/embed/{}bit", k * 256),
                    format!("import \"hashes/sha256/embed/{}bit\" as h;\ndef main({}) -> bool[256] {{\n    return h({});\n}}\n", k * 256, ps, args),
                    words(k * 256, 1),
                    |i| frombits(&bits_of_words(&refs::sha_compress(&refs::bits_to_words(&bools(i))))),
                )
            }
            1 => {
                let k = *r.pick(&[1usize, 2, 4]);
                let (ps, args) = params(k, "bool[256]");
                job(
                    format!("sha256/embed/{}bitPadded", k * 256),
                    format!("import \"hashes/sha256/embed/{}bitPadded\" as h;\ndef main({}) -> bool[256] {{\n    return h({});\n}}\n", k * 256, ps, args),
                    words(k * 256, 1),
                    |i| frombits(&bits_of_words(&refs::sha_bits(&bools(i)))),
                )
            }
            _ => {
                let e = r.chance(1, 2);
                job(
                    format!("sha256/{}512bitPacked", if e { "embed/" } else { "" }),
                    format!(
                        "import \"hashes/sha256/{}512bitPacked\" as h;\ndef main(field[4] a) -> field[2] {{\n    return h(a);\n}}\n",
                        if e { "embed/" } else { "" }
                    ),
                    |r| {
                        (0..4)
                            .map(|_| match r.below(12) {
                                0 => (BigUint::one() << 128) - BigUint::one(),
                                1 => big(0),
                                2 if r.chance(1, 3) => (BigUint::one() << 128) + big(r.below(2) as u64),
                                _ => (big(r.u64()) << 64) + big(r.u64()),
                            })
                            .collect()
                    },
                    |i| {
                        if i.iter().any(|x| x.bits() > 128) {
                            return Exp::Refused;
                        }
                        let m: Vec<bool> = i.iter().flat_map(|x| bits_be(x, 128)).collect();
                        let h = bits_of_words(&refs::sha_bits(&m));
                        Exp::Out(vec![num(&h[..128]), num(&h[128..])])
                    },
                )
            }
        },
        5 => {
            let e = r.chance(1, 2);
            if e {
                job(
                    "sha256/embed/shaRoundNoBoolCheck".into(),
                    "import \"hashes/sha256/embed/shaRoundNoBoolCheck\" as h;\ndef main(bool[256] a, bool[256] b, bool[256] c) -> bool[256] {\n    return h(a, b, c);\n}\n".into(),
                    words(768, 1),
                    |i| {
                        let w = refs::bits_to_words(&bools(i));
                        let mut s = [0; 8];
                        s.copy_from_slice(&w[16..]);
                        frombits(&bits_of_words(&refs::sha_round(&w[..16], s)))
                    },
                )
            } else {
                job(
                    "sha256/shaRound".into(),
                    "import \"hashes/sha256/shaRound\" as h;\ndef main(u32[16] a, u32[8] c) -> u32[8] {\n    return h(a, c);\n}\n".into(),
                    words(24, 32),
                    |i| {
                        let w = u32s(i);
                        let mut s = [0; 8];
                        s.copy_from_slice(&w[16..]);
                        from32(&refs::sha_round(&w[..16], s))
                    },
                )
            }
        }
        // Keccak and SHA-3 with lengths around the rate
        6 | 7 => {
            let out = *r.pick(&[28usize, 32, 48, 64]);
            let rate = 200 - 2 * out;
            let n = if kind == 6 { *r.pick(&[0usize, 1, 7, 8, 9, 32, rate - 2, rate - 1]) } else { *r.pick(&[rate - 1, rate, rate + 1, 3]) };
            let three = r.chance(1, 2);
            job(
                format!("{}/{}bit<{}>", if three { "sha3" } else { "keccak" }, out * 8, n),
                format!(
                    "import \"hashes/{}/{}bit\" as h;\ndef main(u8[{}] a) -> u8[{}] {{\n    return h(a);\n}}\n",
                    if three { "sha3" } else { "keccak" },
                    out * 8,
                    n,
                    out
                ),
                u8s(n),
                move |i| from8(&refs::keccak(&bytes(i), out, if three { 6 } else { 1 })),
            )
        }
        8 => {
            let k = r.range(1, 3);
            let p = r.chance(1, 2);
            job(
                format!("blake2/blake2s{}<{}>", if p { "_p" } else { "" }, k),
                if p {
                    format!("import \"hashes/blake2/blake2s_p\" as h;\ndef main(u32[{}][16] a, u32[2] p) -> u32[8] {{\n    return h(a, p);\n}}\n", k)
                } else {
                    format!("import \"hashes/blake2/blake2s\" as h;\ndef main(u32[{}][16] a) -> u32[8] {{\n    return h(a);\n}}\n", k)
                },
                words(k * 16 + if p { 2 } else { 0 }, 32),
                move |i| {
                    let b: Vec<u8> = u32s(i).iter().flat_map(|x| x.to_be_bytes()).collect();
                    let mut pers = [0u8; 8];
                    if p {
                        pers.copy_from_slice(&b[k * 64..]);
                    }
                    let h = refs::blake2s(&b[..k * 64], &pers);
                    from32(&h.chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect::<Vec<_>>())
                },
            )
        }
        9 => {
            if r.chance(1, 2) {
                let n = *r.pick(&[1usize, 2, 10, 46, 90, 91]);
                job(
                    format!("mimc7<{}>", n),
                    format!("import \"hashes/mimc7/mimc7\" as h;\ndef main(field x, field k) -> field {{\n    return h::<{}>(x, k);\n}}\n", n),
                    felts(2),
                    move |i| Exp::Out(vec![refs::mimc7(&i[0], &i[1], n)]),
                )
            } else {
                let (a, b) = (r.range(1, 4), r.range(1, 4));
                job(
                    format!("mimcSponge<{}, {}>", a, b),
                    format!("import \"hashes/mimcSponge/mimcSponge\" as h;\ndef main(field[{}] x, field k) -> field[{}] {{\n    return h(x, k);\n}}\n", a, b),
                    felts(a + 1),
                    move |i| Exp::Out(refs::mimc_sponge(&i[..a], &i[a], b)),
                )
            }
        }
        10 => {
            let n = r.range(1, 6);
            job(
                format!("poseidon<{}>", n),
                format!("import \"hashes/poseidon/poseidon\" as h;\ndef main(field[{}] x) -> field {{\n    return h(x);\n}}\n", n),
                felts(n),
                |i| Exp::Out(vec![refs::poseidon(i)]),
            )
        }
        _ => match r.below(3) {
            0 => job(
                "pedersen/512bit".into(),
                "import \"hashes/pedersen/512bit\" as h;\ndef main(u32[16] a) -> u32[8] {\n    return h(a);\n}\n".into(),
                words(16, 32),
                |i| from32(&refs::bits_to_words(&refs::compress(&refs::pedersen(&bits_of_words(&u32s(i)))))),
            ),
            1 => job(
                "pedersen/512bitBool".into(),
                "import \"hashes/pedersen/512bitBool\" as h;\ndef main(bool[512] a) -> bool[256] {\n    return h(a);\n}\n".into(),
                words(512, 1),
                |i| frombits(&refs::compress(&refs::pedersen(&bools(i)))),
            ),
            _ => job(
                "utils/256bitsDirectionHelper".into(),
                "import \"hashes/utils/256bitsDirectionHelper\" as h;\ndef main(bool s, u32[8] a, u32[8] b) -> u32[16] {\n    return h(s, a, b);\n}\n".into(),
                |r| {
                    let mut v = vec![big(r.below(2) as u64)];
                    v.extend(words(16, 32)(r));
                    v
                },
                |i| {
                    let (a, b) = (i[1..9].to_vec(), i[9..].to_vec());
                    Exp::Out(if i[0].is_zero() { [a, b].concat() } else { [b, a].concat() })
                },
            ),
        },
    }
}

fn literal(ty: &str, vals: &mut dyn Iterator<Item = &BigUint>) -> String {
    match ty.find('[') {
        None => {
            let v = vals.next().unwrap();
            match ty {
                "bool" => (!v.is_zero()).to_string(),
                "field" => v.to_str_radix(10),
                t => format!("{}{}", v.to_str_radix(10), t),
            }
        }
        Some(i) => {
            // the first dimension is the outermost one
            let e = ty.find(']').unwrap();
            let n: usize = ty[i + 1..e].parse().unwrap();
            let inner = format!("{}{}", &ty[..i], &ty[e + 1..]);
            if n == 0 {
                return format!("[{}; 0]", literal(&inner, &mut std::iter::repeat(&BigUint::zero())));
            }
            format!("[{}]", (0..n).map(|_| literal(&inner, vals)).collect::<Vec<_>>().join(", "))
        }
    }
}

fn flat_len(ty: &str) -> usize {
    ty.split('[').skip(1).map(|d| d[..d.find(']').unwrap()].parse::<usize>().unwrap()).product()
}

/// the same function with some of its arguments (all, unless `mixed`) known when compiling
fn constant(r: &mut Rng, j: Job, mixed: bool) -> Job {
    let ins = (j.gen)(r);
    let i = j.src.find("def main(").unwrap() + 9;
    let e = i + j.src[i..].find(')').unwrap();
    let ret = &j.src[e + 1..e + j.src[e..].find('{').unwrap()];
    let mut it = ins.iter();
    let (mut params, mut args, mut keep) = (vec![], vec![], vec![]);
    for p in j.src[i..e].split(", ").filter(|x| !x.is_empty()) {
        let (ty, name) = p.split_once(' ').unwrap();
        let n = flat_len(ty);
        let vals: Vec<_> = it.by_ref().take(n).collect();
        let dynamic = mixed && r.chance(1, 2);
        keep.extend((0..n).map(|_| dynamic));
        if dynamic {
            params.push(p.to_string());
            args.push(name.to_string());
        } else {
            args.push(literal(ty, &mut vals.into_iter()));
        }
    }
    let src = format!(
        "{}\ndef main({}){}{{\n    return inner({});\n}}\n",
        j.src.replace("def main(", "def inner("),
        params.join(", "),
        ret,
        args.join(", ")
    );
    let name = match j.name.split_once('<') {
        Some((a, b)) => format!("{} constant<{}", a, b),
        None => format!("{} constant", j.name),
    };
    let (ins2, keep2) = (ins.clone(), keep.clone());
    let (gen, spec) = (j.gen, j.spec);
    let first = std::cell::Cell::new(true);
    Job {
        name,
        src,
        curve: j.curve,
        gen: Box::new(move |r| {
            let v = if first.replace(false) { ins2.clone() } else { gen(r) };
            v.into_iter().zip(&keep2).filter(|x| *x.1).map(|x| x.0).collect()
        }),
        spec: Box::new(move |v| {
            let mut v = v.iter();
            let all: Vec<_> = ins.iter().zip(&keep).map(|(c, k)| if *k { v.next().unwrap().clone() } else { c.clone() }).collect();
            spec(&all)
        }),
    }
}

fn l01(ctx: &mut Ctx, idx: u64) {
    ref_guard(ctx);
    let mut r = ctx.rng.clone();
    let con = idx % 4 != 0;
    // when the message is constant, only the cheap functions
    let kind = if con { [2, 3, 10, 4, 8, 3, 9, 1, 2, 5, 11, 0][((idx - idx / 4 - 1) % 12) as usize] } else { [7, 6, 3, 11, 2, 8, 4, 9, 1, 10, 5, 0][(idx / 4 % 12) as usize] };
    let mut j = hash_job(&mut r, kind, con);
    if con {
        j = constant(&mut r, j, false);
    }
    ctx.rng = r;
    ctx.count(&format!("case_{}", j.name.split('/').next().unwrap().split('<').next().unwrap().split(' ').next().unwrap()));
    if con {
        ctx.count("constant_programs");
    }
    run(ctx, &j, if con { 1 } else { 8 });
}

// ------------------------------------------------------------------ curve arithmetic and signatures

fn point(r: &mut Rng) -> Pt {
    let p = refs::bn128();
    match r.below(8) {
        0 => refs::infinity(),
        1 => refs::generator(),
        2 => (big(0), p - big(1)),
        3 => refs::ed_mul(&big(r.below(20) as u64), &refs::generator()),
        4 => loop {
            // any point of the curve, in the small subgroup or not
            let y = big(r.u64());
            if let Some(q) = refs::lift(&y) {
                break if r.chance(1, 3) { refs::ed_mul(&refs::order(), &q) } else { q };
            }
        },
        _ => refs::ed_mul(&r.big_below(&refs::order()), &refs::generator()),
    }
}

const CTX: &str = "from \"ecc/babyjubjubParams\" import BABYJUBJUB_PARAMS;\n";

fn sign(r: &mut Rng) -> Ins {
    // R, S, A, M0, M1 and then damage
    let p = refs::bn128();
    let g = refs::generator();
    let l = refs::order();
    let a = r.big_below(&l);
    let pk = refs::ed_mul(&a, &g);
    let rr = r.big_below(&l);
    let mut rp = refs::ed_mul(&rr, &g);
    let m = words(16, 32)(r);
    let h = |rp: &Pt, pk: &Pt, m: &[BigUint]| {
        let mut b = bits_be(&rp.0, 256);
        b.extend(bits_be(&pk.0, 256));
        b.extend(bits_of_words(&u32s(m)));
        num(&bits_of_words(&refs::sha_bits(&b)))
    };
    let mut s = (&rr + h(&rp, &pk, &m) * &a) % &l;
    let mut m = m;
    let mut pk = pk;
    match r.below(12) {
        0 => s = (s + big(1)) % &p,
        1 => s += &l,
        2 => {
            let k = r.below(16);
            m[k] = (&m[k] + big(1)) & big(0xffff_ffff);
        }
        3 => rp.0 = (&p - &rp.0) % &p,
        4 => rp = (r.big_below(&p), r.big_below(&p)),
        5 => rp = refs::infinity(),
        6 => pk = refs::ed_mul(&(&a + big(1)), &g),
        7 => s = r.big_below(&l),
        8 => rp = refs::ed_mul(&l, &loop {
            if let Some(q) = refs::lift(&big(r.u64())) {
                break q;
            }
        }),
        _ => {}
    }
    let mut v = vec![rp.0, rp.1, s, pk.0, pk.1];
    v.extend(m);
    v
}

fn curve_job(r: &mut Rng, idx: u64) -> Job {
    let b1 = |x: bool| Exp::Out(vec![big(x as u64)]);
    match idx % 8 {
        0 => job(
            "ecc/edwardsAdd".into(),
            format!("{}import \"ecc/edwardsAdd\" as f;\ndef main(field[2] a, field[2] b) -> field[2] {{\n    return f(a, b, BABYJUBJUB_PARAMS);\n}}\n", CTX),
            |r| {
                let (a, b) = (point(r), if r.chance(1, 10) { (felt(r), felt(r)) } else { point(r) });
                vec![a.0, a.1, b.0, b.1]
            },
            |i| match refs::ed_add(&(i[0].clone(), i[1].clone()), &(i[2].clone(), i[3].clone())) {
                Some(q) => Exp::Out(vec![q.0, q.1]),
                None => Exp::Refused,
            },
        ),
        1 => job(
            "ecc/edwardsNegate".into(),
            "import \"ecc/edwardsNegate\" as f;\ndef main(field[2] a) -> field[2] {\n    return f(a);\n}\n".into(),
            |r| {
                let a = point(r);
                vec![a.0, a.1]
            },
            |i| Exp::Out(vec![(refs::bn128() - &i[0]) % refs::bn128(), i[1].clone()]),
        ),
        2 => job(
            "ecc/edwardsOnCurve".into(),
            format!("{}import \"ecc/edwardsOnCurve\" as f;\ndef main(field[2] a) -> bool {{\n    return f(a, BABYJUBJUB_PARAMS);\n}}\n", CTX),
            |r| {
                let mut a = point(r);
                match r.below(4) {
                    0 => a.0 = felt(r),
                    1 => a.1 = (&a.1 + big(1)) % refs::bn128(),
                    2 => a = (a.1, a.0),
                    _ => {}
                }
                vec![a.0, a.1]
            },
            move |i| if refs::on_curve(&(i[0].clone(), i[1].clone())) { b1(true) } else { Exp::Refused },
        ),
        3 => job(
            "ecc/edwardsOrderCheck".into(),
            format!("{}import \"ecc/edwardsOrderCheck\" as f;\ndef main(field[2] a) -> bool {{\n    return f(a, BABYJUBJUB_PARAMS);\n}}\n", CTX),
            |r| {
                let a = point(r);
                vec![a.0, a.1]
            },
            move |i| b1(refs::ed_mul(&big(8), &(i[0].clone(), i[1].clone())) != refs::infinity()),
        ),
        4 => job(
            "ecc/edwardsCompress".into(),
            "import \"ecc/edwardsCompress\" as f;\ndef main(field[2] a) -> bool[256] {\n    return f(a);\n}\n".into(),
            |r| {
                let a = if r.chance(1, 3) { (felt(r), felt(r)) } else { point(r) };
                vec![a.0, a.1]
            },
            |i| frombits(&refs::compress(&(i[0].clone(), i[1].clone()))),
        ),
        5 => job(
            "ecc/edwardsScalarMult".into(),
            format!("{}import \"ecc/edwardsScalarMult\" as f;\ndef main(bool[256] k, field[2] a) -> field[2] {{\n    return f(k, a, BABYJUBJUB_PARAMS);\n}}\n", CTX),
            |r| {
                let mut v = match r.below(4) {
                    0 => bits_be(&big(r.below(20) as u64), 256),
                    1 => bits_be(&(refs::order() + big(r.below(3) as u64) - big(1)), 256),
                    _ => bits_be(&BigUint::from_bytes_be(&r.bytes(32)), 256),
                }
                .into_iter()
                .map(|b| big(b as u64))
                .collect::<Vec<_>>();
                let a = point(r);
                v.push(a.0);
                v.push(a.1);
                v
            },
            |i| {
                let q = refs::ed_mul(&num(&bools(&i[..256])), &(i[256].clone(), i[257].clone()));
                Exp::Out(vec![q.0, q.1])
            },
        ),
        6 => job(
            "ecc/proofOfOwnership".into(),
            format!("{}import \"ecc/proofOfOwnership\" as f;\ndef main(field[2] a, field k) -> bool {{\n    return f(a, k, BABYJUBJUB_PARAMS);\n}}\n", CTX),
            |r| {
                let k = felt(r);
                let mut a = refs::ed_mul(&k, &refs::generator());
                match r.below(5) {
                    0 => a.0 = (refs::bn128() - a.0) % refs::bn128(),
                    1 => a = point(r),
                    2 => a.1 = (a.1 + big(1)) % refs::bn128(),
                    _ => {}
                }
                vec![a.0, a.1, k]
            },
            move |i| b1(refs::ed_mul(&i[2], &refs::generator()) == (i[0].clone(), i[1].clone())),
        ),
        _ => {
            let _ = r;
            job(
                "signatures/verifyEddsa".into(),
                format!(
                    "{}import \"signatures/verifyEddsa\" as f;\ndef main(field[2] R, field S, field[2] A, u32[8] M0, u32[8] M1) -> bool {{\n    return f(R, S, A, M0, M1, BABYJUBJUB_PARAMS);\n}}\n",
                    CTX
                ),
                sign,
                move |i| {
                    let (rp, a): (Pt, Pt) = ((i[0].clone(), i[1].clone()), (i[3].clone(), i[4].clone()));
                    if !refs::on_curve(&rp) || refs::ed_mul(&big(8), &rp) == refs::infinity() {
                        return Exp::Refused;
                    }
                    let mut b = bits_be(&rp.0, 256);
                    b.extend(bits_be(&a.0, 256));
                    b.extend(bits_of_words(&u32s(&i[5..])));
                    let h = num(&bits_of_words(&refs::sha_bits(&b)));
                    let rhs = refs::ed_add(&rp, &refs::ed_mul(&h, &a));
                    b1(Some(refs::ed_mul(&i[2], &refs::generator())) == rhs)
                },
            )
        }
    }
}

fn l02(ctx: &mut Ctx, idx: u64) {
    ref_guard(ctx);
    let kind = if idx % 20 == 7 { 7 } else { idx % 7 };
    let mut r = ctx.rng.clone();
    let mut j = curve_job(&mut r, kind);
    let con = (idx / 7 % 2 == 1 && kind != 7) || idx % 40 == 27;
    if con {
        ctx.count("constant_programs");
        j = constant(&mut r, j, idx / 14 % 2 == 1);
    }
    let once = con && j.src.contains("def main()");
    ctx.rng = r;
    let k = match kind {
        _ if once => 1,
        5 | 6 => 6,
        7 => 10,
        _ => 40,
    };
    run(ctx, &j, if ctx.thorough { k * 4 } else { k });
    // small enough to be searched for other outputs
    if kind < 5 {
        attack(ctx, &j, if ctx.thorough { 24 } else { 6 }, 20_000);
    }
}

// ------------------------------------------------------------------ casts, packing, multiplexers

fn cast_job(r: &mut Rng) -> Job {
    let mut curve = Curve::Bn128;
    let curves = [Curve::Bn128, Curve::Bls12_381, Curve::Bls12_377, Curve::Bw6_761, Curve::Pallas, Curve::Vesta];
    let any = *r.pick(&curves);
    let ws = [8usize, 16, 32, 64];
    let mut j = match r.below(16) {
        // one value or an array of values regrouped into wider or narrower ones
        0..=5 => {
            let (a, b) = (*r.pick(&[1usize, 8, 16, 32, 64]), *r.pick(&[1usize, 8, 16, 32, 64, 0]));
            let ty = |w: usize| if w == 1 { "bool".into() } else if w == 0 { "field".to_string() } else { format!("u{}", w) };
            curve = any;
            if b == 0 {
                let a = if a == 1 { 8 } else { a };
                let n = r.range(1, 4);
                let single = r.chance(1, 2);
                return Job {
                    curve: any,
                    ..job(
                        format!("casts {} to field", ty(a)),
                        if single {
                            format!("import \"utils/casts\";\nfrom \"utils/casts\" import cast;\ndef main({} a) -> field {{\n    field r = cast(a);\n    return r;\n}}\n", ty(a))
                        } else {
                            format!("from \"utils/casts\" import cast;\ndef main({}[{}] a) -> field[{}] {{\n    field[{}] r = cast(a);\n    return r;\n}}\n", ty(a), n, n, n)
                        }
                        .replace("import \"utils/casts\";\n", ""),
                        words(if single { 1 } else { n }, a as u32),
                        |i| Exp::Out(i.to_vec()),
                    )
                };
            }
            let (a, b) = if a == b { (8, 16) } else { (a, b) };
            let k = r.range(1, 3);
            let total = a.max(b) * k;
            let (n, m) = (total / a, total / b);
            // the forms offered: T[] to U[], and a single value in place of an array of one
            let src_ty = if n == 1 && r.chance(1, 2) { ty(a) } else { format!("{}[{}]", ty(a), n) };
            let dst_ty = if m == 1 && r.chance(1, 2) { ty(b) } else { format!("{}[{}]", ty(b), m) };
            let single_src = !src_ty.contains('[');
            let single_dst = !dst_ty.contains('[');
            let src_ty = if single_src && single_dst { ty(a) } else { src_ty };
            // a single source goes to an array of many, an array of many to a single
            let (src_ty, dst_ty) = if single_src && !single_dst && m == 1 {
                (format!("{}[1]", ty(a)), dst_ty)
            } else if single_dst && !single_src && n == 1 {
                (src_ty, format!("{}[1]", ty(b)))
            } else {
                (src_ty, dst_ty)
            };
            job(
                format!("casts {} to {}", src_ty, dst_ty),
                format!("from \"utils/casts\" import cast;\ndef main({} a) -> {} {{\n    {} r = cast(a);\n    return r;\n}}\n", src_ty, dst_ty, dst_ty),
                words(n, a as u32),
                move |i| {
                    let bits: Vec<bool> = i.iter().flat_map(|x| bits_be(x, a)).collect();
                    Exp::Out(bits.chunks(b).map(num).collect())
                },
            )
        }
        6 => {
            let (a, b) = *r.pick(&[(8usize, 16usize), (8, 32), (8, 64), (16, 32), (16, 64), (32, 64)]);
            curve = any;
            job(
                format!("casts u{} to u{}", a, b),
                format!("from \"utils/casts\" import cast;\ndef main(u{} a) -> u{} {{\n    u{} r = cast(a);\n    return r;\n}}\n", a, b, b),
                words(1, a as u32),
                |i| Exp::Out(i.to_vec()),
            )
        }
        7 => {
            let w = *r.pick(&ws);
            curve = any;
            job(
                format!("casts/field_to_u{}", w),
                format!("import \"utils/casts/field_to_u{}\" as f;\ndef main(field a) -> u{} {{\n    return f(a);\n}}\n", w, w),
                move |r| {
                    vec![match r.below(5) {
                        0 => any.p() - big(1 + r.below(3) as u64),
                        1 => BigUint::one() << r.below(250),
                        _ => r.big_below(&any.p()),
                    }]
                },
                move |i| Exp::Out(vec![&i[0] & ((BigUint::one() << w) - BigUint::one())]),
            )
        }
        8 => {
            let w = *r.pick(&ws);
            curve = any;
            job(
                format!("casts/u{}_to_field", w),
                format!("import \"utils/casts/u{}_to_field\" as f;\ndef main(u{} a) -> field {{\n    return f(a);\n}}\n", w, w),
                words(1, w as u32),
                |i| Exp::Out(i.to_vec()),
            )
        }
        9 => {
            let w = *r.pick(&ws);
            curve = any;
            if r.chance(1, 2) {
                job(
                    format!("casts/u{}_to_bits", w),
                    format!("import \"utils/casts/u{}_to_bits\" as f;\ndef main(u{} a) -> bool[{}] {{\n    return f(a);\n}}\n", w, w, w),
                    words(1, w as u32),
                    move |i| frombits(&bits_be(&i[0], w)),
                )
            } else {
                job(
                    format!("casts/u{}_from_bits", w),
                    format!("import \"utils/casts/u{}_from_bits\" as f;\ndef main(bool[{}] a) -> u{} {{\n    return f(a);\n}}\n", w, w, w),
                    words(w, 1),
                    |i| Exp::Out(vec![num(&bools(i))]),
                )
            }
        }
        10 => {
            curve = any;
            let (f, a, n, b, m) = *r.pick(&[
                ("bool_128_to_u32_4", "bool", 128usize, "u32", 4usize),
                ("bool_256_to_u32_8", "bool", 256, "u32", 8),
                ("u32_4_to_bool_128", "u32", 4, "bool", 128),
                ("u32_8_to_bool_256", "u32", 8, "bool", 256),
                ("bool_array_to_u32_array", "bool", 96, "u32", 3),
                ("u32_array_to_bool_array", "u32", 2, "bool", 64),
            ]);
            let (wa, wb) = (if a == "bool" { 1 } else { 32 }, if b == "bool" { 1 } else { 32 });
            job(
                format!("casts/{}", f),
                format!("import \"utils/casts/{}\" as f;\ndef main({}[{}] a) -> {}[{}] {{\n    return f(a);\n}}\n", f, a, n, b, m),
                words(n, wa as u32),
                move |i| {
                    let bits: Vec<bool> = i.iter().flat_map(|x| bits_be(x, wa)).collect();
                    Exp::Out(bits.chunks(wb).map(num).collect())
                },
            )
        }
        11 | 12 => {
            // packing
            let (f, n) = match r.below(3) {
                0 => ("pack128".to_string(), 128),
                1 => ("pack256".to_string(), 256),
                _ => ("pack".to_string(), *r.pick(&[1usize, 2, 8, 33, 64, 128, 253, 254, 255])),
            };
            let generic = f == "pack";
            if generic {
                curve = any;
            }
            let p = curve.p();
            if r.chance(1, 2) {
                job(
                    format!("pack/bool/{}<{}>", f, n),
                    format!("import \"utils/pack/bool/{}\" as f;\ndef main(bool[{}] a) -> field {{\n    return f(a);\n}}\n", f, n),
                    words(n, 1),
                    move |i| Exp::Out(vec![num(&bools(i)) % &p]),
                )
            } else {
                let k = (n + 31) / 32;
                job(
                    format!("pack/u32/{}<{}>", f, k),
                    format!("import \"utils/pack/u32/{}\" as f;\ndef main(u32[{}] a) -> field {{\n    return f(a);\n}}\n", f, k),
                    words(k, 32),
                    move |i| Exp::Out(vec![num(&bits_of_words(&u32s(i))) % &p]),
                )
            }
        }
        13 | 14 => {
            // unpacking: big-endian bits, refused when they do not fit
            let size = |c: Curve| (c.p() - BigUint::one()).bits() as usize;
            let (f, n, c, words32) = match r.below(6) {
                0 => ("bool/unpack128", 128, any, false),
                1 => ("bool/unpack256", 256, Curve::Bn128, false),
                2 => ("u32/unpack128", 128, Curve::Bn128, true),
                3 => ("bool/nonStrictUnpack256", 256, Curve::Bn128, false),
                4 => ("u32/nonStrictUnpack256", 256, Curve::Bn128, true),
                _ => (
                    "bool/unpack",
                    {
                        let s = size(any);
                        *r.pick(&[1usize, 2, 8, 100, s - 1, s, s + 1, s + 3])
                    },
                    any,
                    false,
                ),
            };
            curve = c;
            job(
                format!("pack/{}<{}>", f, n),
                format!(
                    "import \"utils/pack/{}\" as f;\ndef main(field a) -> {} {{\n    return f(a);\n}}\n",
                    f,
                    if words32 { format!("u32[{}]", n / 32) } else { format!("bool[{}]", n) }
                ),
                move |r| {
                    let p = c.p();
                    vec![match r.below(8) {
                        0 => &p - big(1 + r.below(3) as u64),
                        1 if BigUint::one() << n < p => BigUint::one() << n,
                        2 if BigUint::one() << n < p => (BigUint::one() << n) - big(1),
                        3 => big(r.below(3) as u64),
                        4 => r.big_below(&p),
                        // small enough to have a second decomposition
                        5 => r.big_below(&((BigUint::one() << size(c)) - &p)),
                        _ => {
                            let b = (BigUint::one() << n.min(size(c))).min(p);
                            r.big_below(&b)
                        }
                    }]
                },
                move |i| {
                    if i[0].bits() as usize > n {
                        return Exp::Refused;
                    }
                    let b = bits_be(&i[0], n);
                    if words32 {
                        from32(&refs::bits_to_words(&b))
                    } else {
                        frombits(&b)
                    }
                },
            )
        }
        _ => {
            curve = any;
            let p = any.p();
            match r.below(4) {
                0 => job(
                    "multiplexer/lookup1bit".into(),
                    "import \"utils/multiplexer/lookup1bit\" as f;\ndef main(bool b, field[2] c) -> field {\n    return f(b, c);\n}\n".into(),
                    move |r| (0..3).map(|i| if i < 1 { big(r.below(2) as u64) } else { r.big_below(&p) }).collect(),
                    |i| Exp::Out(vec![i[1 + (!i[0].is_zero()) as usize].clone()]),
                ),
                1 => job(
                    "multiplexer/lookup2bit".into(),
                    "import \"utils/multiplexer/lookup2bit\" as f;\ndef main(bool[2] b, field[4] c) -> field {\n    return f(b, c);\n}\n".into(),
                    move |r| (0..6).map(|i| if i < 2 { big(r.below(2) as u64) } else { r.big_below(&p) }).collect(),
                    |i| Exp::Out(vec![i[2 + (!i[0].is_zero()) as usize + 2 * (!i[1].is_zero()) as usize].clone()]),
                ),
                2 => {
                    let q = p.clone();
                    job(
                        "multiplexer/lookup3bitSigned".into(),
                        "import \"utils/multiplexer/lookup3bitSigned\" as f;\ndef main(bool[3] b, field[4] c) -> field {\n    return f(b, c);\n}\n".into(),
                        move |r| (0..7).map(|i| if i < 3 { big(r.below(2) as u64) } else { r.big_below(&p) }).collect(),
                        move |i| {
                            let x = i[3 + (!i[0].is_zero()) as usize + 2 * (!i[1].is_zero()) as usize].clone();
                            Exp::Out(vec![if i[2].is_zero() { x } else { (&q - x) % &q }])
                        },
                    )
                }
                _ => job(
                    "field constants".into(),
                    "from \"field\" import FIELD_MIN, FIELD_MAX, FIELD_SIZE_IN_BITS;\ndef main() -> (field, field, u32) {\n    return (FIELD_MIN, FIELD_MAX, FIELD_SIZE_IN_BITS);\n}\n".into(),
                    |_| vec![],
                    move |_| Exp::Out(vec![big(0), any.p() - big(1), big(any.p().bits() as u64)]),
                ),
            }
        }
    };
    j.curve = curve;
    j
}

fn l03(ctx: &mut Ctx, _idx: u64) {
    let mut r = ctx.rng.clone();
    let mut j = cast_job(&mut r);
    if r.chance(1, 3) {
        ctx.count("constant_programs");
        let m = r.chance(1, 2);
        j = constant(&mut r, j, m);
    }
    ctx.rng = r;
    ctx.count(&format!("case_{}", j.name.split('/').next().unwrap().split(' ').next().unwrap()));
    run(ctx, &j, if ctx.thorough { 40 } else { 12 });
    // these two announce that other decompositions are possible
    if !j.name.contains("nonStrict") {
        attack(ctx, &j, 3, 10_000);
    }
}

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "L01",
            level: "exploration",
            rule: "every hash of the standard library returns what an independent implementation of its specification returns",
            assumptions: &["the reference implementations, checked against published vectors at start, are right"],
            quick: 64,
            thorough: 1200,
            quick_s: 60,
            thorough_s: 800,
            run: l01,
            require: &["values_checked", "case_sha256", "case_keccak", "constant_programs", "case_blake2", "case_poseidon"],
        },
        Prop {
            id: "L02",
            level: "exploration",
            rule: "curve arithmetic and signature verification of the standard library agree with independent arithmetic on Baby Jubjub; small gadgets have one output",
            assumptions: &["the reference arithmetic is right"],
            quick: 42,
            thorough: 1600,
            quick_s: 60,
            thorough_s: 800,
            run: l02,
            require: &["values_checked", "refusals_checked", "attacks_refuted"],
        },
        Prop {
            id: "L03",
            level: "exploration",
            rule: "casts, packing, unpacking and lookups of the standard library agree with their definition on bits, and have one output",
            assumptions: &["the circuits searched completely are those counted as attacks_refuted"],
            quick: 800,
            thorough: 20000,
            quick_s: 60,
            thorough_s: 800,
            run: l03,
            require: &["values_checked", "refusals_checked", "attacks_refuted", "case_casts", "case_pack", "case_multiplexer"],
        },
    ]
}
