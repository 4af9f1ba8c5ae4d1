//! N01: Nova, step circuits and incremental proofs of them.
use super::cli::{zok, Dir};
use crate::prng::Rng;
use crate::run::*;
use num_bigint::BigUint;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Command, Stdio};
use typed_arena::Arena;
use vlib::dynf::{self, D};
use vlib::engine::*;
use vlib::prog::*;
use zokrates_ast::ir;

/// the program and the function it wraps
struct Stepper {
    prog: Program,
    private: bool,
}

/// a state of the public parameters of a generated program and its result; a step feeds results back where types allow it
fn stepper(r: &mut Rng, p: &BigUint, private: Option<bool>) -> Stepper {
    let simple = r.chance(1, 3);
    let mut pf = Profile {
        asserts: r.chance(1, 3),
        logs: r.chance(1, 6),
        stmts: r.range(1, 4),
        max_depth: r.range(2, 3),
        ..Profile::base()
    };
    if simple {
        pf.w_bool = 0;
        pf.w_uint = 0;
    }
    let mut q = Gen::program(r, &pf, p);
    let some_private = private.unwrap_or_else(|| r.chance(2, 3)) && !q.params.is_empty();
    let mut sts: Vec<Ty> = vec![];
    let mut pts: Vec<Ty> = vec![];
    let mut args = vec![];
    let with_result = q.params.is_empty() || r.chance(1, 2);
    if with_result {
        sts.push(q.ret.clone());
    }
    for (i, a) in q.params.iter().enumerate() {
        if some_private && (i + 1 == q.params.len() || r.chance(1, 3)) {
            args.push(E::TupGet(Box::new(E::Var("step".into())), pts.len()));
            pts.push(a.ty.clone());
        } else {
            args.push(E::TupGet(Box::new(E::Var("state".into())), sts.len()));
            sts.push(a.ty.clone());
        }
    }
    if sts.is_empty() {
        sts.push(q.ret.clone());
    }
    let f = q.funs.len();
    q.funs.push(Fun {
        name: "one_step".into(),
        generics: vec![],
        params: q.params.iter().map(|a| (a.ty.clone(), a.mutable, a.name.clone())).collect(),
        ret: q.ret.clone(),
        body: std::mem::take(&mut q.body),
    });
    // the result takes the place of values of its type
    let mut next: Vec<E> = vec![];
    let mut used = false;
    for (i, t) in sts.iter().enumerate() {
        if *t == q.ret && (!used || r.chance(1, 3)) {
            next.push(E::Var("result".into()));
            used = true;
        } else {
            let same: Vec<usize> = (0..sts.len()).filter(|j| sts[*j] == *t).collect();
            let j = if r.chance(1, 3) { *r.pick(&same) } else { i };
            next.push(E::TupGet(Box::new(E::Var("state".into())), j));
        }
    }
    let st = Ty::Tup(sts);
    q.params = vec![Param { ty: st.clone(), private: Some(false), mutable: false, name: "state".into() }];
    let private = !pts.is_empty();
    if private {
        q.params.push(Param { ty: Ty::Tup(pts), private: Some(true), mutable: false, name: "step".into() });
    }
    q.body = vec![S::Def(false, q.ret.clone(), "result".into(), E::Call(f, args, None)), S::Return(E::TupLit(next))];
    q.ret = st;
    Stepper { prog: q, private }
}

/// the states after every step
fn states(s: &Stepper, init: &V, steps: &[V]) -> Option<Vec<V>> {
    let mut cur = init.clone();
    let mut all = vec![];
    for x in steps {
        let mut ev = Ev::new(&s.prog);
        let a = if s.private { vec![cur.clone(), x.clone()] } else { vec![cur.clone()] };
        match ev.run(&a) {
            Ok(v) if !ev.may_fail => cur = v,
            _ => return None,
        }
        all.push(cur.clone());
    }
    Some(all)
}

fn strs(v: &[BigUint]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}

fn nums(j: &J) -> Vec<BigUint> {
    j.as_array().map(|a| a.iter().filter_map(|x| x.as_str()?.parse().ok()).collect()).unwrap_or_default()
}

/// run a job in a process of its own
fn vn(job: &J) -> Result<J, String> {
    let mut e = std::env::current_exe().unwrap();
    e.set_file_name("vn");
    let mut p = Command::new(e)
        .env("RAYON_NUM_THREADS", "3")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("vn was not built");
    p.stdin.take().unwrap().write_all(job.to_string().as_bytes()).unwrap();
    let o = p.wait_with_output().unwrap();
    let j: J = serde_json::from_slice(&o.stdout).map_err(|_| format!("crashed ({:?}) {}", o.status, String::from_utf8_lossy(&o.stderr)))?;
    match j.get("ok") {
        Some(j) => Ok(j.clone()),
        None => Err(j["error"].as_str().unwrap_or("").to_string()),
    }
}

type L = BTreeMap<i64, BigUint>;
type Sys = Vec<[L; 3]>;

/// wires that are not named are known by their occurrences
fn signatures(s: &Sys, named: &BTreeMap<i64, String>) -> Result<(BTreeMap<String, usize>, Vec<String>), String> {
    let mut occ: BTreeMap<i64, Vec<(usize, usize, BigUint)>> = BTreeMap::new();
    for (i, c) in s.iter().enumerate() {
        for (k, l) in c.iter().enumerate() {
            for (v, x) in l {
                occ.entry(*v).or_default().push((i, k, x.clone()));
            }
        }
    }
    let mut all: BTreeMap<String, usize> = BTreeMap::new();
    let mut show = vec![];
    for (v, o) in occ {
        let n = named.get(&v).cloned().unwrap_or_else(|| "other".into());
        let k = format!("{} {:?}", n, o);
        if n != "other" {
            show.push(k.clone());
        }
        *all.entry(k).or_default() += 1;
    }
    Ok((all, show))
}

fn lcs(j: &J) -> Sys {
    let l = |j: &J| -> L { j.as_array().unwrap().iter().map(|x| (x[0].as_i64().unwrap_or(-1), x[1].as_str().unwrap().parse().unwrap())).collect() };
    j.as_array().unwrap().iter().map(|c| [l(&c[0]), l(&c[1]), l(&c[2])]).collect()
}

fn bad(ctx: &mut Ctx, src: &str, what: String) {
    ctx.violation(&format!("{}:{}", what.split(':').next().unwrap(), src), format!("{}\n{}", what, src));
}

struct Made {
    s: Stepper,
    src: String,
    curve: Curve,
    init: V,
    steps: Vec<V>,
    states: Vec<V>,
}

fn make(ctx: &mut Ctx, private: Option<bool>, n: usize, curve: Curve, small: bool) -> Option<Made> {
    let p = curve.p();
    for _ in 0..60 {
        let mut r = ctx.rng.clone();
        let s = stepper(&mut r, &p, private);
        let init = Gen::input(&mut r, &s.prog, &s.prog.params[0].ty);
        let steps: Vec<V> = (0..n)
            .map(|_| if s.private { Gen::input(&mut r, &s.prog, &s.prog.params[1].ty) } else { V::A(vec![]) })
            .collect();
        ctx.rng = r;
        let src = s.prog.render();
        if small && src.len() > 900 {
            continue;
        }
        if let Some(st) = states(&s, &init, &steps) {
            // programs that do not compile or have inputs without constraints are of no use for proofs
            let arena = Arena::new();
            if small && !matches!(compile::<D>(&src, &arena).map(|c| vf::write(&c.prog)), Ok(Ok(Ok(_)))) {
                continue;
            }
            return Some(Made { s, src, curve, init, steps, states: st });
        }
    }
    None
}

fn n01(ctx: &mut Ctx, idx: u64) {
    let (sessions, clis) = if ctx.thorough { (160, 40) } else { (6, 1) };
    if idx < clis {
        return command_line(ctx);
    }
    if idx < clis + sessions {
        return session(ctx);
    }
    circuits(ctx)
}

/// the step circuit is the constraint system of the program, with the state and the constant in their places
fn circuits(ctx: &mut Ctx) {
    let curve = *ctx.rng.pick(&[Curve::Pallas, Curve::Vesta]);
    dynf::select(curve);
    let private = ctx.rng.chance(1, 2);
    let m = match make(ctx, Some(private), 1, curve, false) {
        Some(m) => m,
        None => return ctx.count("no_defined_steps"),
    };
    ctx.case = json!({"source": m.src, "curve": curve.name()});
    let arena = Arena::new();
    let c = match compile::<D>(&m.src, &arena) {
        Ok(c) => c,
        Err(_) => return ctx.count("not_compiled"),
    };
    let bytes = match vf::write(&c.prog) {
        Ok(Ok((_, b))) => b,
        _ => return ctx.count("not_written"),
    };
    let ci = match vf::load(&bytes) {
        Ok(p) => p.cir(),
        Err(_) => return ctx.count("not_read"),
    };
    let d = Dir::new(ctx);
    d.put("out", &bytes);
    let init = m.init.flatten();
    let vals = !m.s.private;
    let job = json!({"program": d.path("out"), "shapes": [null, if vals { json!(strs(&init)) } else { J::Null }]});
    let j = match vn(&job) {
        Ok(j) => j,
        Err(e) => return bad(ctx, &m.src, format!("step circuit: {}", e)),
    };
    let pubs: Vec<isize> = ci.args.iter().filter(|a| !a.1).map(|a| a.0).collect();
    let mut named: BTreeMap<i64, String> = BTreeMap::new();
    named.insert(0, "one".into());
    for (i, v) in pubs.iter().enumerate() {
        named.insert(*v as i64, format!("state {}", i));
    }
    for i in 0..ci.nret {
        named.insert(-1 - i as i64, format!("result {}", i));
    }
    let want: Sys = ci
        .stmts
        .iter()
        .filter_map(|s| match s {
            St::Con(c) => {
                let l = |l: &Lc| {
                    let mut m = L::new();
                    for (v, x) in l {
                        *m.entry(*v as i64).or_default() += x;
                    }
                    m.into_iter().map(|(v, x)| (v, x % &ci.p)).filter(|x| x.1 != big(0)).collect()
                };
                Some([l(&c.a), l(&c.b), l(&c.c)])
            }
            _ => None,
        })
        .collect();
    let (want_sig, _) = signatures(&want, &named).unwrap();
    for (k, s) in j.as_array().unwrap().iter().enumerate() {
        ctx.eval();
        if let Some(e) = s["error"].as_str() {
            return bad(ctx, &m.src, format!("step circuit: {}", e));
        }
        let got = lcs(&s["cons"]);
        let wires = |n: &str| -> Vec<i64> { s[n].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect() };
        let (st, re) = (wires("state"), wires("result"));
        if st.len() != pubs.len() || re.len() != ci.nret || s["inputs"] != 0 {
            return bad(ctx, &m.src, format!("step circuit: {} values of state, {} results, {} inputs", st.len(), re.len(), s["inputs"]));
        }
        let mut named: BTreeMap<i64, String> = BTreeMap::new();
        named.insert(0, "one".into());
        for (i, v) in st.iter().enumerate() {
            named.insert(*v, format!("state {}", i));
        }
        for (i, v) in re.iter().enumerate() {
            if named.insert(*v, format!("result {}", i)).is_some() {
                return bad(ctx, &m.src, "step circuit: a result is no wire of its own".into());
            }
        }
        if got.len() != want.len() {
            return bad(ctx, &m.src, format!("step circuit: {} constraints instead of {}", got.len(), want.len()));
        }
        let (sig, _) = signatures(&got, &named).unwrap();
        if sig != want_sig {
            let a = sig.keys().find(|k| sig.get(*k) != want_sig.get(*k));
            let b = want_sig.keys().find(|k| sig.get(*k) != want_sig.get(*k));
            return bad(ctx, &m.src, format!("step circuit: other constraints than the program: {:?} instead of {:?}", a, b));
        }
        ctx.add("constraints_compared", got.len() as u64);
        if got.len() > 2 {
            ctx.nontrivial((&m.src, k));
        }
        if k == 1 && vals {
            let v = nums(&s["values"]);
            let val = |l: &L| -> BigUint { l.iter().map(|(w, x)| if *w == 0 { x.clone() } else { x * &v[*w as usize - 1] }).fold(big(0), |a, b| a + b) % &ci.p };
            for (i, c) in got.iter().enumerate() {
                if val(&c[0]) * val(&c[1]) % &ci.p != val(&c[2]) {
                    return bad(ctx, &m.src, format!("step circuit: constraint {} is violated by the assignment for {:?}", i, strs(&init)));
                }
            }
            let r: Vec<BigUint> = re.iter().map(|w| v[*w as usize - 1].clone()).collect();
            let want = m.states[0].flatten();
            if r != want {
                return bad(ctx, &m.src, format!("step circuit: {:?} instead of {:?} for {:?}", strs(&r), strs(&want), strs(&init)));
            }
            ctx.count("assignments_of_steps");
        }
    }
    ctx.count(if m.s.private { "circuits_with_private_step" } else { "circuits_without_private_step" });
    ctx.sample(|| json!({"source": m.src, "constraints": ci.ncons()}));
}

/// one coefficient of the program is changed, so that it computes and proves something else
fn forged<'a>(r: &mut Rng, p: &ir::Prog<'a, D>) -> ir::Prog<'a, D> {
    let mut q = p.clone();
    let cons: Vec<usize> = (0..q.statements.len()).filter(|i| matches!(q.statements[*i], ir::Statement::Constraint(_))).collect();
    for _ in 0..20 {
        let i = *r.pick(&cons);
        if let ir::Statement::Constraint(c) = &mut q.statements[i] {
            let l = if r.chance(1, 2) { &mut c.quad.left } else { &mut c.quad.right };
            if l.value.is_empty() {
                continue;
            }
            let k = r.below(l.value.len());
            let d = <D as From<u32>>::from(1 + r.below(3) as u32);
            l.value[k].1 = l.value[k].1.clone() + d;
            break;
        }
    }
    q
}

/// parameters, proofs in several runs, verification and compression through the library
fn session(ctx: &mut Ctx) {
    let curve = *ctx.rng.pick(&[Curve::Pallas, Curve::Pallas, Curve::Vesta]);
    dynf::select(curve);
    let n = ctx.rng.range(1, 4);
    let m = match make(ctx, None, n, curve, true) {
        Some(m) => m,
        None => return ctx.count("no_defined_steps"),
    };
    ctx.case = json!({"source": m.src, "curve": curve.name(), "init": strs(&m.init.flatten()), "steps": m.steps.iter().map(|s| strs(&s.flatten())).collect::<Vec<_>>()});
    let arena = Arena::new();
    let c = match compile::<D>(&m.src, &arena) {
        Ok(c) => c,
        Err(_) => return ctx.count("not_compiled"),
    };
    let bytes = match vf::write(&c.prog) {
        Ok(Ok((_, b))) => b,
        _ => return ctx.count("not_written"),
    };
    let d = Dir::new(ctx);
    d.put("out", &bytes);
    let init = m.init.flatten();
    let p = curve.p();
    // runs of the prover
    let mut chunks: Vec<Vec<Vec<String>>> = vec![vec![]];
    for s in &m.steps {
        if ctx.rng.chance(1, 2) && !chunks.last().unwrap().is_empty() {
            chunks.push(vec![]);
        }
        chunks.last_mut().unwrap().push(strs(&s.flatten()));
    }
    let mut other = init.clone();
    let k = ctx.rng.below(other.len());
    other[k] = (&other[k] + BigUint::from(1u32)) % &p;
    let claims = json!([
        {"state": strs(&init), "steps": 0},
        {"state": strs(&other), "steps": 0},
        {"state": strs(&init), "steps": 1},
        {"state": strs(&init), "steps": -1},
    ]);
    let mut job = json!({"program": d.path("out"), "init": strs(&init), "chunks": chunks, "claims": claims, "compress": ctx.rng.chance(1, 3)});
    let mut dishonest = false;
    if ctx.rng.chance(1, 3) {
        // a prover whose program computes something else
        let ci = cir(&c.prog);
        for _ in 0..20 {
            let mut r = ctx.rng.clone();
            let f = forged(&mut r, &c.prog);
            ctx.rng = r;
            let ins: Vec<BigUint> = init.iter().chain(m.steps[0].flatten().iter()).cloned().collect();
            if let Exec::Ok(w, _) = execute(&f, &ins) {
                if ci.violated(&wit(&w)).is_some() {
                    if let Ok(Ok((_, b))) = vf::write(&f) {
                        d.put("forged", &b);
                        job["prover"] = json!(d.path("forged"));
                        job["chunks"] = json!([[strs(&m.steps[0].flatten())]]);
                        dishonest = true;
                        break;
                    }
                }
            }
        }
    }
    let j = match vn(&job) {
        Ok(j) => j,
        Err(e) if dishonest && !e.contains("no instance") => {
            let _ = e;
            return ctx.count("dishonest_provers_failed");
        }
        Err(e) => return bad(ctx, &m.src, format!("session: {}", e)),
    };
    ctx.eval();
    ctx.nontrivial(&m.src);
    let want = m.states.last().unwrap().flatten();
    for (i, v) in j["verified"].as_array().unwrap().iter().enumerate() {
        let honest = i == 0 && !dishonest;
        if honest && nums(v) != want {
            return bad(ctx, &m.src, format!("verification: {} instead of {:?} from {:?} by {:?}", v, strs(&want), strs(&init), chunks));
        }
        if !honest && v.get("error").is_none() {
            return bad(ctx, &m.src, format!("verification: claim {} of a {} proof is accepted: {}; from {:?} by {:?}", i, if dishonest { "dishonest" } else { "different" }, v, strs(&init), chunks));
        }
        ctx.count(if honest { "proofs_verified" } else if dishonest { "dishonest_proofs_refused" } else { "false_claims_refused" });
    }
    ctx.max("steps_proven", n as u64);
    for (i, v) in j["compressed"].as_array().into_iter().flatten().enumerate() {
        let honest = i == 0 && !dishonest;
        if *v != json!(honest) {
            return bad(ctx, &m.src, format!("compressed: claim {} of a {} proof: {}; from {:?} by {:?}", i, if dishonest { "dishonest" } else { "honest" }, v, strs(&init), chunks));
        }
        ctx.count(if honest { "compressed_proofs_verified" } else { "compressed_claims_refused" });
    }
    ctx.sample(|| json!({"source": m.src, "steps": n, "final": strs(&want)}));
}

/// the same by the commands
fn command_line(ctx: &mut Ctx) {
    std::env::set_var("RAYON_NUM_THREADS", "3");
    dynf::select(Curve::Pallas);
    let n = ctx.rng.range(2, 3);
    let m = match make(ctx, Some(true), n, Curve::Pallas, true) {
        Some(m) if m.s.private => m,
        _ => return ctx.count("no_defined_steps"),
    };
    let t = |i: usize, v: &V| Ev::new(&m.s.prog).json(&m.s.prog.params[i].ty, v);
    ctx.case = json!({"source": m.src, "curve": m.curve.name(), "init": t(0, &m.init), "steps": m.steps.iter().map(|s| t(1, s)).collect::<Vec<_>>()});
    let d = Dir::new(ctx);
    d.put("a.zok", &m.src);
    d.put("init.json", t(0, &m.init));
    let list = |s: &[V]| format!("[{}]", s.iter().map(|s| t(1, s)).collect::<Vec<_>>().join(","));
    let o = zok(&d.0, &["compile", "-i", "a.zok", "--curve", "pallas", "--stdlib-path", &stdlib_root()], None);
    if !o.ok() {
        return ctx.count("not_compiled");
    }
    let step = |ctx: &mut Ctx, a: &[&str]| -> Option<String> {
        let o = zok(&d.0, a, None);
        ctx.eval();
        if !o.ok() {
            bad(ctx, &m.src, format!("nova command {:?}: {:?} {}", a, o.rc, o.text));
            return None;
        }
        Some(o.text)
    };
    if step(ctx, &["nova", "setup"]).is_none() {
        return;
    }
    let split = ctx.rng.range(1, n - 1);
    d.put("steps.json", list(&m.steps[..split]));
    if step(ctx, &["nova", "prove"]).is_none() {
        return;
    }
    d.put("steps.json", list(&m.steps[split..]));
    if step(ctx, &["nova", "prove", "--continue"]).is_none() {
        return;
    }
    let inst: J = match d.get("running_instance.json").and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(j) => j,
        None => return bad(ctx, &m.src, "nova prove: no instance is written".into()),
    };
    if inst["steps"] != n {
        return bad(ctx, &m.src, format!("nova prove: the instance has {} steps instead of {}", inst["steps"], n));
    }
    if step(ctx, &["nova", "compress"]).is_none() {
        return;
    }
    let good = |t: &str| t.contains("succesfully verified") || t.contains("successfully verified");
    match step(ctx, &["nova", "verify"]) {
        Some(t) if good(&t) => ctx.count("commands_verified"),
        Some(t) => return bad(ctx, &m.src, format!("nova verify: {}", t)),
        None => return,
    }
    ctx.nontrivial(&m.src);
    // another initial state, another number of steps, another proof
    let init = m.init.clone();
    let other = change(&init);
    d.put("init.json", t(0, &other));
    let o = zok(&d.0, &["nova", "verify"], None);
    if good(&o.text) || o.crashed() {
        return bad(ctx, &m.src, format!("nova verify: with another initial state: {:?} {}", o.rc, o.text));
    }
    d.put("init.json", t(0, &init));
    let mut i2 = inst.clone();
    i2["steps"] = json!(n + 1);
    d.put("running_instance.json", i2.to_string());
    let o = zok(&d.0, &["nova", "verify"], None);
    if good(&o.text) || o.crashed() {
        return bad(ctx, &m.src, format!("nova verify: with another number of steps: {:?} {}", o.rc, o.text));
    }
    ctx.add("false_commands_refused", 2);
}

/// the same value with one leaf changed
fn change(v: &V) -> V {
    match v {
        V::F(x) if *x == big(0) => V::F(big(1)),
        V::F(_) => V::F(big(0)),
        V::B(b) => V::B(!b),
        V::U(w, x) => V::U(*w, x ^ 1),
        V::A(a) => {
            let mut a = a.clone();
            if let Some(x) = a.first_mut() {
                *x = change(x);
            }
            V::A(a)
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "N01",
        level: "exploration",
        rule: "the circuit of a step is the constraint system of its program with the state and the constant one in their places; proofs of steps verify for the state the steps lead to and for nothing else",
        assumptions: &["nova-snark and bellperson are right", "the reference evaluator is right"],
        quick: 600,
        thorough: 12000,
        quick_s: 60,
        thorough_s: 800,
        run: n01,
        require: &["constraints_compared", "assignments_of_steps", "proofs_verified", "false_claims_refused"],
    }]
}
