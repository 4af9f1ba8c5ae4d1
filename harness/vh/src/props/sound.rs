//! What a dishonest prover can do: uniqueness of outputs, range of inputs, failures.
use crate::dynf::{self, D};
use crate::engine::*;
use crate::prog::*;
use crate::run::{Ctx, Prop};
use crate::sound::{Adversary, Verdict};
use num_bigint::BigUint;
use serde_json::json;
use typed_arena::Arena;

#[derive(Clone, Copy, PartialEq)]
enum What {
    Outputs,
    Range,
    Fails,
}

const SMALL: &[u64] = &[5, 7, 11, 13, 17, 31, 61, 127, 251];

fn profile(ctx: &mut Ctx, what: What) -> (Profile, Option<u64>, Curve) {
    let mut pf = Profile::base();
    pf.max_depth = *ctx.rng.pick(&[2, 3, 3, 4]);
    pf.stmts = *ctx.rng.pick(&[3, 5, 7]);
    pf.lit_weight = *ctx.rng.pick(&[1, 3, 5]);
    let mut small = None;
    match ctx.rng.below(4) {
        0 => {
            // exhaustive over a small prime
            pf.w_uint = 0;
            pf.dyn_index = false;
            small = Some(*ctx.rng.pick(SMALL));
        }
        1 => {
            pf.w_field = 0;
            pf.w_uint = 6;
            pf.composites = false;
            pf.widths = ctx.rng.pick(&[vec![8], vec![8, 16], vec![32], vec![8, 16, 32, 64]]).clone();
        }
        2 => {
            pf.composites = false;
        }
        _ => {}
    }
    if what == What::Range {
        pf.w_bool = 4;
        pf.w_uint = if small.is_some() { 0 } else { 4 };
    }
    if what == What::Fails {
        pf.asserts = true;
    }
    let curve = if ctx.rng.chance(3, 5) { Curve::Bn128 } else { *ctx.rng.pick(CURVES) };
    (pf, small, curve)
}

fn go(ctx: &mut Ctx, what: What) {
    let (pf, small, curve) = profile(ctx, what);
    let p = small.map(|p| big(p)).unwrap_or(curve.p());
    let mut r = ctx.rng.clone();
    let prog = Gen::program(&mut r, &pf, &p);
    match small {
        Some(p) => dynf::select_small(p),
        None => dynf::select(curve),
    }
    let src = prog.render();
    let inputs: Vec<Vec<V>> = (0..4)
        .map(|_| prog.params.iter().map(|q| Gen::input(&mut r, &prog, &q.ty)).collect())
        .collect();
    ctx.case = json!({"source": src, "curve": curve.name(), "small": small});
    let arena = Arena::new();
    let c = match compile::<D>(&src, &arena) {
        Ok(c) => c,
        Err(_) => {
            ctx.count("not_compiled");
            return;
        }
    };
    let ci = cir(&c.prog);
    if ci.ncons() > 6000 {
        ctx.count("too_large");
        return;
    }
    ctx.count("programs_compiled");
    if small.is_some() {
        ctx.count("programs_over_small_primes");
    }
    let mut adv = Adversary::new(&c.prog);
    let budget = if ctx.thorough { 400_000 } else { 60_000 };
    let mut leaf: Vec<(usize, Ty)> = vec![];
    for q in &prog.params {
        leaves(&prog, &q.ty, &mut leaf);
    }
    for args in &inputs {
        let mut ins = flat_inputs(args);
        if ins.iter().any(|x| x >= &p) {
            ctx.count("inputs_do_not_fit_the_small_field");
            continue;
        }
        match what {
            What::Outputs => {
                let ex = execute(&c.prog, &ins);
                if let Exec::Ok(w, _) = &ex {
                    ctx.eval();
                    let outs = match outputs(w, ci.nret) {
                        Some(o) => o,
                        None => continue,
                    };
                    let v = adv.attack(&ci, &ins, Some(&outs), budget);
                    tally(ctx, &v, &src, &ins, ci.ncons());
                    if let Verdict::Found(w) = v {
                        let other: Vec<_> = (0..ci.nret).map(|i| w.get(&(-(i as isize) - 1)).map(|x| x.to_string())).collect();
                        ctx.violation(
                            &format!("ambiguous:{}", src),
                            format!(
                                "for inputs {:?} the honest outputs are {:?}, but a witness with outputs {:?} satisfies every constraint too; {}\n{}",
                                strs(&ins), strs(&outs), other, small.map(|p| format!("p={}", p)).unwrap_or_default(), src
                            ),
                        );
                        return;
                    }
                }
            }
            What::Fails => {
                let mut ev = Ev::new(&prog);
                let res = ev.run(args);
                if let Err(Stop::Fail(_)) = res {
                    ctx.eval();
                    let ex = execute(&c.prog, &ins);
                    if ex.ok().is_some() {
                        ctx.violation(
                            &format!("accepted:{}", src),
                            format!("execution succeeded although it has to fail; inputs {:?}\n{}", strs(&ins), src),
                        );
                        return;
                    }
                    let v = adv.attack(&ci, &ins, None, budget);
                    tally(ctx, &v, &src, &ins, ci.ncons());
                    if let Verdict::Found(_) = v {
                        ctx.violation(
                            &format!("provable:{}", src),
                            format!(
                                "for inputs {:?} the program has to fail, but a witness satisfies every constraint; {}\n{}",
                                strs(&ins),
                                small.map(|p| format!("p={}", p)).unwrap_or_default(),
                                src
                            ),
                        );
                        return;
                    }
                } else {
                    ctx.count("runs_that_do_not_fail");
                }
            }
            What::Range => {
                let cand: Vec<usize> = (0..leaf.len()).filter(|i| leaf[*i].1 != Ty::F).collect();
                if cand.is_empty() {
                    ctx.count("no_bounded_input");
                    return;
                }
                // only runs that succeed with proper inputs are interesting
                for _ in 0..2 {
                    let i = *ctx.rng.pick(&cand);
                    let lim = match leaf[i].1 {
                        Ty::B => big(2),
                        Ty::U(w) => BigUint::from(1u32) << (w as usize),
                        _ => unreachable!(),
                    };
                    if lim >= p {
                        continue;
                    }
                    let bad = match ctx.rng.below(6) {
                        0 => lim.clone(),
                        1 => &p - big(1),
                        2 => &lim + big(1),
                        3 => &lim + ctx.rng.big_below(&(&p - &lim)),
                        4 => {
                            // lim + a value in range
                            (&lim + &ins[i]).min(&p - big(1))
                        }
                        _ => {
                            let d = BigUint::from(1u32) << ctx.rng.below(p.bits());
                            if d < lim || d >= p {
                                lim.clone()
                            } else {
                                d
                            }
                        }
                    };
                    let old = std::mem::replace(&mut ins[i], bad);
                    ctx.eval();
                    for it in [zokrates_interpreter::Interpreter::default(), zokrates_interpreter::Interpreter::try_out_of_range()] {
                        if execute_with(&c.prog, &ins, &it).ok().is_some() {
                            ctx.violation(
                                &format!("range:{}", src),
                                format!("input {} of type {:?} was accepted with value {}; inputs {:?}\n{}", i, leaf[i].1, ins[i], strs(&ins), src),
                            );
                            return;
                        }
                    }
                    let v = adv.attack(&ci, &ins, None, budget);
                    tally(ctx, &v, &src, &ins, ci.ncons());
                    if let Verdict::Found(_) = v {
                        ctx.violation(
                            &format!("rangeprovable:{}", src),
                            format!(
                                "input {} of type {:?} can be {} in a satisfying witness; inputs {:?}\n{}",
                                i, leaf[i].1, ins[i], strs(&ins), src
                            ),
                        );
                        return;
                    }
                    ins[i] = old;
                }
            }
        }
    }
    ctx.add("adversary_nodes", adv.stats.nodes);
    ctx.add("adversary_conflicts", adv.stats.conflicts);
    ctx.add("adversary_splits", adv.stats.splits);
    ctx.add("adversary_constraint_evaluations", adv.stats.evals);
}

fn strs(x: &[BigUint]) -> Vec<String> {
    x.iter().map(|x| x.to_string()).collect()
}

fn tally(ctx: &mut Ctx, v: &Verdict, src: &str, ins: &[BigUint], ncons: usize) {
    match v {
        Verdict::None => {
            ctx.count("attacks_refuted_exhaustively");
            if ncons > 3 {
                ctx.nontrivial((src, ins));
            }
            ctx.sample(|| json!({"source": src, "inputs": strs(ins), "constraints": ncons, "verdict": "no other satisfying assignment exists"}));
        }
        Verdict::Found(_) => ctx.count("attacks_succeeded"),
        Verdict::Unknown(s) if ctx.verbose => println!("inconclusive {} with {} constraints: {:?}\n{}", s, ncons, strs(ins), src),
        Verdict::Unknown(s) => ctx.count(&format!("attacks_inconclusive_{}", s.replace(' ', "_"))),
    }
}

pub fn leaves(p: &Program, t: &Ty, o: &mut Vec<(usize, Ty)>) {
    match t {
        Ty::Arr(t, n) => (0..*n).for_each(|_| leaves(p, t, o)),
        Ty::Tup(ts) => ts.iter().for_each(|t| leaves(p, t, o)),
        Ty::St(i) => p.structs[*i].1.iter().for_each(|t| leaves(p, &t.1, o)),
        t => {
            let n = o.len();
            o.push((n, t.clone()))
        }
    }
}

fn s01(ctx: &mut Ctx, _i: u64) {
    go(ctx, What::Outputs)
}
fn s02(ctx: &mut Ctx, _i: u64) {
    go(ctx, What::Range)
}
fn s03(ctx: &mut Ctx, _i: u64) {
    go(ctx, What::Fails)
}

pub fn props() -> Vec<Prop> {
    let d = |id, rule, run, quick, thorough| Prop {
        id,
        level: "exploration",
        rule,
        assumptions: &[],
        quick,
        thorough,
        quick_s: 90,
        thorough_s: 1200,
        run,
        require: &["attacks_refuted_exhaustively"],
    };
    vec![
        d("S01", "successful runs whose circuit was searched for a second output", s01 as fn(&mut Ctx, u64), 20000, 200000),
        d("S02", "runs with an input out of its type's range", s02, 20000, 200000),
        d("S03", "runs that the reference semantics fails", s03, 20000, 200000),
    ]
}
