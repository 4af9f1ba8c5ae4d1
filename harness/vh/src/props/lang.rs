//! Language semantics: compiled programs against the reference semantics.
use crate::dynf::{self, D};
use crate::engine::*;
use crate::prog::*;
use crate::run::{Ctx, Prop};
use num_bigint::BigUint;
use serde_json::json;
use typed_arena::Arena;
use zokrates_ast::ir::RuntimeError;
use zokrates_field::Field;

pub struct Opts {
    pub runs: usize,
    /// a literal program: fold every argument into a literal as well (compile-time evaluation)
    pub curve: Curve,
    /// the failing assertion's message is part of the verdict
    pub messages: bool,
    pub logs: bool,
}

fn show_args(args: &[V]) -> Vec<String> {
    flat_inputs(args).iter().map(|x| x.to_string()).collect()
}

fn has_log(b: &[S]) -> bool {
    b.iter().any(|s| match s {
        S::Log(..) => true,
        S::For(_, _, _, b) => has_log(b),
        _ => false,
    })
}

fn strip_logs(b: &mut Vec<S>) {
    b.retain(|s| !matches!(s, S::Log(..)));
    for s in b {
        if let S::For(_, _, _, b) = s {
            strip_logs(b);
        }
    }
}

/// all lines of `a` are in `b`, in the same order
fn within(a: &str, b: &str) -> bool {
    let mut b = b.lines();
    a.lines().all(|x| b.any(|y| x == y))
}

/// Compile `prog`, run it on random inputs, and compare with the reference.
pub fn check_program(ctx: &mut Ctx, prog: &Program, o: &Opts) {
    dynf::select(o.curve);
    check_program_t::<D>(ctx, prog, o)
}

pub fn check_program_t<T: Field>(ctx: &mut Ctx, prog: &Program, o: &Opts) {
    let src = prog.render();
    let mut rng = ctx.rng.clone();
    let inputs: Vec<Vec<V>> = (0..o.runs)
        .map(|_| prog.params.iter().map(|p| Gen::input(&mut rng, prog, &p.ty)).collect())
        .collect();
    ctx.case = json!({"source": src, "curve": o.curve.name()});
    let refs: Vec<(Result<V, Stop>, bool, (String, String), usize)> = inputs
        .iter()
        .map(|a| {
            let mut ev = Ev::new(prog);
            let r = ev.run(a);
            let feats = ev.feats.clone();
            for (k, n) in feats {
                ctx.add(&format!("executed_{}", k), n as u64);
            }
            (r, ev.may_fail, (ev.log.clone(), ev.sure_log.clone()), ev.steps)
        })
        .collect();
    let arena = Arena::new();
    let c = match compile_with::<T>(&src, &arena, None, o.logs) {
        Ok(c) => c,
        Err(e) => {
            ctx.count(if e.is_panic() { "compiler_panicked" } else { "compiler_rejected" });
            let clean = refs.iter().any(|(r, may, _, _)| r.is_ok() && !may);
            // constants are only reduced through literals: elements and slices of repeated arrays stay as they are
            let limit = e.text().contains("Failed to reduce constant")
                && src
                    .lines()
                    .filter(|l| l.starts_with("const "))
                    .any(|l| l.trim_end_matches(';').contains(';') || l.contains(".."));
            if limit {
                ctx.count("constant_not_reducible_limitation");
            } else if clean {
                ctx.violation(
                    &format!("reject:{}", src),
                    format!("a program with a defined result was not compiled: {}\n{}", e.text(), src),
                );
            } else {
                if e.is_panic() && ctx.verbose {
                    println!("compiler panic: {}", e.text());
                }
                ctx.count("rejected_always_failing_program");
            }
            return;
        }
    };
    ctx.count("programs_compiled");
    let ci = cir(&c.prog);
    ctx.max("constraints", ci.ncons() as u64);
    let sizes: usize = prog.params.iter().map(|p| Gen::size(prog, &p.ty)).sum();
    if ci.args.len() != sizes || ci.nret != Gen::size(prog, &prog.ret) {
        ctx.violation(
            &format!("shape:{}", src),
            format!("the compiled program has {} inputs and {} outputs\n{}", ci.args.len(), ci.nret, src),
        );
        return;
    }
    for (args, (r, may, log, steps)) in inputs.iter().zip(&refs) {
        let ins = flat_inputs(args);
        let ex = execute(&c.prog, &ins);
        ctx.eval();
        let shown = || format!("inputs {:?}\n{}", show_args(args), src);
        if let Exec::Panic(e) = &ex {
            ctx.violation(
                &format!("panic:{}", src),
                format!("the interpreter panicked: {}; {}", e, shown()),
            );
            return;
        }
        if let Exec::Ok(w, l) = &ex {
            let got = outputs(w, ci.nret);
            if let Some(bad) = ci.violated(&wit(w)) {
                ctx.violation(
                    &format!("unsat:{}", src),
                    format!("execution reported success with a witness that does not satisfy the program: {}; {}", bad, shown()),
                );
                return;
            }
            match r {
                Ok(v) => {
                    let want = v.flatten();
                    if got.as_ref() != Some(&want) {
                        ctx.violation(
                            &format!("wrong:{}", src),
                            format!("outputs {:?}, expected {:?}; {}", got, want, shown()),
                        );
                        return;
                    }
                    // calls in branches not taken are executed, and calls whose value is not needed are not: only
                    // what main itself logs is certain
                    let calls = prog.funs.iter().any(|f| has_log(&f.body));
                    if o.logs && (if calls { !within(&log.1, l) } else { l != &log.0 }) {
                        ctx.violation(
                            &format!("log:{}", src),
                            format!("log {:?}, expected {:?}; {}", l, log, shown()),
                        );
                        return;
                    }
                    if o.logs {
                        ctx.add("log_lines", l.lines().count() as u64);
                        ctx.count(if calls { "logs_of_main_within" } else { "logs_equal" });
                        ctx.count("logs_compared");
                    }
                    ctx.count("runs_succeeded");
                    if *steps > 3 {
                        ctx.nontrivial((&src, &ins));
                    }
                    let (src, ins, got) = (&src, &ins, got);
                    ctx.sample(|| json!({"source": src, "inputs": format!("{:?}", ins), "outputs": format!("{:?}", got)}));
                }
                Err(Stop::Poison) => ctx.count("runs_without_verdict"),
                Err(Stop::Fail(m)) => {
                    ctx.violation(
                        &format!("accepted:{}", src),
                        format!("execution succeeded with outputs {:?} although it has to fail ({:?}); {}", got, m, shown()),
                    );
                    return;
                }
            }
        } else {
            match r {
                Ok(_) if !may => {
                    ctx.violation(
                        &format!("failed:{}", src),
                        format!("{}, although the program has a defined result; {}", ex.show(), shown()),
                    );
                    return;
                }
                Ok(_) => ctx.count("runs_failed_as_permitted"),
                Err(Stop::Poison) => ctx.count("runs_without_verdict"),
                Err(Stop::Fail(m)) => {
                    ctx.count("runs_failed_as_required");
                    ctx.nontrivial((&src, &ins));
                    // the failure must be attributed to the user's program, not to a broken invariant
                    match &ex {
                        Exec::Unsat(Some(RuntimeError::SourceAssertion(md))) => {
                            if o.messages && !may && m.is_some() && md.message.is_some() && m != &md.message {
                                ctx.violation(
                                    &format!("message:{}", src),
                                    format!("{} but the first assertion to fail says {:?}; {}", ex.show(), m, shown()),
                                );
                                return;
                            }
                            if o.messages && m.is_some() && m == &md.message {
                                ctx.count("messages_matched");
                            }
                        }
                        Exec::Unsat(Some(e)) if e.is_malicious() => {
                            ctx.count("failed_with_internal_error");
                            if o.messages {
                                ctx.violation(
                                    &format!("internal:{}", src),
                                    format!("a failure of the program is reported as an internal error: {}; {}", ex.show(), shown()),
                                );
                                return;
                            }
                        }
                        Exec::Unsat(None) => {
                            ctx.violation(
                                &format!("noerror:{}", src),
                                format!("a constraint without an error failed; {}", shown()),
                            );
                            return;
                        }
                        _ => {}
                    }
                }
            }
        }
    }
}

pub fn gen(ctx: &mut Ctx, pf: &Profile, p: &BigUint) -> Program {
    let mut r = ctx.rng.clone();
    let g = Gen::program(&mut r, pf, p);
    ctx.rng = r;
    g
}

fn pick_curve(ctx: &mut Ctx) -> Curve {
    if ctx.rng.chance(3, 5) {
        Curve::Bn128
    } else {
        *ctx.rng.pick(CURVES)
    }
}

fn random_profile(ctx: &mut Ctx, mut pf: Profile) -> Profile {
    pf.lit_weight = *ctx.rng.pick(&[1, 3, 3, 5, 8]);
    pf.max_depth = *ctx.rng.pick(&[2, 3, 4, 5]);
    pf
}

fn c01(ctx: &mut Ctx, _idx: u64) {
    let curve = pick_curve(ctx);
    let pf = Profile {
        w_uint: 0,
        composites: false,
        functions: false,
        loops: false,
        dyn_index: false,
        field_cmp: true,
        ..Profile::base()
    };
    let pf = random_profile(ctx, pf);
    let prog = gen(ctx, &pf, &curve.p());
    check_program(ctx, &prog, &Opts { runs: 6, curve, messages: false, logs: false });
}

fn c02(ctx: &mut Ctx, _idx: u64) {
    let curve = pick_curve(ctx);
    let pf = Profile {
        w_field: 0,
        w_bool: 1,
        w_uint: 6,
        composites: false,
        functions: false,
        loops: false,
        dyn_index: false,
        field_cmp: false,
        ..Profile::base()
    };
    let pf = random_profile(ctx, pf);
    let prog = gen(ctx, &pf, &curve.p());
    check_program(ctx, &prog, &Opts { runs: 6, curve, messages: false, logs: false });
}

fn c03(ctx: &mut Ctx, _idx: u64) {
    let curve = pick_curve(ctx);
    let pf = random_profile(ctx, Profile::base());
    let prog = gen(ctx, &pf, &curve.p());
    check_program(ctx, &prog, &Opts { runs: 5, curve, messages: false, logs: false });
}

fn c08(ctx: &mut Ctx, _idx: u64) {
    let curve = pick_curve(ctx);
    let pf = random_profile(ctx, Profile { logs: true, dyn_index: false, ..Profile::base() });
    let mut prog = gen(ctx, &pf, &curve.p());
    if ctx.rng.chance(2, 3) {
        for f in &mut prog.funs {
            strip_logs(&mut f.body);
        }
    }
    check_program(ctx, &prog, &Opts { runs: 4, curve, messages: false, logs: true });
}

pub fn props() -> Vec<Prop> {
    let d = |id, rule, run, quick, thorough| Prop {
        id,
        level: "exploration",
        rule,
        assumptions: &[],
        quick,
        thorough,
        quick_s: 60,
        thorough_s: 600,
        run,
        require: &["runs_succeeded"],
    };
    vec![
        d("C01", "field and bool programs", c01 as fn(&mut Ctx, u64), 20000, 200000),
        d("C02", "uint programs", c02, 20000, 200000),
        d("C03", "composite programs", c03, 20000, 200000),
        Prop { require: &["runs_succeeded", "logs_equal", "logs_of_main_within"], ..d("C08", "programs with log statements, compiled for debugging", c08, 12000, 200000) },
    ]
}
