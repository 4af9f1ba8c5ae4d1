//! Nova as the command line uses it, with programs and values as plain data.
use bellperson::gadgets::num::AllocatedNum;
use bellperson::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable as BpVar};
use num_bigint::BigUint;
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};
use serde_json::{json, Value as J};
use zokrates_ast::ir::{Prog, ProgEnum};
use zokrates_bellperson::nova::{self, NovaComputation, NovaField, StepCircuit};
use zokrates_bellperson::Computation;
use zokrates_field::*;

/// A wire of the circuit: the constant, a value of the given state, any other
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
enum Wire {
    One,
    Aux(usize),
}

struct Shape {
    /// the wires given to the step for its state, and the wires of the state it returns
    state: Vec<Wire>,
    result: Vec<Wire>,
    cons: Vec<[BTreeMap<Wire, BigUint>; 3]>,
    /// values of the wires
    values: Vec<BigUint>,
    inputs: usize,
}

struct Rec<F> {
    ins: usize,
    aux: Vec<Option<F>>,
    cons: Vec<[Vec<(Wire, F)>; 3]>,
}

impl<F: bellperson_ff::PrimeField> ConstraintSystem<F> for Rec<F> {
    type Root = Self;
    fn alloc<FN, A, AR>(&mut self, _: A, f: FN) -> Result<BpVar, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.aux.push(f().ok());
        Ok(BpVar::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<FN, A, AR>(&mut self, _: A, _: FN) -> Result<BpVar, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.ins += 1;
        Ok(BpVar::new_unchecked(Index::Input(self.ins)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        let l = |l: LinearCombination<F>| l.iter().map(|(v, c)| (wire(&v), *c)).collect::<Vec<_>>();
        self.cons.push([l(a(LinearCombination::zero())), l(b(LinearCombination::zero())), l(c(LinearCombination::zero()))]);
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self::Root {
        self
    }
}

fn wire(v: &BpVar) -> Wire {
    match v.get_unchecked() {
        // a step has no public inputs of its own: input 0 is the constant
        Index::Input(0) => Wire::One,
        Index::Input(i) => Wire::Aux(usize::MAX - i),
        Index::Aux(i) => Wire::Aux(i),
    }
}

fn text(e: Box<dyn std::any::Any + Send>) -> String {
    let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
    format!("panic: {}", s.unwrap_or_default())
}

fn guard<X>(f: impl FnOnce() -> Result<X, String>) -> Result<X, String> {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|e| Err(text(e)))
}

fn fe<T: Field>(x: &BigUint) -> T {
    T::try_from(x.clone()).map_err(|_| "not in the field").unwrap()
}

fn fes<T: Field>(x: &[BigUint]) -> Vec<T> {
    x.iter().map(fe).collect()
}

fn be<T: Field>(x: &T) -> BigUint {
    x.to_biguint()
}

fn shape_of<T: NovaField>(prog: &Prog<T>, state: Option<&[BigUint]>) -> Result<Shape, String> {
    guard(|| {
        let c = NovaComputation::try_from(Computation::without_witness(prog)).map_err(|e| e.to_string())?;
        let back = |x: T::BellpersonField| be(&T::from_bellperson(x));
        let mut cs: Rec<T::BellpersonField> = Rec { ins: 0, aux: vec![], cons: vec![] };
        let n = StepCircuit::<T::BellpersonField>::arity(&c);
        let mut z = vec![];
        for i in 0..n {
            let v = state.map(|s| fe::<T>(&s[i]).into_bellperson());
            z.push(AllocatedNum::alloc(cs.namespace(|| format!("state {}", i)), || v.ok_or(SynthesisError::AssignmentMissing)).map_err(|e| e.to_string())?);
        }
        let out = c.synthesize(&mut cs, &z).map_err(|e| e.to_string())?;
        let missing = cs.aux.iter().any(|a| a.is_none());
        if state.is_some() && missing {
            return Err("values of wires are missing".into());
        }
        Ok(Shape {
            state: z.iter().map(|x| wire(&x.get_variable())).collect(),
            result: out.iter().map(|x| wire(&x.get_variable())).collect(),
            cons: cs
                .cons
                .iter()
                .map(|c| {
                    let l = |l: &Vec<(Wire, T::BellpersonField)>| {
                        let mut m: BTreeMap<Wire, T> = BTreeMap::new();
                        for (w, x) in l {
                            let e = m.entry(*w).or_insert_with(T::zero);
                            *e = e.clone() + T::from_bellperson(*x);
                        }
                        m.into_iter().filter(|x| x.1 != T::zero()).map(|(w, x)| (w, be(&x))).collect()
                    };
                    [l(&c[0]), l(&c[1]), l(&c[2])]
                })
                .collect(),
            values: cs.aux.iter().map(|a| a.map(back).unwrap_or_default()).collect(),
            inputs: cs.ins,
        })
    })
}

/// what a proof is checked against
struct Claim {
    state: Vec<BigUint>,
    /// added to the number of steps the instance tells
    steps: isize,
}

struct Session {
    /// the state a sound verifier returned, for every claim
    verified: Vec<Result<Vec<BigUint>, String>>,
    /// whether the compressed proof is accepted, for every claim
    compressed: Option<Vec<bool>>,
}

/// `chunks`: the private values of every step; between chunks the instance is written and read again.
/// `prover`: the program the prover runs, where it is not the one the parameters are made for.
fn session<T: NovaField>(
    prog: &Prog<T>,
    prover: &Prog<T>,
    init: &[BigUint],
    chunks: &[Vec<Vec<BigUint>>],
    claims: &[Claim],
    compress: bool,
) -> Result<Session, String> {
    guard(|| {
        let params = nova::generate_public_parameters::<T>(prog).map_err(|e| e.to_string())?;
        // the parameters are used as read from their file
        let file = serde_cbor::to_vec(&params).map_err(|e| e.to_string())?;
        let params = serde_cbor::from_slice(&file).map_err(|e| format!("reading the parameters: {}", e))?;
        let mut inst = None;
        for c in chunks {
            let p = nova::prove(&params, prover, fes::<T>(init), inst, c.iter().map(|s| fes::<T>(s)).collect::<Vec<_>>()).map_err(|e| e.to_string())?;
            let js = serde_json::to_string(&p).map_err(|e| e.to_string())?;
            inst = serde_json::from_str(&js).map_err(|e| format!("reading the instance: {}", e))?;
        }
        let inst: nova::RecursiveSNARKWithStepCount<T> = match inst {
            Some(i) => i,
            None => return Err("no instance".into()),
        };
        let real = inst.steps;
        let js = serde_json::to_string(&inst).map_err(|e| e.to_string())?;
        let verified = claims
            .iter()
            .map(|c| {
                let mut i: nova::RecursiveSNARKWithStepCount<T> = serde_json::from_str(&js).unwrap();
                i.steps = (real as isize + c.steps) as usize;
                guard(|| nova::verify(&params, &i, fes::<T>(&c.state)).map(|v| v.iter().map(be).collect()).map_err(|e| e.to_string()))
            })
            .collect();
        let compressed = compress.then(|| {
            let (proof, vk) = nova::compress(&params, inst);
            let js = serde_json::to_string(&proof).unwrap();
            let proof: nova::CompressedSNARK<T> = serde_json::from_str(&js).unwrap();
            let js = serde_json::to_string(&vk).unwrap();
            let vk: nova::VerifierKey<T> = serde_json::from_str(&js).unwrap();
            claims.iter().map(|c| nova::verify_compressed(&proof, &vk, fes::<T>(&c.state), (real as isize + c.steps) as usize)).collect()
        });
        Ok(Session { verified, compressed })
    })
}

fn nums(j: &J) -> Vec<BigUint> {
    j.as_array().unwrap().iter().map(|x| BigUint::parse_bytes(x.as_str().unwrap().as_bytes(), 10).unwrap()).collect()
}

fn strs(v: &[BigUint]) -> J {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().into()
}

fn file(path: &J) -> Result<Vec<u8>, String> {
    std::fs::read(path.as_str().unwrap()).map_err(|e| e.to_string())
}

fn out(s: &Shape) -> J {
    let w = |w: &Wire| match w {
        Wire::One => json!(0),
        Wire::Aux(i) => json!(i + 1),
    };
    let ws = |v: &[Wire]| v.iter().map(w).collect::<Vec<_>>();
    json!({
        "state": ws(&s.state), "result": ws(&s.result), "values": strs(&s.values), "inputs": s.inputs,
        "cons": s.cons.iter().map(|c| c.iter().map(|l| l.iter().map(|(k, v)| json!([w(k), v.to_string()])).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>(),
    })
}

fn job<T: NovaField>(prog: &Prog<T>, prover: Option<&Prog<T>>, j: &J) -> Result<J, String> {
    if let Some(states) = j["shapes"].as_array() {
        return Ok(states
            .iter()
            .map(|s| {
                let v = (!s.is_null()).then(|| nums(s));
                match shape_of(prog, v.as_deref()) {
                    Ok(s) => out(&s),
                    Err(e) => json!({ "error": e }),
                }
            })
            .collect::<Vec<_>>()
            .into());
    }
    let chunks: Vec<Vec<Vec<BigUint>>> = j["chunks"].as_array().unwrap().iter().map(|c| c.as_array().unwrap().iter().map(nums).collect()).collect();
    let claims: Vec<Claim> = j["claims"].as_array().unwrap().iter().map(|c| Claim { state: nums(&c["state"]), steps: c["steps"].as_i64().unwrap() as isize }).collect();
    let s = session(prog, prover.unwrap_or(prog), &nums(&j["init"]), &chunks, &claims, j["compress"] == true)?;
    Ok(json!({
        "verified": s.verified.iter().map(|v| match v { Ok(v) => strs(v), Err(e) => json!({"error": e}) }).collect::<Vec<_>>(),
        "compressed": s.compressed,
    }))
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let j: J = serde_json::from_reader(std::io::stdin()).unwrap();
    let load = |p: &J| file(p).and_then(|b| guard(|| ProgEnum::deserialize(Cursor::new(b)).map(|p| p.collect())));
    let r = load(&j["program"]).and_then(|p| match (p, j.get("prover").map(load).transpose()?) {
        (ProgEnum::PallasProgram(p), None) => job(&p, None, &j),
        (ProgEnum::PallasProgram(p), Some(ProgEnum::PallasProgram(q))) => job(&p, Some(&q), &j),
        (ProgEnum::VestaProgram(p), None) => job(&p, None, &j),
        (ProgEnum::VestaProgram(p), Some(ProgEnum::VestaProgram(q))) => job(&p, Some(&q), &j),
        _ => Err("not a curve of the cycle".into()),
    });
    println!("{}", match r {
        Ok(j) => json!({ "ok": j }),
        Err(e) => json!({ "error": e }),
    });
}
