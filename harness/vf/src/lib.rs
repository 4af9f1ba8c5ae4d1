//! Programs in the real field types, behind one interface. In a crate of its own, unoptimised: the generated
//! (de)serialisation code of every field type takes long to optimise and little time to run.
use num_bigint::BigUint;
use std::io::Cursor;
use vlib::dynf::D;
use vlib::engine::*;
use zokrates_ast::ir::{self, ProgEnum, Statement, Variable, Witness};
use zokrates_field::*;

pub struct Bell {
    /// public inputs as the circuit allocates them
    pub ins: Vec<BigUint>,
    /// public inputs as handed to a verifier
    pub public: Vec<BigUint>,
    /// the three sides of every constraint under the assignment
    pub cons: Vec<(BigUint, BigUint, BigUint)>,
    pub missing: bool,
}

pub trait Native {
    fn curve(&self) -> Curve;
    fn name(&self) -> String;
    fn cir(&self) -> Cir;
    fn shown(&self) -> Vec<String>;
    fn modules(&self) -> String;
    fn outcome(&self, ins: &[BigUint]) -> String;
    fn run(&self, ins: &[BigUint]) -> Option<Wit>;
    fn rewrite(&self) -> Result<Vec<u8>, String>;
    fn len(&self) -> usize;
    /// as a bellperson circuit, under an assignment
    fn bell(&self, _w: Option<&Wit>) -> Option<Result<Bell, String>> {
        None
    }
}

struct N<T: Field>(ir::Prog<'static, T>, Curve, String);

macro_rules! native {
    ($t:ty, $($extra:tt)*) => {
        impl Native for N<$t> {
            fn curve(&self) -> Curve {
                self.1
            }
            fn name(&self) -> String {
                self.2.clone()
            }
            fn cir(&self) -> Cir {
                cir(&self.0)
            }
            fn shown(&self) -> Vec<String> {
                shown(&self.0, true)
            }
            fn modules(&self) -> String {
                format!("{:?}", self.0.module_map)
            }
            fn outcome(&self, ins: &[BigUint]) -> String {
                outcome(&self.0, ins)
            }
            fn run(&self, ins: &[BigUint]) -> Option<Wit> {
                execute(&self.0, ins).ok().map(wit)
            }
            fn rewrite(&self) -> Result<Vec<u8>, String> {
                let mut b = Cursor::new(vec![]);
                match guard(|| self.0.clone().serialize(&mut b).map_err(|e| e.to_string())) {
                    Ok(Ok(_)) => Ok(b.into_inner()),
                    Ok(Err(e)) => Err(e),
                    Err(e) => Err(format!("panic: {}", e)),
                }
            }
            fn len(&self) -> usize {
                self.0.statements.len()
            }
            $($extra)*
        }
    };
}

native!(Bn128Field,);
native!(Bls12_381Field,);
native!(Bls12_377Field,);
native!(Bw6_761Field,);
native!(PallasField, fn bell(&self, w: Option<&Wit>) -> Option<Result<Bell, String>> { Some(bell(&self.0, w)) });
native!(VestaField, fn bell(&self, w: Option<&Wit>) -> Option<Result<Bell, String>> { Some(bell(&self.0, w)) });

pub fn load(bytes: &[u8]) -> Result<Box<dyn Native>, String> {
    let b = bytes.to_vec();
    match guard(|| ProgEnum::deserialize(Cursor::new(b)).map(|p| (p.curve().to_string(), p.collect()))) {
        Err(p) => Err(format!("panic: {}", p)),
        Ok(r) => r.map(|(n, p)| -> Box<dyn Native> {
            match p {
                ProgEnum::Bn128Program(x) => Box::new(N(x, Curve::Bn128, n)),
                ProgEnum::Bls12_381Program(x) => Box::new(N(x, Curve::Bls12_381, n)),
                ProgEnum::Bls12_377Program(x) => Box::new(N(x, Curve::Bls12_377, n)),
                ProgEnum::Bw6_761Program(x) => Box::new(N(x, Curve::Bw6_761, n)),
                ProgEnum::PallasProgram(x) => Box::new(N(x, Curve::Pallas, n)),
                ProgEnum::VestaProgram(x) => Box::new(N(x, Curve::Vesta, n)),
            }
        }),
    }
}

/// the outer error is a panic
pub fn write(p: &ir::Prog<D>) -> Result<Result<(usize, Vec<u8>), String>, String> {
    let mut b = Cursor::new(vec![]);
    guard(|| p.clone().serialize(&mut b).map_err(|e| e.to_string())).map(|r| r.map(|n| (n, b.into_inner())))
}

/// how many statements these bytes are, if they are statements throughout
pub fn statements(b: &[u8]) -> Option<usize> {
    let v: Result<Vec<Statement<D>>, _> = serde_cbor::Deserializer::from_slice(b).into_iter::<Statement<D>>().collect();
    v.ok().map(|v| v.len())
}

pub fn witness<T: Field>(w: &Wit) -> Witness<T> {
    let mut o = Witness::<T>::empty();
    for (v, x) in w {
        let var = match *v {
            0 => Variable::one(),
            v if v < 0 => Variable::public((-1 - v) as usize),
            v => Variable::new(v as usize - 1),
        };
        o.insert(var, fe(x));
    }
    o
}

// ------------------------------------------------------------------ bellperson

use bellperson::{Circuit, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable as BpVar};

struct Rec<F> {
    ins: Vec<F>,
    aux: Vec<F>,
    cons: Vec<(F, F, F)>,
    missing: bool,
}

impl<F: bellperson_ff::PrimeField> Rec<F> {
    fn new() -> Self {
        Rec { ins: vec![F::ONE], aux: vec![], cons: vec![], missing: false }
    }
    fn ev(&self, l: &LinearCombination<F>) -> F {
        let mut a = F::ZERO;
        for (v, c) in l.iter() {
            let x = match v.get_unchecked() {
                Index::Input(i) => self.ins[i],
                Index::Aux(i) => self.aux[i],
            };
            a += x * c;
        }
        a
    }
}

impl<F: bellperson_ff::PrimeField> ConstraintSystem<F> for Rec<F> {
    type Root = Self;
    fn alloc<FN, A, AR>(&mut self, _: A, f: FN) -> Result<BpVar, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = f().unwrap_or_else(|_| {
            self.missing = true;
            F::ZERO
        });
        self.aux.push(v);
        Ok(BpVar::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<FN, A, AR>(&mut self, _: A, f: FN) -> Result<BpVar, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = f().unwrap_or_else(|_| {
            self.missing = true;
            F::ZERO
        });
        self.ins.push(v);
        Ok(BpVar::new_unchecked(Index::Input(self.ins.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        let (a, b, c) = (a(LinearCombination::zero()), b(LinearCombination::zero()), c(LinearCombination::zero()));
        let t = (self.ev(&a), self.ev(&b), self.ev(&c));
        self.cons.push(t);
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self::Root {
        self
    }
}


fn bell<T: Field + BellpersonFieldExtensions>(prog: &ir::Prog<T>, w: Option<&Wit>) -> Result<Bell, String> {
    let back = |x: T::BellpersonField| be(&T::from_bellperson(x));
    let comp = match w {
        Some(w) => zokrates_bellperson::Computation::with_witness(prog, witness(w)),
        None => zokrates_bellperson::Computation::without_witness(prog),
    };
    let public = match w {
        Some(_) => comp.public_inputs_values().into_iter().map(back).collect(),
        None => vec![],
    };
    let mut cs = Rec::<T::BellpersonField>::new();
    match guard(|| comp.synthesize(&mut cs).map_err(|e| e.to_string())) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(e),
        Err(e) => return Err(format!("panic: {}", e)),
    }
    Ok(Bell {
        ins: cs.ins[1..].iter().map(|x| back(*x)).collect(),
        public,
        cons: cs.cons.iter().map(|g| (back(g.0), back(g.1), back(g.2))).collect(),
        missing: cs.missing,
    })
}
