//! One `Field` type whose arithmetic is delegated at run time to the real field of the selected curve (or to a small
//! prime field). It keeps the number of instantiations of the generic compiler down to one.
use crate::engine::Curve;
use num_bigint::BigUint;
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, One, Zero};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cell::Cell;
use std::fmt;
use std::io::{Read, Write};
use std::ops::{Add, Div, Mul, Sub};
use zokrates_field::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum D {
    Bn(Bn128Field),
    B81(Bls12_381Field),
    B77(Bls12_377Field),
    Bw(Wide),
    Pa(PallasField),
    Ve(VestaField),
    /// residue, prime
    S(u64, u64),
}

/// The elements of the one wide field are kept aside, so that every other value stays as small as in its own field
/// (the compiler copies values a lot). Each distinct element is kept once, for the life of the process.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Wide(&'static Bw6_761Field);

impl Wide {
    fn new(x: Bw6_761Field) -> Wide {
        use std::collections::HashSet;
        use std::hash::BuildHasher;
        use std::sync::{Mutex, OnceLock};
        type Shard = Mutex<HashSet<&'static Bw6_761Field>>;
        static SHARDS: OnceLock<(std::collections::hash_map::RandomState, Vec<Shard>)> = OnceLock::new();
        let s = SHARDS.get_or_init(|| (Default::default(), (0..64).map(|_| Default::default()).collect()));
        let mut t = s.1[(s.0.hash_one(x) % 64) as usize].lock().unwrap();
        match t.get(&x) {
            Some(y) => Wide(y),
            None => {
                let y: &'static Bw6_761Field = Box::leak(Box::new(x));
                t.insert(y);
                Wide(y)
            }
        }
    }
}

thread_local! {
    static CUR: Cell<(Curve, u64)> = const { Cell::new((Curve::Bn128, 0)) };
}

/// Selects the field that every value made from now on (in this thread) belongs to.
pub fn select(c: Curve) {
    CUR.with(|x| x.set((c, 0)))
}

pub fn select_small(p: u64) {
    CUR.with(|x| x.set((Curve::Bn128, p)))
}

fn cur() -> (Curve, u64) {
    CUR.with(|x| x.get())
}

fn powm(mut b: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    while e > 0 {
        if e & 1 == 1 {
            r = (r as u128 * b as u128 % p as u128) as u64;
        }
        b = (b as u128 * b as u128 % p as u128) as u64;
        e >>= 1;
    }
    r
}

fn inv(x: u64, p: u64) -> Option<u64> {
    if x == 0 {
        None
    } else {
        Some(powm(x, p - 2, p))
    }
}

/// a value of the current field, from an expression usable for each concrete field `F`, or from a residue
macro_rules! make {
    ($F:ident => $e:expr, $p:ident => $s:expr) => {
        match cur() {
            (_, $p) if $p != 0 => D::S($s, $p),
            (Curve::Bn128, _) => {
                type $F = Bn128Field;
                D::Bn($e)
            }
            (Curve::Bls12_381, _) => {
                type $F = Bls12_381Field;
                D::B81($e)
            }
            (Curve::Bls12_377, _) => {
                type $F = Bls12_377Field;
                D::B77($e)
            }
            (Curve::Bw6_761, _) => {
                type $F = Bw6_761Field;
                D::Bw(Wide::new($e))
            }
            (Curve::Pallas, _) => {
                type $F = PallasField;
                D::Pa($e)
            }
            (Curve::Vesta, _) => {
                type $F = VestaField;
                D::Ve($e)
            }
        }
    };
}

macro_rules! ask {
    ($F:ident => $e:expr, $p:ident => $s:expr) => {
        match cur() {
            (_, $p) if $p != 0 => $s,
            (Curve::Bn128, _) => {
                type $F = Bn128Field;
                $e
            }
            (Curve::Bls12_381, _) => {
                type $F = Bls12_381Field;
                $e
            }
            (Curve::Bls12_377, _) => {
                type $F = Bls12_377Field;
                $e
            }
            (Curve::Bw6_761, _) => {
                type $F = Bw6_761Field;
                $e
            }
            (Curve::Pallas, _) => {
                type $F = PallasField;
                $e
            }
            (Curve::Vesta, _) => {
                type $F = VestaField;
                $e
            }
        }
    };
}

macro_rules! on {
    ($d:expr, $x:ident => $e:expr, ($r:ident, $p:ident) => $s:expr) => {
        match $d {
            D::Bn($x) => $e,
            D::B81($x) => $e,
            D::B77($x) => $e,
            D::Bw($x) => {
                let $x = $x.0;
                $e
            }
            D::Pa($x) => $e,
            D::Ve($x) => $e,
            D::S($r, $p) => $s,
        }
    };
}

macro_rules! on2 {
    ($a:expr, $b:expr, $x:ident, $y:ident => $e:expr, ($r:ident, $q:ident, $p:ident) => $s:expr) => {
        match ($a, $b) {
            (D::Bn($x), D::Bn($y)) => D::Bn($e),
            (D::B81($x), D::B81($y)) => D::B81($e),
            (D::B77($x), D::B77($y)) => D::B77($e),
            (D::Bw($x), D::Bw($y)) => {
                let ($x, $y) = (*$x.0, *$y.0);
                D::Bw(Wide::new($e))
            }
            (D::Pa($x), D::Pa($y)) => D::Pa($e),
            (D::Ve($x), D::Ve($y)) => D::Ve($e),
            (D::S($r, $p), D::S($q, _)) => D::S($s, $p),
            _ => panic!("fields mixed by the harness"),
        }
    };
}

macro_rules! from {
    ($($t:ty),*) => { $(impl From<$t> for D {
        fn from(x: $t) -> D { make!(F => F::from(x), p => (x as u128 % p as u128) as u64) }
    })* };
}
from!(u128, u64, u32, u16, u8, usize);

impl From<bool> for D {
    fn from(x: bool) -> D {
        make!(F => F::from(x), p => x as u64 % p)
    }
}
impl From<i32> for D {
    fn from(x: i32) -> D {
        make!(F => F::from(x), p => (x as i64).rem_euclid(p as i64) as u64)
    }
}
impl TryFrom<BigUint> for D {
    type Error = ();
    fn try_from(x: BigUint) -> Result<D, ()> {
        Ok(make!(F => F::try_from(x)?, p => {
            if x >= BigUint::from(p) { return Err(()) }
            small(&x)
        }))
    }
}

fn small(x: &BigUint) -> u64 {
    x.to_bytes_le()
        .iter()
        .rev()
        .fold(0u64, |a, b| (a << 8) | *b as u64)
}

impl Zero for D {
    fn zero() -> D {
        D::from(0u8)
    }
    fn is_zero(&self) -> bool {
        on!(self, x => x.is_zero(), (r, _p) => *r == 0)
    }
}
impl One for D {
    fn one() -> D {
        D::from(1u8)
    }
}
impl Default for D {
    fn default() -> D {
        D::zero()
    }
}
impl fmt::Display for D {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        on!(self, x => write!(f, "{}", x), (r, _p) => write!(f, "{}", r))
    }
}
impl fmt::Debug for D {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self)
    }
}
impl Add for D {
    type Output = D;
    fn add(self, o: D) -> D {
        on2!(self, o, x, y => x + y, (r, q, p) => (r + q) % p)
    }
}
impl Sub for D {
    type Output = D;
    fn sub(self, o: D) -> D {
        on2!(self, o, x, y => x - y, (r, q, p) => (r + p - q) % p)
    }
}
impl Mul for D {
    type Output = D;
    fn mul(self, o: D) -> D {
        on2!(self, o, x, y => x * y, (r, q, p) => (r as u128 * q as u128 % p as u128) as u64)
    }
}
impl Div for D {
    type Output = D;
    fn div(self, o: D) -> D {
        self.checked_div(&o).unwrap()
    }
}
impl<'a> Add<&'a D> for D {
    type Output = D;
    fn add(self, o: &D) -> D {
        self + *o
    }
}
impl<'a> Sub<&'a D> for D {
    type Output = D;
    fn sub(self, o: &D) -> D {
        self - *o
    }
}
impl<'a> Mul<&'a D> for D {
    type Output = D;
    fn mul(self, o: &D) -> D {
        self * *o
    }
}
impl<'a> Div<&'a D> for D {
    type Output = D;
    fn div(self, o: &D) -> D {
        self / *o
    }
}
impl CheckedDiv for D {
    fn checked_div(&self, o: &D) -> Option<D> {
        Some(on2!(*self, *o, x, y => x.checked_div(&y)?, (r, q, p) => (r as u128 * inv(q, p)? as u128 % p as u128) as u64))
    }
}
impl CheckedAdd for D {
    fn checked_add(&self, o: &D) -> Option<D> {
        Some(on2!(*self, *o, x, y => CheckedAdd::checked_add(&x, &y)?, (r, q, p) => {
            if BigUint::from(r + q) > D::max_unique_value().to_biguint() { return None }
            (r + q) % p
        }))
    }
}
impl CheckedMul for D {
    fn checked_mul(&self, o: &D) -> Option<D> {
        Some(on2!(*self, *o, x, y => CheckedMul::checked_mul(&x, &y)?, (r, q, p) => {
            if BigUint::from(r) * BigUint::from(q) > D::max_unique_value().to_biguint() { return None }
            (r as u128 * q as u128 % p as u128) as u64
        }))
    }
}
impl Pow<usize> for D {
    type Output = D;
    fn pow(self, e: usize) -> D {
        match self {
            D::Bn(x) => D::Bn(x.pow(e)),
            D::B81(x) => D::B81(x.pow(e)),
            D::B77(x) => D::B77(x.pow(e)),
            D::Bw(x) => D::Bw(Wide::new(x.0.pow(e))),
            D::Pa(x) => D::Pa(x.pow(e)),
            D::Ve(x) => D::Ve(x.pow(e)),
            D::S(r, p) => D::S(powm(r, e as u64, p), p),
        }
    }
}
impl Serialize for D {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            D::S(r, _) => s.serialize_u64(*r),
            D::Bn(x) => x.serialize(s),
            D::B81(x) => x.serialize(s),
            D::B77(x) => x.serialize(s),
            D::Bw(x) => x.0.serialize(s),
            D::Pa(x) => x.serialize(s),
            D::Ve(x) => x.serialize(s),
        }
    }
}
impl<'de> Deserialize<'de> for D {
    fn deserialize<X: Deserializer<'de>>(d: X) -> Result<D, X::Error> {
        Ok(make!(F => F::deserialize(d)?, p => u64::deserialize(d)? % p))
    }
}

fn bits_of(p: u64) -> usize {
    64 - p.leading_zeros() as usize
}

impl Field for D {
    fn read<R: Read>(r: R) -> std::io::Result<D> {
        Ok(make!(F => <F as Field>::read(r)?, _p => unimplemented!()))
    }
    fn write<W: Write>(&self, w: W) -> std::io::Result<()> {
        on!(self, x => Field::write(x, w), (_r, _p) => unimplemented!())
    }
    fn to_byte_vector(&self) -> Vec<u8> {
        on!(self, x => x.to_byte_vector(), (r, _p) => r.to_le_bytes().to_vec())
    }
    fn from_byte_vector(v: Vec<u8>) -> D {
        make!(F => F::from_byte_vector(v), p => small(&BigUint::from_bytes_le(&v)) % p)
    }
    fn to_dec_string(&self) -> String {
        on!(self, x => x.to_dec_string(), (r, _p) => r.to_string())
    }
    fn inverse_mul(&self) -> Option<D> {
        D::one().checked_div(self)
    }
    fn min_value() -> D {
        D::zero()
    }
    fn max_value() -> D {
        make!(F => F::max_value(), p => p - 1)
    }
    fn max_unique_value() -> D {
        make!(F => F::max_unique_value(), p => (1u64 << (bits_of(p) - 1)) - 1)
    }
    fn to_bits_be(&self) -> Vec<bool> {
        on!(self, x => x.to_bits_be(), (r, p) => (0..bits_of(*p)).rev().map(|i| r >> i & 1 == 1).collect())
    }
    fn get_required_bits() -> usize {
        ask!(F => F::get_required_bits(), p => bits_of(p))
    }
    fn try_from_dec_str(s: &str) -> Result<D, FieldParseError> {
        Ok(make!(F => F::try_from_dec_str(s)?, p => s.parse::<u64>().map_err(|_| FieldParseError)? % p))
    }
    fn try_from_str(s: &str, radix: u32) -> Result<D, FieldParseError> {
        Ok(make!(F => F::try_from_str(s, radix)?, p => {
            let x = u64::from_str_radix(s, radix).map_err(|_| FieldParseError)?;
            if x >= p { return Err(FieldParseError) }
            x
        }))
    }
    fn to_compact_dec_string(&self) -> String {
        on!(self, x => x.to_compact_dec_string(), (r, p) => if *r <= p / 2 { r.to_string() } else { format!("(-{})", p - r) })
    }
    fn id() -> [u8; 4] {
        ask!(F => F::id(), _p => [0, 0, 0, 1])
    }
    fn name() -> &'static str {
        ask!(F => F::name(), _p => "small")
    }
    fn bits(&self) -> u32 {
        on!(self, x => x.bits(), (r, _p) => (bits_of(*r) as u32).max(1))
    }
    fn to_biguint(&self) -> BigUint {
        on!(self, x => x.to_biguint(), (r, _p) => BigUint::from(*r))
    }
}
