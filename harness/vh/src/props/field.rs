//! F01: the prime fields everything else computes in
use crate::engine::*;
use crate::prng::Rng;
use crate::run::*;
use num_bigint::BigUint;
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, One, Pow, Zero};
use serde_json::json;
use sha2::{Digest, Sha256};
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use zokrates_field::*;

fn value(r: &mut Rng, p: &BigUint) -> BigUint {
    let one = BigUint::one();
    let x = match r.below(7) {
        0 => BigUint::from(r.below(4)),
        1 => p - BigUint::from(1 + r.below(4)),
        // around powers of two
        2 | 3 => {
            let k = r.below(p.bits() + 1);
            let x = (&one << k) + BigUint::from(r.below(4));
            if x < BigUint::from(2u32) {
                x
            } else {
                x - BigUint::from(2u32)
            }
        }
        // around the middle
        4 => (p >> 1) + BigUint::from(r.below(4)) - BigUint::from(1u32),
        // whole limbs of ones and zeros
        5 => {
            let b: Vec<u8> = (0..p.bits() / 64 + 1).flat_map(|_| vec![*r.pick(&[0u8, 0, 255, 1, 128]); 8]).collect();
            BigUint::from_bytes_le(&b)
        }
        _ => r.big_below(p),
    };
    x % p
}

fn inverse(a: &BigUint, p: &BigUint) -> BigUint {
    a.modpow(&(p - BigUint::from(2u32)), p)
}

fn hash<X: Hash>(x: &X) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn check<T: Field>(ctx: &mut Ctx, p: &BigUint, more: fn(T) -> T) {
    let mut r = ctx.rng.clone();
    let (a, b) = (value(&mut r, p), value(&mut r, p));
    let b = if r.chance(1, 8) { a.clone() } else { b };
    let name = T::name();
    ctx.case = json!({"curve": name, "a": a.to_string(), "b": b.to_string()});
    ctx.eval();
    ctx.nontrivial((name, &a, &b));
    let (x, y) = match (T::try_from(a.clone()), T::try_from(b.clone())) {
        (Ok(x), Ok(y)) => (x, y),
        _ => return ctx.violation(&format!("field-construct:{}", name), format!("{}: {} or {} is not taken as an element", name, a, b)),
    };
    let mut bad: Vec<(&'static str, String)> = vec![];
    macro_rules! eq {
        ($what:expr, $got:expr, $want:expr) => {{
            let (g, w) = ($got, $want);
            if g != w {
                bad.push(($what, format!("{:?} instead of {:?}", g, w)));
            }
        }};
    }
    let b_of = |v: T| v.to_biguint();
    // arithmetic
    eq!("value", b_of(x), a.clone());
    eq!("+", b_of(x + y), (&a + &b) % p);
    eq!("+ref", b_of(x + &y), (&a + &b) % p);
    eq!("-", b_of(x - y), (&a + p - &b) % p);
    eq!("-ref", b_of(x - &y), (&a + p - &b) % p);
    eq!("*", b_of(x * y), (&a * &b) % p);
    eq!("*ref", b_of(x * &y), (&a * &b) % p);
    if b.is_zero() {
        eq!("inverse of zero", y.inverse_mul().map(b_of), None);
        eq!("checked division by zero", x.checked_div(&y).map(b_of), None);
    } else {
        let i = inverse(&b, p);
        eq!("inverse", y.inverse_mul().map(b_of), Some(i.clone()));
        eq!("/", b_of(x / y), &a * &i % p);
        eq!("/ref", b_of(x / &y), &a * &i % p);
        eq!("checked division", x.checked_div(&y).map(b_of), Some(&a * &i % p));
    }
    let e = match r.below(4) {
        0 => r.below(4),
        1 => r.below(300),
        2 => 1usize << r.below(40),
        _ => r.u64() as usize,
    };
    eq!("power", b_of(x.pow(e)), a.modpow(&BigUint::from(e), p));
    // order and equality are those of the canonical values
    eq!("order", x.cmp(&y), a.cmp(&b));
    eq!("partial order", x.partial_cmp(&y), Some(a.cmp(&b)));
    eq!("equality", x == y, a == b);
    eq!("zero", x.is_zero(), a.is_zero());
    eq!("default", b_of(T::default()), BigUint::zero());
    eq!("constants", (b_of(T::zero()), b_of(T::one())), (BigUint::zero(), BigUint::one()));
    let again = x + y - y;
    eq!("hash", hash(&x), hash(&again));
    // bounds and bits
    let bits = p.bits();
    eq!("required bits", T::get_required_bits(), bits);
    eq!("smallest", b_of(T::min_value()), BigUint::zero());
    eq!("largest", b_of(T::max_value()), p - BigUint::one());
    let uniq = (BigUint::one() << (bits - 1)) - BigUint::one();
    eq!("largest with unique bits", b_of(T::max_unique_value()), uniq.clone());
    eq!("number of bits", x.bits() as usize, a.bits().max(1));
    let want: Vec<bool> = (0..bits).rev().map(|i| (&a >> i) % BigUint::from(2u32) == BigUint::one()).collect();
    eq!("bits", x.to_bits_be(), want);
    let (ua, ub) = (&a & &uniq, &b & &uniq);
    let (ux, uy) = (T::try_from(ua.clone()).unwrap(), T::try_from(ub.clone()).unwrap());
    eq!("checked addition", ux.checked_add(&uy).map(b_of), Some(&ua + &ub).filter(|s| s <= &uniq));
    let h = r.below(bits);
    let (ha, hb) = (&ua >> h, &ub >> (bits - 1 - h));
    let (hx, hy) = (T::try_from(ha.clone()).unwrap(), T::try_from(hb.clone()).unwrap());
    eq!("checked multiplication", hx.checked_mul(&hy).map(b_of), Some(&ha * &hb).filter(|s| s <= &uniq));
    // text
    let dec = a.to_string();
    eq!("text", (x.to_dec_string(), x.to_string(), format!("{:?}", x)), (dec.clone(), dec.clone(), dec.clone()));
    let half = p >> 1;
    let compact = if a <= half { dec.clone() } else { format!("(-{})", p - &a) };
    eq!("short text", x.to_compact_dec_string(), compact);
    let zeros = "0".repeat(r.below(3));
    let parsed = |s: &str, k: u32| T::try_from_str(s, k).ok().map(b_of);
    eq!("decimal", T::try_from_dec_str(&format!("{}{}", zeros, dec)).ok().map(b_of), Some(a.clone()));
    eq!("decimal by radix", parsed(&dec, 10), Some(a.clone()));
    eq!("hexadecimal", parsed(&format!("{}{}", zeros, a.to_str_radix(16)), 16), Some(a.clone()));
    eq!("capital hexadecimal", parsed(&a.to_str_radix(16).to_uppercase(), 16), Some(a.clone()));
    eq!("binary", parsed(&a.to_str_radix(2), 2), Some(a.clone()));
    let over = p + &a;
    eq!("decimal out of range", T::try_from_dec_str(&over.to_string()).ok().map(b_of), None);
    eq!("hexadecimal out of range", parsed(&over.to_str_radix(16), 16), None);
    eq!("number out of range", T::try_from(over.clone()).ok().map(b_of), None);
    let wrong = match r.below(7) {
        0 => String::new(),
        1 => format!("-{}", dec),
        2 => format!(" {}", dec),
        3 => format!("{}\n", dec),
        4 => format!("{}a", dec),
        5 => format!("0x{}", dec),
        _ => format!("{}.0", dec),
    };
    eq!("not a number", T::try_from_dec_str(&wrong).ok().map(b_of), None);
    // bytes
    let bytes = x.to_byte_vector();
    eq!("bytes", BigUint::from_bytes_le(&bytes), a.clone());
    eq!("from bytes", b_of(T::from_byte_vector(bytes.clone())), a.clone());
    let mut w = vec![];
    x.write(&mut w).unwrap();
    y.write(&mut w).unwrap();
    let n = w.len();
    eq!("written", n, 2 * bytes.len());
    {
        let mut c = &w[..];
        eq!("read", (T::read(&mut c).ok().map(b_of), T::read(&mut c).ok().map(b_of), c.len()), (Some(a.clone()), Some(b.clone()), 0));
        eq!("read what is cut", T::read(&w[..r.below(bytes.len())]).ok().map(b_of), None);
    }
    let cbor = serde_cbor::to_vec(&vec![x, y]).unwrap();
    eq!("binary form", serde_cbor::from_slice::<Vec<T>>(&cbor).ok().map(|v| v.into_iter().map(b_of).collect::<Vec<_>>()), Some(vec![a.clone(), b.clone()]));
    let js = serde_json::to_string(&vec![x, y]).unwrap();
    eq!("JSON form", serde_json::from_str::<Vec<T>>(&js).ok().map(|v| v.into_iter().map(b_of).collect::<Vec<_>>()), Some(vec![a.clone(), b.clone()]));
    // the canonical encoding of a number which is not below the prime is no element
    let mut o = over.to_bytes_le();
    if o.len() <= bytes.len() {
        o.resize(bytes.len(), 0);
        let c = serde_cbor::to_vec(&serde_cbor::Value::Bytes(o)).unwrap();
        eq!("binary form out of range", serde_cbor::from_slice::<T>(&c).ok().map(b_of), None);
    }
    // machine integers
    let k = match r.below(3) {
        0 => r.u64(),
        1 => u64::MAX - r.below(3) as u64,
        _ => r.below(3) as u64,
    };
    let k128 = (k as u128) << 64 | r.u64() as u128;
    eq!("from u128", b_of(T::from(k128)), BigUint::from(k128) % p);
    eq!("from u64", b_of(T::from(k)), BigUint::from(k) % p);
    eq!("from usize", b_of(T::from(k as usize)), BigUint::from(k) % p);
    eq!("from u32", b_of(T::from(k as u32)), BigUint::from(k as u32) % p);
    eq!("from u16", b_of(T::from(k as u16)), BigUint::from(k as u16) % p);
    eq!("from u8", b_of(T::from(k as u8)), BigUint::from(k as u8) % p);
    eq!("from bool", b_of(T::from(k % 2 == 1)), BigUint::from(k % 2));
    let i = if k as i32 == i32::MIN { 0 } else { k as i32 };
    let want = if i < 0 { p - BigUint::from(-(i as i64) as u64) } else { BigUint::from(i as u32) };
    eq!("from i32", b_of(T::from(i)), want);
    // identity of the field
    let mut m = p.to_bytes_le();
    m.resize(bytes.len(), 0);
    eq!("identifier", T::id().to_vec(), Sha256::digest(&m)[..4].to_vec());
    // other libraries' representations
    eq!("other representations", b_of(more(x)), a.clone());
    eq!("products in other representations", b_of(more(x * y)), &a * &b % p);
    ctx.count(&format!("operations_on_{}", name));
    if let Some((w, d)) = bad.first() {
        ctx.violation(&format!("field:{}:{}", name, w), format!("{}, a = {}, b = {}: {}: {} ({} differences)", name, a, b, w, d, bad.len()));
    }
}

fn ark<T: ArkFieldExtensions>(x: T) -> T {
    T::from_ark(x.into_ark())
}

fn bellman<T: BellmanFieldExtensions>(x: T) -> T {
    T::from_bellman(x.into_bellman())
}

fn bell<T: BellpersonFieldExtensions>(x: T) -> T {
    T::from_bellperson(x.into_bellperson())
}

fn f01(ctx: &mut Ctx, _idx: u64) {
    let c = *ctx.rng.pick(CURVES);
    let p = c.p();
    match c {
        Curve::Bn128 => check::<Bn128Field>(ctx, &p, |x| bellman(ark(x))),
        Curve::Bls12_381 => check::<Bls12_381Field>(ctx, &p, |x| bellman(ark(x))),
        Curve::Bls12_377 => check::<Bls12_377Field>(ctx, &p, ark),
        Curve::Bw6_761 => check::<Bw6_761Field>(ctx, &p, ark),
        Curve::Pallas => check::<PallasField>(ctx, &p, bell),
        Curve::Vesta => check::<VestaField>(ctx, &p, bell),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "F01",
        level: "exploration",
        rule: "a case is a pair of elements of one of the six fields, on which every operation is compared; all pairs are non-trivial",
        assumptions: &["num-bigint computes correctly"],
        quick: 60_000,
        thorough: 5_000_000,
        quick_s: 40,
        thorough_s: 800,
        run: f01,
        require: &["operations_on_bn128", "operations_on_bls12_381", "operations_on_bls12_377", "operations_on_bw6_761", "operations_on_pallas", "operations_on_vesta"],
    }]
}
