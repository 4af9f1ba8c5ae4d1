//! Reference implementations of what the standard library provides, written from the published specifications.
//! Constants are derived as the specifications derive them, not copied from the library.
use crate::prog::big;
use num_bigint::BigUint;
use num_traits::{One, Zero};

pub fn bn128() -> BigUint {
    crate::engine::Curve::Bn128.p()
}

// ------------------------------------------------------------------ SHA-256 (FIPS 180-4)

fn frac_root(n: u64, cube: bool) -> u32 {
    // first 32 bits of the fractional part of the square or cube root
    let k = if cube { 3 } else { 2 };
    let x = big(n) << (32 * k);
    let (mut lo, mut hi) = (BigUint::zero(), big(1) << 40);
    while lo < hi {
        let m = (&lo + &hi + big(1)) >> 1;
        if (0..k).fold(big(1), |a, _| a * &m) <= x {
            lo = m;
        } else {
            hi = m - big(1);
        }
    }
    let d = (lo & ((big(1) << 32) - big(1))).to_u32_digits();
    d.get(0).copied().unwrap_or(0)
}

fn primes(n: usize) -> Vec<u64> {
    (2u64..).filter(|x| (2..*x).all(|d| x % d != 0)).take(n).collect()
}

pub fn sha_iv() -> [u32; 8] {
    let p = primes(8);
    let mut o = [0; 8];
    for i in 0..8 {
        o[i] = frac_root(p[i], false);
    }
    o
}

thread_local! {
    static K: Vec<u32> = primes(64).into_iter().map(|p| frac_root(p, true)).collect();
}

pub fn sha_round(block: &[u32], h: [u32; 8]) -> [u32; 8] {
    let mut w = block.to_vec();
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
    }
    let mut s = h;
    K.with(|k| {
        for i in 0..64 {
            let [a, b, c, d, e, f, g, hh] = s;
            let t1 = hh
                .wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25))
                .wrapping_add((e & f) ^ (!e & g))
                .wrapping_add(k[i])
                .wrapping_add(w[i]);
            let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22)).wrapping_add((a & b) ^ (a & c) ^ (b & c));
            s = [t1.wrapping_add(t2), a, b, c, d.wrapping_add(t1), e, f, g];
        }
    });
    let mut o = h;
    for i in 0..8 {
        o[i] = o[i].wrapping_add(s[i]);
    }
    o
}

pub fn sha_compress(words: &[u32]) -> [u32; 8] {
    words.chunks(16).fold(sha_iv(), |h, b| sha_round(b, h))
}

pub fn bits_to_words(b: &[bool]) -> Vec<u32> {
    b.chunks(32).map(|c| c.iter().fold(0, |a, x| a << 1 | *x as u32)).collect()
}

/// of a message of any number of bits
pub fn sha_bits(m: &[bool]) -> [u32; 8] {
    let mut b = m.to_vec();
    b.push(true);
    while b.len() % 512 != 448 {
        b.push(false);
    }
    let l = m.len() as u64;
    b.extend((0..64).rev().map(|i| l >> i & 1 == 1));
    sha_compress(&bits_to_words(&b))
}

pub fn bytes_to_bits(m: &[u8]) -> Vec<bool> {
    m.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1 == 1)).collect()
}

// ------------------------------------------------------------------ Keccak (FIPS 202)

fn keccakf(s: &mut [[u64; 5]; 5]) {
    let mut r = 1u32;
    for _ in 0..24 {
        let c: Vec<u64> = (0..5).map(|x| s[x].iter().fold(0, |a, b| a ^ b)).collect();
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                s[x][y] ^= d;
            }
        }
        let (mut x, mut y) = (1, 0);
        let mut cur = s[x][y];
        for t in 0..24u32 {
            let ny = (2 * x + 3 * y) % 5;
            x = y;
            y = ny;
            let o = s[x][y];
            s[x][y] = cur.rotate_left((t + 1) * (t + 2) / 2 % 64);
            cur = o;
        }
        for y in 0..5 {
            let t: Vec<u64> = (0..5).map(|x| s[x][y]).collect();
            for x in 0..5 {
                s[x][y] = t[x] ^ (!t[(x + 1) % 5] & t[(x + 2) % 5]);
            }
        }
        for j in 0..7 {
            r = ((r << 1) ^ ((r >> 7) * 0x71)) % 256;
            if r & 2 != 0 {
                s[0][0] ^= 1u64 << ((1u32 << j) - 1);
            }
        }
    }
}

pub fn keccak(m: &[u8], out: usize, delim: u8) -> Vec<u8> {
    let rate = 200 - 2 * out;
    let mut m = m.to_vec();
    m.push(delim);
    while m.len() % rate != 0 {
        m.push(0);
    }
    *m.last_mut().unwrap() ^= 0x80;
    let mut s = [[0u64; 5]; 5];
    for b in m.chunks(rate) {
        for (i, w) in b.chunks(8).enumerate() {
            let mut a = [0; 8];
            a.copy_from_slice(w);
            s[i % 5][i / 5] ^= u64::from_le_bytes(a);
        }
        keccakf(&mut s);
    }
    (0..25).flat_map(|i| s[i % 5][i / 5].to_le_bytes()).take(out).collect()
}

// ------------------------------------------------------------------ BLAKE2s (RFC 7693)

pub fn blake2s(m: &[u8], personal: &[u8; 8]) -> Vec<u8> {
    const SIGMA: [[usize; 16]; 10] = [
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
        [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
        [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
        [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
        [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
        [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
        [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
        [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
        [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
        [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
    ];
    let iv = sha_iv();
    let mut h = iv;
    h[0] ^= 0x0101_0020;
    h[6] ^= u32::from_le_bytes([personal[0], personal[1], personal[2], personal[3]]);
    h[7] ^= u32::from_le_bytes([personal[4], personal[5], personal[6], personal[7]]);
    let n = ((m.len() + 63) / 64).max(1);
    for k in 0..n {
        let mut b = [0u8; 64];
        let c = &m[k * 64..m.len().min(k * 64 + 64)];
        b[..c.len()].copy_from_slice(c);
        let w: Vec<u32> = b.chunks(4).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]])).collect();
        let t = if k == n - 1 { m.len() } else { k * 64 + 64 } as u64;
        let mut v = [0u32; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&iv);
        v[12] ^= t as u32;
        v[13] ^= (t >> 32) as u32;
        if k == n - 1 {
            v[14] = !v[14];
        }
        let mut g = |a: usize, b: usize, c: usize, d: usize, x: u32, y: u32| {
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(12);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
            v[d] = (v[d] ^ v[a]).rotate_right(8);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(7);
        };
        for s in SIGMA.iter() {
            g(0, 4, 8, 12, w[s[0]], w[s[1]]);
            g(1, 5, 9, 13, w[s[2]], w[s[3]]);
            g(2, 6, 10, 14, w[s[4]], w[s[5]]);
            g(3, 7, 11, 15, w[s[6]], w[s[7]]);
            g(0, 5, 10, 15, w[s[8]], w[s[9]]);
            g(1, 6, 11, 12, w[s[10]], w[s[11]]);
            g(2, 7, 8, 13, w[s[12]], w[s[13]]);
            g(3, 4, 9, 14, w[s[14]], w[s[15]]);
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
    }
    h.iter().flat_map(|x| x.to_le_bytes()).collect()
}

// ------------------------------------------------------------------ arithmetic-friendly hashes

/// keccak256 iterated on a seed, as circomlib derives the constants of MiMC
fn chain(seed: &str, n: usize) -> Vec<BigUint> {
    let p = bn128();
    let mut s = keccak(seed.as_bytes(), 32, 1);
    (0..n)
        .map(|_| {
            s = keccak(&s, 32, 1);
            BigUint::from_bytes_be(&s) % &p
        })
        .collect()
}

pub fn mimc7(x: &BigUint, k: &BigUint, rounds: usize) -> BigUint {
    let p = bn128();
    let c: Vec<BigUint> = std::iter::once(big(0)).chain(chain("mimc", 90)).collect();
    let mut r = x.clone();
    for i in 0..rounds {
        r = (&r + k + &c[i]).modpow(&big(7), &p);
    }
    (r + k) % p
}

fn feistel(l: &BigUint, r: &BigUint, k: &BigUint) -> (BigUint, BigUint) {
    let p = bn128();
    let mut c = vec![big(0)];
    c.extend(chain("mimcsponge", 218));
    c.push(big(0));
    let (mut l, mut r) = (l.clone(), r.clone());
    for i in 0..220 {
        let t = (k + &l + &c[i]).modpow(&big(5), &p);
        let n = (&r + t) % &p;
        if i < 219 {
            r = l;
            l = n;
        } else {
            r = n;
        }
    }
    (l, r)
}

pub fn mimc_sponge(ins: &[BigUint], k: &BigUint, outs: usize) -> Vec<BigUint> {
    let p = bn128();
    let (mut l, mut r) = (big(0), big(0));
    for x in ins {
        let t = feistel(&((&l + x) % &p), &r, k);
        l = t.0;
        r = t.1;
    }
    let mut o = vec![l.clone()];
    for _ in 1..outs {
        let t = feistel(&l, &r, k);
        l = t.0;
        r = t.1;
        o.push(l.clone());
    }
    o
}

struct Grain(std::collections::VecDeque<u8>);
impl Grain {
    fn new(t: usize, rf: usize, rp: usize) -> Self {
        let mut b = std::collections::VecDeque::new();
        let mut put = |v: u64, k: usize| (0..k).rev().for_each(|i| b.push_back((v >> i & 1) as u8));
        put(1, 2);
        put(0, 4);
        put(254, 12);
        put(t as u64, 12);
        put(rf as u64, 10);
        put(rp as u64, 10);
        put((1 << 30) - 1, 30);
        let mut g = Grain(b);
        (0..160).for_each(|_| {
            g.next();
        });
        g
    }
    fn next(&mut self) -> u8 {
        let b = &mut self.0;
        let v = b[62] ^ b[51] ^ b[38] ^ b[23] ^ b[13] ^ b[0];
        b.pop_front();
        b.push_back(v);
        v
    }
    fn num(&mut self) -> BigUint {
        let mut v = BigUint::zero();
        for _ in 0..254 {
            while self.next() == 0 {
                self.next();
            }
            v = (v << 1) + big(self.next() as u64);
        }
        v
    }
}

/// with the round constants and the matrix generated by the Grain LFSR, for 1 to 6 inputs
pub fn poseidon(ins: &[BigUint]) -> BigUint {
    let p = bn128();
    let t = ins.len() + 1;
    let (rf, rp) = (8, [56, 57, 56, 60, 60, 63][t - 2]);
    let mut g = Grain::new(t, rf, rp);
    let mut c = vec![];
    while c.len() < t * (rf + rp) {
        let v = g.num();
        if v < p {
            c.push(v);
        }
    }
    let l: Vec<BigUint> = (0..2 * t).map(|_| g.num() % &p).collect();
    let inv = |x: BigUint| x.modpow(&(&p - big(2)), &p);
    let m: Vec<Vec<BigUint>> = (0..t).map(|i| (0..t).map(|j| inv((&l[i] + &l[t + j]) % &p)).collect()).collect();
    let mut s = vec![big(0)];
    s.extend_from_slice(ins);
    for r in 0..rf + rp {
        for i in 0..t {
            s[i] = (&s[i] + &c[r * t + i]) % &p;
        }
        let full = r < rf / 2 || r >= rf / 2 + rp;
        for i in 0..t {
            if full || i == 0 {
                s[i] = s[i].modpow(&big(5), &p);
            }
        }
        s = (0..t).map(|i| (0..t).fold(big(0), |a, j| (a + &s[j] * &m[i][j]) % &p)).collect();
    }
    s[0].clone()
}

// ------------------------------------------------------------------ Baby Jubjub: 168700 x² + y² = 1 + 168696 x² y²

pub type Pt = (BigUint, BigUint);

pub fn inv(x: &BigUint) -> BigUint {
    let p = bn128();
    x.modpow(&(&p - big(2)), &p)
}

pub fn on_curve(q: &Pt) -> bool {
    let p = bn128();
    let (xx, yy) = (&q.0 * &q.0 % &p, &q.1 * &q.1 % &p);
    (big(168700) * &xx + &yy) % &p == (big(1) + big(168696) * xx * yy) % &p
}

/// None when the formula divides by zero
pub fn ed_add(a: &Pt, b: &Pt) -> Option<Pt> {
    let p = bn128();
    let k = big(168696) * &a.0 * &b.0 % &p * &a.1 % &p * &b.1 % &p;
    let (d1, d2) = ((big(1) + &k) % &p, (big(1) + &p - &k) % &p);
    if d1.is_zero() || d2.is_zero() {
        return None;
    }
    let x = (&a.0 * &b.1 + &a.1 * &b.0) % &p * inv(&d1) % &p;
    let y = ((&a.1 * &b.1) % &p + &p - big(168700) * &a.0 * &b.0 % &p) % &p * inv(&d2) % &p;
    Some((x, y))
}

pub fn infinity() -> Pt {
    (big(0), big(1))
}

pub fn ed_mul(k: &BigUint, q: &Pt) -> Pt {
    let mut r = infinity();
    for i in (0..k.bits()).rev() {
        r = ed_add(&r, &r).unwrap();
        if (k >> i) & BigUint::one() == BigUint::one() {
            r = ed_add(&r, q).unwrap();
        }
    }
    r
}

pub fn dec(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 10).unwrap()
}

pub fn generator() -> Pt {
    (
        dec("16540640123574156134436876038791482806971768689494387082833631921987005038935"),
        dec("20819045374670962167435360035096875258406992893633759881276124905556507972311"),
    )
}

/// prime order of the group spanned by the generator
pub fn order() -> BigUint {
    dec("21888242871839275222246405745257275088614511777268538073601725287587578984328") / big(8)
}

/// a point with the given ordinate, if there is one
pub fn lift(y: &BigUint) -> Option<Pt> {
    let p = bn128();
    let yy = y * y % &p;
    let num = (big(1) + &p - &yy) % &p;
    let den = (big(168700) + &p - big(168696) * &yy % &p) % &p;
    if den.is_zero() {
        return None;
    }
    let xx = num * inv(&den) % &p;
    let x = sqrt(&xx)?;
    Some((x, y.clone()))
}

pub fn sqrt(x: &BigUint) -> Option<BigUint> {
    let p = bn128();
    let one = big(1);
    if x.is_zero() {
        return Some(big(0));
    }
    let h = (&p - &one) >> 1;
    if x.modpow(&h, &p) != one {
        return None;
    }
    let (mut q, mut m) = (&p - &one, 0u32);
    while (&q & &one).is_zero() {
        q >>= 1;
        m += 1;
    }
    let mut z = big(2);
    while z.modpow(&h, &p) == one {
        z += &one;
    }
    let mut c = z.modpow(&q, &p);
    let mut t = x.modpow(&q, &p);
    let mut r = x.modpow(&((&q + &one) >> 1), &p);
    while t != one {
        let mut i = 0;
        let mut u = t.clone();
        while u != one {
            u = &u * &u % &p;
            i += 1;
        }
        let b = c.modpow(&(big(1) << (m - i - 1) as usize), &p);
        m = i;
        c = &b * &b % &p;
        t = t * &c % &p;
        r = r * b % &p;
    }
    Some(r)
}

/// 171 windows of three bits (two for the multiple, one for the sign), a new generator every 62 windows
pub fn pedersen(bits: &[bool]) -> Pt {
    let p = bn128();
    let gens = [
        ("13418723823902222986275588345615650707197303761863176429873001977640541977977", "15255921313433251341520743036334816584226787412845488772781699434149539664639"),
        ("11749872627669176692285695179399857264465143297451429569602068921530882657945", "2495745987765795949478491016197984302943511277003077751830848242972604164102"),
        ("11201877561392804928547433284377926158320532448010089457664943460838007583898", "17554707027223374526818340909253875671094356182527312776837442099008513816809"),
    ];
    let mut b = bits.to_vec();
    while b.len() % 3 != 0 {
        b.push(false);
    }
    let mut acc = infinity();
    let mut base = infinity();
    for (k, w) in b.chunks(3).enumerate() {
        if k % 62 == 0 {
            let g = gens[k / 62];
            base = (dec(g.0), dec(g.1));
        } else {
            for _ in 0..4 {
                base = ed_add(&base, &base).unwrap();
            }
        }
        let mut q = ed_mul(&big(1 + w[0] as u64 + 2 * w[1] as u64), &base);
        if w[2] {
            q.0 = (&p - &q.0) % &p;
        }
        acc = ed_add(&acc, &q).unwrap();
    }
    acc
}

/// 256 bits of the ordinate, the first of them replaced by the parity of the abscissa
pub fn compress(q: &Pt) -> Vec<bool> {
    let mut b: Vec<bool> = (0..256usize).rev().map(|i| !((&q.1 >> i) & BigUint::one()).is_zero()).collect();
    b[0] = !(&q.0 & BigUint::one()).is_zero();
    b
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// published test vectors: a wrong reference must not judge anything
pub fn self_check() -> Result<(), String> {
    let w = |a: [u32; 8]| a.iter().map(|x| format!("{:08x}", x)).collect::<String>();
    let t = [
        (w(sha_bits(&bytes_to_bits(b"abc"))), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"),
        (hex(&keccak(b"", 32, 1)), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"),
        (hex(&keccak(b"abc", 32, 6)), "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532"),
        (hex(&blake2s(b"abc", &[0; 8])), "508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982"),
        (
            poseidon(&[big(1), big(2)]).to_str_radix(10),
            "7853200120776062878684798364095072458815029376092732009249414926327459813530",
        ),
        (
            mimc7(&big(1), &big(2), 91).to_str_radix(10),
            "10594780656576967754230020536574539122676596303354946869887184401991294982664",
        ),
    ];
    for (a, b) in t.iter() {
        if a != b {
            return Err(format!("a reference implementation is wrong: {} instead of {}", a, b));
        }
    }
    if !on_curve(&generator()) || ed_mul(&order(), &generator()) != infinity() {
        return Err("the reference curve is wrong".into());
    }
    Ok(())
}
