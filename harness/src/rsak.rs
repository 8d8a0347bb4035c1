//! RSA keys produced by the library, with their components recovered independently.
use crate::refs::bn::Bn;
use crate::refs::rsa::factor_small;
use crate::scripted::Script;
use crate::toy::{toy_hash, ToyDigest};
use crate::zoo::{self, BoxD};
use rcrypto::rsa::{PrivateKey, PublicKey};
use rmath::bigint::BigInt;

pub fn big(b: &Bn) -> BigInt {
    if b.is_zero() { BigInt::from(0u32) } else { BigInt::from_be_bytes(&b.to_be()) }
}
/// Err when the number is negative or not a number
pub fn bn(b: &BigInt) -> Result<Bn, String> {
    if b.is_nan() { return Err("the result is not a number".into()); }
    if b.signnum() == Some(-1) { return Err(format!("the result is negative: {:#x}", b)); }
    Ok(Bn::from_be(&b.to_be_bytes()))
}

/// the quoted hexadecimal numbers of a displayed key, in order
pub fn quoted(s: &str) -> Vec<Bn> {
    let mut v = vec![];
    for (i, p) in s.split('"').enumerate() { if i % 2 == 1 { v.push(Bn::from_hex(p)); } }
    v
}

#[derive(Clone)]
pub struct Nums { pub n: Bn, pub e: Bn, pub d: Bn, pub primes: Vec<Bn> }

impl Nums {
    pub fn k(&self) -> usize { (self.n.bits() + 7) / 8 }
    /// raw private operation
    pub fn raw(&self, c: &Bn) -> Bn { c.powm(&self.d, &self.n) }
}

pub fn nums(sk: &PrivateKey) -> Result<Nums, String> {
    let mut k = nde(sk)?;
    k.primes = factor(&k.n, &k.e, &k.d);
    Ok(k)
}
/// as `nums` without the prime factors
fn nde(sk: &PrivateKey) -> Result<Nums, String> {
    let v = quoted(&format!("{}", sk));
    if v.len() != 3 { return Err(format!("displayed private key does not show three numbers: {}", sk)); }
    Ok(Nums { n: v[1].clone(), e: v[2].clone(), d: v[0].clone(), primes: vec![] })
}
pub fn pub_nums(pk: &PublicKey) -> Result<(Bn, Bn), String> {
    let v = quoted(&format!("{}", pk));
    if v.len() != 2 { return Err(format!("displayed public key does not show two numbers: {}", pk)); }
    Ok((v[0].clone(), v[1].clone()))
}

/// prime factors of n in increasing order; large n are split with the help of (e, d)
pub fn factor(n: &Bn, e: &Bn, d: &Bn) -> Vec<Bn> {
    if n.bits() <= 46 {
        return factor_small(n.low_u64()).into_iter().map(Bn::from_u64).collect();
    }
    let one = Bn::one();
    let mut parts = vec![n.clone()];
    // strip small factors first
    let mut rest = n.clone();
    let mut small = vec![];
    for p in 2..4096u64 {
        let b = Bn::from_u64(p);
        while rest.bits() > 1 && rest.rem(&b).is_zero() { rest = rest.divrem(&b).0; small.push(b.clone()); }
    }
    if !small.is_empty() { parts = small; if rest != one { parts.push(rest); } }
    let mut t = e.mul(d);
    if t.is_zero() { return parts; }
    t = t.sub(&one);
    let mut s = 0;
    while !t.is_zero() && !t.is_odd() { t = t.shr(1); s += 1; }
    if t.is_zero() { return parts; }
    for g in 2..400u64 {
        if parts.iter().all(|p| p.is_prime()) { break; }
        let mut next = vec![];
        for p in &parts {
            if p.is_prime() { next.push(p.clone()); continue; }
            let mut x = Bn::from_u64(g).powm(&t, p);
            let mut split = None;
            for _ in 0..s {
                if x.is_zero() { break; }
                let f = x.sub(&one).gcd(p);
                if f != one && &f != p { split = Some(f); break; }
                x = x.mulm(&x, p);
            }
            match split {
                Some(f) => { let q = p.divrem(&f).0; next.push(f); next.push(q); }
                None => next.push(p.clone()),
            }
        }
        parts = next;
    }
    parts.sort_by(|a, b| a.cmp(b));
    parts
}

/// everything C16 demands of a generated key
pub fn validate(sk: &PrivateKey, n_primes: usize, bits: usize) -> Result<Nums, String> {
    let k = nums(sk)?;
    let show = || format!("key {}", sk);
    if k.n.bits() != bits { return Err(format!("modulus has {} bits instead of {}: {}", k.n.bits(), bits, show())); }
    if k.primes.len() != n_primes { return Err(format!("modulus has {} prime factors instead of {}: {}", k.primes.len(), n_primes, show())); }
    let mut prod = Bn::one();
    for (i, p) in k.primes.iter().enumerate() {
        if !p.is_prime() { return Err(format!("factor {} of the modulus is not prime: {}", p.to_hex(), show())); }
        if i > 0 && p == &k.primes[i - 1] { return Err(format!("the prime factor {} occurs twice: {}", p.to_hex(), show())); }
        prod = prod.mul(p);
        let pm1 = p.sub(&Bn::one());
        if k.e.mulm(&k.d, &pm1) != Bn::one().rem(&pm1) { return Err(format!("e*d is not 1 modulo {}-1: {}", p.to_hex(), show())); }
    }
    if prod != k.n { return Err(format!("the factors do not multiply to the modulus: {}", show())); }
    sk.is_valid().map_err(|e| format!("generated key fails its own validity check ({}): {}", e, show()))?;
    if sk.modulus_len() != (bits + 7) / 8 || sk.public_key().modulus_len() != (bits + 7) / 8 {
        return Err(format!("modulus_len() is {} for {} bits", sk.modulus_len(), bits));
    }
    let (n, e) = pub_nums(sk.public_key())?;
    if n != k.n || e != k.e { return Err(format!("public_key() {} differs from {}", sk.public_key(), show())); }
    Ok(k)
}

/// sizes around 256 bytes and the usual large ones; many primes make such keys cheap
pub const LARGE: [(usize, usize); 8] = [(2040, 8), (2041, 5), (2048, 4), (2048, 9), (2049, 6), (2056, 8), (3072, 12), (4096, 20)];
/// lengths around bytes' and words' limits
pub const LENS: [usize; 14] = [0, 1, 2, 31, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300];

/// a fixed key of the given size: the same for the same arguments
pub fn key(bits: usize, n_primes: usize, seed: u64) -> Result<(PrivateKey, Nums), String> {
    let sk = bare(bits, n_primes, seed)?;
    let k = nums(&sk)?;
    Ok((sk, k))
}
fn bare(bits: usize, n_primes: usize, seed: u64) -> Result<PrivateKey, String> {
    let mut rd = Script::stream(0x5eed_0000 + seed);
    PrivateKey::generate_multi_prime_key(n_primes, bits, 8, &mut rd).map_err(|e| format!("key generation of {} bits failed: {}", bits, e))
}

thread_local! { static KEYS: std::cell::RefCell<std::collections::HashMap<(usize, usize, u64), (PrivateKey, Nums)>> = Default::default(); }
/// as `key`, generated once per thread; the factors of large keys are left out
pub fn cached(bits: usize, n_primes: usize, seed: u64) -> Result<(PrivateKey, Nums), String> {
    let id = (bits, n_primes, seed);
    if let Some(x) = KEYS.with(|m| m.borrow().get(&id).cloned()) { return Ok(x); }
    let x = if bits > 1500 { let sk = bare(bits, n_primes, seed)?; let k = nde(&sk)?; (sk, k) } else { key(bits, n_primes, seed)? };
    KEYS.with(|m| m.borrow_mut().insert(id, x.clone()));
    Ok(x)
}

/// hash functions the schemes are instantiated with
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hs { Toy(usize), Md(usize), Sha3(usize) }
impl Hs {
    pub fn make(self) -> BoxD {
        match self {
            Hs::Toy(n) => BoxD(Box::new(ToyDigest::new(n, 8))),
            Hs::Md(i) => BoxD((zoo::md_family()[i].make)()),
            Hs::Sha3(i) => BoxD((zoo::sha3_family()[i].make)()),
        }
    }
    pub fn h(self, m: &[u8]) -> Vec<u8> {
        match self {
            Hs::Toy(n) => toy_hash(n, m),
            Hs::Md(i) => (zoo::md_family()[i].refh)(m),
            Hs::Sha3(i) => (zoo::sha3_family()[i].refh)(m),
        }
    }
    pub fn len(self) -> usize {
        match self { Hs::Toy(n) => n, Hs::Md(i) => (zoo::md_family()[i].bits + 7) / 8, Hs::Sha3(i) => (zoo::sha3_family()[i].bits + 7) / 8 }
    }
    pub fn name(self) -> String {
        match self { Hs::Toy(n) => format!("toy{}", n), Hs::Md(i) => zoo::md_family()[i].name.into(), Hs::Sha3(i) => zoo::sha3_family()[i].name.into() }
    }
}

/// every octet of `used` was among the octets the source delivered
pub fn from_source(used: &[u8], log: &[u32]) -> bool {
    let mut have = [0i64; 256];
    for w in log { for b in w.to_be_bytes() { have[b as usize] += 1; } }
    for &b in used { have[b as usize] -= 1; }
    have.iter().all(|&x| x >= 0)
}
