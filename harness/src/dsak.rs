//! DSA domains, keys and the FIPS 186-4 equations over reference arithmetic.
use crate::engine::hx;
use crate::refs::bn::Bn;
use crate::rsak::{big, quoted};
use rcrypto::dsa::{DomainParameters, KeyPair, PrivateKey, PublicKey};

#[derive(Clone, Debug)]
pub struct Dom { pub p: Bn, pub q: Bn, pub g: Bn }
impl Dom {
    /// smallest domain with the given q, at least `lbits` bits in p and generator number `gi`
    pub fn find(q: &Bn, lbits: usize, gi: usize) -> Dom {
        let one = Bn::one();
        let mut c = one.shl(lbits - 1).divrem(q).0;
        if c.is_zero() { c = Bn::from_u64(2); }
        loop {
            let p = q.mul(&c).add(&one);
            if p.is_odd() && p.bits() >= lbits && p.is_prime() {
                let e = c.clone();
                let mut h = 2u64;
                let mut left = gi;
                loop {
                    let g = Bn::from_u64(h).powm(&e, &p);
                    h += 1;
                    if g == one || g.is_zero() { continue; }
                    if left == 0 { return Dom { p, q: q.clone(), g }; }
                    left -= 1;
                }
            }
            c = c.add(&one);
        }
    }
    pub fn y(&self, x: &Bn) -> Bn { self.g.powm(x, &self.p) }
    pub fn dp(&self) -> DomainParameters { DomainParameters::new_uncheck(&big(&self.p), &big(&self.q), &big(&self.g)).unwrap() }
    pub fn sk(&self, x: &Bn) -> KeyPair { KeyPair::from(PrivateKey::new_uncheck(&PublicKey::new_uncheck(&self.dp(), &big(&self.y(x))).unwrap(), &big(x)).unwrap()) }
    pub fn pk(&self, y: &Bn) -> KeyPair { KeyPair::from(PublicKey::new_uncheck(&self.dp(), &big(y)).unwrap()) }
    /// integer of the leftmost min(N, outlen) bits
    pub fn z(&self, h: &[u8]) -> Bn {
        let z = Bn::from_be(h);
        let (n, o) = (self.q.bits(), 8 * h.len());
        if o > n { z.shr(o - n) } else { z }
    }
    pub fn verify(&self, y: &Bn, h: &[u8], r: &Bn, s: &Bn) -> bool {
        if r.is_zero() || s.is_zero() || r.ge(&self.q) || s.ge(&self.q) { return false; }
        let w = match s.invm(&self.q) { Some(w) => w, None => return false };
        let u1 = self.z(h).mulm(&w, &self.q);
        let u2 = r.mulm(&w, &self.q);
        let v = self.g.powm(&u1, &self.p).mulm(&y.powm(&u2, &self.p), &self.p).rem(&self.q);
        &v == r
    }
    /// None when r or s is zero
    pub fn sign(&self, x: &Bn, k: &Bn, h: &[u8]) -> Option<(Bn, Bn)> {
        let r = self.g.powm(k, &self.p).rem(&self.q);
        if r.is_zero() { return None; }
        let s = k.invm(&self.q)?.mulm(&self.z(h).add(&x.mul(&r)), &self.q);
        if s.is_zero() { None } else { Some((r, s)) }
    }
    /// the per-message secret of a signature made with x, or why it is wrong
    pub fn check(&self, x: &Bn, h: &[u8], r: &Bn, s: &Bn) -> Result<Bn, String> {
        if r.is_zero() || s.is_zero() || r.ge(&self.q) || s.ge(&self.q) { return Err(format!("(r, s) = ({}, {}) out of range", r.to_hex(), s.to_hex())); }
        let k = s.invm(&self.q).ok_or("s not invertible")?.mulm(&self.z(h).add(&x.mul(r)), &self.q);
        if self.g.powm(&k, &self.p).rem(&self.q) != *r { return Err(format!("(r, s) = ({}, {}) is not a signature of {} by x={} (p={} q={} g={})", r.to_hex(), s.to_hex(), hx(h), x.to_hex(), self.p.to_hex(), self.q.to_hex(), self.g.to_hex())); }
        Ok(k)
    }
}
pub fn q_of(bits: usize, i: usize) -> Bn {
    // i-th prime above 2^(bits-1), or below 2^bits for odd i
    let mut c = if i % 2 == 0 { Bn::one().shl(bits - 1).add(&Bn::one()) } else { Bn::one().shl(bits).sub(&Bn::one()) };
    let mut left = i / 2;
    loop {
        if c.is_prime() { if left == 0 { return c; } left -= 1; }
        c = if i % 2 == 0 { c.add(&Bn::from_u64(2)) } else { c.sub(&Bn::from_u64(2)) };
    }
}
thread_local! { static DOMS: std::cell::RefCell<std::collections::HashMap<(usize, usize, usize, usize), Dom>> = Default::default(); }
pub fn dom(qbits: usize, qi: usize, lbits: usize, gi: usize) -> Dom {
    let id = (qbits, qi, lbits, gi);
    if let Some(d) = DOMS.with(|m| m.borrow().get(&id).cloned()) { return d; }
    let d = Dom::find(&q_of(qbits, qi), lbits, gi);
    DOMS.with(|m| m.borrow_mut().insert(id, d.clone()));
    d
}

pub fn fips(i: usize) -> Dom {
    let (_, _, p, q, g) = crate::refs::dsadom::DOMAINS[i];
    Dom { p: Bn::from_hex(p), q: Bn::from_hex(q), g: Bn::from_hex(g) }
}

pub fn check_dp(dp: &str, l: usize, n: usize) -> Result<Dom, String> {
    let v = quoted(dp);
    if v.len() != 3 { return Err(format!("displayed domain {} does not show three numbers", dp)); }
    let d = Dom { p: v[0].clone(), q: v[1].clone(), g: v[2].clone() };
    if d.p.bits() != l || d.q.bits() != n { return Err(format!("sizes ({}, {}) instead of ({}, {}): {}", d.p.bits(), d.q.bits(), l, n, dp)); }
    if !d.q.is_prime() { return Err(format!("q is not prime: {}", dp)); }
    if !d.p.is_prime() { return Err(format!("p is not prime: {}", dp)); }
    if !d.p.sub(&Bn::one()).rem(&d.q).is_zero() { return Err(format!("q does not divide p-1: {}", dp)); }
    if d.g == Bn::one() || d.g.is_zero() || d.g.ge(&d.p) || d.g.powm(&d.q, &d.p) != Bn::one() { return Err(format!("g does not have order q: {}", dp)); }
    Ok(d)
}
pub fn check_sk(sk: &PrivateKey, l: usize, n: usize) -> Result<(Dom, Bn), String> {
    let s = format!("{}", sk);
    let v = quoted(&s);
    if v.len() != 5 { return Err(format!("displayed key {} does not show five numbers", s)); }
    let d = check_dp(&format!("{}", sk.domain_parameters()), l, n)?;
    let (x, y) = (&v[0], &v[1]);
    if x.is_zero() || x.ge(&d.q) { return Err(format!("x out of range: {}", s)); }
    if *y != d.y(x) { return Err(format!("y is not g^x: {}", s)); }
    if [&d.p, &d.q, &d.g] != [&v[2], &v[3], &v[4]] { return Err("displayed domains differ".into()); }
    Ok((d, x.clone()))
}
