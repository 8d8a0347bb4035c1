//! Elliptic-curve helpers: conversions, small curves, points with chosen coordinates.
use crate::refs::bn::Bn;
use crate::refs::ec::{self, Curve, Pt};
use crate::rsak::{big, bn};
use rmath::bigint::{BigInt, Nat};

pub fn xy(q: &Pt) -> (BigInt, BigInt) {
    match q { Pt::Inf => (BigInt::from(0u32), BigInt::from(0u32)), Pt::A(x, y) => (big(x), big(y)) }
}
pub fn pt(q: &(BigInt, BigInt)) -> Result<Pt, String> {
    let (x, y) = (bn(&q.0)?, bn(&q.1)?);
    Ok(if x.is_zero() && y.is_zero() { Pt::Inf } else { Pt::A(x, y) })
}
pub fn nat(k: &Bn) -> Nat {
    if k.is_zero() { Nat::from(0u32) } else { Nat::from_be_bytes(&k.to_be()) }
}
pub fn show(q: &Pt) -> String {
    match q { Pt::Inf => "infinity".into(), Pt::A(x, y) => format!("({}, {})", x.to_hex(), y.to_hex()) }
}
pub fn b(x: u64) -> Bn { Bn::from_u64(x) }

/// all points of a small curve, infinity first
pub fn points(c: &Curve) -> Vec<Pt> {
    let p = c.p.low_u64();
    let mut v = vec![Pt::Inf];
    for x in 0..p { for y in 0..p { let q = Pt::A(b(x), b(y)); if c.on(&q) { v.push(q); } } }
    v
}

/// every curve y^2 = x^3 - 3x + b of prime order over GF(p), p prime in lo..=hi; the base point is the
/// first finite point
pub fn small_curves(lo: u64, hi: u64) -> Vec<Curve> {
    (lo..=hi).filter(|&p| p >= 5 && prime(p)).flat_map(|p| prime_order(p, usize::MAX)).collect()
}
/// one curve of prime order over the largest suitable field with p <= hi
pub fn one_curve(hi: u64) -> Curve {
    (5..=hi).rev().filter(|&p| prime(p)).find_map(|p| prime_order(p, 1).pop()).unwrap()
}
fn prime(n: u64) -> bool { n > 1 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0) }
fn prime_order(p: u64, limit: usize) -> Vec<Curve> {
    let mut v = vec![];
    let mut roots = vec![vec![]; p as usize];
    for y in 0..p { roots[(y * y % p) as usize].push(y); }
    for bb in 1..p {
        // 4a^3 + 27b^2 != 0
        if (27 * (bb * bb % p) + 108 * (p - 1)) % p == 0 { continue; }
        let rhs = |x: u64| ((x * x % p * x + (p - 3) * x + bb) % p) as usize;
        let n = 1 + (0..p).map(|x| roots[rhs(x)].len() as u64).sum::<u64>();
        if !prime(n) || n < 5 { continue; }
        let gx = (0..p).find(|&x| !roots[rhs(x)].is_empty()).unwrap();
        v.push(Curve { p: b(p), a: b(p - 3), b: b(bb), n: b(n), gx: b(gx), gy: b(roots[rhs(gx)][0]) });
        if v.len() >= limit { break; }
    }
    v
}

#[cfg(feature = "hooks")]
pub fn params(c: &Curve) -> Option<rcrypto::elliptic::CurveParams> {
    Some(rcrypto::elliptic::CurveParams::from_parts(&big(&c.p), &big(&c.n), &big(&c.b), &big(&c.gx), &big(&c.gy), c.p.bits(), "toy"))
}
#[cfg(not(feature = "hooks"))]
pub fn params(_: &Curve) -> Option<rcrypto::elliptic::CurveParams> { None }

/// the four standard curves: name, field size, reference
pub fn standard() -> Vec<(&'static str, usize, Curve)> {
    vec![("P-224", 224, ec::p224()), ("P-256", 256, ec::p256()), ("P-384", 384, ec::p384()), ("P-521", 521, ec::p521())]
}
pub fn generic(i: usize) -> rcrypto::elliptic::CurveParams {
    use rcrypto::elliptic::CurveParams as C;
    match i { 0 => C::p224(), 1 => C::p256(), 2 => C::p384(), _ => C::p521() }.unwrap()
}

/// both points with the given x, if any
pub fn with_x(c: &Curve, x: &Bn) -> Vec<Pt> {
    let r = c.rhs(x);
    match r.sqrtm(&c.p) {
        None => vec![],
        Some(y) => { let q = Pt::A(x.clone(), y); let n = c.neg(&q); if n == q { vec![q] } else { vec![q, n] } }
    }
}

// polynomials over GF(p), little-endian coefficients
type Poly = Vec<Bn>;
fn trim(mut a: Poly) -> Poly { while a.last().map_or(false, |x| x.is_zero()) { a.pop(); } a }
fn prem(a: &Poly, m: &Poly, p: &Bn) -> Poly {
    let mut a = trim(a.clone());
    let li = m.last().unwrap().invm(p).unwrap();
    while a.len() >= m.len() {
        let f = a.last().unwrap().mulm(&li, p);
        let s = a.len() - m.len();
        for (i, c) in m.iter().enumerate() { a[s + i] = a[s + i].subm(&f.mulm(c, p), p); }
        a = trim(a);
    }
    a
}
fn pmul(a: &Poly, c: &Poly, m: &Poly, p: &Bn) -> Poly {
    if a.is_empty() || c.is_empty() { return vec![]; }
    let mut r = vec![Bn::zero(); a.len() + c.len() - 1];
    for (i, x) in a.iter().enumerate() { for (j, y) in c.iter().enumerate() { r[i + j] = r[i + j].addm(&x.mulm(y, p), p); } }
    prem(&r, m, p)
}
fn ppow(a: &Poly, e: &Bn, m: &Poly, p: &Bn) -> Poly {
    let mut r = prem(&vec![Bn::one()], m, p);
    for i in (0..e.bits()).rev() { r = pmul(&r, &r, m, p); if e.bit(i) { r = pmul(&r, a, m, p); } }
    r
}
fn pgcd(a: &Poly, c: &Poly, p: &Bn) -> Poly {
    let (mut a, mut c) = (trim(a.clone()), trim(c.clone()));
    while !c.is_empty() { let r = prem(&a, &c, p); a = c; c = r; }
    a
}
fn psub(a: &Poly, c: &Poly, p: &Bn) -> Poly {
    let n = a.len().max(c.len());
    trim((0..n).map(|i| a.get(i).cloned().unwrap_or(Bn::zero()).subm(&c.get(i).cloned().unwrap_or(Bn::zero()), p)).collect())
}
fn split(f: &Poly, p: &Bn, out: &mut Vec<Bn>) {
    if f.len() < 2 { return; }
    if f.len() == 2 { out.push(Bn::zero().subm(&f[0], p).mulm(&f[1].invm(p).unwrap(), p)); return; }
    let e = p.sub(&Bn::one()).shr(1);
    for s in 0..64u64 {
        let h = psub(&ppow(&vec![b(s), Bn::one()], &e, f, p), &vec![Bn::one()], p);
        let g = pgcd(f, &h, p);
        if g.len() > 1 && g.len() < f.len() {
            // f / g by splitting off: the other roots are those of gcd(f, h + 2) and -s
            let h2 = psub(&h, &vec![p.sub(&b(2))], p);
            let g2 = pgcd(f, &h2, p);
            split(&g, p, out);
            split(&g2, p, out);
            if f.len() - 1 > (g.len() - 1) + (g2.len() - 1) { out.push(Bn::zero().subm(&b(s), p)); }
            return;
        }
    }
}
/// the points with the given y
pub fn with_y(c: &Curve, y: &Bn) -> Vec<Pt> {
    let p = &c.p;
    let f = vec![c.b.subm(&y.mulm(y, p), p), c.a.clone(), Bn::zero(), Bn::one()];
    let x = vec![Bn::zero(), Bn::one()];
    let g = pgcd(&f, &psub(&ppow(&x, p, &f, p), &x, p), p);
    let mut r = vec![];
    split(&g, p, &mut r);
    r.into_iter().map(|x| Pt::A(x, y.clone())).filter(|q| c.on(q)).collect()
}
