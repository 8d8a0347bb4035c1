//! C23: ECDSA.
use rcrypto::ecdsa::{SignatureContent, ECDSA};
use rcrypto::elliptic::{CurveP224, CurveP256, CurveParams, EllipticCurve, KeyPair, PrivateKey, PublicKey};
use rcrypto::sha::SHA512T;
use rcrypto::{Digest, Signature};
use rmath::bigint::{BigInt, Nat};
use std::collections::{BTreeMap, BTreeSet};
use vh::eck::{self, b, generic, params, show, standard, with_x, xy};
use vh::engine::{self, hx, Ctx, R, T};
use vh::enumr::{fill, seq, seqs_upto};
use vh::refs::bn::Bn;
use vh::refs::hash::sha512t;
use vh::refs::ec::{Curve, Pt};
use vh::rsak::{big, bn, quoted, Hs};
use vh::scripted::{Script, Tail};
use vh::toy::{raw_hash, RawDigest};

fn main() { engine::main("C23", run) }

enum AnyC { G(CurveParams), P224(CurveP224), P256(CurveP256) }
impl AnyC {
    fn c(&self) -> &dyn EllipticCurve { match self { AnyC::G(c) => c, AnyC::P224(c) => c, AnyC::P256(c) => c } }
}
impl EllipticCurve for AnyC {
    fn curve_params(&self) -> &CurveParams { self.c().curve_params() }
    fn is_on_curve(&self, x: &BigInt, y: &BigInt) -> bool { self.c().is_on_curve(x, y) }
    fn add(&self, x1: &BigInt, y1: &BigInt, x2: &BigInt, y2: &BigInt) -> (BigInt, BigInt) { self.c().add(x1, y1, x2, y2) }
    fn double(&self, x: &BigInt, y: &BigInt) -> (BigInt, BigInt) { self.c().double(x, y) }
    fn scalar(&self, x: &BigInt, y: &BigInt, k: &Nat) -> (BigInt, BigInt) { self.c().scalar(x, y, k) }
    fn scalar_base_point(&self, k: &Nat) -> (BigInt, BigInt) { self.c().scalar_base_point(k) }
}
/// 0..4 generic, 4 and 5 the optimised ones
fn real(i: usize) -> AnyC { match i { 4 => AnyC::P224(CurveP224::new().unwrap()), 5 => AnyC::P256(CurveP256::new().unwrap()), _ => AnyC::G(generic(i)) } }
const RN: [&str; 6] = ["P-224", "P-256", "P-384", "P-521", "fast P-224", "fast P-256"];

type E<H> = ECDSA<H, Script, AnyC>;
fn pk(q: &Pt) -> PublicKey { let (x, y) = xy(q); PublicKey::new_uncheck(&x, &y) }
fn signer<H: Digest>(h: H, rd: Script, c: AnyC, q: &Pt, d: &Bn) -> E<H> { ECDSA::new_unchcek(h, rd, c, KeyPair::from(PrivateKey::new_uncheck(pk(q), &big(d)))).unwrap() }
fn verifier<H: Digest>(h: H, c: AnyC, q: &Pt) -> E<H> { ECDSA::new_unchcek(h, Script::stream(1), c, KeyPair::from(pk(q))).unwrap() }
fn sign<H: Digest>(t: &T, e: &mut E<H>, m: &[u8]) -> Result<(Bn, Bn), String> {
    let mut sg = SignatureContent::form_bigint(&big(&b(77)), &big(&b(0x1234567)));
    t.step();
    e.sign(&mut sg, m).map_err(|e| format!("signing {} failed: {}", hx(m), e))?;
    let (r, s) = sg.to_bigint();
    Ok((bn(&r)?, bn(&s)?))
}
fn accepts<H: Digest>(t: &T, e: &mut E<H>, m: &[u8], r: &Bn, s: &Bn) -> bool {
    t.step();
    e.verify(&SignatureContent::form_bigint(&big(r), &big(s)), m).is_ok()
}

/// integer of the leftmost bits
fn ez(c: &Curve, h: &[u8]) -> Bn {
    let z = Bn::from_be(h);
    let (n, o) = (c.n.bits(), 8 * h.len());
    if o > n { z.shr(o - n) } else { z }
}
fn ref_verify(c: &Curve, g2: &[Pt], q: &Pt, h: &[u8], r: &Bn, s: &Bn) -> bool {
    if r.is_zero() || s.is_zero() || r.ge(&c.n) || s.ge(&c.n) { return false; }
    let w = s.invm(&c.n).unwrap();
    let (u1, u2) = (ez(c, h).mulm(&w, &c.n), r.mulm(&w, &c.n));
    match c.add(&c.mul_table(&u1, g2), &c.mul(&u2, q)) { Pt::Inf => false, Pt::A(x, _) => x.rem(&c.n) == *r }
}
fn ref_sign(c: &Curve, g2: &[Pt], d: &Bn, k: &Bn, h: &[u8]) -> Option<(Bn, Bn)> {
    let r = match c.mul_table(k, g2) { Pt::Inf => return None, Pt::A(x, _) => x.rem(&c.n) };
    if r.is_zero() { return None; }
    let s = k.invm(&c.n)?.mulm(&ez(c, h).add(&d.mul(&r)), &c.n);
    if s.is_zero() { None } else { Some((r, s)) }
}
/// the secret of a signature made with d, or why it is not one
fn secret(c: &Curve, g2: &[Pt], d: &Bn, h: &[u8], r: &Bn, s: &Bn) -> Result<Bn, String> {
    if r.is_zero() || s.is_zero() || r.ge(&c.n) || s.ge(&c.n) { return Err(format!("(r, s) = ({}, {}) out of range", r.to_hex(), s.to_hex())); }
    let k = s.invm(&c.n).unwrap().mulm(&ez(c, h).add(&d.mul(r)), &c.n);
    match c.mul_table(&k, g2) {
        Pt::A(x, _) if x.rem(&c.n) == *r => Ok(k),
        _ => Err(format!("(r, s) = ({}, {}) is not a signature of digest {} with d = {}", r.to_hex(), s.to_hex(), hx(h), d.to_hex())),
    }
}

/// a small curve with its complete table of multiples of the base point
struct Toy { c: Curve, n: u64, xs: Vec<Option<u64>>, mult: Vec<Pt> }
impl Toy {
    fn new(c: Curve) -> Toy {
        let n = c.n.low_u64();
        let mut mult = vec![Pt::Inf];
        for i in 1..n as usize { let q = c.add(&mult[i - 1], &c.g()); mult.push(q); }
        let xs = mult.iter().map(|q| match q { Pt::Inf => None, Pt::A(x, _) => Some(x.low_u64()) }).collect();
        Toy { c, n, xs, mult }
    }
    fn inv(&self, s: u64) -> u64 { b(s).invm(&self.c.n).unwrap().low_u64() }
    fn verify(&self, d: u64, e: u64, r: u64, s: u64) -> bool {
        let n = self.n;
        if r == 0 || s == 0 || r >= n || s >= n { return false; }
        let w = self.inv(s);
        let k = (e % n * w + r * w % n * d) % n;
        match self.xs[k as usize] { None => false, Some(x) => x % n == r }
    }
    fn cp(&self) -> AnyC { AnyC::G(params(&self.c).unwrap()) }
    fn name(&self) -> String { format!("y^2=x^3-3x+{} mod {} of order {}", self.c.b.low_u64(), self.c.p.low_u64(), self.n) }
    /// some secret works for this key and digest
    fn signable(&self, d: u64, e: u64) -> bool {
        (1..self.n).any(|k| { let r = self.xs[k as usize].unwrap() % self.n; r != 0 && (e + d * r) % self.n != 0 })
    }
}

fn toys(ctx: &Ctx) {
    // all keys, all digests, all (r, s) including values beyond the order
    let small: Vec<Toy> = eck::small_curves(5, ctx.pick(13, 23)).into_iter().map(Toy::new).collect();
    let mut list = vec![];
    for (ti, t) in small.iter().enumerate() { for d in 1..t.n { list.push((ti, d)); } }
    ctx.note(format!("{} small curves with all keys, digests and signatures", small.len()));
    ctx.each("all-signatures", list.len(), |i, t| {
        let (y, d) = (&small[list[i].0], list[i].1);
        let q = &y.mult[d as usize];
        let bits = y.c.n.bits();
        let mut v = verifier(RawDigest::new(1, 8), y.cp(), q);
        for e in 0..1u64 << bits {
            // the bits of the digest after the leftmost ones do not matter
            let h = [((e << (8 - bits)) | (e * 5 & ((1 << (8 - bits)) - 1))) as u8];
            t.trace();
            for r in 0..y.n + 3 {
                for s in 0..y.n + 3 {
                    let want = y.verify(d, e, r, s);
                    if want { t.state(format!("{} {} {} {} {}", list[i].0, d, e, r, s).as_bytes()); }
                    if accepts(t, &mut v, &h, &b(r), &b(s)) != want { return Err(format!("{}: d={} e={}: signature ({}, {}) {}", y.name(), d, e, r, s, if want { "refused" } else { "accepted" })); }
                }
            }
        }
        Ok(())
    });
    // all keys and digests signed, and the secret recovered
    let mid: Vec<Toy> = eck::small_curves(5, ctx.pick(43, 67)).into_iter().map(Toy::new).collect();
    let mut list = vec![];
    for (ti, t) in mid.iter().enumerate() { for d in 1..t.n { list.push((ti, d)); } }
    ctx.each("all-keys-signed", list.len(), |i, t| {
        let (y, d) = (&mid[list[i].0], list[i].1);
        let q = &y.mult[d as usize];
        let mut v = signer(RawDigest::new(1, 8), Script::stream(i as u64), y.cp(), q, &b(d));
        let bits = y.c.n.bits();
        t.trace();
        for e in 0..1u64 << bits {
            if !y.signable(d, e) { continue; }
            let h = [(e << (8 - bits)) as u8];
            let (r, s) = sign(t, &mut v, &h)?;
            let (r, s) = (r.low_u64(), s.low_u64());
            if !y.verify(d, e, r, s) { return Err(format!("{}: d={} e={}: produced ({}, {}), which is not a signature", y.name(), d, e, r, s)); }
            t.state(format!("{} {} {} {} {}", list[i].0, d, e, r, s).as_bytes());
            if !accepts(t, &mut v, &h, &b(r), &b(s)) { return Err(format!("{}: d={} e={}: own signature ({}, {}) refused", y.name(), d, e, r, s)); }
        }
        Ok(())
    });
    // every secret is possible: messages whose leftmost bits agree (curves this small draw no entropy per signature)
    ctx.each("secret-coverage", mid.len().min(40), |i, t| {
        let y = &mid[i];
        if y.n < 7 { return Ok(()); }
        let (d, e) = (2 + i as u64 % 4, 3u64);
        let bits = y.c.n.bits();
        let mut seen = BTreeSet::new();
        let mut v = signer(RawDigest::new(3, 8), Script::stream(i as u64), y.cp(), &y.mult[d as usize], &b(d));
        for j in 0..40 * y.n {
            let (r, s) = sign(t, &mut v, &[(e << (8 - bits)) as u8, (j >> 8) as u8, j as u8])?;
            let k = (y.inv(s.low_u64()) * (e + d * r.low_u64())) % y.n;
            seen.insert(k);
        }
        t.trace();
        for k in 1..y.n {
            let r = y.xs[k as usize].unwrap() % y.n;
            if r != 0 && (e + d * r) % y.n != 0 && !seen.contains(&k) { return Err(format!("{}: secret {} never used in {} signatures", y.name(), k, 40 * y.n)); }
        }
        Ok(())
    });
    // digests longer and shorter than the order, orders of 9 to 15 bits
    let lens: Vec<Toy> = [270u64, 400, 510, 900, 2000, 4090, 8100, 16380, 32760].iter().take(ctx.pick(4, 9)).map(|&h| Toy::new(eck::one_curve(h))).collect();
    ctx.each("digest-lengths", lens.len() * 6 * 8, |i, t| {
        let y = &lens[i / 48];
        let out = 1 + i / 8 % 6;
        let d = [1, 2, 3, y.n / 2, y.n / 2 + 1, y.n - 2, y.n - 1, 77][i % 8];
        let mut v = signer(RawDigest::new(out, 8), Script::stream(i as u64), y.cp(), &y.mult[d as usize], &b(d));
        t.trace();
        let mut hs: Vec<Vec<u8>> = (0..8).map(|k| fill(out, k)).collect();
        for bit in 0..8 * out { let mut h = vec![0u8; out]; h[bit / 8] = 0x80 >> (bit % 8); hs.push(h.clone()); for x in h.iter_mut() { *x ^= 0xff; } hs.push(h); }
        for h in hs {
            let e = ez(&y.c, &h).low_u64();
            let (r, s) = sign(t, &mut v, &h)?;
            if !y.verify(d, e, r.low_u64(), s.low_u64()) || r.ge(&y.c.n) || s.ge(&y.c.n) { return Err(format!("{}: d={} digest {}: produced ({}, {}), which is not a signature", y.name(), d, hx(&h), r.low_u64(), s.low_u64())); }
            if !accepts(t, &mut v, &h, &r, &s) { return Err(format!("{}: d={} digest {}: own signature refused", y.name(), d, hx(&h))); }
            // the same signature against every one-bit change of the digest
            for bit in 0..8 * out {
                let mut g = h.clone();
                g[bit / 8] ^= 0x80 >> (bit % 8);
                let want = y.verify(d, ez(&y.c, &g).low_u64(), r.low_u64(), s.low_u64());
                if accepts(t, &mut v, &g, &r, &s) != want { return Err(format!("{}: d={} digest {}, signature ({}, {}) of {} {}", y.name(), d, hx(&g), r.low_u64(), s.low_u64(), hx(&h), if want { "refused" } else { "accepted" })); }
            }
        }
        Ok(())
    });
    // key generation through the signing object
    ctx.each("generated-keys", lens.len().min(4) * 40, |i, t| {
        let y = &lens[i / 40];
        let j = i as u32 % 40;
        let rd = match j { 0 => Script::words(&[0; 6], Tail::Stream(1)), 1 => Script::words(&[0xffffffff; 6], Tail::Stream(1)), _ => Script::stream(j as u64) };
        let mut v = ECDSA::auto_generate_key(RawDigest::new(2, 8), rd, y.cp()).map_err(|e| format!("key generation failed: {}", e))?;
        let q = quoted(&format!("{}", v.public_key()));
        let q = Pt::A(q[0].clone(), q[1].clone());
        let d = y.mult.iter().position(|p| *p == q).ok_or(format!("{}: public key {} is not a multiple of the base point", y.name(), show(&q)))? as u64;
        t.trace();
        let h = [0x12, 0x34];
        let (r, s) = sign(t, &mut v, &h)?;
        if !y.verify(d, ez(&y.c, &h).low_u64(), r.low_u64(), s.low_u64()) { return Err(format!("{}: signature ({}, {}) does not match the public key {}", y.name(), r.low_u64(), s.low_u64(), show(&q))); }
        Ok(())
    });
}

fn run(ctx: &Ctx) {
    if cfg!(feature = "hooks") { toys(ctx); } else { ctx.assume("built without the small-curve constructor: only the standard curves were explored"); }

    let std4 = standard();
    let tabs: Vec<Vec<Pt>> = std4.iter().map(|(_, _, c)| c.pow2_table(&c.g(), c.n.bits() + 1)).collect();
    let idx = |i: usize| if i == 4 { 0 } else if i == 5 { 1 } else { i };
    let hashes = [Hs::Md(0), Hs::Md(1), Hs::Md(2), Hs::Md(3), Hs::Md(4), Hs::Md(5), Hs::Md(6), Hs::Md(7), Hs::Md(8), Hs::Md(9), Hs::Sha3(0), Hs::Sha3(3)];
    // signatures with the real hashes on every curve
    ctx.each("standard", 6 * hashes.len(), |i, t| {
        let (ci, hs) = (i % 6, hashes[i / 6]);
        let (c, g2) = (&std4[idx(ci)].2, &tabs[idx(ci)]);
        if !t.thorough() && c.n.bits() > 300 && i / 6 % 3 != ci % 3 { return Ok(()); }
        let d = [Bn::one(), b(2), c.n.sub(&Bn::one()), c.n.shr(1), c.n.sub(&b(0x123456789)), Bn::from_be(&vec![0x5a; c.n.bits() / 8])][(i / 6) % 6].clone();
        let q = c.mul_table(&d, g2);
        let mut v = signer(hs.make(), Script::stream(i as u64), real(ci), &q, &d);
        let m = fill(7 * (i / 6), 3);
        let h = hs.h(&m);
        let (r, s) = sign(t, &mut v, &m)?;
        secret(c, g2, &d, &h, &r, &s).map_err(|e| format!("{} {}: {}", RN[ci], hs.name(), e))?;
        t.trace();
        t.state(&r.to_be());
        let mut pubv = verifier(hs.make(), real(ci), &q);
        let neg = c.neg(&q);
        let mut other = verifier(hs.make(), real(ci), &neg);
        let mut m2 = m.clone();
        m2.push(0);
        let nm1 = c.n.sub(&Bn::one());
        let cases: Vec<(Vec<u8>, Bn, Bn)> = vec![
            (m.clone(), r.clone(), s.clone()), (m2, r.clone(), s.clone()), (m.clone(), s.clone(), r.clone()), (m.clone(), r.clone(), c.n.sub(&s)), (m.clone(), c.n.sub(&r), s.clone()),
            (m.clone(), r.add(&c.n), s.clone()), (m.clone(), r.clone(), s.add(&c.n)), (m.clone(), Bn::zero(), s.clone()), (m.clone(), r.clone(), Bn::zero()), (m.clone(), c.n.clone(), s.clone()), (m.clone(), r.clone(), c.n.clone()),
            (m.clone(), r.add(&Bn::one()).rem(&c.n), s.clone()), (m.clone(), r.clone(), s.add(&Bn::one()).rem(&c.n)), (m.clone(), nm1.clone(), nm1.clone()), (m.clone(), Bn::one(), Bn::one()),
        ];
        for (m, r, s) in cases {
            let want = ref_verify(c, g2, &q, &hs.h(&m), &r, &s);
            if accepts(t, &mut pubv, &m, &r, &s) != want { return Err(format!("{} {}: signature ({}, {}) of {} {} (Q = {})", RN[ci], hs.name(), r.to_hex(), s.to_hex(), hx(&m), if want { "refused" } else { "accepted" }, show(&q))); }
        }
        if !accepts(t, &mut v, &m, &r, &s) { return Err(format!("{} {}: own signature refused by the signer", RN[ci], hs.name())); }
        if accepts(t, &mut other, &m, &r, &s) != ref_verify(c, g2, &neg, &h, &r, &s) { return Err(format!("{} {}: signature judged wrongly under the opposite key", RN[ci], hs.name())); }
        // a public key cannot sign, and still verifies afterwards
        if pubv.sign(&mut SignatureContent::new(), &m).is_ok() { return Err(format!("{}: signed with a public key only", RN[ci])); }
        if !accepts(t, &mut pubv, &m, &r, &s) { return Err(format!("{}: signature refused after an attempt to sign", RN[ci])); }
        Ok(())
    });
    // digest lengths from one byte to well beyond the order
    ctx.each("standard-digest-lengths", 6 * 72, |i, t| {
        let (ci, out) = (i % 6, 1 + i / 6);
        let (c, g2) = (&std4[idx(ci)].2, &tabs[idx(ci)]);
        let (edge, hi) = ((c.n.bits() + 7) / 8, if c.n.bits() > 300 { 8 } else { 4 });
        if !t.thorough() && out % hi != 1 && !(edge - 1..edge + 2).contains(&out) { return Ok(()); }
        let d = c.n.sub(&b(5 + i as u64));
        let q = c.mul_table(&d, g2);
        let mut v = signer(RawDigest::new(out, 8), Script::stream(i as u64), real(ci), &q, &d);
        for kind in 0..if t.thorough() { 6 } else { 2 } {
            let m = match kind { 0 => { let mut m = c.n.to_be(); m.resize(out, 0xff); m } 1 => fill(out, 3), 2 => vec![0; out], 3 => vec![0xff; out], 4 => { let mut m = c.n.sub(&Bn::one()).to_be(); m.resize(out, 0); m } _ => fill(out, 5) };
            let h = raw_hash(out, &m);
            let (r, s) = sign(t, &mut v, &m)?;
            secret(c, g2, &d, &h, &r, &s).map_err(|e| format!("{}: {}-byte digest: {}", RN[ci], out, e))?;
            t.trace();
            if !accepts(t, &mut v, &m, &r, &s) { return Err(format!("{}: {}-byte digest {}: own signature refused", RN[ci], out, hx(&h))); }
            let k = c.n.shr(1).sub(&b(i as u64));
            let (r, s) = ref_sign(c, g2, &d, &k, &h).unwrap();
            if !accepts(t, &mut v, &m, &r, &s) { return Err(format!("{}: {}-byte digest {}: reference signature refused", RN[ci], out, hx(&h))); }
            let bits = [0usize, 8 * out - 1, 8 * out / 2, c.n.bits() - 1, c.n.bits()];
            for &bit in bits.iter().take(if t.thorough() { 5 } else { 0 }).chain(bits.iter().skip(3)) {
                if bit >= 8 * out { continue; }
                let mut g = m.clone();
                g[bit / 8] ^= 0x80 >> (bit % 8);
                let want = ez(c, &g).rem(&c.n) == ez(c, &h).rem(&c.n);
                if accepts(t, &mut v, &g, &r, &s) != want { return Err(format!("{}: digest {} with bit {} flipped: signature {}", RN[ci], hx(&h), bit, if want { "refused" } else { "accepted" })); }
            }
        }
        Ok(())
    });
    // digests of every number of bits, also where the last byte is not full
    ctx.each("digest-bits", 6 * 100, |i, t| {
        let ci = i % 6;
        let (c, g2) = (&std4[idx(ci)].2, &tabs[idx(ci)]);
        let bits = if i / 6 < 60 { 1 + 4 * (i / 6) + ci % 2 } else { c.n.bits() - 20 + (i / 6 - 60) };
        if bits > 511 || bits == 384 || !t.thorough() && (i / 6) % [2, 3, 8, 8, 2, 2][ci] != 0 { return Ok(()); }
        let d = c.n.sub(&b(5 + i as u64));
        let q = c.mul_table(&d, g2);
        let mut v = signer(SHA512T::new(bits).unwrap(), Script::stream(i as u64), real(ci), &q, &d);
        let h = sha512t(bits, b"message");
        let n = Bn::from_be(&h).shr(8 * h.len() - bits).to_be_len(h.len());
        let (r, s) = sign(t, &mut v, b"message")?;
        let used = if secret(c, g2, &d, &h, &r, &s).is_ok() { h } else if bits <= c.n.bits() && secret(c, g2, &d, &n, &r, &s).is_ok() { n } else { return Err(format!("{}: {}-bit digest: not a signature of the digest", RN[ci], bits)); };
        t.trace();
        if !accepts(t, &mut v, b"message", &r, &s) { return Err(format!("{}: {}-bit digest: own signature refused", RN[ci], bits)); }
        let k = c.n.shr(1).sub(&b(i as u64));
        let (r, s) = ref_sign(c, g2, &d, &k, &used).unwrap();
        if !accepts(t, &mut v, b"message", &r, &s) { return Err(format!("{}: {}-bit digest: reference signature refused", RN[ci], bits)); }
        let mut o = used.clone();
        o[0] ^= 1;
        let (r, s) = ref_sign(c, g2, &d, &k, &o).unwrap();
        if ez(c, &o) != ez(c, &used) && accepts(t, &mut v, b"message", &r, &s) { return Err(format!("{}: {}-bit digest: signature of another digest accepted", RN[ci], bits)); }
        Ok(())
    });
    // signatures made to meet exceptional points in verification: pick R, u1, u2 and derive the key and digest
    ctx.each("exceptional", 6 * 24, |i, t| {
        let (ci, j) = (i % 6, i / 6);
        let (c, g2) = (&std4[idx(ci)].2, &tabs[idx(ci)]);
        let n = &c.n;
        let one = Bn::one();
        // R with x >= n, tiny x, or an ordinary one
        let rp = match j / 8 {
            0 => { let mut x = n.add(&b(1 + j as u64 * 1000)); loop { if let Some(q) = with_x(c, &x).pop() { break q; } x = x.add(&one); } }
            1 => { let mut x = b(1 + j as u64 * 1000); loop { if let Some(q) = with_x(c, &x).pop() { break q; } x = x.add(&one); } }
            _ => c.mul_table(&b(987654321 + j as u64), g2),
        };
        let r = match &rp { Pt::A(x, _) => x.rem(n), _ => unreachable!() };
        let (u1, u2) = match j % 8 {
            0 => (Bn::zero(), b(5)), 1 => (one.clone(), one.clone()), 2 => (n.sub(&one), b(2)), 3 => (b(3), n.sub(&one)),
            4 => (n.shr(1), n.shr(1).add(&one)), 5 => (one.shl(32), one.shl(64)), 6 => (one.shl(33).sub(&one), b(0xffffffff)), _ => (n.sub(&b(7)), n.sub(&b(9))),
        };
        // Q = (R - u1 G) / u2, s = r / u2, e = u1 s
        let q = c.mul(&u2.invm(n).unwrap(), &c.add(&rp, &c.neg(&c.mul_table(&u1, g2))));
        if q == Pt::Inf { return Ok(()); }
        let s = r.mulm(&u2.invm(n).unwrap(), n);
        let e = u1.mulm(&s, n);
        let out = (n.bits() + 7) / 8;
        let h = e.shl(8 * out - n.bits()).to_be_len(out);
        let want = ref_verify(c, g2, &q, &h, &r, &s);
        if !want { return Err("the constructed signature is not one".into()); }
        t.trace();
        let mut v = verifier(RawDigest::new(out, 8), real(ci), &q);
        if !accepts(t, &mut v, &h, &r, &s) { return Err(format!("{}: signature ({}, {}) of digest {} refused under Q = {} (u1 = {}, u2 = {}, R = {})", RN[ci], r.to_hex(), s.to_hex(), hx(&h), show(&q), u1.to_hex(), u2.to_hex(), show(&rp))); }
        // the unreduced x of R is not a valid r
        if let Pt::A(x, _) = &rp { if accepts(t, &mut v, &h, x, &s) != ref_verify(c, g2, &q, &h, x, &s) { return Err(format!("{}: r = {} judged wrongly", RN[ci], x.to_hex())); } }
        Ok(())
    });
    // u1 G = u2 Q (the last addition is a doubling) and u1 G = -u2 Q (the sum is infinity)
    ctx.each("degenerate-sums", 6 * 6, |i, t| {
        let (ci, j) = (i % 6, i / 6);
        let (c, g2) = (&std4[idx(ci)].2, &tabs[idx(ci)]);
        let n = &c.n;
        let d = b(1 + 3 * j as u64);
        let q = c.mul_table(&d, g2);
        let out = (n.bits() + 7) / 8;
        let h_of = |e: &Bn| e.shl(8 * out - n.bits()).to_be_len(out);
        // e = d r gives u1 = u2 d
        let u2 = Bn::from_be(&vec![0x31 + j as u8; n.bits() / 8]);
        let r = match c.mul_table(&u2.mulm(&d, n).addm(&u2.mulm(&d, n), n), g2) { Pt::A(x, _) => x.rem(n), _ => return Ok(()) };
        let s = r.mulm(&u2.invm(n).unwrap(), n);
        let mut v = verifier(RawDigest::new(out, 8), real(ci), &q);
        let h = h_of(&d.mulm(&r, n));
        t.trace();
        if !ref_verify(c, g2, &q, &h, &r, &s) { return Err("the constructed signature is not one".into()); }
        if !accepts(t, &mut v, &h, &r, &s) { return Err(format!("{}: d = {}: signature whose final addition is a doubling refused: r = {} s = {} digest {}", RN[ci], d.to_hex(), r.to_hex(), s.to_hex(), hx(&h))); }
        let h = h_of(&n.sub(&d.mulm(&r, n)));
        for r2 in [r.clone(), Bn::one(), n.sub(&Bn::one())] {
            let h = if r2 == r { h.clone() } else { h_of(&n.sub(&d.mulm(&r2, n))) };
            if accepts(t, &mut v, &h, &r2, &s) { return Err(format!("{}: d = {}: accepted although the sum of the points is infinity: r = {} s = {} digest {}", RN[ci], d.to_hex(), r2.to_hex(), s.to_hex(), hx(&h))); }
        }
        Ok(())
    });
    // single-bit changes of digest, r, s and Q
    ctx.each("flips", 6 * 4 * ctx.pick(14, 528), |i, t| {
        let (ci, which) = (i % 6, i / 6 % 4);
        let (c, g2) = (&std4[idx(ci)].2, &tabs[idx(ci)]);
        let n = c.n.bits();
        let bit = if t.thorough() { i / 24 } else { let j = i / 24; if j < 4 { j } else if j < 8 { n - 1 - (j - 4) } else { (j - 8) * n / 6 } };
        if bit >= n || t.thorough() && n > 300 && bit % 4 != 1 { return Ok(()); }
        let d = b(1000003);
        let mut q = c.mul_table(&d, g2);
        let out = (n + 7) / 8;
        let mut h = fill(out, 3);
        let (mut r, mut s) = ref_sign(c, g2, &d, &c.n.shr(2), &h).unwrap();
        let flip = |v: &Bn| { let one = Bn::one().shl(bit); if v.bit(bit) { v.sub(&one) } else { v.add(&one) } };
        match which {
            0 => h[out - 1 - bit / 8] ^= 1 << (bit % 8),
            1 => r = flip(&r),
            2 => s = flip(&s),
            // another key on the curve
            _ => q = c.add(&q, &g2[bit]),
        }
        let want = ref_verify(c, g2, &q, &h, &r, &s);
        t.trace();
        let mut v = verifier(RawDigest::new(out, 8), real(ci), &q);
        if accepts(t, &mut v, &h, &r, &s) != want { return Err(format!("{}: {} bit {}: {}", RN[ci], ["digest", "r", "s", "Q"][which], bit, if want { "refused" } else { "accepted" })); }
        Ok(())
    });
    // secrets: one key, messages and streams varied one at a time; no two secrets may be equal
    ctx.each("secrets", 6, |ci, t| {
        let (c, g2) = (&std4[idx(ci)].2, &tabs[idx(ci)]);
        let d = c.n.sub(&b(77));
        let q = c.mul_table(&d, g2);
        let out = (c.n.bits() + 7) / 8;
        let mut seen: BTreeMap<Vec<u8>, String> = BTreeMap::new();
        let (ones, zeros) = (std::cell::RefCell::new(BTreeSet::new()), std::cell::RefCell::new(BTreeSet::new()));
        let put = |seen: &mut BTreeMap<Vec<u8>, String>, m: &[u8], r: &Bn, s: &Bn, what: String| -> R {
            let k = secret(c, g2, &d, &raw_hash(out, m), r, s).map_err(|e| format!("{}: {}", RN[ci], e))?;
            t.trace();
            t.state(&k.to_be());
            for bit in 0..c.n.bits() { if k.bit(bit) { ones.borrow_mut().insert(bit); } else { zeros.borrow_mut().insert(bit); } }
            if let Some(o) = seen.insert(k.to_be(), what.clone()) { return Err(format!("{}: the same per-message secret {} for {} and {}", RN[ci], k.to_hex(), o, what)); }
            // negated secrets are as bad
            if let Some(o) = seen.get(&c.n.sub(&k).to_be()) { return Err(format!("{}: opposite per-message secrets for {} and {}", RN[ci], o, what)); }
            Ok(())
        };
        let base: Vec<u32> = (0..64).map(|i| 0x9e3779b9u32.wrapping_mul(i + 1)).collect();
        let m0 = fill(out, 3);
        // one long-lived object: repeated and different messages
        let mut v = signer(RawDigest::new(out, 8), Script::words(&base, Tail::Stream(9)), real(ci), &q, &d);
        for j in 0..5 { let (r, s) = sign(t, &mut v, &m0)?; put(&mut seen, &m0, &r, &s, format!("signature {} of one object", j))?; }
        // same stream, messages differing in one bit
        for bit in (0..8 * out).step_by(if t.thorough() { 1 } else { 23 }) {
            let mut m = m0.clone();
            m[bit / 8] ^= 0x80 >> (bit % 8);
            let mut v = signer(RawDigest::new(out, 8), Script::words(&base, Tail::Stream(9)), real(ci), &q, &d);
            let (r, s) = sign(t, &mut v, &m)?;
            put(&mut seen, &m, &r, &s, format!("message bit {}", bit))?;
        }
        // same message, streams differing in one bit of the first three words
        for bit in (0..96).step_by(if t.thorough() { 1 } else { 11 }) {
            let mut w = base.clone();
            w[bit / 32] ^= 1 << (bit % 32);
            let mut v = signer(RawDigest::new(out, 8), Script::words(&w, Tail::Stream(9)), real(ci), &q, &d);
            let (r, s) = sign(t, &mut v, &m0)?;
            put(&mut seen, &m0, &r, &s, format!("stream bit {}", bit))?;
        }
        // constant streams
        for w in [0u32, 0xffffffff, 1, 0x01010101, 0x80000000] {
            let mut v = signer(RawDigest::new(out, 8), Script::words(&[], Tail::Const(w)), real(ci), &q, &d);
            let (r, s) = sign(t, &mut v, &m0)?;
            put(&mut seen, &m0, &r, &s, format!("constant stream {:x}", w))?;
        }
        // no bit of the secret is stuck (the chance of that is below 2^-20 per bit for a good source)
        for bit in 0..c.n.bits() - 1 {
            if !ones.borrow().contains(&bit) || !zeros.borrow().contains(&bit) { return Err(format!("{}: bit {} of the per-message secret is the same in {} signatures", RN[ci], bit, seen.len())); }
        }
        Ok(())
    });
    // every message length to a few blocks, and around every power of two
    ctx.each("message-lengths", 100 + 10 * 3, |i, t| {
        let n = if i < 100 { if i < 70 { i } else { 70 + 5 * (i - 70) } } else { (1 << (8 + (i - 100) / 3)) + (i - 100) % 3 - 1 };
        let ci = if i % 3 == 0 { 4 } else { 5 };
        let (c, g2) = (&std4[idx(ci)].2, &tabs[idx(ci)]);
        let d = b(1234567);
        let q = c.mul_table(&d, g2);
        let mut v = signer(Hs::Md(1).make(), Script::stream(i as u64), real(ci), &q, &d);
        let m = fill(n, 3);
        let (r, s) = sign(t, &mut v, &m)?;
        t.trace();
        secret(c, g2, &d, &Hs::Md(1).h(&m), &r, &s).map_err(|e| format!("{} bytes: {}", n, e))?;
        if !accepts(t, &mut v, &m, &r, &s) { return Err(format!("own signature of {} bytes refused", n)); }
        let mut o = vec![[&m[..], &[0]].concat()];
        if n > 0 { o.push(m[..n - 1].to_vec()); let mut x = m.clone(); x[0] ^= 0x80; o.push(x); }
        for x in o { if accepts(t, &mut v, &x, &r, &s) { return Err(format!("signature of {} bytes accepted for another message of {}", n, x.len())); } }
        Ok(())
    });
    // one object through many calls
    ctx.each("endurance", 2, |i, t| {
        let ci = 4 + i;
        let (c, g2) = (&std4[idx(ci)].2, &tabs[idx(ci)]);
        let d = b(1234567);
        let q = c.mul_table(&d, g2);
        let mut v = signer(RawDigest::new(20, 8), Script::stream(i as u64), real(ci), &q, &d);
        let mut ks = BTreeSet::new();
        for n in 0..t.pick(300usize, 2500) {
            let m = fill(n % 70, n % 11);
            let (r, s) = sign(t, &mut v, &m)?;
            t.trace();
            let k = secret(c, g2, &d, &raw_hash(20, &m), &r, &s).map_err(|e| format!("signature number {}: {}", n, e))?;
            if !ks.insert(k.to_be()) { return Err(format!("signature number {} uses the secret {} again", n, k.to_hex())); }
            if n % 3 > 0 && !accepts(t, &mut v, &m, &r, &s) { return Err(format!("signature number {} refused", n)); }
            if n % 7 == 0 && accepts(t, &mut v, &m, &r, &s.add(&b(1))) { return Err(format!("damaged signature number {} accepted", n)); }
        }
        Ok(())
    });
    // the random source is consulted enough for every signature
    ctx.each("entropy", 6, |ci, t| {
        let (c, g2) = (&std4[idx(ci)].2, &tabs[idx(ci)]);
        let d = b(12345);
        let q = c.mul_table(&d, g2);
        let rd = Script::stream(3);
        let log = rd.log.clone();
        let mut v = signer(RawDigest::new(20, 8), rd, real(ci), &q, &d);
        for j in 0..4 {
            let before = log.borrow().len();
            sign(t, &mut v, b"message")?;
            let used = log.borrow().len() - before;
            t.trace();
            // half the field size, at most 256 bits
            let need = (c.p.bits() / 2).min(256);
            if used * 32 < need - need % 32 { return Err(format!("{}: signature {} used only {} random words", RN[ci], j, used)); }
        }
        Ok(())
    });
    // each bit of the random words a signature or a key is made of counts
    ctx.each("entropy-bits", 6 * 3 * 18, |i, t| {
        let (ci, kind, w) = (i % 6, i / 6 % 3, i / 18);
        let c = &std4[idx(ci)].2;
        let words = if kind == 0 { (c.p.bits() / 2).min(256) / 32 } else { c.n.bits() / 32 };
        if w >= words || ci >= 4 && kind == 2 { return Ok(()); }
        let d = b(12345);
        let q = c.mul_table(&d, &tabs[idx(ci)]);
        let result = |f: u32| -> Result<Vec<Bn>, String> {
            let mut ws: Vec<u32> = (0..24u32).map(|j| 0x7a3c_9d15u32.rotate_left(j) ^ (j << 7)).collect();
            ws[w] ^= f;
            let rd = Script::words(&ws, Tail::Stream(1));
            t.step();
            t.trace();
            match kind {
                0 => { let (r, _) = sign(t, &mut signer(RawDigest::new(20, 8), rd, real(ci), &q, &d), b"message")?; Ok(vec![r]) }
                1 => Ok(quoted(&format!("{}", ECDSA::auto_generate_key(RawDigest::new(32, 8), rd, real(ci)).map_err(|e| format!("key generation failed: {}", e))?.public_key()))),
                _ => { let mut rd = rd; Ok(quoted(&format!("{}", real(ci).curve_params().generate_key(&mut rd).map_err(|e| format!("key generation failed: {}", e))?))) }
            }
        };
        let base = result(0)?;
        for bit in 0..32 {
            if !t.thorough() && ci < 4 && bit % 8 != (w + ci) % 8 { continue; }
            // 521 bits are not whole words: some first bits may be left out
            if kind > 0 && idx(ci) == 3 && w == 0 { continue; }
            if result(1 << bit)? == base { return Err(format!("{}: bit {} of random word {} does not influence {}", RN[ci], bit, w, ["the per-message secret", "the generated key of the scheme", "the generated key of the curve"][kind])); }
        }
        Ok(())
    });
    // each bit of the private key counts for the secret
    ctx.each("key-bits", 6 * 17, |i, t| {
        let (ci, w) = (i % 6, i / 6);
        let (c, g2) = (&std4[idx(ci)].2, &tabs[idx(ci)]);
        let top = c.n.bits() - 1;
        let d0 = Bn::from_be(&fill(top / 8, 7));
        let result = |d: &Bn| -> Result<Bn, String> {
            t.trace();
            let (r, s) = sign(t, &mut signer(RawDigest::new(20, 8), Script::stream(1), real(ci), &c.mul_table(d, g2), d), b"message")?;
            secret(c, g2, d, &raw_hash(20, b"message"), &r, &s)
        };
        let base = result(&d0)?;
        for bit in 32 * w..32 * (w + 1) {
            if bit >= top || !t.thorough() && ci < 4 && bit % 16 != ci { continue; }
            let one = Bn::one().shl(bit);
            let d = if d0.bit(bit) { d0.sub(&one) } else { d0.add(&one) };
            if result(&d)? == base { return Err(format!("{}: keys that differ in bit {} use the same per-message secret {}", RN[ci], bit, base.to_hex())); }
        }
        Ok(())
    });
    // generated keys on the standard curves
    ctx.each("standard-generated", 6 * 6, |i, t| {
        let (ci, j) = (i % 6, i / 6);
        let (c, g2) = (&std4[idx(ci)].2, &tabs[idx(ci)]);
        let rd = match j { 0 => Script::words(&[0; 20], Tail::Stream(1)), 1 => Script::words(&[0xffffffff; 20], Tail::Stream(1)), _ => Script::stream(i as u64) };
        let mut v = ECDSA::auto_generate_key(RawDigest::new(32, 8), rd, real(ci)).map_err(|e| format!("key generation failed: {}", e))?;
        let q = quoted(&format!("{}", v.public_key()));
        let q = Pt::A(q[0].clone(), q[1].clone());
        t.trace();
        if !c.on(&q) { return Err(format!("{}: generated public key {} is not on the curve", RN[ci], show(&q))); }
        let m = fill(32, 3);
        let (r, s) = sign(t, &mut v, &m)?;
        if !ref_verify(c, g2, &q, &m, &r, &s) { return Err(format!("{}: signature by a generated key does not verify (Q = {})", RN[ci], show(&q))); }
        Ok(())
    });
    // histories on one object: the verdicts do not depend on what happened before
    let depth = ctx.pick(3, 4);
    ctx.par("histories", 2 * seqs_upto(6, depth), |i, t| {
        let ci = if i % 2 == 0 { 4 } else { 1 };
        let ops = seq(i / 2, 6, depth);
        let (c, g2) = (&std4[idx(ci)].2, &tabs[idx(ci)]);
        let d = b(0x1357);
        let q = c.mul_table(&d, g2);
        let mut v = signer(RawDigest::new(28, 8), Script::stream(i), real(ci), &q, &d);
        let (m1, m2) = (fill(28, 3), fill(28, 4));
        let (r1, s1) = ref_sign(c, g2, &d, &b(0x777777), &m1).unwrap();
        t.trace();
        for (j, o) in ops.iter().enumerate() {
            let bad = |w: &str| Err(format!("{}: step {} of {:?}: {}", RN[ci], j, ops, w));
            match o {
                0 | 1 => { let m = if *o == 0 { &m1 } else { &m2 }; let (r, s) = sign(t, &mut v, m)?; secret(c, g2, &d, m, &r, &s).map_err(|e| format!("{}: step {} of {:?}: {}", RN[ci], j, ops, e))?; }
                2 => if !accepts(t, &mut v, &m1, &r1, &s1) { return bad("good signature refused"); },
                3 => if accepts(t, &mut v, &m2, &r1, &s1) { return bad("signature of another message accepted"); },
                4 => if accepts(t, &mut v, &m1, &r1.add(&c.n), &s1) { return bad("r beyond the order accepted"); },
                _ => { t.step(); if v.verify(&SignatureContent::new(), &m1).is_ok() { return bad("empty signature accepted"); } }
            }
        }
        Ok(())
    });
}
