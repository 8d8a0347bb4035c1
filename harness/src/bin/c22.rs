//! C22: DSA.
use rcrypto::dsa::{DomainParameters, KeyPair, PrivateKey, PublicKey, SignatureContent, DSA};
use rcrypto::sha::SHA512T;
use rcrypto::{Digest, Signature};
use std::collections::BTreeSet;
use vh::engine::{self, hx, Ctx, R, T};
use vh::enumr::{dig, fill, seq, seqs_upto};
use vh::dsak::{check_dp, check_sk, dom, fips, q_of, Dom};
use vh::refs::bn::Bn;
use vh::refs::hash::sha512t;
use vh::rsak::{big, bn, quoted, Hs};
use vh::scripted::{Script, Tail};
use vh::toy::{raw_hash, RawDigest};

fn main() { engine::main("C22", run) }

fn b(x: u64) -> Bn { Bn::from_u64(x) }
type Raw = DSA<RawDigest, Script>;
fn raw(out: usize, kp: KeyPair, rd: Script) -> Raw { DSA::new_uncheck(RawDigest::new(out, 8), rd, kp).unwrap() }
fn sign<H: Digest>(t: &T, d: &mut DSA<H, Script>, m: &[u8]) -> Result<(Bn, Bn), String> {
    let mut sg = SignatureContent::form_bigint(&big(&b(77)), &big(&b(0x1234567)));
    t.step();
    d.sign(&mut sg, m).map_err(|e| format!("signing {} failed: {}", hx(m), e))?;
    let (r, s) = sg.to_bigint();
    Ok((bn(&r)?, bn(&s)?))
}
fn ver<H: Digest>(t: &T, d: &mut DSA<H, Script>, dom: &Dom, y: &Bn, m: &[u8], h: &[u8], r: &Bn, s: &Bn, what: &dyn Fn() -> String) -> R {
    t.step();
    t.trace();
    let got = d.verify(&SignatureContent::form_bigint(&big(r), &big(s)), m).is_ok();
    let want = dom.verify(y, h, r, s);
    t.state(&[r.to_be(), s.to_be(), h.to_vec()].concat());
    if got != want { return Err(format!("{}: signature ({}, {}) of digest {} {} (y={} p={} q={} g={})", what(), r.to_hex(), s.to_hex(), hx(h), if got { "accepted" } else { "refused" }, y.to_hex(), dom.p.to_hex(), dom.q.to_hex(), dom.g.to_hex())); }
    Ok(())
}

/// the largest p = 1 mod q below 2^1023 is prime
const QDIR: &str = "e057e8cf78283fe9a41f272b404fb0d7d2979df7";
fn gen(l: usize, n: usize, rd: &mut Script) -> Result<PrivateKey, String> {
    type D = DSA<RawDigest, Script>;
    match (l, n) { (1024, _) => D::l1024_n160_key(rd), (2048, 224) => D::l2048_n224_key(rd), (2048, _) => D::l2048_n256_key(rd), _ => D::l3072_n256_key(rd) }.map_err(|e| format!("key generation ({}, {}) failed: {}", l, n, e))
}

fn run(c: &Ctx) {
    // complete instance: all (r, s) for many (key, digest) pairs of a domain with an 8-bit q
    let np = c.pick(16u64, 250);
    c.par("all-signatures", np * 260, |mut i, t| {
        let r = dig(&mut i, 260) as u64;
        let d = dom(8, 1, 9, 0);
        let (x, z) = (1 + (i * 37) % 250, (i * 91 + 3) % 256);
        let y = d.y(&b(x));
        let mut v = raw(1, d.pk(&y), Script::stream(1));
        t.sample(|| format!("p={} q={} x={} digest={:02x}: r={} with all s", d.p.to_hex(), d.q.to_hex(), x, z, r));
        for s in 0..260 { ver(t, &mut v, &d, &y, &[z as u8], &[z as u8], &b(r), &b(s), &|| "small domain".into())?; }
        Ok(())
    });
    // all keys x all digests
    c.par("all-keys-and-digests", 250, |i, t| {
        let d = dom(8, 1, 9, (i % 3) as usize);
        let x = b(1 + i);
        let mut v = raw(1, d.sk(&x), Script::stream(i));
        let y = d.y(&x);
        for z in 0..=255u8 {
            let (r, s) = sign(t, &mut v, &[z])?;
            d.check(&x, &[z], &r, &s)?;
            ver(t, &mut v, &d, &y, &[z], &[z], &r, &s, &|| "own signature".into())?;
            ver(t, &mut v, &d, &y, &[z ^ 1], &[z ^ 1], &r, &s, &|| "other digest".into())?;
            ver(t, &mut v, &d, &y, &[z], &[z], &s, &r, &|| "swapped".into())?;
        }
        Ok(())
    });
    // all per-message secrets and all digests: the reference signature verifies
    c.par("all-secrets", 250, |i, t| {
        let d = dom(8, 1, 9, 1);
        let k = b(1 + i);
        for x in [1u64, 2, 100, 250] {
            let y = d.y(&b(x));
            let mut v = raw(1, d.pk(&y), Script::stream(i));
            for z in 0..=255u8 {
                if let Some((r, s)) = d.sign(&b(x), &k, &[z]) { ver(t, &mut v, &d, &y, &[z], &[z], &r, &s, &|| format!("reference signature with k={}", 1 + i))?; }
            }
        }
        Ok(())
    });
    // digests of every number of bits, also where the last byte is not full: the bits count as the leftmost ones of the
    // last byte or as a number of that many bits, the same in both directions
    c.par("digest-bits", 3 * 300, |mut i, t| {
        let qb = [64usize, 160, 256][dig(&mut i, 3)];
        let bits = 1 + i as usize;
        if !t.thorough() && bits % 8 != 5 && bits > qb + 16 { return Ok(()); }
        let d = dom(qb, 1, qb + 9, 0);
        let x = d.q.sub(&b(1000 + i));
        let y = d.y(&x);
        let mut v = DSA::new_uncheck(SHA512T::new(bits).unwrap(), Script::stream(i), d.sk(&x)).unwrap();
        for m in [&b"message"[..], &fill(200, 7)[..]] {
            let h = sha512t(bits, m);
            let n = Bn::from_be(&h).shr(8 * h.len() - bits).to_be_len(h.len());
            let (r, s) = sign(t, &mut v, m)?;
            let used = if d.check(&x, &h, &r, &s).is_ok() { h } else if bits <= qb && d.check(&x, &n, &r, &s).is_ok() { n } else { return Err(format!("{}-bit digest, {}-bit q: not a signature of the digest", bits, qb)); };
            ver(t, &mut v, &d, &y, m, &used, &r, &s, &|| format!("own signature of a {}-bit digest", bits))?;
            if let Some((r, s)) = d.sign(&x, &d.q.shr(1), &used) { ver(t, &mut v, &d, &y, m, &used, &r, &s, &|| format!("reference signature of a {}-bit digest", bits))?; }
            let o = Bn::from_be(&used).add(&Bn::one().shl(8 * used.len() - 8)).to_be();
            if o.len() == used.len() { if let Some((r, s)) = d.sign(&x, &d.q.shr(1), &o) { ver(t, &mut v, &d, &y, m, &used, &r, &s, &|| format!("signature of another {}-bit digest", bits))?; } }
        }
        Ok(())
    });
    // every secret in [1, q-1] is used, for every first word pattern
    c.par("secret-coverage", 6, |i, t| {
        let d = dom(8, [1usize, 0, 3][i as usize % 3], 9 + 3 * (i as usize / 3), 0);
        let q = d.q.low_u64();
        let x = b(9);
        let mut seen = BTreeSet::new();
        for j in 0..6000u64 {
            let rd = if j < 256 { Script::words(&[j as u32 * 0x01010101], Tail::Stream(j)) } else { Script::stream(j) };
            let mut v = raw(1, d.sk(&x), rd);
            let (r, s) = sign(t, &mut v, &[5])?;
            seen.insert(d.check(&x, &[5], &r, &s)?.low_u64());
            t.trace();
        }
        // secrets for which r or s is zero cannot occur
        for k in 1..q { if d.sign(&x, &b(k), &[5]).is_some() != seen.contains(&k) { return Err(format!("per-message secret {} of q={}: used {}", k, q, seen.contains(&k))); } }
        Ok(())
    });
    // each bit of the random words a secret is made of counts
    c.par("entropy-bits", 3 * 8 * 32, |mut i, t| {
        let qb = [64usize, 160, 256][dig(&mut i, 3)];
        let bit = dig(&mut i, 32);
        let w = i as usize;
        if w >= qb / 32 { return Ok(()); }
        let d = dom(qb, 1, qb + 9, 0);
        let x = d.q.sub(&b(1000));
        let mut ks = vec![];
        for f in [0u32, 1 << bit] {
            let mut ws: Vec<u32> = (0..16u32).map(|j| 0x7a3c_9d15u32.rotate_left(j) ^ (j << 7)).collect();
            ws[w] ^= f;
            let mut v = raw(20, d.sk(&x), Script::words(&ws, Tail::Stream(1)));
            let m = fill(20, 3);
            let (r, s) = sign(t, &mut v, &m)?;
            ks.push(d.check(&x, &raw_hash(20, &m), &r, &s)?);
        }
        t.trace();
        if ks[0] == ks[1] { return Err(format!("bit {} of random word {} does not influence the per-message secret of a {}-bit q", bit, w, qb)); }
        Ok(())
    });
    // draws for which r or s is zero: the library must draw again
    c.par("retries", 60 * 24, |mut i, t| {
        let j = 1 + dig(&mut i, 4);
        let zi = dig(&mut i, 6);
        let lb = 9 + i as usize % 20;
        let d = dom(8, [1usize, 0, 5][i as usize / 20], lb, 0);
        let q = d.q.low_u64();
        let mut bad = vec![];
        for k in 1..q { if d.g.powm(&b(k), &d.p).rem(&d.q).is_zero() { bad.push((k, 7u64, 9u8)); } }
        // s = 0: digest = -x*r
        for k in [1, 2, q / 2, q - 1] {
            let r = d.g.powm(&b(k), &d.p).rem(&d.q).low_u64();
            let x = 3 + zi as u64;
            bad.push((k, x, ((q * q - x * r) % q) as u8));
        }
        for (k, x, z) in bad {
            if d.sign(&b(x), &b(k), &[z]).is_some() { continue; }
            let mut v = raw(1, d.sk(&b(x)), Script::words(&vec![k as u32 * 0x01010101; j], Tail::Stream(i)));
            let (r, s) = sign(t, &mut v, &[z])?;
            t.trace();
            d.check(&b(x), &[z], &r, &s)?;
        }
        Ok(())
    });
    // secrets with zero words: zero itself must be drawn again, short numbers must be handled as numbers
    c.par("zero-words", 7 * 10 * 4 * 3, |mut i, t| {
        let qb = [40usize, 64, 72, 96, 128, 160, 256][dig(&mut i, 7)];
        let pos = dig(&mut i, 10);
        let val = [1u32, 0x80000000, 0xffffffff, 0x12345678][dig(&mut i, 4)];
        let d = dom(qb, 1, qb + 9, 0);
        let n = (qb + 31) / 32;
        if pos > n { return Ok(()); }
        // i blocks of zeros, then a block with one word set (pos = n: none)
        let mut w = vec![0u32; n * i as usize];
        for j in 0..n { w.push(if j == pos { val } else { 0 }); }
        let x = d.q.sub(&b(1));
        let y = d.y(&x);
        for kind in 0..4 {
            let mut v = raw(qb / 8, d.sk(&x), Script::words(&w, Tail::Stream(i)));
            let h = fill(qb / 8, kind);
            let (r, s) = sign(t, &mut v, &h)?;
            let k = d.check(&x, &h, &r, &s)?;
            if k.is_zero() { return Err("per-message secret 0".into()); }
            ver(t, &mut v, &d, &y, &h, &h, &r, &s, &|| "own signature".into())?;
        }
        Ok(())
    });
    // all 8-bit q, several moduli
    c.par("domains", 23 * 2 * 8, |mut i, t| {
        let lb = 8 + dig(&mut i, 8) * 9;
        let gi = dig(&mut i, 2);
        let d = dom(8, i as usize, lb.max(9), gi);
        t.sample(|| format!("{:?}", d));
        for x in [b(1), b(2), b(77), d.q.sub(&Bn::one())] {
            let y = d.y(&x);
            let mut v = raw(2, d.sk(&x), Script::stream(i));
            for z in 0..20usize {
                let h = raw_hash(2, &fill(2, z));
                let (r, s) = sign(t, &mut v, &h)?;
                d.check(&x, &h, &r, &s)?;
                ver(t, &mut v, &d, &y, &h, &h, &r, &s, &|| "own signature".into())?;
                ver(t, &mut v, &d, &y, &h, &h, &r, &d.q.sub(&s), &|| "negated s".into())?;
                ver(t, &mut v, &d, &y, &h, &h, &r.add(&d.q), &s, &|| "r + q".into())?;
                ver(t, &mut v, &d, &y, &h, &h, &r, &s.add(&d.q), &|| "s + q".into())?;
                ver(t, &mut v, &d, &y, &[h[0], h[1] ^ 0x80], &[h[0], h[1] ^ 0x80], &r, &s, &|| "digest differing after N bits".into())?;
                ver(t, &mut v, &d, &y, &[h[0] ^ 1, h[1]], &[h[0] ^ 1, h[1]], &r, &s, &|| "digest differing in bit N".into())?;
            }
        }
        Ok(())
    });
    // digest lengths against sizes of q
    let sizes: Vec<(usize, usize)> = vec![(8, 40), (16, 17), (16, 40), (24, 60), (32, 64), (40, 80), (48, 49), (64, 100), (72, 128), (96, 97), (160, 200), (224, 256), (256, 300)];
    let ns = sizes.len() as u64;
    c.par("digest-lengths", ns * 2 * 66, |mut i, t| {
        let (qb, lb) = sizes[dig(&mut i, ns)];
        let qi = dig(&mut i, 2);
        let out = 1 + i as usize;
        if out > 2 * qb / 8 + 3 { return Ok(()); }
        let d = dom(qb, qi, lb, 0);
        let x = d.q.sub(&b(5));
        let y = d.y(&x);
        let mut v = raw(out, d.sk(&x), Script::stream(i));
        for kind in 0..8 {
            let m = match kind { 6 => { let mut m = d.q.to_be(); m.resize(out, 0xff); m } 7 => { let mut m = d.q.sub(&Bn::one()).to_be(); m.resize(out, 0); m } _ => fill(out, kind) };
            let h = raw_hash(out, &m);
            let (r, s) = sign(t, &mut v, &m)?;
            d.check(&x, &h, &r, &s)?;
            ver(t, &mut v, &d, &y, &m, &h, &r, &s, &|| format!("own signature, {}-byte digest", out))?;
            for k in [Bn::one(), b(2), d.q.sub(&Bn::one()), d.q.shr(1)] {
                if let Some((r, s)) = d.sign(&x, &k, &h) {
                    ver(t, &mut v, &d, &y, &m, &h, &r, &s, &|| format!("reference signature, {}-byte digest", out))?;
                    for bit in [0usize, 1, 8 * out / 2, 8 * out - 1] {
                        let mut m2 = h.clone();
                        m2[bit / 8] ^= 0x80 >> (bit % 8);
                        ver(t, &mut v, &d, &y, &m2, &m2, &r, &s, &|| format!("digest bit {} flipped", bit))?;
                    }
                }
            }
        }
        Ok(())
    });
    // groups larger than the standard ones
    c.par("wide-q", 4 * 2 * 140, |mut i, t| {
        let qb = [264usize, 320, 384, 512][dig(&mut i, 4)];
        let qi = dig(&mut i, 2);
        let out = 1 + i as usize;
        if out > qb / 4 + 3 || !t.thorough() && qi == 0 && out % 4 != 0 { return Ok(()); }
        let d = dom(qb, qi, qb + 9, 0);
        let x = d.q.sub(&b(5));
        let y = d.y(&x);
        let mut v = raw(out, d.sk(&x), Script::stream(i));
        for kind in 0..3 {
            let m = fill(out, 2 + kind);
            let h = raw_hash(out, &m);
            let (r, s) = sign(t, &mut v, &m)?;
            d.check(&x, &h, &r, &s)?;
            ver(t, &mut v, &d, &y, &m, &h, &r, &s, &|| format!("own signature, {}-byte digest", out))?;
            let (r, s) = d.sign(&x, &d.q.shr(1), &h).ok_or("no signature")?;
            for bit in 0..8 * out {
                if bit % 61 != kind && bit + 1 != 8 * out && bit != qb { continue; }
                let mut m2 = h.clone();
                m2[bit / 8] ^= 0x80 >> (bit % 8);
                ver(t, &mut v, &d, &y, &m2, &m2, &r, &s, &|| format!("digest bit {} flipped", bit))?;
            }
        }
        Ok(())
    });
    // every bit of digest, r, s and y
    c.par("flips", 4 * 4 * 256, |mut i, t| {
        let which = dig(&mut i, 4);
        let (qb, lb) = [(16usize, 30usize), (40, 80), (160, 180), (256, 270)][dig(&mut i, 4)];
        let bit = i as usize;
        let d = dom(qb, 1, lb, 0);
        let x = d.q.shr(2);
        let mut y = d.y(&x);
        let mut h = fill(qb / 8 + 1, 3);
        let (mut r, mut s) = d.sign(&x, &b(0x1235), &h).unwrap();
        let flip = |v: &Bn| { let one = Bn::one().shl(bit); if v.bit(bit) { v.sub(&one) } else { v.add(&one) } };
        match which {
            0 => { if bit >= 8 * h.len() { return Ok(()); } h[bit / 8] ^= 1 << (bit % 8) }
            1 => r = flip(&r),
            2 => s = flip(&s),
            _ => { if bit >= lb { return Ok(()); } y = flip(&y); if y.bits() > d.p.bits() || y.is_zero() { return Ok(()); } }
        }
        if bit > qb && which < 3 { return Ok(()); }
        let mut v = raw(h.len(), d.pk(&y), Script::stream(1));
        ver(t, &mut v, &d, &y, &h, &h, &r, &s, &|| format!("{} bit {} flipped", ["digest", "r", "s", "y"][which], bit))
    });
    // odd public keys: never a panic, never an acceptance the equation does not support
    c.par("degenerate-keys", 5 * 3 * 64, |mut i, t| {
        let yi = dig(&mut i, 5);
        let (qb, lb) = [(8usize, 9usize), (40, 50), (160, 170)][dig(&mut i, 3)];
        let d = dom(qb, 1, lb, 0);
        let y = [Bn::zero(), Bn::one(), d.p.sub(&Bn::one()), d.g.clone(), d.y(&d.q.sub(&Bn::one()))][yi].clone();
        let mut v = raw(qb / 8, d.pk(&y), Script::stream(1));
        let h = fill(qb / 8, 3);
        // u2 = r / s takes chosen values: small, one word, a word and one bit
        let u2 = if qb == 8 { b(1 + i) } else { Bn::one().shl(i as usize % qb.min(64)).add(&b(i & 3)).rem(&d.q) };
        let r = d.g.powm(&b(5), &d.p).rem(&d.q);
        if r.is_zero() || u2.is_zero() { return Ok(()); }
        let s = r.mulm(&match u2.invm(&d.q) { Some(x) => x, None => return Ok(()) }, &d.q);
        t.step();
        t.trace();
        let got = d.verify(&y, &h, &r, &s);
        let lib = v.verify(&SignatureContent::form_bigint(&big(&r), &big(&s)), &h).is_ok();
        if lib && !got || (got && !lib && yi > 2) { return Err(format!("signature ({}, {}) under y={} {}", r.to_hex(), s.to_hex(), y.to_hex(), if lib { "accepted" } else { "refused" })); }
        // y = 1: r = g^u1 mod p mod q is forgeable, other values must fail
        Ok(())
    });
    // exponents of chosen shape: u1 and u2 independent
    c.par("exponents", 3 * 40 * 40, |mut i, t| {
        let (qb, lb) = [(40usize, 50usize), (72, 80), (160, 164)][dig(&mut i, 3)];
        let d = dom(qb, 1, lb, 0);
        let e = |j: usize| -> Bn { match j { 0 => Bn::zero(), 1 => Bn::one(), 2 => d.q.sub(&Bn::one()), 3 => b(0xffffffff), 4 => Bn::one().shl(32), 5 => Bn::one().shl(33).sub(&Bn::one()), _ => Bn::one().shl((j - 6) * (qb - 1) / 34) }.rem(&d.q) };
        let (u1, u2) = (e(dig(&mut i, 40)), e(i as usize));
        // choose x = 3, compute v = g^(u1 + 3 u2), r = v mod q, s = r / u2, digest = u1 s
        let x = b(3);
        let r = d.g.powm(&u1.add(&x.mul(&u2)).rem(&d.q), &d.p).rem(&d.q);
        if u2.is_zero() || r.is_zero() { return Ok(()); }
        let s = r.mulm(&u2.invm(&d.q).unwrap(), &d.q);
        let h = u1.mulm(&s, &d.q).to_be_len(qb / 8);
        let y = d.y(&x);
        let mut v = raw(qb / 8, d.pk(&y), Script::stream(1));
        ver(t, &mut v, &d, &y, &h, &h, &r, &s, &|| format!("u1={} u2={}", u1.to_hex(), u2.to_hex()))?;
        ver(t, &mut v, &d, &y, &h, &h, &s, &r, &|| "swapped".into())
    });
    // numbers a signature object carries
    c.par("signature-content", 70 * 70, |mut i, t| {
        let val = |j: usize| if j == 0 { Bn::zero() } else { Bn::one().shl(4 * j).sub(&b(j as u64 % 2)) };
        let (r, s) = (val(dig(&mut i, 70)), val(i as usize));
        let sg = SignatureContent::form_bigint(&big(&r), &big(&s));
        let (a, z) = sg.to_bigint();
        t.eq(&|| "r".into(), &bn(&a)?.to_be(), &r.to_be())?;
        t.eq(&|| "s".into(), &bn(&z)?.to_be(), &s.to_be())?;
        let mut sg = sg;
        sg.set(big(&s), big(&r));
        let (a, z) = sg.to_bigint();
        t.step();
        t.eq(&|| "r after set".into(), &bn(&a)?.to_be(), &s.to_be())?;
        t.eq(&|| "s after set".into(), &bn(&z)?.to_be(), &r.to_be())
    });
    c.par("cut-signatures", 3 * 60, |mut i, t| {
        let qb = [8usize, 40, 160][dig(&mut i, 3)];
        let n = i as usize;
        let d = dom(qb, 1, qb + 10, 0);
        let x = b(11);
        let h = fill(qb / 8, 3);
        let mut v = raw(qb / 8, d.sk(&x), Script::stream(1));
        let (r, s) = d.sign(&x, &b(0x77), &h).unwrap();
        let mut sg = SignatureContent::form_bigint(&big(&r), &big(&s));
        let c: &mut Vec<u8> = sg.as_mut();
        if n >= c.len() { return Ok(()); }
        c.truncate(n);
        t.step();
        t.trace();
        if v.verify(&sg, &h).is_ok() { return Err(format!("signature cut to {} bytes accepted", n)); }
        if v.verify(&SignatureContent::new(), &h).is_ok() { return Err("empty signature accepted".into()); }
        Ok(())
    });
    // x outside [1, q-1] and a public key alone
    c.par("refusals", 40, |i, t| {
        let qb = [8usize, 16, 40, 160][i as usize % 4];
        let d = dom(qb, 1, qb + 10, 0);
        let pk = PublicKey::new_uncheck(&d.dp(), &big(&d.y(&b(5)))).unwrap();
        for (x, ok) in [(Bn::zero(), false), (Bn::one(), true), (d.q.sub(&Bn::one()), true), (d.q.clone(), false), (d.q.add(&b(i)), false), (d.p.clone(), false)] {
            t.step();
            if PrivateKey::new_uncheck(&pk, &big(&x)).is_ok() != ok { return Err(format!("private key {} for q={} {}", x.to_hex(), d.q.to_hex(), if ok { "refused" } else { "accepted" })); }
        }
        let mut v = raw(1, KeyPair::from(pk), Script::stream(1));
        if v.sign(&mut SignatureContent::new(), b"x").is_ok() { return Err("signed with a public key only".into()); }
        t.trace();
        // a refused signature leaves the object usable
        let h = [3u8];
        let (r, s) = d.sign(&b(5), &b(3), &h).unwrap();
        ver(t, &mut v, &d, &d.y(&b(5)), &h, &h, &r, &s, &|| "after a refusal".into())
    });
    // standard sizes with the real hashes
    c.par("standard-sizes", 4 * 14, |mut i, t| {
        let d = fips(dig(&mut i, 4));
        let hs = [Hs::Md(0), Hs::Md(1), Hs::Md(2), Hs::Md(3), Hs::Md(4), Hs::Md(5), Hs::Md(6), Hs::Md(7), Hs::Md(8), Hs::Md(9), Hs::Sha3(0), Hs::Sha3(1), Hs::Sha3(2), Hs::Sha3(3)][i as usize];
        let x = d.q.sub(&b(1234567 + i));
        let y = d.y(&x);
        let mut v = DSA::new_uncheck(hs.make(), Script::stream(i), d.sk(&x)).unwrap();
        let m = fill(5 * i as usize, 3);
        let h = hs.h(&m);
        let (r, s) = sign(t, &mut v, &m)?;
        d.check(&x, &h, &r, &s)?;
        ver(t, &mut v, &d, &y, &m, &h, &r, &s, &|| format!("own signature with {}", hs.name()))?;
        let (r, s) = d.sign(&x, &d.q.shr(1), &h).unwrap();
        ver(t, &mut v, &d, &y, &m, &h, &r, &s, &|| format!("reference signature with {}", hs.name()))?;
        let m2 = fill(5 * i as usize + 1, 3);
        ver(t, &mut v, &d, &y, &m2, &hs.h(&m2), &r, &s, &|| "other message".into())
    });
    // every message length to a few blocks, and around every power of two
    c.par("message-lengths", 2 * (300 + 30), |mut i, t| {
        let hs = [Hs::Md(1), Hs::Toy(5)][dig(&mut i, 2)];
        let n = if i < 300 { i } else { (1 << (8 + (i - 300) / 3)) + (i - 300) % 3 - 1 } as usize;
        let d = dom(40, 1, 60, 0);
        let x = b(1234567);
        let y = d.y(&x);
        let mut v = DSA::new_uncheck(hs.make(), Script::stream(i), d.sk(&x)).unwrap();
        let m = fill(n, 3);
        let (r, s) = sign(t, &mut v, &m)?;
        d.check(&x, &hs.h(&m), &r, &s)?;
        ver(t, &mut v, &d, &y, &m, &hs.h(&m), &r, &s, &|| format!("own signature of {} bytes", n))?;
        let mut o = vec![[&m[..], &[0]].concat()];
        if n > 0 { o.push(m[..n - 1].to_vec()); let mut x = m.clone(); x[n - 1] ^= 1; o.push(x); let mut x = m.clone(); x[0] ^= 0x80; o.push(x); }
        for x in o { ver(t, &mut v, &d, &y, &x, &hs.h(&x), &r, &s, &|| format!("other message of {} bytes", x.len()))?; }
        Ok(())
    });
    // one object through many calls
    c.par("endurance", 4, |i, t| {
        let d = dom([24usize, 160, 40, 64][i as usize], 1, 200, 0);
        let x = b(1234567);
        let y = d.y(&x);
        let mut v = raw(4, d.sk(&x), Script::stream(i));
        let mut ks = BTreeSet::new();
        for n in 0..t.pick(1100usize, 9000) {
            let m = fill(n % 70, n % 11);
            let h = raw_hash(4, &m);
            let (r, s) = sign(t, &mut v, &m)?;
            let k = d.check(&x, &h, &r, &s)?;
            if i > 1 && !ks.insert(k.to_be()) { return Err(format!("signature number {} uses the secret {} again", n, k.to_hex())); }
            if n % 3 > 0 || i > 1 { ver(t, &mut v, &d, &y, &m, &h, &r, &s, &|| format!("signature number {}", n))?; }
            if n % 7 == 0 { ver(t, &mut v, &d, &y, &m, &h, &r, &s.add(&b(1)), &|| format!("damaged signature number {}", n))?; }
        }
        Ok(())
    });
    // sequences of operations on one object
    let depth = c.pick(4u32, 5);
    c.par("histories", seqs_upto(6, depth) * 2, |mut i, t| {
        let (qb, lb) = [(8usize, 12usize), (40, 44)][dig(&mut i, 2)];
        let d = dom(qb, 1, lb, 0);
        let ops = seq(i, 6, depth);
        let x = b(21);
        let y = d.y(&x);
        let out = qb / 8 + 1;
        let mut v = raw(out, d.sk(&x), Script::stream(i));
        let (ma, mb) = (fill(out, 3), fill(3, 5));
        let mut lm = ma.clone();
        let mut last = d.sign(&x, &b(9), &raw_hash(out, &lm)).unwrap();
        let mut ks = vec![];
        for op in ops {
            match op {
                0 | 1 => {
                    lm = if op == 0 { ma.clone() } else { mb.clone() };
                    last = sign(t, &mut v, &lm)?;
                    ks.push(d.check(&x, &raw_hash(out, &lm), &last.0, &last.1)?);
                }
                2 => ver(t, &mut v, &d, &y, &lm, &raw_hash(out, &lm), &last.0, &last.1, &|| "latest signature".into())?,
                3 => ver(t, &mut v, &d, &y, b"zz", &raw_hash(out, b"zz"), &last.0, &last.1, &|| "latest signature, other message".into())?,
                4 => ver(t, &mut v, &d, &y, &lm, &raw_hash(out, &lm), &Bn::zero(), &last.1, &|| "r = 0".into())?,
                _ => ver(t, &mut v, &d, &y, &lm, &raw_hash(out, &lm), &last.1, &last.0, &|| "swapped".into())?,
            }
        }
        if qb == 40 { for a in 0..ks.len() { for e in 0..a { if ks[a] == ks[e] { return Err("the same per-message secret was used twice".into()); } } } }
        Ok(())
    });
    // generated domains and keys; the quick seeds are ones whose search is short
    let gens: Vec<(usize, usize, u64, u8)> = {
        let mut v = vec![(3072, 256, 1282, 0u8), (2048, 224, 379, 0), (2048, 256, 1331, 0)];
        for s in [564, 740, 51, 278, 54, 487, 777, 741u64] { v.push((1024, 160, s, 0)); }
        for s in [564, 740] { v.push((1024, 160, s, 1)); v.push((1024, 160, s, 2)); v.push((1024, 160, s, 3)); }
        v.push((1024, 160, 51, 4));
        // domains without a key; objects that generate their own
        for (l, n, s) in [(3072, 256, 1282), (2048, 224, 379), (2048, 256, 1331), (1024, 160, 564)] { v.push((l, n, s, 10)); v.push((l, n, s, 11)); }
        if c.thorough {
            for s in 0..6 { v.push((2048, 224, s, 0)); v.push((2048, 256, s, 0)); }
            for s in [1710, 1645, 1924] { v.push((3072, 256, s, 0)); }
            for s in 0..60 { v.push((1024, 160, s, (s % 4) as u8)); }
        }
        v
    };
    c.case_limit(600);
    c.par("generated", gens.len() as u64, |i, t| {
        let (l, n, s, variant) = gens[i as usize];
        if variant == 10 {
            type D = DSA<RawDigest, Script>;
            let rd = &mut Script::stream(s + 100);
            let dp = match (l, n) { (1024, _) => D::l1024_n160(rd), (2048, 224) => D::l2048_n224(rd), (2048, _) => D::l2048_n256(rd), _ => D::l3072_n256(rd) }.map_err(|e| format!("domain generation ({}, {}) failed: {}", l, n, e))?;
            t.step();
            t.trace();
            return check_dp(&format!("{}", dp), l, n).map(|_| ());
        }
        if variant == 11 {
            let (h, rd) = (RawDigest::new(20, 8), Script::stream(s + 100));
            let mut v = match (l, n) { (1024, _) => DSA::new_with_l1024_n160(h, rd), (2048, 224) => DSA::new_with_l2048_n224(h, rd), (2048, _) => DSA::new_with_l2048_n256(h, rd), _ => DSA::new_with_l3072_n256(h, rd) }.map_err(|e| format!("construction ({}, {}) failed: {}", l, n, e))?;
            t.step();
            t.trace();
            let (d, x) = check_sk(v.key_pair().private_key().ok_or("no private key")?, l, n)?;
            let h = fill(20, 3);
            let (r, s) = sign(t, &mut v, &h)?;
            d.check(&x, &h, &r, &s)?;
            return ver(t, &mut v, &d, &d.y(&x), &h, &h, &r, &s, &|| "object with its own key".into());
        }
        let mut rd = if variant < 4 { Script::stream(s + 100) } else { Script::words(&(0..5).map(|j| Bn::from_hex(QDIR).shr(32 * j).low_u64() as u32).collect::<Vec<_>>(), Tail::Stream(s)) };
        let mut sk = gen(l, n, &mut rd)?;
        t.step();
        if variant > 0 {
            // the same words, but the last draws (the private key) replaced by zeros, ones or q
            let (d, _) = check_sk(&sk, l, n)?;
            let mut w = rd.logged();
            let k = w.len() - n / 32;
            match variant {
                1 => for x in &mut w[k..] { *x = 0 },
                2 => for x in &mut w[k..] { *x = 0xffffffff },
                3 => for (j, x) in w[k..].iter_mut().enumerate() { *x = d.q.shr(32 * j).low_u64() as u32 },
                _ => {
                    // a candidate that would give a prime of one bit less; found in the drawn words by the prime it leads to
                    let one = Bn::one();
                    let o = one.shl(l - 1).add(&one);
                    assert!(d.q.to_hex() != QDIR || o.sub(&o.rem(&d.q)).add(&one).is_prime());
                    let at = (0..w.len() - l / 32).find(|&a| {
                        let mut o = vec![];
                        for x in &w[a..a + l / 32] { o.extend(x.to_be_bytes()); }
                        o[0] |= 0x80;
                        o[l / 8 - 1] |= 1;
                        let o = Bn::from_be(&o);
                        o.sub(&o.rem(&d.q)).add(&one) == d.p
                    });
                    if let Some(a) = at {
                        let ins: Vec<u32> = o.to_be().chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect();
                        let mut x = w[..a].to_vec();
                        x.extend(ins);
                        x.extend(&w[a..]);
                        w = x;
                    }
                }
            }
            let mut rd = Script::words(&w, Tail::Stream(7));
            sk = gen(l, n, &mut rd)?;
            t.step();
        }
        t.trace();
        let (d, x) = check_sk(&sk, l, n)?;
        t.sample(|| format!("({}, {}) from stream {} variant {}: {} words drawn", l, n, s, variant, rd.draws()));
        let mut v = raw(20, KeyPair::from(sk), Script::stream(1));
        let h = fill(20, 3);
        let (r, s) = sign(t, &mut v, &h)?;
        d.check(&x, &h, &r, &s)?;
        ver(t, &mut v, &d, &d.y(&x), &h, &h, &r, &s, &|| "generated key".into())
    });
}
