//! C20: RSASSA-PKCS1-v1_5.
use rcrypto::rsa::{KeyPair, PublicKey, SignatureContent, PKCS1};
use rcrypto::sha::{SHA1, SHA224, SHA256, SHA384, SHA512, SHA512T, SHA512T224, SHA512T256};
use rcrypto::{sha3, Digest, Signature, MD5, SHA, SHA3, SM3};
use std::any::Any;
use vh::engine::{self, guarded, hx, Ctx, R, T};
use vh::enumr::{dig, fill, seq, seqs_upto};
use vh::refs::bn::Bn;
use vh::refs::hash;
use vh::refs::rsa::{digest_info, emsa_pkcs1};
use vh::rsak::{cached, Nums, LARGE, LENS};
use vh::scripted::Script;
use vh::toy::ToyDigest;

fn main() { engine::main("C20", run) }

const NAMES: [&str; 6] = ["MD5", "SHA1", "SHA224", "SHA256", "SHA384", "SHA512"];
fn h(i: usize, m: &[u8]) -> Vec<u8> {
    match i { 0 => hash::md5(m), 1 => hash::sha1(m), 2 => hash::sha224(m), 3 => hash::sha256(m), 4 => hash::sha384(m), _ => hash::sha512(m) }
}
fn min_k(i: usize) -> usize { digest_info(NAMES[i]).len() + h(i, b"").len() + 11 }

trait Sv {
    fn sign(&mut self, m: &[u8]) -> Result<Vec<u8>, String>;
    fn verify(&mut self, s: &[u8], m: &[u8]) -> bool;
}
impl<H: Digest + Any> Sv for PKCS1<H, Script> {
    fn sign(&mut self, m: &[u8]) -> Result<Vec<u8>, String> {
        let mut s = SignatureContent::from(vec![1u8, 2, 3]);
        Signature::sign(self, &mut s, m).map_err(|e| format!("{}", e))?;
        Ok(s.as_slice().to_vec())
    }
    fn verify(&mut self, s: &[u8], m: &[u8]) -> bool { Signature::verify(self, &SignatureContent::from(s), m).is_ok() }
}
fn mk1<H: Digest + Any>(d: H, kp: KeyPair, blind: bool, chk: bool, rd: Script) -> Result<Box<dyn Sv>, String> {
    let p = if chk { PKCS1::new(d, rd, kp, blind) } else { PKCS1::new_uncheck(d, rd, kp, blind) };
    Ok(Box::new(p.map_err(|e| format!("construction refused: {}", e))?))
}
fn obj(i: usize, kp: KeyPair, blind: bool, chk: bool, rd: Script) -> Result<Box<dyn Sv>, String> {
    match i {
        0 => mk1(MD5::new(), kp, blind, chk, rd),
        1 => mk1(SHA1::new(), kp, blind, chk, rd),
        2 => mk1(SHA224::new(), kp, blind, chk, rd),
        3 => mk1(SHA256::new(), kp, blind, chk, rd),
        4 => mk1(SHA384::new(), kp, blind, chk, rd),
        _ => mk1(SHA512::new(), kp, blind, chk, rd),
    }
}
fn mk(i: usize, bits: usize, np: usize, blind: bool) -> Result<(Box<dyn Sv>, Nums), String> {
    let (sk, k) = cached(bits, np, 0)?;
    Ok((obj(i, KeyPair::from(sk), blind, bits % 2 == 0, Script::stream(bits as u64))?, k))
}
fn em(i: usize, k: &Nums, m: &[u8]) -> Option<Vec<u8>> { emsa_pkcs1(NAMES[i], &h(i, m), k.k()) }

fn ver(t: &T, o: &mut dyn Sv, i: usize, k: &Nums, s: &[u8], m: &[u8], what: &dyn Fn() -> String) -> R {
    t.step();
    t.trace();
    let got = o.verify(s, m);
    let sb = Bn::from_be(s);
    let want = s.len() == k.k() && sb.lt(&k.n) && em(i, k, m).map_or(false, |e| sb.powm(&k.e, &k.n) == Bn::from_be(&e));
    t.state(s);
    if got != want { return Err(format!("{}: signature {} {} ({}, modulus {})", what(), hx(s), if got { "accepted" } else { "refused" }, NAMES[i], k.n.to_hex())); }
    Ok(())
}
/// signature whose recovered block is the given one
fn forge(k: &Nums, block: &[u8]) -> Option<Vec<u8>> {
    let m = Bn::from_be(block);
    if m.ge(&k.n) { return None; }
    Some(k.raw(&m).to_be_len(k.k()))
}

fn run(c: &Ctx) {
    // every hash, key sizes from the smallest possible, message lengths
    let mut cfg = vec![];
    for i in 0..6 {
        for extra in c.pick(vec![0usize, 1, 9], vec![0, 1, 2, 3, 9, 20, 66]) { for r in c.pick(vec![0usize, 1, 7], vec![0, 1, 2, 3, 4, 5, 6, 7]) { cfg.push((i, 8 * (min_k(i) + extra) - r, 2)); } }
        cfg.push((i, 8 * (min_k(i) + 4) + 3, 3));
        cfg.push((i, 1024, 2));
    }
    let nc = cfg.len() as u64;
    c.par("sign", nc * 2, |mut i, t| {
        let blind = dig(&mut i, 2) == 1;
        let (hi, bits, np) = cfg[i as usize];
        let (mut o, k) = mk(hi, bits, np, blind)?;
        t.sample(|| format!("{} with {} bits, {} primes, blinding {}", NAMES[hi], bits, np, blind));
        for n in [0usize, 1, 3, 55, 56, 63, 64, 65, 111, 112, 127, 128, 300] {
            let m = fill(n, 3);
            t.step();
            let s = o.sign(&m).map_err(|e| format!("signing {} bytes with {} over {} bits failed: {}", n, NAMES[hi], bits, e))?;
            let want = forge(&k, &em(hi, &k, &m).unwrap()).unwrap();
            t.eq(&|| format!("{} signature of {} bytes over {} bits (blinding {})", NAMES[hi], n, bits, blind), &s, &want)?;
            ver(t, &mut *o, hi, &k, &s, &m, &|| "own signature".into())?;
        }
        Ok(())
    });
    // moduli around and above 256 bytes, with changes at chosen places of the block
    c.par("large-moduli", LARGE.len() as u64 * 6, |mut i, t| {
        let (bits, np) = LARGE[dig(&mut i, LARGE.len() as u64)];
        let hi = i as usize;
        let (mut o, k) = mk(hi, bits, np, i % 2 == 0)?;
        let kk = k.k();
        let m = fill(9, 3);
        t.step();
        let s = o.sign(&m).map_err(|e| format!("signing with {} over {} bits failed: {}", NAMES[hi], bits, e))?;
        let block = em(hi, &k, &m).unwrap();
        t.eq(&|| format!("{} signature over {} bits", NAMES[hi], bits), &s, &forge(&k, &block).unwrap())?;
        ver(t, &mut *o, hi, &k, &s, &m, &|| "own signature".into())?;
        ver(t, &mut *o, hi, &k, &s, &fill(9, 4), &|| "another message".into())?;
        for n in LENS.iter().copied().filter(|&n| n < kk).chain([kk - 2, kk - 1, kk - 20, kk - 66]).step_by(if bits > 2100 && !t.thorough() { 4 } else { 1 }) {
            for x in [1u8, 0xff] {
                let mut b = block.clone();
                b[n] ^= x;
                if let Some(f) = forge(&k, &b) { ver(t, &mut *o, hi, &k, &f, &m, &|| format!("block with byte {} of {} changed", n, kk))?; }
            }
        }
        for n in [kk - 1, kk + 1, kk + 256] {
            let mut v = s.clone();
            v.resize(n, 0);
            ver(t, &mut *o, hi, &k, &v, &m, &|| format!("signature of {} bytes", n))?;
            let mut v = vec![0; n.saturating_sub(kk)];
            v.extend(&s);
            ver(t, &mut *o, hi, &k, &v, &m, &|| format!("signature of {} bytes", v.len()))?;
        }
        Ok(())
    });
    // every message length to a few blocks, and around every power of two
    c.par("message-lengths", 6 * (300 + 30), |mut i, t| {
        let hi = dig(&mut i, 6);
        let n = if i < 300 { i } else { (1 << (8 + (i - 300) / 3)) + (i - 300) % 3 - 1 } as usize;
        let (mut o, k) = mk(hi, 8 * (min_k(hi) + 1), 2, false)?;
        let m = fill(n, 3);
        t.step();
        let s = o.sign(&m)?;
        t.eq(&|| format!("{} signature of {} bytes", NAMES[hi], n), &s, &forge(&k, &em(hi, &k, &m).unwrap()).unwrap())?;
        ver(t, &mut *o, hi, &k, &s, &m, &|| format!("own signature of {} bytes", n))?;
        let mut v = vec![[&m[..], &[0]].concat()];
        if n > 0 { v.push(m[..n - 1].to_vec()); let mut x = m.clone(); x[n - 1] ^= 1; v.push(x); let mut x = m.clone(); x[0] ^= 0x80; v.push(x); }
        for x in v { ver(t, &mut *o, hi, &k, &s, &x, &|| format!("other message of {} bytes", x.len()))?; }
        Ok(())
    });
    // one object through many calls
    c.par("endurance", 6, |i, t| {
        let hi = i as usize;
        let (mut o, k) = mk(hi, 8 * (min_k(hi) + 1), 2, i % 2 == 0)?;
        for n in 0..t.pick(700usize, 5000) {
            let m = fill(n % 70, n % 11);
            t.step();
            let s = o.sign(&m)?;
            t.eq(&|| format!("{} signature number {}", NAMES[hi], n), &s, &forge(&k, &em(hi, &k, &m).unwrap()).unwrap())?;
            if n % 3 > 0 || i > 2 { ver(t, &mut *o, hi, &k, &s, &m, &|| format!("signature number {}", n))?; }
            if n % 7 == 0 { let mut bad = s; bad[3] ^= 1; ver(t, &mut *o, hi, &k, &bad, &m, &|| format!("damaged signature number {}", n))?; }
        }
        Ok(())
    });
    // keys too small for the encoding are refused, without a panic
    c.par("too-small", 6 * 40, |mut i, t| {
        let hi = dig(&mut i, 6);
        let k0 = 12 + i as usize * 2;
        let (mut o, k) = mk(hi, 8 * k0, 2, false)?;
        t.trace();
        t.steps(2);
        let r = o.sign(b"m");
        if r.is_ok() != (k0 >= min_k(hi)) { return Err(format!("signing with {} over {} bytes: {:?}", NAMES[hi], k0, r)); }
        for s in [vec![], vec![0; k0], vec![1; k0], k.n.sub(&Bn::one()).to_be(), Bn::one().to_be_len(k0)] { ver(t, &mut *o, hi, &k, &s, b"m", &|| format!("key of {} bytes", k0))?; }
        Ok(())
    });
    // every byte of the block changed
    let extra = 6usize;
    let muts: Vec<u8> = if c.thorough { (1..=255).collect() } else { vec![1, 2, 4, 8, 16, 32, 64, 128, 255, 3] };
    let nm = muts.len() as u64;
    for hi in 0..6 {
        let kk = min_k(hi) + extra;
        c.par(&format!("block-bytes-{}", NAMES[hi]), kk as u64 * nm, |mut i, t| {
            let x = muts[dig(&mut i, nm)];
            let pos = i as usize;
            let (mut o, k) = mk(hi, 8 * kk - (hi % 3), 2, false)?;
            let mut e = em(hi, &k, b"message").unwrap();
            e[pos] ^= x;
            let s = match forge(&k, &e) { Some(s) => s, None => return Ok(()) };
            ver(t, &mut *o, hi, &k, &s, b"message", &|| format!("block byte {} changed by {:02x}", pos, x))
        });
    }
    // field-level forgeries
    c.par("fields", 6 * 2 * 60, |mut i, t| {
        let hi = dig(&mut i, 6);
        let sz = dig(&mut i, 2);
        let v = i as usize;
        let bits = 8 * (min_k(hi) + [14usize, 40][sz]) - sz;
        let (mut o, k) = mk(hi, bits, 2, v % 2 == 0)?;
        let m = b"field";
        let (pre, hh, kk) = (digest_info(NAMES[hi]), h(hi, m), k.k());
        let mut tt = pre.to_vec();
        tt.extend(&hh);
        let build = |ty: u8, ps: Vec<u8>, sep: &[u8], t: &[u8], tail: &[u8]| { let mut e = vec![0, ty]; e.extend(ps); e.extend(sep); e.extend(t); e.extend(tail); e };
        let full = kk - 3 - tt.len();
        let e = match v {
            0..=12 => { // short padding, garbage after the digest
                let n = [0usize, 1, 2, 7, 8, 9, 10, full - 1, full - 2, full - 3, full - 4, full - 5, full - 8][v];
                build(1, vec![0xff; n], &[0], &tt, &vec![if v % 2 == 0 { 0 } else { 0x5c }; full - n])
            }
            13..=16 => build([0u8, 2, 3, 0xff][v - 13], vec![0xff; full], &[0], &tt, &[]),
            17..=20 => build(1, vec![[0u8, 1, 0xfe, 0x7f][v - 17]; full], &[0], &tt, &[]),
            21..=28 => { let mut ps = vec![0xff; full]; ps[(v - 21) * (full - 1) / 7] = [0u8, 0xfe][v % 2]; build(1, ps, &[0], &tt, &[]) }
            29..=34 => { // prefix of another hash before this digest
                let mut t2 = digest_info(NAMES[v - 29]).to_vec();
                t2.extend(&hh);
                if kk < t2.len() + 3 { return Ok(()); }
                build(1, vec![0xff; kk - 3 - t2.len()], &[0], &t2, &[])
            }
            35..=40 => { // another hash altogether
                let mut t2 = digest_info(NAMES[v - 35]).to_vec();
                t2.extend(h(v - 35, m));
                if kk < t2.len() + 3 { return Ok(()); }
                build(1, vec![0xff; kk - 3 - t2.len()], &[0], &t2, &[])
            }
            41 => build(1, vec![0xff; kk - 3 - hh.len()], &[0], &hh, &[]),
            42 => { // DigestInfo without the NULL parameter
                let mut p = pre.to_vec();
                p[1] -= 2;
                p[3] -= 2;
                let n = p.len();
                p.drain(n - 4..n - 2);
                p.extend(&hh);
                build(1, vec![0xff; kk - 3 - p.len()], &[0], &p, &[])
            }
            43 => build(1, vec![0xff; full + 1], &[], &tt, &[]),
            44 => build(1, vec![0xff; full - 1], &[0, 0], &tt, &[]),
            45 => build(1, vec![0xff; full + 1], &[0], &tt[..tt.len() - 1], &[]),
            46 => build(1, vec![0xff; full - 1], &[0], &tt, &[0]),
            47 => build(1, vec![0xff; full + pre.len()], &[0], &hh, &[]),
            48 => vec![0; kk],
            49 => { let mut e = vec![0; kk]; e[kk - 1] = 1; e }
            50 => build(1, vec![0xff; full], &[0], &{ let mut x = pre.to_vec(); x.extend(vec![0; hh.len()]); x }, &[]),
            51 => build(1, vec![0xff; full], &[0], &{ let mut x = pre.to_vec(); x.extend(h(hi, &hh)); x }, &[]),
            52 => build(1, vec![0xff; full], &[0], &{ let mut x = pre.to_vec(); x.extend(hh.iter().rev()); x }, &[]),
            53 => { let mut e = build(1, vec![0xff; full], &[0], &tt, &[]); e.rotate_left(1); e }
            54 => { let mut e = build(1, vec![0xff; full], &[0], &tt, &[]); e.rotate_right(1); e }
            55 => build(1, vec![0xff; full], &[0], &tt, &[]),
            _ => build(1, vec![0xff; full], &[0], &{ let mut x = pre.to_vec(); x.extend(h(hi, &fill(v, 3))); x }, &[]),
        };
        assert_eq!(e.len(), kk);
        let s = match forge(&k, &e) { Some(s) => s, None => return Ok(()) };
        ver(t, &mut *o, hi, &k, &s, m, &|| format!("block variant {}", v))
    });
    // other octet strings with the same or a related value
    c.par("representations", 6 * 16 * 12, |mut i, t| {
        let hi = dig(&mut i, 6);
        let shape = dig(&mut i, 16);
        let v = i as usize;
        let (mut o, k) = mk(hi, 8 * (min_k(hi) + 3) - [0, 1, 7][v % 3], 2, false)?;
        let mut m = fill(9, 20 + v);
        let mut s = vec![];
        if shape <= 2 {
            // a message whose signature starts with a zero byte
            let mut found = false;
            for j in 0..if t.thorough() { 2000 } else { 300 } {
                m = fill(10, 100 + j * 12 + v);
                s = forge(&k, &em(hi, &k, &m).unwrap()).unwrap();
                if s[0] == 0 { found = true; break; }
            }
            if !found { return Ok(()); }
        } else { s = forge(&k, &em(hi, &k, &m).unwrap()).unwrap(); }
        let sb = Bn::from_be(&s);
        let x = match shape {
            0 => s[1..].to_vec(),
            1 => sb.to_be(),
            2 => s.clone(),
            3 => { let mut x = vec![0]; x.extend(&s); x }
            4 => { let mut x = vec![0; 5]; x.extend(&s); x }
            5 => { let mut x = s.clone(); x.push(0); x }
            6 => sb.add(&k.n).to_be(),
            7 => { let x = sb.add(&k.n); if (x.bits() + 7) / 8 > k.k() { return Ok(()); } x.to_be_len(k.k()) }
            8 => k.n.sub(&sb).to_be_len(k.k()),
            9 => vec![],
            10 => vec![0; k.k()],
            11 => k.n.to_be(),
            12 => s.iter().rev().copied().collect(),
            13 => sb.add(&k.n).add(&k.n).to_be(),
            14 => vec![0xff; k.k()],
            _ => s[..s.len() - 1].to_vec(),
        };
        ver(t, &mut *o, hi, &k, &x, &m, &|| format!("representation {}", shape))
    });
    // every bit of signature and message flipped
    c.par("bits", 6 * 900, |mut i, t| {
        let hi = dig(&mut i, 6);
        let bit = i as usize;
        let (mut o, k) = mk(hi, 8 * (min_k(hi) + 2), 2, false)?;
        let m = b"some message".to_vec();
        let s = forge(&k, &em(hi, &k, &m).unwrap()).unwrap();
        if bit < 8 * s.len() {
            let mut x = s.clone();
            x[bit / 8] ^= 0x80 >> (bit % 8);
            ver(t, &mut *o, hi, &k, &x, &m, &|| format!("signature bit {} flipped", bit))?;
        }
        if bit < 8 * m.len() {
            let mut x = m.clone();
            x[bit / 8] ^= 0x80 >> (bit % 8);
            ver(t, &mut *o, hi, &k, &s, &x, &|| format!("message bit {} flipped", bit))?;
        }
        if bit < 13 { ver(t, &mut *o, hi, &k, &s, &m[..m.len().min(bit)], &|| format!("message cut to {}", bit))?; }
        if bit < 4 { let mut x = m.clone(); x.extend(vec![0; bit]); ver(t, &mut *o, hi, &k, &s, &x, &|| format!("message with {} more bytes", bit))?; }
        Ok(())
    });
    // sequences on one object: a refused operation must not change later answers
    let depth = c.pick(4u32, 5);
    c.par("histories", 6 * seqs_upto(6, depth), |mut i, t| {
        let hi = dig(&mut i, 6);
        let ops = seq(i, 6, depth);
        let (mut o, k) = mk(hi, 8 * min_k(hi) + 1, 2, i % 2 == 1)?;
        let good = |m: &[u8]| forge(&k, &em(hi, &k, m).unwrap()).unwrap();
        if ops.is_empty() { return Ok(()); }
        let (sa, sb) = SIGS.with(|c| c.borrow_mut().entry(hi).or_insert_with(|| (good(b"A"), good(b"BB"))).clone());
        for op in ops {
            match op {
                0 | 1 => {
                    t.step();
                    let m: &[u8] = if op == 0 { b"A" } else { b"BB" };
                    let s = o.sign(m)?;
                    t.eq(&|| format!("signature in a sequence of operations ({})", NAMES[hi]), &s, if op == 0 { &sa } else { &sb })?;
                }
                2 => verq(t, &mut *o, &sa, b"A", true)?,
                3 => verq(t, &mut *o, &sb, b"BB", true)?,
                4 => verq(t, &mut *o, &sa, b"BB", false)?,
                _ => verq(t, &mut *o, &sa[1..], b"A", false)?,
            }
        }
        Ok(())
    });
    // public key only; same hash object type but unsupported hashes
    c.par("public-only", 6 * 4, |mut i, t| {
        let hi = dig(&mut i, 6);
        let (_, k) = cached(8 * (min_k(hi) + 2) - i as usize, 2, 0)?;
        let pk = PublicKey::from_be_bytes(&k.n.to_be(), &k.e.to_be()).map_err(|e| format!("{}", e))?;
        let mut o = obj(hi, KeyPair::from(pk), i % 2 == 0, true, Script::stream(1))?;
        t.step();
        if o.sign(b"m").is_ok() { return Err("signed with a public key only".into()); }
        let s = forge(&k, &em(hi, &k, b"m").unwrap()).unwrap();
        ver(t, &mut *o, hi, &k, &s, b"m", &|| "public key".into())?;
        ver(t, &mut *o, hi, &k, &s, b"n", &|| "public key".into())
    });
    c.par("unsupported-hashes", 12 * 2, |mut i, t| {
        let pubonly = dig(&mut i, 2) == 1;
        let (sk, k) = cached(1024, 2, 0)?;
        let kp = || -> KeyPair { if pubonly { KeyPair::from(PublicKey::from_be_bytes(&k.n.to_be(), &k.e.to_be()).unwrap()) } else { KeyPair::from(sk.clone()) } };
        let rd = Script::stream(1);
        t.trace();
        let r = guarded(|| -> bool {
            let o = match i {
                0 => mk1(SHA512T224::new(), kp(), false, true, rd),
                1 => mk1(SHA512T256::new(), kp(), false, true, rd),
                2 => mk1(SHA512T::new(200).unwrap(), kp(), false, true, rd),
                3 => mk1(SM3::new(), kp(), false, true, rd),
                4 => mk1(sha3::SHA224::new(), kp(), false, true, rd),
                5 => mk1(sha3::SHA256::new(), kp(), false, true, rd),
                6 => mk1(sha3::SHA512::new(), kp(), false, true, rd),
                7 => mk1(sha3::Shake128::new(256), kp(), false, true, rd),
                8 => mk1(SHA::sha256(), kp(), false, false, rd),
                9 => mk1(SHA3::sha256(), kp(), false, false, rd),
                10 => mk1(ToyDigest::new(20, 64), kp(), false, false, rd),
                _ => mk1(ToyDigest::new(16, 64), kp(), false, false, rd),
            };
            match o {
                Err(_) => false,
                Ok(mut o) => o.sign(b"m").is_ok() || o.verify(&vec![0; 128], b"m"),
            }
        });
        t.step();
        match r {
            Ok(false) => Ok(()),
            Ok(true) => Err(format!("unsupported hash {} signed or verified", i)),
            Err(e) => Err(format!("unsupported hash {} panics instead of giving an error: {}", i, e)),
        }
    });
}
thread_local! { static SIGS: std::cell::RefCell<std::collections::HashMap<usize, (Vec<u8>, Vec<u8>)>> = Default::default(); }
fn verq(t: &T, o: &mut dyn Sv, s: &[u8], m: &[u8], want: bool) -> R {
    t.step();
    t.trace();
    if o.verify(s, m) == want { Ok(()) } else { Err(format!("in a sequence of operations: verification of {} for {:?} is {}", hx(s), m, !want)) }
}
