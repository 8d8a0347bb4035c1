//! C32: errors name their cause; failed decryptions cannot be told apart.
use rcrypto::cipher_mode::*;
use rcrypto::dsa::{SignatureContent as Pair, DSA};
use rcrypto::ecdsa::ECDSA;
use rcrypto::elliptic::{CurveP256, EllipticCurve, KeyPair as EcPair, PrivateKey as EcKey, PublicKey as EcPub};
use rcrypto::rsa::{KeyPair, PrivateKey, SignatureContent, OAEP, PKCS1, PSS};
use rcrypto::sha::{SHA1, SHA256};
use rcrypto::{Cipher, CryptoError, CryptoErrorKind as K, Digest, Keccak, Signature, AES, DES, HMAC, MD5, SM4, TDES, ZUC};
use std::error::Error;
use std::fmt::Debug;
use vh::dsak::dom;
use vh::eck::{standard, xy};
use vh::engine::{self, hx, Ctx, R, T};
use vh::enumr::{dig, fill, seq, seqs_upto};
use vh::refs::bn::Bn;
use vh::refs::rsa::{mgf1, oaep_decode, oaep_encode};
use vh::rsak::{big, cached, Hs, Nums};
use vh::scripted::{Faulty, Script};
use vh::toy::{RawDigest, ToyCipher};
use vh::zoo::{self, BoxD};

fn main() { engine::main("C32", run) }

const KINDS: [K; 9] = [K::InvalidParameter, K::NotSupportUsage, K::RandError, K::UnpaddingNotMatch, K::InvalidPublicKey, K::InvalidPrivateKey, K::VerificationFailed, K::OuterErr, K::InnerErr];

/// refused, for this reason
fn is<X>(what: &dyn Fn() -> String, r: Result<X, CryptoError>, k: K, t: &T) -> R {
    t.step();
    match r {
        Ok(_) => Err(format!("{}: accepted", what())),
        Err(e) if e.kind() == k => Ok(()),
        Err(e) => Err(format!("{}: reported as {:?} instead of {:?} ({})", what(), e.kind(), k, e)),
    }
}
/// done or refused because of the random source
fn rand_or_done<X>(what: &dyn Fn() -> String, r: Result<X, CryptoError>, f: &Faulty, t: &T) -> R {
    t.step();
    t.trace();
    match r {
        Ok(_) => Ok(()),
        Err(e) if e.kind() == K::RandError && f.log().contains(&None) => Ok(()),
        Err(e) => Err(format!("{}: {} failing draws reported as {:?} ({})", what(), f.log().iter().filter(|x| x.is_none()).count(), e.kind(), e)),
    }
}

/// block cipher failing at a call with an error of a given kind
#[derive(Clone)]
struct Failing { c: ToyCipher, at: usize, k: usize, n: std::cell::Cell<usize> }
fn made(k: usize) -> CryptoError { CryptoError::new(KINDS[k], format!("cause number {}", k)) }
impl Failing {
    fn new(bs: usize, at: usize, k: usize) -> Failing { Failing { c: ToyCipher::new(bs, 3), at, k, n: std::cell::Cell::new(0) } }
    fn hit(&self) -> Result<(), CryptoError> { let n = self.n.get(); self.n.set(n + 1); if n == self.at { Err(made(self.k)) } else { Ok(()) } }
}
impl Cipher for Failing {
    type Output = usize;
    fn block_size(&self) -> Option<usize> { Some(self.c.bs) }
    fn encrypt(&self, dst: &mut Vec<u8>, p: &[u8]) -> Result<usize, CryptoError> { self.hit()?; self.c.encrypt(dst, p) }
    fn decrypt(&self, dst: &mut Vec<u8>, p: &[u8]) -> Result<usize, CryptoError> { self.hit()?; self.c.decrypt(dst, p) }
}
#[derive(Clone)]
struct Iv { v: Vec<u8>, at: usize, k: usize, n: usize }
impl<C: Cipher> InitialVec<C> for Iv {
    fn initial_vec(&mut self, iv: &mut Vec<u8>) -> Result<(), CryptoError> {
        self.n += 1;
        if self.n - 1 == self.at { return Err(made(self.k)); }
        iv.clear();
        iv.extend(&self.v);
        Ok(())
    }
}
fn iv(bs: usize) -> Iv { Iv { v: fill(bs, 7), at: usize::MAX, k: 0, n: 0 } }
#[derive(Debug)]
struct Own;
impl std::fmt::Display for Own { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "own error") } }
impl Error for Own { fn source(&self) -> Option<&(dyn Error + 'static)> { Some(&Inner) } }
#[derive(Debug)]
struct Inner;
impl std::fmt::Display for Inner { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "inner error") } }
impl Error for Inner {}

/// refused with exactly the error (kind and texts) that the well-known case gets
fn alike<X: Debug, Y: Debug>(case: &dyn Fn() -> String, r: Result<X, CryptoError>, base: Result<Y, CryptoError>, t: &T) -> R {
    t.steps(2);
    let show = |e: CryptoError| format!("{:?} {} {:?}", e.kind(), e, e);
    let base = match base { Ok(x) => return Err(format!("a malformed block is accepted: {:?}", x)), Err(e) => show(e) };
    let e = match r { Ok(x) => return Err(format!("{}: accepted, {:?}", case(), x)), Err(e) => show(e) };
    t.state(e.as_bytes());
    if e != base { return Err(format!("{} is reported as {:?}, another malformed block as {:?}: the errors tell the two apart", case(), e, base)); }
    Ok(())
}
fn rsa_enc(k: &Nums, em: &[u8]) -> Vec<u8> { Bn::from_be(em).powm(&k.e, &k.n).to_be_len(k.k()) }

fn run(c: &Ctx) {
    // ---- an error object keeps what it was made of
    c.each("error-objects", KINDS.len() * 4, |i, t| {
        let (k, m) = (KINDS[i % KINDS.len()], ["", "a", "two words", "κλειδί"][i / KINDS.len()]);
        t.steps(2);
        let e = CryptoError::new(k, m);
        if e.kind() != k { return Err(format!("{:?} became {:?}", k, e.kind())); }
        for s in [format!("{}", e), format!("{:?}", e)] { if !s.contains(m) || !s.contains(&format!("{:?}", k)) { return Err(format!("{:?} {:?} is shown as {}", k, m, s)); } }
        if e.source().is_some() { return Err("an error made from a text has a source".into()); }
        let e = CryptoError::new(k, Own);
        if e.kind() != k || !format!("{}", e).contains("own error") { return Err(format!("{:?} around another error is {:?}: {}", k, e.kind(), e)); }
        for (j, o) in KINDS.iter().enumerate() { if (format!("{:?}", k) == format!("{:?}", o)) != (j == i % KINDS.len()) || (k == *o) != (j == i % KINDS.len()) { return Err(format!("{:?} and {:?} are not distinct", k, o)); } }
        Ok(())
    });
    // ---- refused signatures
    let hashes: [(&str, usize); 4] = [("MD5", 0), ("SHA1", 1), ("SHA256", 3), ("SHA512", 5)];
    c.par("pkcs1-verify", 4 * c.pick(80, 160), |mut i, t| {
        let h = dig(&mut i, 4);
        let bits = [376, 400, 520, 760][h];
        let (sk, k) = cached(bits, 2, 0)?;
        macro_rules! go { ($h:expr) => {{
            let mut p = PKCS1::new_uncheck($h, Script::stream(1), KeyPair::from(sk), false).map_err(|e| format!("{}", e))?;
            let mut s = SignatureContent::new();
            p.sign(&mut s, b"message").map_err(|e| format!("{}", e))?;
            let good = s.as_slice().to_vec();
            let em = Bn::from_be(&good).powm(&k.e, &k.n).to_be_len(k.k());
            let what = || format!("PKCS1 {} case {}", hashes[h].0, i);
            t.trace();
            // a changed byte of the encoded block, of the signature, another length, a value not below the modulus, another message
            let j = i as usize;
            let mut e2 = em.clone();
            let l = e2.len();
            e2[j % l] ^= 1 << (j % 8);
            if Bn::from_be(&e2).lt(&k.n) { is(&what, p.verify(&SignatureContent::from(k.raw(&Bn::from_be(&e2)).to_be_len(k.k())), b"message"), K::VerificationFailed, t)?; }
            let mut g = good.clone();
            g[j % l] ^= 1 << (j / 8 % 8);
            is(&what, p.verify(&SignatureContent::from(g), b"message"), K::VerificationFailed, t)?;
            if j != good.len() { let mut g = good.clone(); g.resize(j, 0); is(&what, p.verify(&SignatureContent::from(g), b"message"), K::VerificationFailed, t)?; }
            let over = Bn::from_be(&good).add(&k.n);
            if over.bits() <= 8 * k.k() { is(&what, p.verify(&SignatureContent::from(over.to_be_len(k.k())), b"message"), K::VerificationFailed, t)?; }
            is(&what, p.verify(&SignatureContent::from(good), &fill(j, 3)), K::VerificationFailed, t)
        }}; }
        match h { 0 => go!(MD5::new()), 1 => go!(SHA1::new()), 2 => go!(SHA256::new()), _ => go!(rcrypto::sha::SHA512::new()) }
    });
    c.par("pss-verify", 6 * c.pick(60, 120), |mut i, t| {
        let v = dig(&mut i, 6);
        let (bits, hs, sl) = [(128, Hs::Toy(4), None), (129, Hs::Toy(3), Some(0)), (137, Hs::Toy(5), Some(4)), (512, Hs::Md(1), None), (513, Hs::Md(3), Some(0)), (160, Hs::Toy(4), Some(2))][v];
        let (sk, k) = cached(bits, 2, 0)?;
        let mut p: PSS<BoxD, Script> = PSS::new_uncheck(hs.make(), Script::stream(1), KeyPair::from(sk), sl, false).map_err(|e| format!("{}", e))?;
        let mut s = SignatureContent::new();
        p.sign(&mut s, b"message").map_err(|e| format!("{}", e))?;
        let good = s.as_slice().to_vec();
        let el = (bits + 6) / 8;
        let em = Bn::from_be(&good).powm(&k.e, &k.n).to_be_len(el);
        let what = || format!("PSS with {} bits case {}", bits, i);
        t.trace();
        let j = i as usize;
        for b in 0..8 {
            let mut e2 = em.clone();
            e2[j % el] ^= 1 << b;
            if Bn::from_be(&e2).lt(&k.n) { is(&what, p.verify(&SignatureContent::from(k.raw(&Bn::from_be(&e2)).to_be_len(k.k())), b"message"), K::VerificationFailed, t)?; }
        }
        if j != good.len() { let mut g = good.clone(); g.resize(j, 0); is(&what, p.verify(&SignatureContent::from(g), b"message"), K::VerificationFailed, t)?; }
        let over = Bn::from_be(&good).add(&k.n);
        if over.bits() <= 8 * k.k() { is(&what, p.verify(&SignatureContent::from(over.to_be_len(k.k())), b"message"), K::VerificationFailed, t)?; }
        is(&what, p.verify(&SignatureContent::from(good), &fill(j, 3)), K::VerificationFailed, t)
    });
    let d = dom(8, 1, 20, 0);
    let d = &d;
    c.par("dsa-verify", 2 * 300, |mut i, t| {
        let pubonly = dig(&mut i, 2) == 1;
        let x = Bn::from_u64(77);
        let y = d.y(&x);
        let mut v = DSA::new_uncheck(RawDigest::new(1, 64), Script::stream(1), if pubonly { d.pk(&y) } else { d.sk(&x) }).map_err(|e| format!("{}", e))?;
        let r = Bn::from_u64(i);
        t.trace();
        for s in 0..300u64 {
            let s = Bn::from_u64(s);
            let ok = d.verify(&y, &[9], &r, &s);
            let res = v.verify(&Pair::form_bigint(&big(&r), &big(&s)), &[9]);
            let what = || format!("DSA pair ({}, {})", r.to_hex(), s.to_hex());
            if ok { t.step(); if let Err(e) = res { return Err(format!("{}: refused: {}", what(), e)); } } else { is(&what, res, K::VerificationFailed, t)?; }
        }
        Ok(())
    });
    let (_, _, cv) = standard().remove(1);
    let cv = &cv;
    c.par("ecdsa-verify", c.pick(120, 600), |i, t| {
        let dd = Bn::from_u64(12345);
        let (x, y) = xy(&cv.mul(&dd, &cv.g()));
        let mut e = ECDSA::new_unchcek(SHA256::new(), Script::stream(1), CurveP256::new().unwrap(), EcPair::from(EcKey::new_uncheck(EcPub::new_uncheck(&x, &y), &big(&dd)))).map_err(|e| format!("{}", e))?;
        let mut s = Pair::new();
        e.sign(&mut s, b"message").map_err(|e| format!("{}", e))?;
        let (r, q) = s.to_bigint();
        let (r, q) = (vh::rsak::bn(&r)?, vh::rsak::bn(&q)?);
        let one = Bn::one();
        let bad: Vec<(Bn, Bn, Vec<u8>)> = match i {
            0 => vec![(Bn::zero(), q.clone(), vec![]), (r.clone(), Bn::zero(), vec![]), (Bn::zero(), Bn::zero(), vec![]), (cv.n.clone(), q.clone(), vec![]), (r.clone(), cv.n.clone(), vec![])],
            1 => vec![(r.add(&cv.n), q.clone(), b"message".to_vec()), (r.clone(), q.add(&cv.n), b"message".to_vec()), (one.clone(), one.clone(), vec![]), (cv.n.sub(&one), cv.n.sub(&one), vec![])],
            _ => { let b = one.shl((i as usize * 13) % 255); vec![(r.add(&b), q.clone(), b"message".to_vec()), (r.clone(), q.add(&b), b"message".to_vec()), (r.clone(), q.clone(), fill(i as usize, 3))] }
        };
        t.trace();
        for (r, q, m) in bad { is(&|| format!("ECDSA pair ({}, {})", r.to_hex(), q.to_hex()), e.verify(&Pair::form_bigint(&big(&r), &big(&q)), &m), K::VerificationFailed, t)?; }
        Ok(())
    });
    // ---- failed decryptions: the same error whatever is wrong inside
    for blind in [false, true] {
        c.par(&format!("pkcs1-decrypt/{}", blind), 2 * 2048, |mut i, t| {
            let bits = [128, 256][dig(&mut i, 2)];
            let (sk, k) = cached(bits, 2, 0)?;
            let p: PKCS1<SHA1, Script> = PKCS1::new_uncheck(SHA1::new(), Script::stream(3), KeyPair::from(sk), blind).map_err(|e| format!("{}", e))?;
            let mut em = vec![0x77; k.k()];
            em[0] = 0; em[1] = 2; em[10] = 0;
            // first bytes, block type, place of the first zero byte
            let (a, b, z) = (dig(&mut i, 4), dig(&mut i, 8), i as usize);
            em[0] = [0, 1, 2, 0x7f][a];
            em[1] = [2, 0, 1, 3, 0x12, 0x82, 0xff, 6][b];
            for x in em[2..].iter_mut() { *x = 0x77; }
            if 2 + z < em.len() { em[2 + z] = 0; }
            if a == 0 && b == 0 && z >= 8 && 2 + z < em.len() { return Ok(()); }
            if Bn::from_be(&em).ge(&k.n) { return Ok(()); }
            t.trace();
            let mut o = vec![0x55];
            let r = p.decrypt(&mut o, &rsa_enc(&k, &em));
            let mut base = vec![0x77; k.k()];
            base[0] = 0;
            alike(&|| format!("the encoded message {}", hx(&em)), r.map(|_| o.clone()), p.decrypt(&mut vec![], &rsa_enc(&k, &base)), t)
        });
        c.par(&format!("oaep-decrypt/{}", blind), 5 * 6 * 300, |mut i, t| {
            let (bits, hs) = [(128, Hs::Toy(3)), (136, Hs::Toy(4)), (160, Hs::Toy(5)), (352, Hs::Md(0)), (512, Hs::Md(1))][dig(&mut i, 5)];
            let how = dig(&mut i, 6);
            let (sk, k) = cached(bits, 2, 0)?;
            let hl = hs.len();
            let p: OAEP<BoxD, Script> = OAEP::new_uncheck(hs.make(), Script::stream(3), KeyPair::from(sk), b"label".to_vec(), blind).map_err(|e| format!("{}", e))?;
            let h = |x: &[u8]| hs.h(x);
            // a well-formed block, then one thing wrong
            let j = i as usize;
            let build = |first: u8, db: &[u8]| -> Vec<u8> {
                let seed = fill(hl, 9);
                let mdb = vh::refs::modes::xor(db, &mgf1(&h, &seed, db.len()));
                let ms = vh::refs::modes::xor(&seed, &mgf1(&h, &mdb, hl));
                [vec![first], ms, mdb].concat()
            };
            let mut db = h(b"label");
            db.resize(k.k() - hl - 1, 0);
            let l = db.len();
            db[l - 2] = 1;
            db[l - 1] = 0x42;
            let em = match how {
                0 => { if j == 0 || j > 255 { return Ok(()); } build(j as u8, &db) }
                1 => { if j >= 8 * hl { return Ok(()); } db[j / 8] ^= 1 << (j % 8); build(0, &db) }
                2 => { for x in db[hl..].iter_mut() { *x = 0; } if j > 0 { return Ok(()); } build(0, &db) }
                3 => { if j < 2 || j > 255 { return Ok(()); } db[hl] = j as u8; build(0, &db) }
                4 => oaep_encode(&h, hl, k.k(), &fill(j, 3), b"", &fill(hl, 9)).ok_or("encoding failed")?,
                _ => { let mut e = build(0, &db); let n = e.len(); if j >= 8 * (n - 1) { return Ok(()); } e[1 + j / 8] ^= 1 << (j % 8); e }
            };
            if Bn::from_be(&em).ge(&k.n) || oaep_decode(&h, hl, b"label", &em).is_some() { return Ok(()); }
            t.trace();
            let mut o = vec![0x55];
            let r = p.decrypt(&mut o, &rsa_enc(&k, &em));
            let base = oaep_encode(&h, hl, k.k(), b"another label", b"", &fill(hl, 9)).ok_or("encoding failed")?;
            alike(&|| format!("the encoded message {} (hash of {} bytes)", hx(&em), hl), r.map(|_| o.clone()), p.decrypt(&mut vec![], &rsa_enc(&k, &base)), t)
        });
    }
    // ---- failing random sources
    c.par("random-source", 13 * 40, |mut i, t| {
        let op = dig(&mut i, 13);
        let j = i as usize / 2;
        let f = Faulty::new(5);
        let fails: (Vec<bool>, Option<usize>) = if i % 2 == 0 { ((0..=j).map(|x| x == j).collect(), None) } else { (vec![], Some(j)) };
        let arm = || f.arm(fails.0.clone(), fails.1);
        let what = || format!("operation {} with draw {} failing{}", op, j, if i % 2 == 0 { "" } else { " and all later ones" });
        let (sk, k) = cached(512, 2, 0)?;
        let s = |e: CryptoError| format!("{}", e);
        match op {
            0 => { let tc = ToyCipher::new(16, 7); arm(); let p = DefaultPadding::new(&tc); let v = DefaultInitialVec::new(&tc, f.clone()); rand_or_done(&what, CBC::new(tc, p, v), &f, t) }
            1 => { let tc = ToyCipher::new(16, 7); let v = DefaultInitialVec::new(&tc, f.clone()); let mut m = OFB::new(tc, v).map_err(s)?; arm(); rand_or_done(&what, m.update_iv().map(|_| ()), &f, t) }
            2 => { let tc = ToyCipher::new(8, 7); let v = DefaultInitialVec::new(&tc, f.clone()); let mut m = CFB::new(tc, EmptyPadding::new(), v, 8).map_err(s)?; arm(); rand_or_done(&what, m.update_iv().map(|_| ()), &f, t) }
            3 => { let p = PKCS1::new_uncheck(SHA1::new(), f.clone(), KeyPair::from(sk), false).map_err(s)?; arm(); rand_or_done(&what, p.encrypt(&mut vec![], &fill(20, 3)), &f, t) }
            4 => { let p = PKCS1::new_uncheck(SHA1::new(), f.clone(), KeyPair::from(sk), true).map_err(s)?; arm(); let mut em = vec![7; 64]; em[0] = 0; em[1] = 2; em[40] = 0; rand_or_done(&what, p.decrypt(&mut vec![], &rsa_enc(&k, &em)), &f, t) }
            5 => { let mut p = PKCS1::new_uncheck(SHA1::new(), f.clone(), KeyPair::from(sk), true).map_err(s)?; arm(); rand_or_done(&what, p.sign(&mut SignatureContent::new(), b"m"), &f, t) }
            6 => { let p = OAEP::new_uncheck(SHA1::new(), f.clone(), KeyPair::from(sk), vec![], false).map_err(s)?; arm(); rand_or_done(&what, p.encrypt(&mut vec![], b"m"), &f, t) }
            7 => { let mut p = PSS::new_uncheck(SHA1::new(), f.clone(), KeyPair::from(sk), None, i % 4 < 2).map_err(s)?; arm(); rand_or_done(&what, p.sign(&mut SignatureContent::new(), b"m"), &f, t) }
            8 => { arm(); rand_or_done(&what, PrivateKey::generate_multi_prime_key(2 + j % 2, 128, 4, &mut f.clone()), &f, t) }
            9 => { let d = dom(96, 0, 200, 0); let mut x = DSA::new_uncheck(RawDigest::new(20, 64), f.clone(), d.sk(&Bn::from_u64(99))).map_err(s)?; arm(); rand_or_done(&what, x.sign(&mut Pair::new(), &[1; 20]), &f, t) }
            10 => { arm(); if j > 9 { return Ok(()); } rand_or_done(&what, DSA::<RawDigest, Faulty>::l1024_n160_key(&mut f.clone()), &f, t) }
            11 => { arm(); rand_or_done(&what, CurveP256::new().unwrap().curve_params().generate_key(&mut f.clone()), &f, t) }
            _ => {
                let dd = Bn::from_u64(12345);
                let (x, y) = xy(&cv.mul(&dd, &cv.g()));
                let mut e = ECDSA::new_unchcek(SHA256::new(), f.clone(), CurveP256::new().unwrap(), EcPair::from(EcKey::new_uncheck(EcPub::new_uncheck(&x, &y), &big(&dd)))).map_err(s)?;
                arm();
                rand_or_done(&what, e.sign(&mut Pair::new(), b"message"), &f, t)
            }
        }
    });
    // ---- no private key
    c.each("public-only", 6 * 8, |i, t| {
        let (op, j) = (i % 6, i / 6);
        let (sk, k) = cached(512, 2, j as u64 % 2)?;
        let pair = || KeyPair::from(sk.public_key().clone());
        let s = |e: CryptoError| format!("{}", e);
        let m = fill(j, 3);
        t.trace();
        let what = || format!("operation {} without a private key", op);
        match op {
            0 => is(&what, PKCS1::new_uncheck(SHA1::new(), Script::stream(1), pair(), j % 2 == 0).map_err(s)?.decrypt(&mut vec![], &fill(k.k(), 0)), K::InvalidPrivateKey, t),
            1 => is(&what, PKCS1::new_uncheck(SHA1::new(), Script::stream(1), pair(), j % 2 == 0).map_err(s)?.sign(&mut SignatureContent::new(), &m), K::InvalidPrivateKey, t),
            2 => is(&what, OAEP::new_uncheck(SHA1::new(), Script::stream(1), pair(), vec![], j % 2 == 0).map_err(s)?.decrypt(&mut vec![], &fill(k.k(), 0)), K::InvalidPrivateKey, t),
            3 => is(&what, PSS::new_uncheck(SHA1::new(), Script::stream(1), pair(), None, j % 2 == 0).map_err(s)?.sign(&mut SignatureContent::new(), &m), K::InvalidPrivateKey, t),
            4 => is(&what, DSA::new_uncheck(RawDigest::new(2, 64), Script::stream(1), d.pk(&d.y(&Bn::from_u64(5)))).map_err(s)?.sign(&mut Pair::new(), &m), K::InvalidPrivateKey, t),
            _ => { let (x, y) = xy(&cv.g()); is(&what, ECDSA::new_unchcek(SHA256::new(), Script::stream(1), CurveP256::new().unwrap(), EcPair::from(EcPub::new_uncheck(&x, &y))).map_err(s)?.sign(&mut Pair::new(), &m), K::InvalidPrivateKey, t) }
        }
    });
    // ---- malformed padding, directly and at the end of a ciphertext
    let depth = c.pick(6, 8);
    c.par("padding", seqs_upto(4, depth), |i, t| {
        let m: Vec<u8> = seq(i, 4, depth).iter().map(|&x| [0x00u8, 0x80, 0x01, 0xff][x]).collect();
        let mut e = m.clone();
        while e.last() == Some(&0) { e.pop(); }
        if e.last() == Some(&0x80) { return Ok(()); }
        let what = || format!("padding {}", hx(&m));
        for bs in [1usize, 2, 3] {
            let tc = ToyCipher::new(bs, 7);
            let p = DefaultPadding::new(&tc);
            is(&what, p.unpadding(&mut m.clone()), K::UnpaddingNotMatch, t)?;
            if m.is_empty() || m.len() % bs != 0 { continue; }
            let mut ct = vec![];
            let s = |e: CryptoError| format!("{}", e);
            ECB::new(tc.clone(), EmptyPadding::new()).encrypt(&mut ct, &m).map_err(s)?;
            let x = ECB::new(tc.clone(), p.clone());
            is(&what, x.decrypt(&mut vec![], &ct), K::UnpaddingNotMatch, t)?;
            let mut st = x.decrypt_stream();
            let w = DecryptStream::write(&mut st, &ct).map(|_| ());
            is(&what, w.and_then(|_| DecryptStream::finish(&mut st).map(|_| ())), K::UnpaddingNotMatch, t)?;
            CBC::new(tc.clone(), EmptyPadding::new(), iv(bs)).map_err(s)?.encrypt(&mut ct, &m).map_err(s)?;
            let x = CBC::new(tc.clone(), p.clone(), iv(bs)).map_err(s)?;
            is(&what, x.decrypt(&mut vec![], &ct), K::UnpaddingNotMatch, t)?;
            let mut st = x.decrypt_stream();
            let w = DecryptStream::write(&mut st, &ct).map(|_| ());
            is(&what, w.and_then(|_| DecryptStream::finish(&mut st).map(|_| ())), K::UnpaddingNotMatch, t)?;
            CFB::new(tc.clone(), EmptyPadding::new(), iv(bs), 8).map_err(s)?.encrypt(&mut ct, &m).map_err(s)?;
            let x = CFB::new(tc.clone(), p.clone(), iv(bs), 8).map_err(s)?;
            is(&what, x.decrypt(&mut vec![], &ct), K::UnpaddingNotMatch, t)?;
        }
        Ok(())
    });
    // ---- failures of a supplied cipher or IV source come out as they are
    c.par("passed-on", 9 * 6 * 5 * 2, |mut i, t| {
        let (k, at, mode, e) = (dig(&mut i, 9), dig(&mut i, 6), dig(&mut i, 5), i == 0);
        let bs = 4;
        let f = Failing::new(bs, at, k);
        let m = fill(5 * bs, 3);
        let s = |e: CryptoError| format!("{}", e);
        let own = format!("{}", made(k));
        t.trace();
        macro_rules! go { ($x:expr) => {{
            let x = $x;
            let what = || format!("mode {} failing at call {}", mode, at);
            let mut o = vec![];
            let r = if e { x.encrypt(&mut o, &m) } else { x.decrypt(&mut o, &m) };
            let r = match r { Err(e) => Err(e), Ok(_) => if at >= 5 { return Ok(()); } else { Ok(()) } };
            if let Err(e) = &r { if format!("{}", e) != own { return Err(format!("{}: {} became {}", what(), own, e)); } }
            is(&what, r, KINDS[k], t)
        }}; }
        match mode {
            0 => go!(ECB::new(f.clone(), EmptyPadding::new())),
            1 => go!(CBC::new(f.clone(), EmptyPadding::new(), iv(bs)).map_err(s)?),
            2 => go!(CFB::new(f.clone(), EmptyPadding::new(), iv(bs), 8 * bs).map_err(s)?),
            3 => go!(OFB::new(f.clone(), iv(bs)).map_err(s)?),
            _ => go!(CTR::new(f.clone(), DefaultCounter::new(fill(bs, 3), 8 * bs).map_err(s)?).map_err(s)?),
        }
    });
    c.each("passed-on-streams", 9 * 5 * 5 * 2, |i, t| {
        let (k, at, mode, e) = (i % 9, i / 9 % 5, i / 45 % 5, i / 225 == 0);
        let bs = 4;
        let f = Failing::new(bs, at, k);
        let m = fill(5 * bs, 3);
        let s = |e: CryptoError| format!("{}", e);
        let own = format!("{}", made(k));
        t.trace();
        macro_rules! go { ($x:expr) => {{
            let x = $x;
            let mut all = Ok(());
            if e { let mut st = x.encrypt_stream(); for b in m.chunks(3) { if all.is_ok() { all = EncryptStream::write(&mut st, b).map(|_| ()); } } if all.is_ok() { all = EncryptStream::finish(&mut st).map(|_| ()); } }
            else { let mut st = x.decrypt_stream(); for b in m.chunks(3) { if all.is_ok() { all = DecryptStream::write(&mut st, b).map(|_| ()); } } if all.is_ok() { all = DecryptStream::finish(&mut st).map(|_| ()); } }
            if let Err(e) = &all { if format!("{}", e) != own { return Err(format!("mode {} call {}: {} became {}", mode, at, own, e)); } }
            is(&|| format!("stream of mode {} failing at call {}", mode, at), all, KINDS[k], t)
        }}; }
        match mode {
            0 => go!(ECB::new(f.clone(), EmptyPadding::new())),
            1 => go!(CBC::new(f.clone(), EmptyPadding::new(), iv(bs)).map_err(s)?),
            2 => go!(CFB::new(f.clone(), EmptyPadding::new(), iv(bs), 8 * bs).map_err(s)?),
            3 => go!(OFB::new(f.clone(), iv(bs)).map_err(s)?),
            _ => go!(CTR::new(f.clone(), DefaultCounter::new(fill(bs, 3), 8 * bs).map_err(s)?).map_err(s)?),
        }
    });
    c.each("passed-on-iv", 9 * 3 * 3, |i, t| {
        let (k, at, mode) = (i % 9, i / 9 % 3, i / 27);
        let v = Iv { at, k, ..iv(4) };
        let tc = ToyCipher::new(4, 3);
        t.trace();
        macro_rules! go { ($x:expr) => {{
            let what = || format!("IV source of mode {} failing at call {}", mode, at);
            let mut x = match $x { Ok(x) => x, Err(e) => return if at == 0 { is(&what, Err::<(), _>(e), KINDS[k], t) } else { Err(format!("{}: constructor refused", what())) } };
            if at == 0 { return Err(format!("{}: accepted", what())); }
            if at == 2 { x.update_iv().map(|_| ()).map_err(|e| format!("{}", e))?; }
            is(&what, x.update_iv().map(|_| ()), KINDS[k], t)
        }}; }
        match mode { 0 => go!(CBC::new(tc, EmptyPadding::new(), v)), 1 => go!(CFB::new(tc, EmptyPadding::new(), v, 8)), _ => go!(OFB::new(tc, v)) }
    });
    // ---- wrong sizes
    c.each("sizes", 70, |n, t| {
        let m = fill(n, 3);
        let what = || format!("{} bytes", n);
        let p = K::InvalidParameter;
        t.trace();
        if ![16, 24, 32].contains(&n) { is(&what, AES::new(m.clone()), p, t)?; }
        if n != 16 {
            is(&what, SM4::from_slice(&m), p, t)?;
            for kl in [16, 24, 32] { let a = AES::new(fill(kl, 2)).ok().unwrap(); is(&what, a.encrypt(&mut vec![], &m), p, t)?; is(&what, a.decrypt(&mut vec![], &m), p, t)?; }
            let a = SM4::from_slice(&fill(16, 2)).ok().unwrap();
            is(&what, a.encrypt(&mut vec![], &m), p, t)?;
            is(&what, a.decrypt(&mut vec![], &m), p, t)?;
            is(&what, ZUC::from_slice(&m, &fill(16, 2)), p, t)?;
            is(&what, ZUC::from_slice(&fill(16, 2), &m), p, t)?;
        }
        if n != 8 {
            let a = DES::new([3; 8]);
            is(&what, a.encrypt(&mut vec![], &m), p, t)?;
            is(&what, a.decrypt(&mut vec![], &m), p, t)?;
            let a = TDES::new([3; 8], [5; 8], [7; 8]);
            is(&what, a.encrypt(&mut vec![], &m), p, t)?;
            is(&what, a.decrypt(&mut vec![], &m), p, t)?;
        }
        Ok(())
    });
    // ---- sizes of what is given to modes and to RSA decryption
    c.each("mode-sizes", 70, |n, t| {
        let p = K::InvalidParameter;
        let m = fill(n, 3);
        t.trace();
        let (len, iv) = (16, iv(16));
        let aes = || AES::new(fill(16, 2)).ok().unwrap();
        let what = |s: &'static str| move || format!("{} with {} bytes", s, n);
        let mut out = vec![];
        if n % len != 0 {
            is(&what("ECB decryption"), ECB::new(aes(), EmptyPadding::new()).decrypt(&mut out, &m), p, t)?;
            is(&what("ECB encryption"), ECB::new(aes(), EmptyPadding::new()).encrypt(&mut out, &m), p, t)?;
            is(&what("CBC decryption"), CBC::new(aes(), EmptyPadding::new(), iv.clone()).ok().unwrap().decrypt(&mut out, &m), p, t)?;
            is(&what("CBC encryption"), CBC::new(aes(), EmptyPadding::new(), iv.clone()).ok().unwrap().encrypt(&mut out, &m), p, t)?;
        }
        for s in 0..=17 * 8 {
            let r = CFB::new(aes(), EmptyPadding::new(), iv.clone(), s);
            if s % 8 != 0 || s == 0 || s > 128 { is(&|| format!("CFB with {} bit segments", s), r, p, t)?; continue; }
            let x = match r { Ok(x) => x, Err(e) => return Err(format!("CFB with {} bit segments: {}", s, e)) };
            if n % (s / 8) != 0 {
                is(&what("CFB decryption"), x.decrypt(&mut out, &m), p, t)?;
                is(&what("CFB encryption"), x.encrypt(&mut out, &m), p, t)?;
            }
        }
        if n != len {
            is(&what("CBC IV"), CBC::new(aes(), EmptyPadding::new(), iv.clone()).ok().unwrap().set_iv(m.clone()), p, t)?;
            is(&what("CFB IV"), CFB::new(aes(), EmptyPadding::new(), iv.clone(), 8).ok().unwrap().set_iv(m.clone()), p, t)?;
            is(&what("OFB IV"), OFB::new(aes(), iv.clone()).ok().unwrap().set_iv(m.clone()), p, t)?;
        }
        if n > 0 { is(&what("counter"), DefaultCounter::new(m, 8 * n - 8), p, t)?; }
        Ok(())
    });
    c.each("ciphertext-sizes", 200, |n, t| {
        let p = K::InvalidParameter;
        let s = |e: CryptoError| format!("{}", e);
        let (sk, k) = cached(512, 2, 0)?;
        t.trace();
        if n == k.k() { return Ok(()); }
        for b in [false, true] {
            let x = PKCS1::new_uncheck(SHA1::new(), Script::stream(1), KeyPair::from(sk.clone()), b).map_err(s)?;
            is(&|| format!("PKCS#1 ciphertext of {} bytes", n), x.decrypt(&mut vec![], &fill(n, 3)), p, t)?;
            let x = OAEP::new_uncheck(SHA1::new(), Script::stream(1), KeyPair::from(sk.clone()), vec![], b).map_err(s)?;
            is(&|| format!("OAEP ciphertext of {} bytes", n), x.decrypt(&mut vec![], &fill(n, 3)), p, t)?;
        }
        Ok(())
    });
    c.each("parameters", 1700, |n, t| {
        let p = K::InvalidParameter;
        let what = || format!("parameter {}", n);
        t.trace();
        if ![25, 50, 100, 200, 400, 800, 1600].contains(&n) { is(&what, Keccak::new(n, 12), p, t)?; }
        for b in [25, 200, 1600] { if n == 0 || n >= b { is(&what, Keccak::new(b, 12).ok().unwrap().sponge(n), p, t)?; } }
        if n <= 200 {
            let s = |e: CryptoError| format!("{}", e);
            let (sk, k) = cached(512, 2, 0)?;
            let x = PKCS1::new_uncheck(SHA1::new(), Script::stream(1), KeyPair::from(sk.clone()), false).map_err(s)?;
            if n > k.k() - 11 { is(&what, x.encrypt(&mut vec![], &fill(n, 3)), p, t)?; }
            let x = OAEP::new_uncheck(SHA1::new(), Script::stream(1), KeyPair::from(sk.clone()), vec![], false).map_err(s)?;
            if n > k.k() - 42 { is(&what, x.encrypt(&mut vec![], &fill(n, 3)), p, t)?; }
            if n > k.k() - 22 { is(&what, PSS::new(SHA1::new(), Script::stream(1), KeyPair::from(sk), Some(n), false), p, t)?; }
            if n < 2 { is(&what, PrivateKey::generate_multi_prime_key(n, 512, 4, &mut Script::stream(1)), p, t)?; }
            if n < 12 { is(&what, PrivateKey::generate_key(n, 4, &mut Script::stream(1)), p, t)?; }
        }
        Ok(())
    });
    // ---- hashes without a block size
    let x3 = zoo::sha3_family();
    c.each("no-block-size", x3.len(), |i, t| {
        let sp = &zoo::sha3_family()[i];
        t.trace();
        if sp.block.is_some() { return Ok(()); }
        let d = BoxD((sp.make)());
        if d.block_size().is_some() { return Err(format!("{} has a block size", sp.name)); }
        is(&|| format!("HMAC with {}", sp.name), HMAC::new(fill(5, 3), d), K::NotSupportUsage, t)
    });
}
