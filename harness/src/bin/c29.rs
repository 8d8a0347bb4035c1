//! C29: what an object reports about itself is what it does.
use rcrypto::cipher_mode::{DefaultCounter, CTR};
use rcrypto::dsa::{SignatureContent as DsaSig, DSA};
use rcrypto::ecdsa::{SignatureContent as EcSig, ECDSA};
use rcrypto::elliptic::{CurveP224, CurveP256, EllipticCurve, KeyPair as EcPair, PrivateKey as EcKey, PublicKey as EcPub};
use rcrypto::rsa::{KeyPair, PublicKey, SignatureContent, OAEP, PKCS1, PSS};
use rcrypto::{sha, sha3, Cipher, CryptoError, Digest, DigestXOF, Signature, ZUCMac, CMAC, HMAC, MD5, SM3};
use vh::dsak::{dom, fips};
use vh::eck::{generic, nat, pt, xy};
use vh::engine::{self, hx, Ctx, R, T};
use vh::enumr::{dig, fill, seq, seqs_upto};
use vh::modes::{Ciph, REAL};
use vh::refs::bn::Bn;
use vh::rsak::{big, bn, cached, pub_nums, Hs, Nums};
use vh::scripted::Script;
use vh::toy::RawDigest;
use vh::zoo::{self, BoxD};

fn main() { engine::main("C29", run) }

fn s(e: CryptoError) -> String { format!("{}", e) }
/// the digest handed out computes the hash of a new message
fn fresh<H: Digest>(what: &dyn Fn() -> String, mut h: H, want_len: usize, f: &dyn Fn(&[u8]) -> Vec<u8>) -> R {
    if (h.bits_len() + 7) / 8 != want_len { return Err(format!("{}: the digest handed out has {} bits instead of {} bytes", what(), h.bits_len(), want_len)); }
    for m in [&b""[..], b"abc"] {
        let mut o = vec![0x55];
        if !m.is_empty() { h.write(m); }
        h.checksum(&mut o);
        if o != f(m) { return Err(format!("{}: the digest handed out hashes {} to {} instead of {}", what(), hx(m), hx(&o), hx(&f(m)))); }
        h.reset();
    }
    Ok(())
}
fn same_rsa(what: &dyn Fn() -> String, pk: &PublicKey, k: &Nums) -> R {
    let (n, e) = pub_nums(pk)?;
    if n != k.n || e != k.e || pk.modulus_len() != k.k() { return Err(format!("{}: public key shown as {} ({} bytes)", what(), pk, pk.modulus_len())); }
    Ok(())
}
fn len(what: &dyn Fn() -> String, name: &str, got: usize, want: usize) -> R {
    if got != want { Err(format!("{}: {} is {} instead of {}", what(), name, got, want)) } else { Ok(()) }
}
const HASHES: [Hs; 12] = [Hs::Toy(1), Hs::Toy(3), Hs::Md(0), Hs::Md(1), Hs::Md(3), Hs::Md(5), Hs::Md(8), Hs::Md(9), Hs::Md(17), Hs::Sha3(0), Hs::Sha3(3), Hs::Sha3(8)];

fn run(c: &Ctx) {
    // ---- reported lengths of digests and MACs at every point of every short history
    let makers: Vec<(String, usize, Option<usize>, Box<dyn Fn() -> Result<Box<dyn Digest>, String> + Sync>)> = {
        let mut v: Vec<(String, usize, Option<usize>, Box<dyn Fn() -> Result<Box<dyn Digest>, String> + Sync>)> = vec![];
        for (fam, list) in [(0, zoo::md_family()), (1, zoo::sha3_family())] {
            for (i, sp) in list.iter().enumerate() {
                let mk = move || BoxD(if fam == 0 { (zoo::md_family()[i].make)() } else { (zoo::sha3_family()[i].make)() });
                v.push((sp.name.into(), sp.bits, Some(sp.block.unwrap_or(0)), Box::new(move || Ok(Box::new(mk())))));
                if sp.block.is_some() { v.push((format!("HMAC-{}", sp.name), sp.bits, sp.block, Box::new(move || HMAC::new(fill(3, 1), mk()).map(|x| Box::new(x) as Box<dyn Digest>).map_err(s)))); }
            }
        }
        for ci in REAL { v.push((format!("CMAC/{:?}", ci), 8 * ci.bs(), Some(ci.bs()), Box::new(move || CMAC::new(ci.lib()).map(|x| Box::new(x) as Box<dyn Digest>).map_err(s)))); }
        v.push(("EIA3".into(), 32, None, Box::new(|| Ok(Box::new(ZUCMac::new(1, 2, true, [3; 16]))))));
        v
    };
    let depth = c.pick(4, 6);
    let per = seqs_upto(5, depth);
    let mk = &makers;
    c.par("digest-lengths", makers.len() as u64 * per, |mut i, t| {
        let (name, bits, block, make) = &mk[dig(&mut i, mk.len() as u64)];
        let h = seq(i, 5, depth);
        let mut d = make()?;
        let block = match block { Some(0) => None, x => *x };
        let check = |d: &dyn Digest, at: usize| -> R {
            if d.bits_len() != *bits { return Err(format!("{}: {} bits reported instead of {} after {:?}", name, d.bits_len(), bits, &h[..at])); }
            if name != "EIA3" && d.block_size() != block { return Err(format!("{}: block size {:?} reported instead of {:?} after {:?}", name, d.block_size(), block, &h[..at])); }
            Ok(())
        };
        check(&*d, 0)?;
        for (k, &op) in h.iter().enumerate() {
            t.step();
            match op {
                0 => d.write(&[]),
                1 => d.write(&fill(1, 3)),
                2 => d.write(&fill(150, 3)),
                3 => { let mut o = vec![9; 3]; d.checksum(&mut o); len(&|| name.clone(), "length of the output", o.len(), (bits + 7) / 8)?; }
                _ => d.reset(),
            }
            check(&*d, k + 1)?;
        }
        t.trace();
        t.state(&[name.as_bytes(), &h.iter().map(|&x| x as u8).collect::<Vec<_>>()].concat());
        Ok(())
    });
    // ---- an XOF reports the length it was last set to, whatever happened since
    macro_rules! xof { ($n:expr, $mk:expr) => {
        c.par($n, seqs_upto(6, c.pick(4, 5)), |i, t| {
            let h = seq(i, 6, c.pick(4, 5));
            let mut x = $mk;
            let mut want = 64usize;
            for &op in &h {
                t.step();
                match op {
                    0..=2 => { want = [8usize, 1600, 1352][op]; x.set_digest_len(want) }
                    3 => x.write(&fill(33, 2)),
                    4 => { let mut o = vec![]; x.checksum(&mut o); len(&|| format!("{} {:?}", $n, h), "length of the output", o.len(), want / 8)?; }
                    _ => x.reset(),
                }
                len(&|| format!("{} {:?}", $n, h), "bits_len()", x.bits_len(), want)?;
            }
            t.trace();
            Ok(())
        });
    }; }
    xof!("xof-lengths/Shake128", sha3::Shake128::new(64));
    xof!("xof-lengths/Shake256", sha3::Shake256::new(64));
    xof!("xof-lengths/RawShake128", sha3::Shake128::new(64).to_raw_shake());
    xof!("xof-lengths/RawShake256", sha3::Shake256::new(64).to_raw_shake());
    // ---- modes and streams report the block size of their cipher
    c.each("mode-block-sizes", 20, |i, t| {
        let ci = if i < REAL.len() { REAL[i] } else { Ciph::Toy(i - REAL.len() + 1) };
        let x = CTR::new(ci.lib(), DefaultCounter::new(fill(ci.bs(), 2), 8 * ci.bs()).map_err(s)?).map_err(s)?;
        t.step();
        t.trace();
        if ci.lib().block_size() != Some(ci.bs()) { return Err(format!("{:?} reports {:?}", ci, ci.lib().block_size())); }
        // every multiple of a reported block size must be accepted
        if let Some(b) = x.block_size() { for k in 0..4 { x.encrypt(&mut vec![], &fill(k * b, 1)).map_err(s)?; } }
        for g in vh::modes::configs(ci) {
            if g.unit() != ci.bs() && g.unit() != 1 { continue; }
            let l = g.make(vh::modes::QIv::fixed(&fill(ci.bs(), 7))).map_err(s)?;
            let b = match &l { vh::modes::Lib::Ecb(x) => x.block_size(), vh::modes::Lib::Cbc(x) => x.block_size(), vh::modes::Lib::Cfb(x) => x.block_size(), vh::modes::Lib::Ofb(x) => x.block_size() };
            if let Some(b) = b { for k in 0..4 { t.step(); l.enc(&fill(k * b, 1)).map_err(|e| format!("{}: {} bytes refused with a reported block size of {}: {}", g.name(), k * b, b, e))?; } }
        }
        Ok(())
    });
    // ---- RSA schemes: every message length around the reported maximum, for every modulus length and hash
    let top = c.pick(150usize, 190);
    c.par("oaep-limits", HASHES.len() as u64 * (top as u64 - 12), |mut i, t| {
        let hs = HASHES[dig(&mut i, HASHES.len() as u64)];
        let k = i as usize + 12;
        if k <= 2 * hs.len() + 2 || (k % 5 != 0 && k > 2 * hs.len() + 8) { return Ok(()); }
        let (sk, nu) = cached(8 * k - k % 8, 2, 0)?;
        let o = OAEP::new_uncheck(hs.make(), Script::stream(1), KeyPair::from(sk), vec![], k % 2 == 0).map_err(s)?;
        let w = || format!("OAEP with {} and {} bytes", hs.name(), k);
        t.trace();
        len(&w, "digest_len()", o.digest_len(), hs.len())?;
        len(&w, "modulus_len()", o.modulus_len(), nu.k())?;
        len(&w, "max_message_len()", o.max_message_len(), nu.k() - 2 * hs.len() - 2)?;
        same_rsa(&w, o.public_key(), &nu)?;
        fresh(&w, o.digest_func(), hs.len(), &|m| hs.h(m))?;
        let m = o.max_message_len();
        for n in [0, 1, m.saturating_sub(1), m, m + 1, m + 2, m + 200] {
            t.step();
            let mut ct = vec![];
            let r = o.encrypt(&mut ct, &fill(n, 3));
            if r.is_ok() != (n <= m) { return Err(format!("{}: {} bytes with a reported maximum of {}: accepted {}", w(), n, m, r.is_ok())); }
            if r.is_ok() {
                len(&w, "length of the ciphertext", ct.len(), o.modulus_len())?;
                let mut back = vec![];
                o.decrypt(&mut back, &ct).map_err(s)?;
                t.eq(&|| format!("{}: message of {} bytes", w(), n), &back, &fill(n, 3))?;
            }
            fresh(&w, o.digest_func(), hs.len(), &|m| hs.h(m))?;
        }
        Ok(())
    });
    macro_rules! pkcs1 { ($unit:expr, $h:ty, $mk:expr, $i:expr) => {
        c.par($unit, c.pick(24, 70), |i, t| {
            let k = 90 + 3 * i as usize;
            let (sk, nu) = cached(8 * k - k % 8, 2, 0)?;
            let rf = Hs::Md($i);
            if k < rf.len() + 30 { return Ok(()); }
            let mut o: PKCS1<$h, Script> = PKCS1::new_uncheck($mk, Script::stream(1), KeyPair::from(sk), k % 2 == 0).map_err(s)?;
            let w = || format!("{} and {} bytes", $unit, k);
            t.trace();
            len(&w, "digest_len()", o.digest_len(), rf.len())?;
            len(&w, "modulus_len()", o.modulus_len(), nu.k())?;
            len(&w, "encrypt_max_message_len()", o.encrypt_max_message_len(), nu.k() - 11)?;
            if o.sign_max_message_len() < 1 << 29 { return Err(format!("{}: messages to be signed limited to {} bytes", w(), o.sign_max_message_len())); }
            let m = o.encrypt_max_message_len();
            for n in [0, 1, m - 1, m, m + 1, m + 2, m + 200] {
                t.steps(2);
                let mut ct = vec![];
                let r = Cipher::encrypt(&o, &mut ct, &fill(n, 3));
                if r.is_ok() != (n <= m) { return Err(format!("{}: {} bytes with a reported maximum of {}: accepted {}", w(), n, m, r.is_ok())); }
                if r.is_ok() {
                    len(&w, "length of the ciphertext", ct.len(), o.modulus_len())?;
                    let mut back = vec![];
                    Cipher::decrypt(&o, &mut back, &ct).map_err(s)?;
                    t.eq(&|| format!("{}: message of {} bytes", w(), n), &back, &fill(n, 3))?;
                }
                let mut sg = SignatureContent::new();
                Signature::sign(&mut o, &mut sg, &fill(n, 4)).map_err(s)?;
                len(&w, "length of the signature", sg.as_slice().len(), o.modulus_len())?;
                same_rsa(&w, o.public_key(), &nu)?;
                fresh(&w, o.digest_func(), rf.len(), &|m| rf.h(m))?;
                Signature::verify(&mut o, &sg, &fill(n, 4)).map_err(s)?;
                fresh(&w, o.digest_func(), rf.len(), &|m| rf.h(m))?;
                if Signature::verify(&mut o, &sg, &fill(n, 5)).is_ok() && n > 0 { return Err(format!("{}: signature of another message accepted", w())); }
                fresh(&w, o.digest_func(), rf.len(), &|m| rf.h(m))?;
            }
            Ok(())
        });
    }; }
    pkcs1!("pkcs1-limits/MD5", MD5, MD5::new(), 0);
    pkcs1!("pkcs1-limits/SHA1", sha::SHA1, sha::SHA1::new(), 1);
    pkcs1!("pkcs1-limits/SHA224", sha::SHA224, sha::SHA224::new(), 2);
    pkcs1!("pkcs1-limits/SHA256", sha::SHA256, sha::SHA256::new(), 3);
    pkcs1!("pkcs1-limits/SHA384", sha::SHA384, sha::SHA384::new(), 4);
    pkcs1!("pkcs1-limits/SHA512", sha::SHA512, sha::SHA512::new(), 5);
    c.par("pss-limits", HASHES.len() as u64 * 24 * 5, |mut i, t| {
        let hs = HASHES[dig(&mut i, HASHES.len() as u64)];
        let salt = [None, Some(1), Some(0), Some(7), Some(hs.len() + 3)][dig(&mut i, 5)];
        let need = hs.len() + salt.unwrap_or(hs.len()) + 2;
        let bits = 8 * need + 1 + [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 40, 63, 64, 65, 80, 100, 128, 129, 200][i as usize];
        if bits < 40 { return Ok(()); }
        let (sk, nu) = cached(bits, 2, 0)?;
        let mut o = PSS::new_uncheck(hs.make(), Script::stream(1), KeyPair::from(sk), salt, bits % 2 == 0).map_err(s)?;
        let w = || format!("PSS with {}, salt {:?} and {} bits", hs.name(), salt, bits);
        t.trace();
        len(&w, "digest_len()", o.digest_len(), hs.len())?;
        len(&w, "modulus_len()", o.modulus_len(), nu.k())?;
        len(&w, "salt_len()", o.salt_len(), match salt { None => hs.len(), Some(0) => (bits + 6) / 8 - hs.len() - 2, Some(x) => x })?;
        if o.max_message_len() < 1 << 29 { return Err(format!("{}: messages limited to {} bytes", w(), o.max_message_len())); }
        let h = seq(i % seqs_upto(3, 3), 3, 3);
        let mut sg = SignatureContent::new();
        o.sign(&mut sg, b"first").map_err(s)?;
        len(&w, "length of the signature", sg.as_slice().len(), o.modulus_len())?;
        for &op in &h {
            t.step();
            match op {
                0 => { let mut x = SignatureContent::new(); o.sign(&mut x, &fill(100, 2)).map_err(s)?; len(&w, "length of the signature", x.as_slice().len(), o.modulus_len())?; }
                1 => o.verify(&sg, b"first").map_err(|e| format!("{}: own signature refused: {}", w(), e))?,
                _ => { if o.verify(&SignatureContent::from(vec![0; 3]), b"first").is_ok() { return Err("short signature accepted".into()); } }
            }
            same_rsa(&w, o.public_key(), &nu)?;
            fresh(&w, o.digest_func(), hs.len(), &|m| hs.h(m))?;
            len(&w, "digest_len()", o.digest_len(), hs.len())?;
        }
        // the salt recovered from the signature has the reported length
        let em = bn(&PublicKey::from_be_bytes(&nu.n.to_be(), &nu.e.to_be()).map_err(s)?.encrypt(&big(&Bn::from_be(sg.as_slice()))))?;
        let em_len = (bits + 6) / 8;
        let mut e = em.to_be();
        while e.len() < em_len { e.insert(0, 0); }
        let dl = em_len - hs.len() - 1;
        let mut db = e[..dl].to_vec();
        let seed = &e[dl..dl + hs.len()];
        let mut mask = vec![];
        let mut ctr = 0u32;
        while mask.len() < dl { mask.extend(hs.h(&[seed, &ctr.to_be_bytes()[..]].concat())); ctr += 1; }
        for (a, m) in db.iter_mut().zip(&mask) { *a ^= m; }
        db[0] &= 0xffu8 >> (8 * em_len - (bits - 1));
        let sl = o.salt_len();
        if db[dl - sl - 1] != 1 || db[..dl - sl - 1].iter().any(|&x| x != 0) { return Err(format!("{}: data block {} does not hold a salt of the reported {} bytes", w(), hx(&db), sl)); }
        Ok(())
    });
    // ---- the random source an object hands out goes on where its own stands, and asking for it changes nothing
    c.par("random-source", 6 * 2 * seqs_upto(3, c.pick(3, 4)), |mut i, t| {
        let what = dig(&mut i, 6);
        let blind = dig(&mut i, 2) == 1;
        let h = seq(i, 3, c.pick(3, 4));
        let (sk, _) = cached(680, 2, 0)?;
        let d = dom(24, 0, 64, 0);
        t.trace();
        let w = |k: usize| format!("object {} (blinding {}) after {} operations", what, blind, k);
        // o is asked for its source, the twin p is not, q is made anew from the source
        macro_rules! run { ($mk:expr, $op:expr) => {{
            let (mut o, mut p) = ($mk(Script::stream(3))?, $mk(Script::stream(3))?);
            for k in 0..=h.len() {
                t.steps(3);
                let mut q = $mk(o.rand_source())?;
                let what = if k < h.len() { h[k] } else { 0 };
                let (a, b, e): (Vec<u8>, Vec<u8>, Vec<u8>) = ($op(&mut o, what)?, $op(&mut p, what)?, $op(&mut q, what)?);
                t.eq(&|| format!("{}: result of an object made with the source handed out", w(k)), &e, &a)?;
                t.eq(&|| format!("{}: result of an object whose source was asked for", w(k)), &a, &b)?;
            }
            Ok(())
        }}; }
        let sig = |x: &SignatureContent| x.as_slice().to_vec();
        match what {
            0 => run!(|r| OAEP::new_uncheck(Hs::Toy(5).make(), r, KeyPair::from(sk.clone()), vec![], blind).map_err(s),
                |o: &mut OAEP<BoxD, Script>, k: usize| -> Result<Vec<u8>, String> { let (mut v, mut m) = (vec![], vec![]); o.encrypt(&mut v, &fill(k, 2)).map_err(s)?; if k == 1 { o.decrypt(&mut m, &v).map_err(s)?; } Ok(v) }),
            1 => run!(|r| PKCS1::new_uncheck(MD5::new(), r, KeyPair::from(sk.clone()), blind).map_err(s),
                |o: &mut PKCS1<MD5, Script>, k: usize| -> Result<Vec<u8>, String> { let mut v = vec![]; let mut x = SignatureContent::new(); if k == 1 { Signature::sign(o, &mut x, b"m").map_err(s)?; } Cipher::encrypt(&*o, &mut v, &fill(k, 2)).map_err(s)?; v.extend(sig(&x)); Ok(v) }),
            2 => run!(|r| PSS::new_uncheck(Hs::Toy(5).make(), r, KeyPair::from(sk.clone()), Some(9), blind).map_err(s),
                |o: &mut PSS<BoxD, Script>, k: usize| -> Result<Vec<u8>, String> { let mut x = SignatureContent::new(); o.sign(&mut x, &fill(k, 2)).map_err(s)?; if k == 1 { o.verify(&x, &fill(k, 2)).map_err(s)?; } Ok(sig(&x)) }),
            3 => run!(|r| DSA::new_uncheck(RawDigest::new(4, 8), r, d.sk(&Bn::from_u64(77))).map_err(s),
                |o: &mut DSA<RawDigest, Script>, k: usize| -> Result<Vec<u8>, String> { let mut x = DsaSig::new(); o.sign(&mut x, &fill(k, 2)).map_err(s)?; if k == 1 { o.verify(&x, &fill(k, 2)).map_err(s)?; } { let b: &[u8] = x.as_ref(); Ok(b.to_vec()) } }),
            4 => run!(|r| DSA::new_uncheck(RawDigest::new(9, 8), r, d.sk(&Bn::from_u64(5))).map_err(s),
                |o: &mut DSA<RawDigest, Script>, k: usize| -> Result<Vec<u8>, String> { let mut x = DsaSig::new(); o.sign(&mut x, &fill(k + 30, 2)).map_err(s)?; { let b: &[u8] = x.as_ref(); Ok(b.to_vec()) } }),
            _ => {
                let rc = &vh::eck::standard()[0].2;
                let (x, y) = xy(&rc.mul(&Bn::from_u64(9), &rc.g()));
                run!(|r| ECDSA::new_unchcek(RawDigest::new(20, 8), r, CurveP224::new().map_err(s)?, EcPair::from(EcKey::new_uncheck(EcPub::new_uncheck(&x, &y), &big(&Bn::from_u64(9))))).map_err(s),
                    |o: &mut ECDSA<RawDigest, Script, CurveP224>, k: usize| -> Result<Vec<u8>, String> { let mut x = EcSig::new(); o.sign(&mut x, &fill(k, 2)).map_err(s)?; { let b: &[u8] = x.as_ref(); Ok(b.to_vec()) } })
            }
        }
    });
    // ---- only a public key: everything that needs the private one is refused, the rest works
    c.par("public-only/rsa", 4 * 40, |mut i, t| {
        let what = dig(&mut i, 4);
        let bits = 400 + 7 * i as usize;
        let (sk, nu) = cached(bits, 2, 0)?;
        let pk = || PublicKey::from_be_bytes(&nu.n.to_be(), &nu.e.to_be()).map_err(s);
        t.trace();
        t.steps(4);
        let blind = i % 2 == 0;
        let bad = |r: bool| if r { Err(format!("operation {} without a private key succeeded ({} bits)", what, bits)) } else { Ok(()) };
        match what {
            0 => {
                let p = OAEP::new(Hs::Toy(5).make(), Script::stream(1), KeyPair::from(pk()?), vec![], blind).map_err(s)?;
                let q = OAEP::new(Hs::Toy(5).make(), Script::stream(1), KeyPair::from(sk), vec![], blind).map_err(s)?;
                let (mut ct, mut m) = (vec![], vec![]);
                for k in 0..3 {
                    p.encrypt(&mut ct, &fill(k, 3)).map_err(s)?;
                    bad(p.decrypt(&mut m, &ct).is_ok())?;
                    q.decrypt(&mut m, &ct).map_err(s)?;
                    t.eq(&|| "message encrypted with the public key".into(), &m, &fill(k, 3))?;
                    same_rsa(&|| "public-only OAEP".into(), p.public_key(), &nu)?;
                }
                Ok(())
            }
            1 => {
                let mut p = PKCS1::new(MD5::new(), Script::stream(1), KeyPair::from(pk()?), blind).map_err(s)?;
                let mut q = PKCS1::new(MD5::new(), Script::stream(1), KeyPair::from(sk), blind).map_err(s)?;
                let (mut ct, mut m) = (vec![], vec![]);
                for k in 0..3 {
                    Cipher::encrypt(&p, &mut ct, &fill(k, 3)).map_err(s)?;
                    bad(Cipher::decrypt(&p, &mut m, &ct).is_ok())?;
                    Cipher::decrypt(&q, &mut m, &ct).map_err(s)?;
                    t.eq(&|| "message encrypted with the public key".into(), &m, &fill(k, 3))?;
                    let mut sg = SignatureContent::new();
                    bad(Signature::sign(&mut p, &mut sg, &fill(k, 3)).is_ok())?;
                    Signature::sign(&mut q, &mut sg, &fill(k, 3)).map_err(s)?;
                    Signature::verify(&mut p, &sg, &fill(k, 3)).map_err(s)?;
                    same_rsa(&|| "public-only PKCS1".into(), p.public_key(), &nu)?;
                }
                Ok(())
            }
            2 => {
                let mut p = PSS::new(Hs::Toy(5).make(), Script::stream(1), KeyPair::from(pk()?), Some(3), blind).map_err(s)?;
                let mut q = PSS::new(Hs::Toy(5).make(), Script::stream(1), KeyPair::from(sk), Some(3), blind).map_err(s)?;
                for k in 0..3 {
                    let mut sg = SignatureContent::new();
                    bad(p.sign(&mut sg, &fill(k, 3)).is_ok())?;
                    q.sign(&mut sg, &fill(k, 3)).map_err(s)?;
                    p.verify(&sg, &fill(k, 3)).map_err(s)?;
                    same_rsa(&|| "public-only PSS".into(), p.public_key(), &nu)?;
                }
                Ok(())
            }
            _ => {
                // the key an object hands out, written down and read back, is the key it works with
                let q = OAEP::new(Hs::Toy(5).make(), Script::stream(1), KeyPair::from(sk), vec![], blind).map_err(s)?;
                let (n, e) = pub_nums(q.public_key())?;
                let pk = PublicKey::from_be_bytes(&n.to_be(), &e.to_be()).map_err(s)?;
                let p = OAEP::new(Hs::Toy(5).make(), Script::stream(2), KeyPair::from(pk), vec![], blind).map_err(s)?;
                let (mut ct, mut m) = (vec![], vec![]);
                p.encrypt(&mut ct, &fill(2, 3)).map_err(s)?;
                q.decrypt(&mut m, &ct).map_err(s)?;
                t.eq(&|| "message encrypted with the key handed out".into(), &m, &fill(2, 3))
            }
        }
    });
    let rounds = c.pick(60u64, 400);
    c.par("public-only/dsa", rounds, |i, t| {
        let d = if i == 0 { fips(0) } else { dom(8 + 8 * (i % 6) as usize, (i % 3) as usize, 60 + i as usize % 7, 0) };
        let x = Bn::from_u64(2 + i % 100);
        let mut p = DSA::new_uncheck(RawDigest::new(4, 8), Script::stream(i), d.pk(&d.y(&x))).map_err(s)?;
        let mut q = DSA::new_uncheck(RawDigest::new(4, 8), Script::stream(i), d.sk(&x)).map_err(s)?;
        t.trace();
        for k in 0..4 {
            t.steps(3);
            let m = fill(k, 3);
            let mut sg = DsaSig::new();
            if p.sign(&mut sg, &m).is_ok() { return Err("DSA signature without a private key".into()); }
            q.sign(&mut sg, &m).map_err(s)?;
            p.verify(&sg, &m).map_err(|e| format!("genuine signature refused by the public-only object: {}", e))?;
            if p.key_pair().private_key().is_some() || q.key_pair().private_key().is_none() { return Err("wrong report of a private key".into()); }
            let (a, b) = (format!("{}", p.key_pair().public_key()), format!("{}", q.key_pair().public_key()));
            if a != b { return Err(format!("public keys {} and {}", a, b)); }
            let v = vh::rsak::quoted(&a);
            if v.len() != 4 || v[0] != d.y(&x) || v[1] != d.p || v[2] != d.q || v[3] != d.g { return Err(format!("public key shown as {}", a)); }
            for h in [p.digest_func(), q.digest_func()] { fresh(&|| format!("DSA after {} messages", k + 1), h, 4, &|m| vh::toy::raw_hash(4, m))?; }
        }
        Ok(())
    });
    fn ec<C: EllipticCurve + Clone>(t: &T, c: C, rc: &vh::refs::ec::Curve, i: u64) -> R {
        let d = Bn::from_u64(2 + i * 77777);
        let qr = rc.mul(&d, &rc.g());
        let (x, y) = xy(&qr);
        let pk = || EcPub::new_uncheck(&x, &y);
        let mut p = ECDSA::new_unchcek(RawDigest::new(20, 8), Script::stream(i), c.clone(), EcPair::from(pk())).map_err(s)?;
        let mut q = ECDSA::new_unchcek(RawDigest::new(20, 8), Script::stream(i), c, EcPair::from(EcKey::new_uncheck(pk(), &big(&d)))).map_err(s)?;
        t.trace();
        for k in 0..3 {
            t.steps(3);
            let m = fill(k, 3);
            let mut sg = EcSig::new();
            if p.sign(&mut sg, &m).is_ok() { return Err("ECDSA signature without a private key".into()); }
            q.sign(&mut sg, &m).map_err(s)?;
            p.verify(&sg, &m).map_err(|e| format!("genuine signature refused by the public-only object: {}", e))?;
            for o in [&p, &q] {
                fresh(&|| format!("ECDSA after {} messages", k + 1), o.digest_func(), 20, &|m| vh::toy::raw_hash(20, m))?;
                let v = vh::rsak::quoted(&format!("{}", o.public_key()));
                if v.len() != 2 || big(&v[0]) != x || big(&v[1]) != y { return Err(format!("public key shown as {}", o.public_key())); }
                let g = o.curve().scalar_base_point(&nat(&d));
                if pt(&g)? != qr { return Err("the curve handed out computes another public key".into()); }
            }
        }
        Ok(())
    }
    let cs = vh::eck::standard();
    let csr = &cs;
    c.each("public-only/ecdsa", 6 * c.pick(2, 8), |i, t| {
        let (w, j) = (i % 6, (i / 6) as u64);
        match w {
            0 => ec(t, CurveP224::new().map_err(s)?, &csr[0].2, j),
            1 => ec(t, CurveP256::new().map_err(s)?, &csr[1].2, j),
            w => ec(t, generic(w - 2), &csr[w - 2].2, j),
        }
    });
}
