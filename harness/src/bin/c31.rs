//! C31: the text of keys and parameters shows their numbers.
use rcrypto::dsa::{DomainParameters, KeyPair as DsaPair, PrivateKey as DsaKey, PublicKey as DsaPub};
use rcrypto::elliptic::{CurveP224, CurveP256, EllipticCurve, KeyPair as EcPair, PrivateKey as EcKey, PublicKey as EcPub};
use rcrypto::rsa::{PrivateKey, PublicKey};
use std::fmt::{Debug, Display};
use vh::engine::{self, Ctx, R, T};
use vh::enumr::dig;
use vh::refs::bn::Bn;
use vh::refs::ec::Pt;
use vh::rsak::{big, bn, quoted};
use vh::scripted::Script;

fn main() { engine::main("C31", run) }

/// numbers of up to `n` words of 32 bits, each word from a list of extreme ones
fn words(mut i: u64, n: usize) -> Bn {
    const W: [u32; 7] = [0, 1, 0xffff_ffff, 0x8000_0000, 0x0fff_ffff, 0x0000_00a0, 0x0001_0000];
    let mut b = vec![];
    for _ in 0..n { b.extend(W[dig(&mut i, 7)].to_be_bytes()); }
    Bn::from_be(&b)
}
/// both texts show exactly these numbers, in hexadecimal
fn shows<X: Display + Debug>(what: &str, x: &X, want: &[&Bn], t: &T) -> R {
    let mut w: Vec<String> = want.iter().map(|n| n.to_hex()).collect();
    w.sort();
    for (form, s) in [("displayed", format!("{}", x)), ("debug", format!("{:?}", x))] {
        t.step();
        let mut g: Vec<String> = vec![];
        for (i, p) in s.split('"').enumerate() {
            if i % 2 == 0 { continue; }
            if !p.trim_start_matches("0x").chars().all(|c| c.is_ascii_hexdigit()) { return Err(format!("{}: {} text has {:?} in the place of a number: {}", what, form, p, s)); }
        }
        g.extend(quoted(&s).iter().map(|n| n.to_hex()));
        g.sort();
        t.state(g.concat().as_bytes());
        if g != w { return Err(format!("{}: {} text shows {:?} instead of {:?}: {}", what, form, g, w, s)); }
    }
    Ok(())
}

fn run(c: &Ctx) {
    let n = c.pick(5usize, 6);
    let all = 7u64.pow(n as u32);
    // points of a curve: every number made of extreme words
    c.par("ec-keys", all, |i, t| {
        let (x, y, d) = (words(i, n), words(all - 1 - i, n), words((i * 11 + 5) % all, n));
        let pk = EcPub::new_uncheck(&big(&x), &big(&y));
        shows("elliptic-curve public key", &pk, &[&x, &y], t)?;
        shows("clone of an elliptic-curve public key", &pk.clone(), &[&x, &y], t)?;
        let sk = EcKey::new_uncheck(pk, &big(&d));
        shows("elliptic-curve private key", &sk, &[&x, &y, &d], t)?;
        shows("public part", sk.public_key(), &[&x, &y], t)?;
        let kp = EcPair::from(sk.clone());
        shows("private key of a pair", kp.private_key().ok_or("private key lost")?, &[&x, &y, &d], t)?;
        shows("public key of a pair", kp.public_key(), &[&x, &y], t)?;
        let kp = EcPair::from(sk.public_key().clone());
        if kp.private_key().is_some() { return Err("a pair made from a public key has a private one".into()); }
        shows("public key of a public pair", kp.public_key(), &[&x, &y], t)
    });
    // DSA: any p of the given words with q, g, y, x below it where the constructors ask for it
    c.par("dsa-keys", all, |i, t| {
        let (p, g, y) = (words(i, n), words((i * 13 + 7) % all, n), words((i * 17 + 1) % all, n));
        let (q, x) = (words((i * 5 + 3) % all, n), words((i * 3 + 2) % all, n));
        let dp = match DomainParameters::new_uncheck(&big(&p), &big(&q), &big(&g)) { Ok(d) => d, Err(_) => return Ok(()) };
        shows("DSA parameters", &dp, &[&p, &q, &g], t)?;
        shows("clone of DSA parameters", &dp.clone(), &[&p, &q, &g], t)?;
        let pk = match DsaPub::new_uncheck(&dp, &big(&y)) { Ok(k) => k, Err(_) => return Ok(()) };
        shows("DSA public key", &pk, &[&p, &q, &g, &y], t)?;
        shows("parameters of a DSA public key", pk.domain_parameters(), &[&p, &q, &g], t)?;
        let sk = match DsaKey::new_uncheck(&pk, &big(&x)) { Ok(k) => k, Err(_) => return Ok(()) };
        t.trace();
        shows("DSA private key", &sk, &[&p, &q, &g, &y, &x], t)?;
        shows("public part", sk.public_key(), &[&p, &q, &g, &y], t)?;
        shows("parameters of a DSA private key", sk.domain_parameters(), &[&p, &q, &g], t)?;
        let kp = DsaPair::from(sk.clone());
        shows("private key of a pair", kp.private_key().ok_or("private key lost")?, &[&p, &q, &g, &y, &x], t)?;
        shows("public key of a pair", kp.public_key(), &[&p, &q, &g, &y], t)?;
        let kp = DsaPair::from(sk.public_key().clone());
        if kp.private_key().is_some() { return Err("a pair made from a public key has a private one".into()); }
        shows("public key of a public pair", kp.public_key(), &[&p, &q, &g, &y], t)
    });
    // RSA public keys from numbers and bytes in either order
    c.par("rsa-public", all, |i, t| {
        let (m, e) = (words(i, n), words((i * 19 + 4) % 343, 3));
        let (mb, eb) = (m.to_be(), e.to_be());
        let (ml, el): (Vec<u8>, Vec<u8>) = (mb.iter().rev().copied().collect(), eb.iter().rev().copied().collect());
        for (k, pk) in [PublicKey::from_bigint(&big(&m), &big(&e)), PublicKey::from_nat(big(&m).as_ref(), big(&e).as_ref()), PublicKey::from_be_bytes(&mb, &eb), PublicKey::from_le_bytes(&ml, &el)].into_iter().enumerate() {
            let Ok(pk) = pk else { continue };
            t.trace();
            shows(&format!("RSA public key (constructor {})", k), &pk, &[&m, &e], t)?;
            shows("clone of an RSA public key", &pk.clone(), &[&m, &e], t)?;
            if pk.modulus_len() != (m.bits() + 7) / 8 { return Err(format!("modulus of {} bits reported as {} bytes", m.bits(), pk.modulus_len())); }
            shows("clone of a clone", &pk.clone().clone(), &[&m, &e], t)?;
        }
        Ok(())
    });
    // every bit length
    c.par("bit-lengths", c.pick(1100, 4200), |i, t| {
        let a = Bn::one().shl(i as usize);
        let b = a.sub(&Bn::one());
        let d = a.add(&b.shr(5));
        let sk = EcKey::new_uncheck(EcPub::new_uncheck(&big(&a), &big(&b)), &big(&d));
        shows("elliptic-curve private key", &sk, &[&a, &b, &d], t)?;
        if i > 1 {
            let pk = PublicKey::from_bigint(&big(&d), &big(&Bn::from_u64(3))).map_err(|e| format!("{}", e))?;
            shows("RSA public key", &pk, &[&d, &Bn::from_u64(3)], t)?;
        }
        let dp = DomainParameters::new_uncheck(&big(&a), &big(&d), &big(&a)).map_err(|e| format!("{}", e))?;
        shows("DSA parameters", &dp, &[&a, &d, &a], t)
    });
    // generated keys: what is shown is what is used
    c.par("rsa-generated", c.pick(60, 300), |i, t| {
        let (bits, np) = (48 + 4 * (i as usize % 40), 2 + i as usize % 2);
        let sk = PrivateKey::generate_multi_prime_key(np, bits, 10, &mut Script::stream(i)).map_err(|e| format!("{}", e))?;
        let v = quoted(&format!("{}", sk));
        if v.len() != 3 { return Err(format!("text of a private key: {}", sk)); }
        let (d, n, e) = (&v[0], &v[1], &v[2]);
        if n.bits() != bits { return Err(format!("modulus shown with {} bits instead of {}", n.bits(), bits)); }
        shows("RSA private key", &sk, &[n, e, d], t)?;
        shows("public part", sk.public_key(), &[n, e], t)?;
        for m in [2u64, 3, 0xffff] {
            let m = Bn::from_u64(m);
            let ct = sk.public_key().encrypt(&big(&m));
            if bn(&ct)? != m.powm(e, n) || m.powm(e, n).powm(d, n) != m { return Err(format!("{}: the numbers shown are not those used", sk)); }
            if bn(&sk.decrypt::<Script>(&ct, None).map_err(|e| format!("{}", e))?)? != m { return Err(format!("{}: decryption failed", sk)); }
        }
        shows("clone of an RSA private key", &sk.clone(), &[n, e, d], t)?;
        shows("public part of a clone", sk.clone().public_key(), &[n, e], t)
    });
    c.par("ec-generated", c.pick(12, 60), |i, t| {
        let mut rd = Script::stream(i);
        let (std, sk) = if i % 2 == 0 { let k = CurveP256::new().unwrap(); (1, k.curve_params().generate_key(&mut rd)) } else { let k = CurveP224::new().unwrap(); (0, k.curve_params().generate_key(&mut rd)) };
        let sk = sk.map_err(|e| format!("{}", e))?;
        let cv = &vh::eck::standard()[std].2;
        let v = quoted(&format!("{}", sk));
        if v.len() != 3 { return Err(format!("text of a private key: {}", sk)); }
        t.step();
        if cv.mul(&v[0], &cv.g()) != Pt::A(v[1].clone(), v[2].clone()) { return Err(format!("{}: the point is not the multiple of the base point", sk)); }
        shows("public part", sk.public_key(), &[&v[1], &v[2]], t)
    });
}
