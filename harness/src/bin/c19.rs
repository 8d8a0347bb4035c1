//! C19: RSAES-PKCS1-v1_5.
use rcrypto::rsa::{KeyPair, PublicKey, PKCS1};
use rcrypto::sha::{SHA1, SHA256};
use rcrypto::{Cipher, MD5};
use vh::engine::{self, hx, Ctx, R, T};
use vh::enumr::{dig, fill, seq, seqs_upto};
use vh::refs::bn::Bn;
use vh::refs::rsa::pkcs1_decode;
use vh::rsak::{cached, from_source, Nums, LARGE, LENS};
use vh::scripted::{Script, Tail};

fn main() { engine::main("C19", run) }

type P = PKCS1<SHA1, Script>;
fn mk(bits: usize, np: usize, blind: bool, rd: Script) -> Result<(P, Nums), String> {
    let (sk, k) = cached(bits, np, 0)?;
    let p = if bits % 2 == 0 { PKCS1::new(SHA1::new(), rd, KeyPair::from(sk), blind) } else { PKCS1::new_uncheck(SHA1::new(), rd, KeyPair::from(sk), blind) };
    Ok((p.map_err(|e| format!("PKCS1 over a {}-bit key refused: {}", bits, e))?, k))
}
fn oracle(k: &Nums, c: &[u8]) -> Option<Vec<u8>> {
    if c.len() != k.k() { return None; }
    let c = Bn::from_be(c);
    if c.ge(&k.n) { return None; }
    pkcs1_decode(&k.raw(&c).to_be_len(k.k()))
}
fn decr(t: &T, p: &P, k: &Nums, c: &[u8], what: &dyn Fn() -> String) -> R {
    t.step();
    t.trace();
    let mut out = vec![9, 9, 9];
    let got = p.decrypt(&mut out, c).map(|_| out);
    let want = oracle(k, c);
    t.state(&want.clone().unwrap_or_else(|| b"refused".to_vec()));
    match (got, want) {
        (Ok(g), Some(w)) if g == w => Ok(()),
        (Err(_), None) => Ok(()),
        (Ok(g), w) => Err(format!("{}: decryption returned {} instead of {} (modulus {})", what(), hx(&g), w.map_or("refusing".into(), |w| hx(&w)), k.n.to_hex())),
        (Err(e), Some(w)) => Err(format!("{}: decryption refused ({}) instead of {} (modulus {})", what(), e, hx(&w), k.n.to_hex())),
    }
}
fn raise(k: &Nums, em: &[u8]) -> Option<Vec<u8>> {
    let m = Bn::from_be(em);
    if m.ge(&k.n) { return None; }
    Some(m.powm(&k.e, &k.n).to_be_len(k.k()))
}
fn encr(t: &T, p: &P, k: &Nums, m: &[u8], log: &dyn Fn() -> Vec<u32>) -> Result<Vec<u8>, String> {
    let what = || format!("{} bytes (modulus {})", m.len(), k.n.to_hex());
    let before = log().len();
    let mut c = vec![7; 5];
    t.step();
    t.trace();
    p.encrypt(&mut c, m).map_err(|e| format!("encryption of {} refused: {}", what(), e))?;
    if c.len() != k.k() { return Err(format!("encryption of {} gave {} bytes instead of {}", what(), c.len(), k.k())); }
    let cb = Bn::from_be(&c);
    if cb.ge(&k.n) { return Err(format!("ciphertext of {} is not below the modulus", what())); }
    let em = k.raw(&cb).to_be_len(k.k());
    t.state(&em);
    let z = k.k() - m.len() - 1;
    if em[0] != 0 || em[1] != 2 || em[z] != 0 || &em[z + 1..] != m || em[2..z].iter().any(|&b| b == 0) || z < 10 {
        return Err(format!("encoded message {} for {} is not 00 02 PS 00 M", hx(&em), what()));
    }
    if !from_source(&em[2..z], &log()[before..]) { return Err(format!("padding {} for {} does not come from the random source", hx(&em[2..z]), what())); }
    Ok(c)
}
macro_rules! logged {
    ($rd:expr) => {{ let l = $rd.log.clone(); move || l.borrow().iter().map(|x| x.unwrap_or(0)).collect::<Vec<u32>>() }};
}

fn run(c: &Ctx) {
    // moduli around and above 256 bytes
    c.par("large-moduli", LARGE.len() as u64 * 4, |mut i, t| {
        let (bits, np) = LARGE[dig(&mut i, LARGE.len() as u64)];
        let rd = Script::stream(i);
        let lg = logged!(rd);
        let (p, k) = mk(bits, np, i % 2 == 1, rd)?;
        let kk = k.k();
        if p.encrypt_max_message_len() != kk - 11 { return Err(format!("encrypt_max_message_len() is {} for {} bytes", p.encrypt_max_message_len(), kk)); }
        let thin = if bits > 2100 && !t.thorough() { 3 } else { 1 };
        if i < 2 {
            let mut lens: Vec<usize> = LENS.iter().copied().filter(|&n| n < kk - 11).step_by(thin).collect();
            lens.extend([kk - 12, kk - 11]);
            for n in lens {
                let ct = encr(t, &p, &k, &fill(n, [0, 3][n % 2]), &lg)?;
                decr(t, &p, &k, &ct, &|| format!("{} bytes over {} bits", n, bits))?;
            }
            for n in [kk - 10, kk - 9, kk, kk + 1, kk + 245, kk + 65536] {
                t.step();
                if p.encrypt(&mut vec![], &fill(n, 3)).is_ok() { return Err(format!("a message of {} bytes was encrypted under {} bytes of modulus", n, kk)); }
            }
        } else {
            // the separator at chosen places, or missing
            for z in [8usize, 9, 10, 11, 126, 127, 128, 129, 254, 255, 256, 257, 258, kk - 2, kk - 1, kk].iter().copied().step_by(thin) {
                for typ in [2u8, 1] {
                    if z > kk { continue; }
                    let mut em = vec![0x5a; kk];
                    em[0] = 0;
                    em[1] = typ;
                    if z < kk { em[z] = 0; }
                    decr(t, &p, &k, &raise(&k, &em).unwrap(), &|| format!("separator at {} of {}", z, kk))?;
                }
            }
        }
        Ok(())
    });
    // one object through many calls
    c.par("endurance", 4, |i, t| {
        let rd = Script::stream(i);
        let lg = logged!(rd);
        let (p, k) = mk(8 * 22 - i as usize, 2, i % 2 == 1, rd)?;
        for n in 0..t.pick(1100usize, 9000) {
            let ct = encr(t, &p, &k, &fill(n % (k.k() - 10), n % 11), &lg)?;
            if n % 3 > 0 || i > 1 { decr(t, &p, &k, &ct, &|| format!("call {}", n))?; }
            if n % 7 == 0 { let mut bad = ct; bad[3] ^= 1; decr(t, &p, &k, &bad, &|| format!("damaged ciphertext, call {}", n))?; }
        }
        Ok(())
    });
    // every message length for every key size from the smallest
    let top = c.pick(420u64, 1100);
    c.par("lengths", (top - 89 + 1) * 2, |mut i, t| {
        let blind = dig(&mut i, 2) == 1;
        let bits = 89 + i as usize;
        let np = if bits % 5 == 0 { 3 } else { 2 };
        let rd = Script::stream(i);
        let lg = logged!(rd);
        let (p, k) = mk(bits, np, blind, rd)?;
        let max = k.k() - 11;
        if p.encrypt_max_message_len() != max || p.modulus_len() != k.k() { return Err(format!("encrypt_max_message_len() is {} for {} bits", p.encrypt_max_message_len(), bits)); }
        for n in 0..=max {
            if max > 30 && n > 3 && n + 3 < max && n % 7 != i as usize % 7 { continue; }
            for kind in [0usize, 3] {
                let m = fill(n, kind);
                let ct = encr(t, &p, &k, &m, &lg)?;
                decr(t, &p, &k, &ct, &|| format!("round trip of {} bytes", n))?;
            }
        }
        for n in [max + 1, max + 2, max + 3, max + 8, max + 9, k.k(), k.k() + 1, 3 * k.k()] {
            t.step();
            t.trace();
            if p.encrypt(&mut vec![], &fill(n, 3)).is_ok() { return Err(format!("a message of {} bytes was encrypted although at most {} fit", n, max)); }
        }
        Ok(())
    });
    // random streams: zero bytes in every pattern over the first three words, and every constant non-zero byte
    c.par("zero-patterns", 4096 * 4, |mut i, t| {
        let n = dig(&mut i, 4);
        let mut w = vec![];
        for j in 0..3 {
            let mut x = [0u8; 4];
            for b in 0..4 { if i >> (4 * j + b) & 1 == 1 { x[b] = 0x11 * (1 + b as u8) + j as u8; } }
            w.push(u32::from_be_bytes(x));
        }
        let rd = Script::words(&w, Tail::Stream(i));
        let lg = logged!(rd);
        let (p, k) = mk(112 - 3 * n, 2, false, rd)?;
        for l in [0, k.k() - 11] { encr(t, &p, &k, &fill(l, 3), &lg)?; }
        Ok(())
    });
    c.par("constant-bytes", 255 * 4, |mut i, t| {
        let sh = dig(&mut i, 4);
        let rd = Script::new(vec![], Tail::Const((i as u32 + 1) << (8 * sh)));
        let lg = logged!(rd);
        let (p, k) = mk(128, 2, false, rd)?;
        for l in 0..=k.k() - 11 {
            let ct = encr(t, &p, &k, &fill(l, 2), &lg)?;
            let mut em = vec![0, 2];
            em.resize(k.k() - l - 1, i as u8 + 1);
            em.push(0);
            em.extend(fill(l, 2));
            t.eq(&|| format!("ciphertext with padding bytes {:02x}", i + 1), &ct, &raise(&k, &em).unwrap())?;
        }
        Ok(())
    });
    // decryption: every pattern of zero bytes after the first two bytes of the block
    let tops = c.pick(vec![12usize, 13, 14], vec![12, 13, 14, 16, 18]);
    for k0 in tops {
        for r in [0usize, 7] {
            let masks = 1u64 << (k0 - 2);
            let chunk = 64;
            c.par(&format!("zero-masks-{}-{}", k0, r), masks / chunk, |i, t| {
                let (p, k) = mk(8 * k0 - r, 2, i % 2 == 1, Script::stream(i))?;
                for j in 0..chunk {
                    let mask = i * chunk + j;
                    let mut em = vec![0u8, 2];
                    for b in 0..k0 - 2 { em.push(if mask >> b & 1 == 1 { 0 } else { [1u8, 2, 0xff, 0x80, 3][b % 5] }); }
                    let ct = raise(&k, &em).unwrap();
                    decr(t, &p, &k, &ct, &|| format!("block {}", hx(&em)))?;
                }
                Ok(())
            });
        }
    }
    // every value of the two leading bytes
    c.par("leading-bytes", 65536, |i, t| {
        let (p, k) = mk(112 - (i as usize % 2) * 3, 2, i / 2 % 2 == 1, Script::stream(i))?;
        let mut em = vec![(i >> 8) as u8, i as u8];
        em.extend([7u8; 8]);
        em.push(0);
        em.resize(k.k(), 0x44);
        match raise(&k, &em) { Some(ct) => decr(t, &p, &k, &ct, &|| format!("block {}", hx(&em))), None => Ok(()) }
    });
    // every length of padding, including none, in larger blocks; with and without a separator
    let sizes = [96usize, 97, 104, 120, 128, 255, 256, 257, 512, 520];
    c.par("padding-lengths", sizes.len() as u64 * 70 * 4, |mut i, t| {
        let bits = sizes[dig(&mut i, sizes.len() as u64)];
        let kind = dig(&mut i, 4);
        let n = i as usize;
        let (p, k) = mk(bits, 2, n % 2 == 1, Script::stream(i))?;
        if n + 2 > k.k() { return Ok(()); }
        let mut em = vec![0u8, 2];
        em.extend(if kind == 0 { vec![0xff; n] } else { fill(n, 2).iter().map(|b| b | 1).collect() });
        if em.len() < k.k() { em.push(0); }
        em.resize(k.k(), [0u8, 0x55, 1, 0xff][kind]);
        let ct = raise(&k, &em).unwrap();
        decr(t, &p, &k, &ct, &|| format!("block with {} padding bytes, message bytes {:02x} ({} bits)", n, em[k.k() - 1], bits))
    });
    // flips of every bit of block and ciphertext
    c.par("flips", 4 * 2 * 264, |mut i, t| {
        let bits = [96usize, 128, 129, 260][dig(&mut i, 4)];
        let kind = dig(&mut i, 2);
        let bit = i as usize;
        let (p, k) = mk(bits, 2, bit % 2 == 0, Script::stream(i))?;
        if bit >= 8 * k.k() { return Ok(()); }
        let mut em = vec![0u8, 2];
        em.resize(k.k() - 2, 0x80);
        em.push(0);
        em.push(0x42);
        if kind == 0 { em[bit / 8] ^= 0x80 >> (bit % 8); }
        let mut ct = match raise(&k, &em) { Some(x) => x, None => return Ok(()) };
        if kind == 1 { ct[bit / 8] ^= 0x80 >> (bit % 8); }
        decr(t, &p, &k, &ct, &|| format!("{} bit {} flipped", ["block", "ciphertext"][kind], bit))
    });
    // lengths and representatives
    c.par("shapes", 5 * 16 * 40, |mut i, t| {
        let bits = [96usize, 97, 128, 135, 256][dig(&mut i, 5)];
        let shape = dig(&mut i, 16);
        let s = i as usize;
        let (p, k) = mk(bits, 2, s % 2 == 0, Script::stream(i))?;
        let mut ct = vec![];
        let mut lead = false;
        for j in 0..if shape < 3 { 60 } else { 1 } {
            let mut em = vec![0u8, 2];
            em.extend(fill(k.k() - 5, 9 + 60 * s + j).iter().map(|b| b | 1));
            em.push(0);
            em.extend([0u8, 9]);
            ct = raise(&k, &em).unwrap();
            if ct[0] == 0 { lead = true; break; }
        }
        let v = match shape {
            0 | 1 | 2 => { if !lead { return Ok(()); } if shape == 2 { ct.clone() } else { ct[1..].to_vec() } }
            3 => { let mut v = vec![0]; v.extend(&ct); v }
            4 => { let mut v = ct.clone(); v.push(0); v }
            5 => ct[..ct.len() - 1].to_vec(),
            6 => vec![],
            7 => vec![0],
            8 => vec![0; k.k()],
            9 => k.n.to_be(),
            10 => k.n.add(&Bn::from_u64(s as u64)).to_be(),
            11 => Bn::from_be(&ct).add(&k.n).to_be(),
            12 => vec![0xff; k.k()],
            13 => k.n.sub(&Bn::from_u64(1 + s as u64)).to_be_len(k.k()),
            14 => { let mut v = ct.clone(); v.extend(&ct); v }
            _ => Bn::from_u64(s as u64).to_be_len(k.k()),
        };
        decr(t, &p, &k, &v, &|| format!("ciphertext shape {} ({} bytes)", shape, v.len()))
    });
    // sequences of operations on one object
    let depth = c.pick(5u32, 6);
    c.par("histories", seqs_upto(6, depth) * 2, |mut i, t| {
        let blind = dig(&mut i, 2) == 1;
        let ops = seq(i, 6, depth);
        let rd = Script::stream(i);
        let lg = logged!(rd);
        let (p, k) = mk(117, 2, blind, rd)?;
        let mut last = raise(&k, &[0, 2, 1, 1, 1, 1, 1, 1, 1, 1, 0, 5, 5, 5, 5]).unwrap();
        for op in ops {
            match op {
                0 => last = encr(t, &p, &k, &[], &lg)?,
                1 => last = encr(t, &p, &k, &[0, 0, 0, 0], &lg)?,
                2 => last = encr(t, &p, &k, &[8, 7], &lg)?,
                3 => { t.step(); if p.encrypt(&mut vec![], &[0; 5]).is_ok() { return Err("too long a message encrypted".into()); } }
                4 => decr(t, &p, &k, &last, &|| "latest ciphertext".into())?,
                _ => { let mut x = last.clone(); x[14] ^= 1; decr(t, &p, &k, &x, &|| "damaged ciphertext".into())? }
            }
        }
        Ok(())
    });
    // keys too small; public keys only; other hashes make no difference; generated keys
    c.par("constructors", 200, |i, t| {
        let bits = 24 + i as usize;
        let (sk, nu) = cached(bits, 2, 0)?;
        let pk = PublicKey::from_be_bytes(&nu.n.to_be(), &nu.e.to_be()).map_err(|e| format!("{}", e))?;
        t.trace();
        let rd = Script::stream(4);
        let lg = logged!(rd);
        let a = PKCS1::new(SHA1::new(), rd, KeyPair::from(pk), true);
        let b = PKCS1::new_uncheck(SHA256::new(), Script::stream(4), KeyPair::from(sk), true);
        if nu.k() < 11 {
            if a.is_ok() || b.is_ok() { return Err(format!("a {}-bit modulus was accepted", bits)); }
            return Ok(());
        }
        if nu.k() == 11 { return Ok(()); }
        let (a, b) = (a.map_err(|e| format!("public key refused: {}", e))?, b.map_err(|e| format!("private key refused: {}", e))?);
        let ct = encr(t, &a, &nu, &fill(nu.k() - 11, 3), &lg)?;
        t.steps(2);
        if a.decrypt(&mut vec![], &ct).is_ok() { return Err("decryption with a public key only succeeded".into()); }
        let mut m = vec![];
        b.decrypt(&mut m, &ct).map_err(|e| format!("{}", e))?;
        t.eq(&|| "decryption by the private-key object".into(), &m, &fill(nu.k() - 11, 3))
    });
    c.par("auto-generated", 60, |i, t| {
        let bits = 60 + 3 * i as usize;
        t.step();
        t.trace();
        match PKCS1::auto_generate_key(bits, 4, MD5::new(), Script::stream(i), i % 2 == 0) {
            Err(e) => if (bits + 7) / 8 > 11 { Err(format!("generating a {}-bit key failed: {}", bits, e)) } else { Ok(()) },
            Ok(p) => {
                if (bits + 7) / 8 < 11 { return Err(format!("{}-bit key accepted", bits)); }
                if p.modulus_len() != (bits + 7) / 8 { return Err("modulus length wrong".into()); }
                let (mut ct, mut m) = (vec![], vec![]);
                for n in 0..=p.encrypt_max_message_len() {
                    p.encrypt(&mut ct, &fill(n, 1)).map_err(|e| format!("{}", e))?;
                    p.decrypt(&mut m, &ct).map_err(|e| format!("{}", e))?;
                    t.steps(2);
                    t.eq(&|| format!("round trip of {} bytes", n), &m, &fill(n, 1))?;
                }
                Ok(())
            }
        }
    });
}
