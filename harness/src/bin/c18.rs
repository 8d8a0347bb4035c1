//! C18: RSAES-OAEP.
use rcrypto::rsa::{KeyPair, PublicKey, OAEP};
use rcrypto::Cipher;
use vh::engine::{self, hx, Ctx, R, T};
use vh::enumr::{dig, fill, seq, seqs_upto};
use vh::refs::bn::Bn;
use vh::refs::rsa::{mgf1, oaep_decode, oaep_encode, oaep_mask};
use vh::rsak::{cached, from_source, Hs, Nums, LARGE, LENS};
use vh::scripted::{Script, Tail};
use vh::zoo::BoxD;

fn main() { engine::main("C18", run) }

type O = OAEP<BoxD, Script>;
fn mk(hs: Hs, bits: usize, np: usize, label: &[u8], blind: bool, rd: Script) -> Result<(O, Nums), String> {
    let (sk, k) = cached(bits, np, 0)?;
    let o = if bits % 2 == 0 { OAEP::new(hs.make(), rd, KeyPair::from(sk), label.to_vec(), blind) } else { OAEP::new_uncheck(hs.make(), rd, KeyPair::from(sk), label.to_vec(), blind) };
    Ok((o.map_err(|e| format!("OAEP over a {}-bit key with {} refused: {}", bits, hs.name(), e))?, k))
}

/// what decryption of the octets c must give
fn oracle(hs: Hs, k: &Nums, label: &[u8], c: &[u8]) -> Option<Vec<u8>> {
    if c.len() != k.k() { return None; }
    let c = Bn::from_be(c);
    if c.ge(&k.n) { return None; }
    oaep_decode(&|m| hs.h(m), hs.len(), label, &k.raw(&c).to_be_len(k.k()))
}
fn decr(t: &T, o: &O, hs: Hs, k: &Nums, label: &[u8], c: &[u8], what: &dyn Fn() -> String) -> R {
    t.step();
    t.trace();
    let mut out = vec![9, 9, 9];
    let got = o.decrypt(&mut out, c).map(|_| out);
    let want = oracle(hs, k, label, c);
    t.state(&want.clone().unwrap_or_else(|| b"refused".to_vec()));
    match (got, want) {
        (Ok(g), Some(w)) if g == w => Ok(()),
        (Err(_), None) => Ok(()),
        (Ok(g), w) => Err(format!("{}: decryption returned {} instead of {} ({}, modulus {})", what(), hx(&g), w.map_or("refusing".into(), |w| hx(&w)), hs.name(), k.n.to_hex())),
        (Err(e), Some(w)) => Err(format!("{}: decryption refused ({}) instead of {} ({}, modulus {})", what(), e, hx(&w), hs.name(), k.n.to_hex())),
    }
}
/// ciphertext of an encoded message (which must be below the modulus)
fn raise(k: &Nums, em: &[u8]) -> Option<Vec<u8>> {
    let m = Bn::from_be(em);
    if m.ge(&k.n) { return None; }
    Some(m.powm(&k.e, &k.n).to_be_len(k.k()))
}

/// encrypts, recovers the seed and compares with the specified ciphertext; then decrypts
fn encr(t: &T, o: &O, hs: Hs, k: &Nums, label: &[u8], m: &[u8], log: &dyn Fn() -> Vec<u32>) -> Result<Vec<u8>, String> {
    let what = || format!("{} bytes under label {} with {} (modulus {})", m.len(), hx(label), hs.name(), k.n.to_hex());
    let before = log().len();
    let mut c = vec![7; 5];
    t.step();
    o.encrypt(&mut c, m).map_err(|e| format!("encryption of {} refused: {}", what(), e))?;
    if c.len() != k.k() { return Err(format!("encryption of {} gave {} bytes", what(), c.len())); }
    let cb = Bn::from_be(&c);
    if cb.ge(&k.n) { return Err(format!("ciphertext of {} is not below the modulus", what())); }
    let em = k.raw(&cb).to_be_len(k.k());
    let h = |x: &[u8]| hs.h(x);
    let hl = hs.len();
    let seed: Vec<u8> = mgf1(&h, &em[1 + hl..], hl).iter().zip(&em[1..]).map(|(a, b)| a ^ b).collect();
    let want = oaep_encode(&h, hl, k.k(), label, m, &seed).unwrap();
    t.eq(&|| format!("encoded message for {}", what()), &em, &want)?;
    if !from_source(&seed, &log()[before..]) { return Err(format!("the seed {} of the encryption of {} does not come from the random source", hx(&seed), what())); }
    Ok(c)
}

fn labels(i: usize) -> Vec<u8> { match i { 0 => vec![], 1 => vec![0], 2 => b"label".to_vec(), 3 => fill(63, 3), 4 => fill(64, 3), _ => fill(200, 7) } }

fn run(c: &Ctx) {
    // every message length for each hash and key size, labels, blinding; and the lengths just above
    let mut cfg: Vec<(Hs, usize, usize)> = vec![];
    for h in 1..=4usize { for extra in [1usize, 2, 3, 9] { for r in 0..8 { let bits = 8 * (2 * h + 2 + extra) - r; if (bits + 7) / 8 > 2 * h + 2 { cfg.push((Hs::Toy(h), bits, 2)); } } } }
    for (i, hl) in [(0usize, 16usize), (1, 20), (2, 28), (3, 32), (4, 48), (5, 64), (6, 28), (7, 32), (9, 32), (17, 10)] {
        for extra in [1usize, 2, 17] { for r in c.pick(vec![0usize], vec![0, 1, 3, 7]) { cfg.push((Hs::Md(i), 8 * (2 * hl + 2 + extra) - r, 2)); } }
    }
    cfg.push((Hs::Sha3(1), 8 * 80, 2));
    cfg.push((Hs::Sha3(9), 8 * 140, 2));
    cfg.push((Hs::Md(1), 8 * 50 + 1, 3));
    cfg.push((Hs::Md(0), 8 * 60 - 3, 4));
    cfg.push((Hs::Md(3), 1024, 2));
    cfg.push((Hs::Md(1), 1023, 2));
    let nc = cfg.len() as u64;
    c.note(format!("{} combinations of hash, key size and prime count", nc));
    c.par("lengths", nc * 6, |mut i, t| {
        let (hs, bits, np) = cfg[dig(&mut i, nc)];
        let (li, blind) = (i as usize, i % 2 == 1);
        let label = labels(li);
        let rd = Script::stream(i + bits as u64);
        let log = rd.log.clone();
        let lg = || log.borrow().iter().map(|x| x.unwrap_or(0)).collect::<Vec<u32>>();
        let (o, k) = mk(hs, bits, np, &label, blind, rd)?;
        let max = k.k() - 2 * hs.len() - 2;
        if o.max_message_len() != max { return Err(format!("max_message_len() is {} instead of {}", o.max_message_len(), max)); }
        if o.modulus_len() != k.k() || o.digest_len() != hs.len() { return Err("modulus_len or digest_len wrong".into()); }
        t.sample(|| format!("{} over {} bits, {} primes, label {} bytes, lengths 0..={}", hs.name(), bits, np, label.len(), max + 2));
        let lens: Vec<usize> = if max > 40 && li > 0 { vec![0, 1, max / 2, max - 1, max] } else { (0..=max).collect() };
        for n in lens {
            for kind in [0usize, 1, 3] {
                let m = fill(n, kind);
                let ct = encr(t, &o, hs, &k, &label, &m, &lg)?;
                decr(t, &o, hs, &k, &label, &ct, &|| format!("round trip of {} bytes", n))?;
            }
        }
        for n in [max + 1, max + 2, k.k(), 3 * k.k(), max + 256] {
            t.step();
            t.trace();
            if o.encrypt(&mut vec![], &fill(n, 3)).is_ok() { return Err(format!("a message of {} bytes was encrypted although at most {} fit ({} over {} bits)", n, max, hs.name(), bits)); }
        }
        Ok(())
    });
    // every seed byte: constant random words give exactly that seed
    c.par("seeds", 256 * 4, |mut i, t| {
        let h = 1 + dig(&mut i, 4);
        let b = i as u32 * 0x01010101;
        let hs = Hs::Toy(h);
        let rd = Script::words(&[], Tail::Const(b));
        let log = rd.log.clone();
        let lg = || log.borrow().iter().map(|x| x.unwrap_or(0)).collect::<Vec<u32>>();
        let (o, k) = mk(hs, 8 * (2 * h + 5) - 1, 2, b"s", false, rd)?;
        for n in 0..=2 {
            let ct = encr(t, &o, hs, &k, b"s", &fill(n, 2), &lg)?;
            let want = oaep_encode(&|x| hs.h(x), h, k.k(), b"s", &fill(n, 2), &vec![i as u8; h]).unwrap();
            t.eq(&|| format!("ciphertext for seed bytes {:02x}", i), &ct, &raise(&k, &want).unwrap())?;
        }
        Ok(())
    });
    // every position of the random words reaches the seed: one word differs
    c.par("seed-words", 16 * 32, |mut i, t| {
        let pos = dig(&mut i, 16);
        let hs = [Hs::Md(3), Hs::Md(5)][i as usize % 2];
        let bit = i / 2 * 2 + 1;
        let used = (hs.len() + 3) / 4;
        let mut cs = vec![];
        for f in [0u32, 1 << (bit % 32)] {
            let mut w = vec![0u32; 40];
            w[pos % used] = f;
            let (o, k) = mk(hs, 8 * (2 * hs.len() + 12), 2, b"", false, Script::words(&w, Tail::Const(0)))?;
            let mut ct = vec![];
            t.step();
            o.encrypt(&mut ct, b"abc").map_err(|e| format!("{}", e))?;
            decr(t, &o, hs, &k, b"", &ct, &|| "own ciphertext".into())?;
            cs.push(ct);
        }
        t.trace();
        if cs[0] == cs[1] { return Err(format!("random word {} does not influence the ciphertext", pos % used)); }
        Ok(())
    });
    // complete space of small data blocks: every two-byte tail after the label hash, several label hashes and first bytes
    let seeds = c.pick(2u64, 8);
    c.par("all-data-blocks", 65536 / 64 * seeds, |mut i, t| {
        let s = dig(&mut i, seeds) as u8;
        let hs = Hs::Toy(1);
        let (o, k) = mk(hs, 40, 2, b"L", s % 2 == 1, Script::stream(1))?;
        let lh = hs.h(b"L")[0];
        for j in 0..64u64 {
            let v = (i * 64 + j) as u16;
            let db = [lh, (v >> 8) as u8, v as u8];
            let em = oaep_mask(&|x| hs.h(x), 1, 0, &[s.wrapping_mul(85)], &db);
            let ct = match raise(&k, &em) { Some(x) => x, None => continue };
            decr(t, &o, hs, &k, b"L", &ct, &|| format!("data block {}", hx(&db)))?;
        }
        Ok(())
    });
    c.par("all-label-hashes", 256 * 256, |mut i, t| {
        let (lh, y) = (dig(&mut i, 256) as u8, i as u8);
        let hs = Hs::Toy(1);
        let (o, k) = mk(hs, 40, 2, b"L", y % 2 == 1, Script::stream(1))?;
        for tail in [[1u8, 7], [0, 1]] {
            let db = [lh, tail[0], tail[1]];
            let em = oaep_mask(&|x| hs.h(x), 1, y, &[3], &db);
            let ct = match raise(&k, &em) { Some(x) => x, None => continue };
            decr(t, &o, hs, &k, b"L", &ct, &|| format!("first byte {:02x}, data block {}", y, hx(&db)))?;
        }
        Ok(())
    });
    // every field of a larger block corrupted in turn; all positions and values of the separator
    let big: Vec<(Hs, usize)> = vec![(Hs::Md(1), 8 * 60), (Hs::Md(3), 8 * 80 - 5), (Hs::Toy(4), 8 * 20 + 1), (Hs::Md(0), 8 * 40 + 4), (Hs::Md(17), 8 * 40)];
    let ncfg = c.pick(big.len() as u64 - 1, big.len() as u64);
    let positions = 80u64;
    c.par("separator", ncfg * positions * 256, |mut i, t| {
        let (hs, bits) = big[dig(&mut i, ncfg)];
        let v = dig(&mut i, 256) as u8;
        let pos = i as usize;
        let label = b"some label";
        let (o, k) = mk(hs, bits, 2, label, v % 2 == 1, Script::stream(i))?;
        let room = k.k() - 2 * hs.len() - 1;
        if pos >= room { return Ok(()); }
        // zeros up to pos, value v there, then either nothing but zeros or non-zero message bytes
        for rest in [0u8, 1, 0xee] {
            let mut db = hs.h(label);
            db.resize(hs.len() + pos, 0);
            db.push(v);
            db.resize(hs.len() + room, rest);
            let em = oaep_mask(&|x| hs.h(x), hs.len(), 0, &fill(hs.len(), 6 + pos), &db);
            let ct = match raise(&k, &em) { Some(x) => x, None => return Err("block not below the modulus".into()) };
            decr(t, &o, hs, &k, label, &ct, &|| format!("byte {:02x} at position {} after zeros, then {:02x}", v, pos, rest))?;
        }
        Ok(())
    });
    c.par("label-hash-bits", ncfg * 256, |mut i, t| {
        let (hs, bits) = big[dig(&mut i, ncfg)];
        let bit = i as usize;
        if bit >= 8 * hs.len() { return Ok(()); }
        let (o, k) = mk(hs, bits, 2, b"x", bit % 2 == 1, Script::stream(i))?;
        let room = k.k() - 2 * hs.len() - 1;
        let mut db = hs.h(b"x");
        db[bit / 8] ^= 0x80 >> (bit % 8);
        db.push(1);
        db.resize(hs.len() + room, 0x33);
        let em = oaep_mask(&|x| hs.h(x), hs.len(), 0, &fill(hs.len(), 5), &db);
        let ct = raise(&k, &em).unwrap();
        decr(t, &o, hs, &k, b"x", &ct, &|| format!("label hash with bit {} flipped", bit))
    });
    c.par("first-byte", ncfg * 256, |mut i, t| {
        let (hs, bits) = big[dig(&mut i, ncfg)];
        let y = i as u8;
        let (o, k) = mk(hs, bits, 2, b"x", y % 2 == 1, Script::stream(i))?;
        let room = k.k() - 2 * hs.len() - 1;
        let mut db = hs.h(b"x");
        db.push(1);
        db.resize(hs.len() + room, 0x33);
        let em = oaep_mask(&|x| hs.h(x), hs.len(), y, &fill(hs.len(), 5), &db);
        let ct = match raise(&k, &em) { Some(x) => x, None => return Ok(()) };
        decr(t, &o, hs, &k, b"x", &ct, &|| format!("first byte {:02x}", y))
    });
    // every bit of encoded message and ciphertext flipped; lengths; representatives not below the modulus
    c.par("flips", ncfg * 2 * 660, |mut i, t| {
        let (hs, bits) = big[dig(&mut i, ncfg)];
        let kind = dig(&mut i, 2);
        let bit = i as usize;
        let (o, k) = mk(hs, bits, 2, b"q", bit % 2 == 0, Script::stream(i))?;
        if bit >= 8 * k.k() { return Ok(()); }
        let mut em = oaep_encode(&|x| hs.h(x), hs.len(), k.k(), b"q", &fill(3, 3), &fill(hs.len(), 7)).unwrap();
        if kind == 0 { em[bit / 8] ^= 0x80 >> (bit % 8); }
        let mut ct = match raise(&k, &em) { Some(x) => x, None => return Ok(()) };
        if kind == 1 { ct[bit / 8] ^= 0x80 >> (bit % 8); }
        decr(t, &o, hs, &k, b"q", &ct, &|| format!("{} with bit {} flipped", ["encoded message", "ciphertext"][kind], bit))
    });
    c.par("shapes", ncfg * 16 * 40, |mut i, t| {
        let (hs, bits) = big[dig(&mut i, ncfg)];
        let shape = dig(&mut i, 16);
        let s = i as usize;
        let (o, k) = mk(hs, bits, 2, b"q", s % 2 == 0, Script::stream(i))?;
        // search a seed whose ciphertext starts with a zero byte for the shortened forms
        let mut ct = vec![];
        let mut lead = false;
        for j in 0..if shape < 3 { 40 } else { 1 } {
            let em = oaep_encode(&|x| hs.h(x), hs.len(), k.k(), b"q", &fill(4, 3), &fill(hs.len(), 8 + s * 40 + j)).unwrap();
            ct = raise(&k, &em).unwrap();
            if ct[0] == 0 { lead = true; break; }
        }
        let v = match shape {
            0 | 1 | 2 => { if !lead { return Ok(()); } if shape == 2 { ct.clone() } else { ct[1..].to_vec() } }
            3 => { let mut v = vec![0]; v.extend(&ct); v }
            4 => { let mut v = ct.clone(); v.push(0); v }
            5 => ct[..ct.len() - 1].to_vec(),
            6 => vec![],
            7 => vec![0],
            8 => vec![0; k.k()],
            9 => k.n.to_be(),
            10 => k.n.add(&Bn::from_u64(s as u64)).to_be(),
            11 => { let x = Bn::from_be(&ct).add(&k.n); x.to_be() }
            12 => vec![0xff; k.k()],
            13 => k.n.sub(&Bn::from_u64(1 + s as u64)).to_be_len(k.k()),
            14 => { let mut v = ct.clone(); v.extend(&ct); v }
            _ => Bn::from_u64(s as u64).to_be_len(k.k()),
        };
        decr(t, &o, hs, &k, b"q", &v, &|| format!("ciphertext shape {} ({} bytes)", shape, v.len()))
    });
    // moduli around and above 256 bytes
    c.par("large-moduli", LARGE.len() as u64 * 4 * 2, |mut i, t| {
        let (bits, np) = LARGE[dig(&mut i, LARGE.len() as u64)];
        let hs = [Hs::Toy(1), Hs::Md(0), Hs::Md(1), Hs::Md(5)][dig(&mut i, 4)];
        let rd = Script::stream(i);
        let log = rd.log.clone();
        let lg = || log.borrow().iter().map(|x| x.unwrap_or(0)).collect::<Vec<u32>>();
        let (o, k) = mk(hs, bits, np, b"large", i == 1, rd)?;
        let max = k.k() - 2 * hs.len() - 2;
        if o.max_message_len() != max { return Err(format!("max_message_len() is {} instead of {}", o.max_message_len(), max)); }
        let mut lens: Vec<usize> = LENS.iter().copied().filter(|&n| n < max).step_by(if bits > 2100 && !t.thorough() { 3 } else { 1 }).collect();
        lens.extend([max - 1, max]);
        for n in lens {
            let m = fill(n, [0, 3][n % 2]);
            let ct = encr(t, &o, hs, &k, b"large", &m, &lg)?;
            decr(t, &o, hs, &k, b"large", &ct, &|| format!("{} bytes over {} bits", n, bits))?;
        }
        for n in [max + 1, max + 2, k.k(), k.k() + 1, max + 256, max + 65536] {
            t.step();
            if o.encrypt(&mut vec![], &fill(n, 3)).is_ok() { return Err(format!("a message of {} bytes was encrypted although at most {} fit ({} over {} bits)", n, max, hs.name(), bits)); }
        }
        Ok(())
    });
    // long labels: every length to two blocks, and around every power of two
    c.par("long-labels", 300 + 10 * 3, |i, t| {
        let n = if i < 300 { i } else { (1 << (8 + (i - 300) / 3)) + (i - 300) % 3 - 1 } as usize;
        let hs = [Hs::Md(1), Hs::Md(5), Hs::Toy(4)][i as usize % 3];
        let rd = Script::stream(i);
        let log = rd.log.clone();
        let lg = || log.borrow().iter().map(|x| x.unwrap_or(0)).collect::<Vec<u32>>();
        let label = fill(n, 3);
        let (mut o, k) = mk(hs, 8 * (2 * hs.len() + 9), 2, &label, false, rd)?;
        let ct = encr(t, &o, hs, &k, &label, b"hello", &lg)?;
        decr(t, &o, hs, &k, &label, &ct, &|| format!("label of {} bytes", n))?;
        // last byte dropped, changed, one more, first byte changed
        let mut v = vec![[&label[..], &[0]].concat()];
        if n > 0 { v.push(label[..n - 1].to_vec()); let mut x = label.clone(); x[n - 1] ^= 1; v.push(x); let mut x = label.clone(); x[0] ^= 0x80; v.push(x); }
        for l in v {
            o.set_label(l.clone());
            decr(t, &o, hs, &k, &l, &ct, &|| format!("label of {} bytes instead of {}", l.len(), n))?;
        }
        Ok(())
    });
    // one object through many calls
    c.par("endurance", 4, |i, t| {
        let hs = Hs::Toy(2);
        let rd = Script::stream(i);
        let log = rd.log.clone();
        let lg = || log.borrow().iter().map(|x| x.unwrap_or(0)).collect::<Vec<u32>>();
        let (o, k) = mk(hs, 8 * 14 - i as usize, 2, b"l", i % 2 == 1, rd)?;
        for n in 0..t.pick(1100usize, 9000) {
            let m = fill(n % (k.k() - 5), n % 11);
            let ct = encr(t, &o, hs, &k, b"l", &m, &lg)?;
            if n % 3 > 0 || i > 1 { decr(t, &o, hs, &k, b"l", &ct, &|| format!("call {}", n))?; }
            if n % 7 == 0 { let mut bad = ct; bad[3] ^= 1; decr(t, &o, hs, &k, b"l", &bad, &|| format!("damaged ciphertext, call {}", n))?; }
        }
        Ok(())
    });
    // labels: encrypted under one, decrypted under another
    c.par("labels", 36 * 3, |mut i, t| {
        let (a, b) = (dig(&mut i, 6), dig(&mut i, 6));
        let hs = [Hs::Md(1), Hs::Md(3), Hs::Toy(4)][i as usize];
        let rd = Script::stream(i);
        let log = rd.log.clone();
        let lg = || log.borrow().iter().map(|x| x.unwrap_or(0)).collect::<Vec<u32>>();
        let (mut o, k) = mk(hs, 8 * (2 * hs.len() + 9), 2, &labels(a), false, rd)?;
        let ct = encr(t, &o, hs, &k, &labels(a), b"hello", &lg)?;
        o.set_label(labels(b));
        decr(t, &o, hs, &k, &labels(b), &ct, &|| format!("label {} after label {}", b, a))?;
        o.set_label(labels(a));
        decr(t, &o, hs, &k, &labels(a), &ct, &|| "first label set again".into())
    });
    // sequences of operations on one object
    let depth = c.pick(4u32, 5);
    c.par("histories", seqs_upto(8, depth) * 2, |mut i, t| {
        let blind = dig(&mut i, 2) == 1;
        let ops = seq(i, 8, depth);
        let hs = Hs::Toy(3);
        let rd = Script::stream(i);
        let log = rd.log.clone();
        let lg = || log.borrow().iter().map(|x| x.unwrap_or(0)).collect::<Vec<u32>>();
        let (mut o, k) = mk(hs, 8 * 12 - 2, 2, b"A", blind, rd)?;
        let mut label = b"A".to_vec();
        let good = |l: &[u8]| raise(&k, &oaep_encode(&|x| hs.h(x), 3, k.k(), l, &[5, 6], &[1, 2, 3]).unwrap()).unwrap();
        let mut last = good(b"A");
        for op in ops {
            match op {
                0 => last = encr(t, &o, hs, &k, &label, &[], &lg)?,
                1 => last = encr(t, &o, hs, &k, &label, &[1, 2, 3], &lg)?,
                2 => { t.step(); if o.encrypt(&mut vec![], &[0; 5]).is_ok() { return Err("too long a message encrypted".into()); } }
                3 => { label = b"B".to_vec(); o.set_label(label.clone()) }
                4 => { label = b"A".to_vec(); o.set_label(label.clone()) }
                5 => decr(t, &o, hs, &k, &label, &last, &|| "latest ciphertext".into())?,
                6 => decr(t, &o, hs, &k, &label, &good(b"B"), &|| "ciphertext for label B".into())?,
                _ => { let mut x = last.clone(); x[11] ^= 1; decr(t, &o, hs, &k, &label, &x, &|| "damaged ciphertext".into())? }
            }
        }
        Ok(())
    });
    // keys too small, public keys only, generated keys
    c.par("constructors", 10 * 70, |mut i, t| {
        let hs = [Hs::Md(0), Hs::Md(1), Hs::Md(3), Hs::Md(5), Hs::Toy(1), Hs::Toy(2), Hs::Toy(5), Hs::Md(17), Hs::Md(9), Hs::Sha3(1)][dig(&mut i, 10)];
        let hl = hs.len();
        let k = i as usize * 2 + 5;
        let (sk, nu) = cached(8 * k - (k % 8), 2, 0)?;
        let kk = nu.k();
        let pk = PublicKey::from_be_bytes(&nu.n.to_be(), &nu.e.to_be()).map_err(|e| format!("{}", e))?;
        t.trace();
        let rd = Script::stream(4);
        let log = rd.log.clone();
        let lg = || log.borrow().iter().map(|x| x.unwrap_or(0)).collect::<Vec<u32>>();
        let o = OAEP::new(hs.make(), rd, KeyPair::from(pk), vec![], true);
        let o2 = OAEP::new_uncheck(hs.make(), Script::stream(4), KeyPair::from(sk), vec![], true);
        if kk < 2 * hl + 2 {
            if o.is_ok() || o2.is_ok() { return Err(format!("a {}-byte modulus was accepted for {}", kk, hs.name())); }
            return Ok(());
        }
        if kk == 2 * hl + 2 { return Ok(()); }
        let (o, o2) = (o.map_err(|e| format!("public key refused: {}", e))?, o2.map_err(|e| format!("private key refused: {}", e))?);
        let ct = encr(t, &o, hs, &nu, b"", &fill((kk - 2 * hl - 2).min(3), 3), &lg)?;
        t.step();
        if o.decrypt(&mut vec![], &ct).is_ok() { return Err("decryption with a public key only succeeded".into()); }
        decr(t, &o2, hs, &nu, b"", &ct, &|| "ciphertext of the public-key object".into())
    });
    c.par("auto-generated", 60, |i, t| {
        let hs = [Hs::Md(0), Hs::Toy(2), Hs::Md(1)][i as usize % 3];
        let bits = [8 * 32usize, 8 * 34, 8 * 34 + 1, 8 * 35, 8 * 36 + 1, 8 * 43, 8 * 44, 60, 47, 48, 49, 56, 57, 400, 401, 402, 403, 404, 405, 406][i as usize / 3];
        let o = OAEP::auto_generate_key(bits, 4, hs.make(), Script::stream(i), b"g".to_vec(), i % 2 == 0);
        let k = (bits + 7) / 8;
        t.step();
        t.trace();
        match o {
            Err(e) => if k > 2 * hs.len() + 2 { Err(format!("generating a {}-bit key for {} failed: {}", bits, hs.name(), e)) } else { Ok(()) },
            Ok(o) => {
                if k < 2 * hs.len() + 2 { return Err(format!("{}-bit key accepted for {}", bits, hs.name())); }
                if o.modulus_len() != k { return Err("modulus length wrong".into()); }
                let (mut ct, mut m) = (vec![], vec![]);
                for n in 0..=o.max_message_len() {
                    o.encrypt(&mut ct, &fill(n, 1)).map_err(|e| format!("{}", e))?;
                    o.decrypt(&mut m, &ct).map_err(|e| format!("{}", e))?;
                    t.steps(2);
                    t.eq(&|| format!("round trip of {} bytes", n), &m, &fill(n, 1))?;
                }
                Ok(())
            }
        }
    });
}
