//! C21: RSASSA-PSS.
use rcrypto::rsa::{KeyPair, PublicKey, SignatureContent, PSS};
use rcrypto::Signature;
use vh::engine::{self, hx, Ctx, R, T};
use vh::enumr::{dig, fill, seq, seqs_upto};
use vh::refs::bn::Bn;
use vh::refs::modes::xor;
use vh::refs::rsa::{mgf1, pss_encode, pss_verify};
use vh::rsak::{cached, from_source, Hs, Nums, LARGE, LENS};
use vh::scripted::{Script, Tail};
use vh::zoo::BoxD;

fn main() { engine::main("C21", run) }

type P = PSS<BoxD, Script>;
fn em_len(bits: usize) -> usize { (bits - 1 + 7) / 8 }
/// salt length in force, None when it does not fit
fn slen(hs: Hs, bits: usize, s: Option<usize>) -> Option<usize> {
    let room = em_len(bits).checked_sub(hs.len() + 2)?;
    let x = match s { None => hs.len(), Some(0) => room, Some(x) => x };
    if x > room { None } else { Some(x) }
}
fn mk(hs: Hs, bits: usize, np: usize, s: Option<usize>, blind: bool, rd: Script) -> Result<(P, Nums), String> {
    let (sk, k) = cached(bits, np, 0)?;
    let p = if bits % 2 == 0 { PSS::new(hs.make(), rd, KeyPair::from(sk), s, blind) } else { PSS::new_uncheck(hs.make(), rd, KeyPair::from(sk), s, blind) };
    Ok((p.map_err(|e| format!("PSS over {} bits with {} and salt {:?} refused: {}", bits, hs.name(), s, e))?, k))
}
macro_rules! logged {
    ($rd:expr) => {{ let l = $rd.log.clone(); move || l.borrow().iter().map(|x| x.unwrap_or(0)).collect::<Vec<u32>>() }};
}

fn oracle(hs: Hs, k: &Nums, sl: usize, s: &[u8], m: &[u8]) -> bool {
    let bits = k.n.bits();
    if s.len() != k.k() { return false; }
    let sb = Bn::from_be(s);
    if sb.ge(&k.n) { return false; }
    let e = sb.powm(&k.e, &k.n);
    if (e.bits() + 7) / 8 > em_len(bits) { return false; }
    pss_verify(&|x| hs.h(x), hs.len(), &hs.h(m), &e.to_be_len(em_len(bits)), bits - 1, Some(sl))
}
fn ver(t: &T, p: &mut P, hs: Hs, k: &Nums, sl: usize, s: &[u8], m: &[u8], what: &dyn Fn() -> String) -> R {
    t.step();
    t.trace();
    let got = p.verify(&SignatureContent::from(s), m).is_ok();
    let want = oracle(hs, k, sl, s, m);
    t.state(s);
    if got != want { return Err(format!("{}: signature {} {} ({}, salt length {}, modulus {})", what(), hx(s), if got { "accepted" } else { "refused" }, hs.name(), sl, k.n.to_hex())); }
    Ok(())
}
/// signature whose recovered block is the given one
fn forge(k: &Nums, block: &[u8]) -> Option<Vec<u8>> {
    let m = Bn::from_be(block);
    if m.ge(&k.n) { return None; }
    Some(k.raw(&m).to_be_len(k.k()))
}
fn enc(hs: Hs, k: &Nums, m: &[u8], salt: &[u8]) -> Vec<u8> { pss_encode(&|x| hs.h(x), hs.len(), &hs.h(m), salt, k.n.bits() - 1).unwrap() }

fn sign(t: &T, p: &mut P, hs: Hs, k: &Nums, sl: usize, m: &[u8], log: &dyn Fn() -> Vec<u32>) -> Result<Vec<u8>, String> {
    let what = || format!("signature of {} bytes ({}, salt length {}, {} bits)", m.len(), hs.name(), sl, k.n.bits());
    let before = log().len();
    let mut s = SignatureContent::from(vec![1u8, 2, 3]);
    t.step();
    p.sign(&mut s, m).map_err(|e| format!("{} failed: {}", what(), e))?;
    let s = s.as_slice().to_vec();
    if s.len() != k.k() { return Err(format!("{} has {} bytes", what(), s.len())); }
    let sb = Bn::from_be(&s);
    if sb.ge(&k.n) { return Err(format!("{} is not below the modulus", what())); }
    let bits = k.n.bits();
    let el = em_len(bits);
    let e = sb.powm(&k.e, &k.n);
    if (e.bits() + 7) / 8 > el { return Err(format!("{}: recovered block too long", what())); }
    let e = e.to_be_len(el);
    // recover the salt
    let hl = hs.len();
    let (mdb, hh) = (&e[..el - hl - 1], &e[el - hl - 1..el - 1]);
    let db = xor(mdb, &mgf1(&|x| hs.h(x), hh, mdb.len()));
    let salt = &db[db.len() - sl..];
    t.eq(&what, &e, &enc(hs, k, m, salt))?;
    if !from_source(salt, &log()[before..]) { return Err(format!("{}: the salt {} does not come from the random source", what(), hx(salt))); }
    Ok(s)
}

fn run(c: &Ctx) {
    // toy hashes: every modulus size in a range, every salt setting
    let hi = c.pick(200u64, 320);
    c.par("sizes", (hi - 31) * 4 * 2, |mut i, t| {
        let h = 1 + dig(&mut i, 4);
        let blind = dig(&mut i, 2) == 1;
        let bits = 32 + i as usize;
        let hs = Hs::Toy(h);
        let el = em_len(bits);
        if el < h + 2 { return Ok(()); }
        let mut settings: Vec<Option<usize>> = vec![None];
        for s in 0..=el - h - 2 { settings.push(Some(s)); }
        t.sample(|| format!("{} over {} bits, {} salt settings", hs.name(), bits, settings.len()));
        for st in settings {
            let rd = Script::stream(i + st.unwrap_or(99) as u64);
            let lg = logged!(rd);
            let sl = match slen(hs, bits, st) { Some(x) => x, None => continue };
            let (mut p, k) = mk(hs, bits, 2, st, blind, rd)?;
            t.trace();
            if p.salt_len() != sl { return Err(format!("salt_len() is {} instead of {} for setting {:?}, {} over {} bits", p.salt_len(), sl, st, hs.name(), bits)); }
            if p.modulus_len() != k.k() || p.digest_len() != h { return Err("modulus_len or digest_len wrong".into()); }
            for n in [0usize, 1, 9] {
                let m = fill(n, 3);
                let s = sign(t, &mut p, hs, &k, sl, &m, &lg)?;
                ver(t, &mut p, hs, &k, sl, &s, &m, &|| format!("own signature of {} bytes", n))?;
                let s = forge(&k, &enc(hs, &k, &m, &fill(sl, 7))).unwrap();
                ver(t, &mut p, hs, &k, sl, &s, &m, &|| "reference signature".into())?;
                ver(t, &mut p, hs, &k, sl, &s, &fill(n + 1, 3), &|| "other message".into())?;
            }
        }
        Ok(())
    });
    // moduli around and above 256 bytes, salts of more than 255 bytes
    c.par("large-moduli", LARGE.len() as u64 * 4 * 6, |mut i, t| {
        let (bits, np) = LARGE[dig(&mut i, LARGE.len() as u64)];
        let hs = [Hs::Toy(1), Hs::Md(1), Hs::Md(5), Hs::Md(0)][dig(&mut i, 4)];
        let st = [None, Some(0), Some(1), Some(128), Some(em_len(bits) - hs.len() - 2), Some(em_len(bits) - hs.len() - 3)][i as usize];
        let rd = Script::stream(i);
        let lg = logged!(rd);
        let sl = slen(hs, bits, st).unwrap();
        let (mut p, k) = mk(hs, bits, np, st, i % 2 == 0, rd)?;
        if p.salt_len() != sl { return Err(format!("salt_len() is {} instead of {} for setting {:?}, {} over {} bits", p.salt_len(), sl, st, hs.name(), bits)); }
        let m = fill(9, 3);
        let s = sign(t, &mut p, hs, &k, sl, &m, &lg)?;
        ver(t, &mut p, hs, &k, sl, &s, &m, &|| "own signature".into())?;
        ver(t, &mut p, hs, &k, sl, &s, &fill(9, 4), &|| "another message".into())?;
        let block = enc(hs, &k, &m, &fill(sl, 7));
        let s = forge(&k, &block).unwrap();
        ver(t, &mut p, hs, &k, sl, &s, &m, &|| "reference signature".into())?;
        for n in LENS.iter().copied().filter(|&n| n < block.len()).step_by(if t.thorough() { 1 } else { 4 + bits / 1000 }) {
            let mut b = block.clone();
            b[n] ^= 1;
            if let Some(f) = forge(&k, &b) { ver(t, &mut p, hs, &k, sl, &f, &m, &|| format!("block with byte {} of {} changed", n, b.len()))?; }
        }
        // another salt length than the configured one
        for d in [sl + 1, sl.wrapping_sub(1), sl + 256, sl.wrapping_sub(256)] {
            if d <= em_len(bits) - hs.len() - 2 {
                let f = forge(&k, &enc(hs, &k, &m, &fill(d, 7))).unwrap();
                ver(t, &mut p, hs, &k, sl, &f, &m, &|| format!("salt of {} bytes instead of {}", d, sl))?;
            }
        }
        Ok(())
    });
    // every message length to a few blocks, and around every power of two
    c.par("message-lengths", 2 * (300 + 30), |mut i, t| {
        let hs = [Hs::Md(1), Hs::Toy(3)][dig(&mut i, 2)];
        let n = if i < 300 { i } else { (1 << (8 + (i - 300) / 3)) + (i - 300) % 3 - 1 } as usize;
        let rd = Script::stream(i);
        let lg = logged!(rd);
        let (mut p, k) = mk(hs, 8 * 32, 2, Some(2), false, rd)?;
        let m = fill(n, 3);
        let s = sign(t, &mut p, hs, &k, 2, &m, &lg)?;
        ver(t, &mut p, hs, &k, 2, &s, &m, &|| format!("own signature of {} bytes", n))?;
        let mut v = vec![[&m[..], &[0]].concat()];
        if n > 0 { v.push(m[..n - 1].to_vec()); let mut x = m.clone(); x[n - 1] ^= 1; v.push(x); let mut x = m.clone(); x[0] ^= 0x80; v.push(x); }
        for x in v { ver(t, &mut p, hs, &k, 2, &s, &x, &|| format!("other message of {} bytes", x.len()))?; }
        Ok(())
    });
    // one object through many calls
    c.par("endurance", 4, |i, t| {
        let hs = Hs::Toy(3);
        let rd = Script::stream(i);
        let lg = logged!(rd);
        let (mut p, k) = mk(hs, 8 * 12 + i as usize, 2, Some(2), i % 2 == 0, rd)?;
        for n in 0..t.pick(1100usize, 9000) {
            let m = fill(n % 70, n % 11);
            let s = sign(t, &mut p, hs, &k, 2, &m, &lg)?;
            if n % 3 > 0 || i > 1 { ver(t, &mut p, hs, &k, 2, &s, &m, &|| format!("signature number {}", n))?; }
            if n % 7 == 0 { let mut bad = s; bad[3] ^= 1; ver(t, &mut p, hs, &k, 2, &bad, &m, &|| format!("damaged signature number {}", n))?; }
        }
        Ok(())
    });
    // settings that do not fit are refused at construction
    c.par("too-long", 60 * 5, |mut i, t| {
        let hs = [Hs::Toy(1), Hs::Toy(3), Hs::Md(0), Hs::Md(1), Hs::Md(3)][dig(&mut i, 5)];
        let bits = 24 + 5 * i as usize;
        let (sk, k) = cached(bits, 2, 0)?;
        for s in 0..60usize {
            let st = if s == 59 { None } else { Some(s) };
            let want = slen(hs, bits, st);
            for w in 0..2 {
                let kp = if w == 0 { KeyPair::from(sk.clone()) } else { KeyPair::from(PublicKey::from_be_bytes(&k.n.to_be(), &k.e.to_be()).unwrap()) };
                let p = PSS::new(hs.make(), Script::stream(1), kp, st, false);
                t.step();
                t.trace();
                match (p, want) {
                    (Ok(p), Some(x)) if p.salt_len() == x => {}
                    (Err(_), None) => {}
                    (Ok(p), _) => return Err(format!("salt setting {:?} for {} over {} bits gives salt length {} instead of {:?}", st, hs.name(), bits, p.salt_len(), want)),
                    (Err(e), _) => return Err(format!("salt setting {:?} for {} over {} bits refused: {}", st, hs.name(), bits, e)),
                }
            }
        }
        Ok(())
    });
    // real hashes
    let mut cfg: Vec<(Hs, usize, Option<usize>)> = vec![];
    for hs in [Hs::Md(0), Hs::Md(1), Hs::Md(2), Hs::Md(3), Hs::Md(4), Hs::Md(5), Hs::Md(6), Hs::Md(7), Hs::Md(9), Hs::Md(17), Hs::Sha3(1), Hs::Sha3(3), Hs::Sha3(8)] {
        let h = hs.len();
        for r in 0..8 {
            cfg.push((hs, 8 * (2 * h + 2) + 1 + r, None));
            if r % 3 == 0 { cfg.push((hs, 8 * (h + 9) + r, Some(0))); cfg.push((hs, 8 * (h + 9) + r, Some(1))); cfg.push((hs, 8 * (h + 9) + r, Some(5))); }
        }
    }
    for r in 0..2 { cfg.push((Hs::Md(1), 1024 + r, None)); cfg.push((Hs::Md(3), 1024 + r, Some(0))); cfg.push((Hs::Md(5), 1040 + r, Some(62))); }
    let nc = cfg.len() as u64;
    c.par("hashes", nc, |i, t| {
        let (hs, bits, st) = cfg[i as usize];
        let rd = Script::stream(i);
        let lg = logged!(rd);
        let sl = slen(hs, bits, st).unwrap();
        let (mut p, k) = mk(hs, bits, 2 + (i % 5 == 4) as usize, st, i % 2 == 0, rd)?;
        if p.salt_len() != sl { return Err(format!("salt_len() is {} instead of {} for setting {:?}, {} over {} bits", p.salt_len(), sl, st, hs.name(), bits)); }
        for n in [0usize, 3, 64, 200] {
            let m = fill(n, 3);
            let s = sign(t, &mut p, hs, &k, sl, &m, &lg)?;
            ver(t, &mut p, hs, &k, sl, &s, &m, &|| format!("own signature of {} bytes", n))?;
            let s = forge(&k, &enc(hs, &k, &m, &fill(sl, 7))).unwrap();
            ver(t, &mut p, hs, &k, sl, &s, &m, &|| "reference signature".into())?;
            let mut m2 = m.clone();
            m2.push(0);
            ver(t, &mut p, hs, &k, sl, &s, &m2, &|| "message with a zero byte more".into())?;
        }
        Ok(())
    });
    // salts: every constant byte; exact salt expected
    c.par("salts", 256 * 4, |mut i, t| {
        let x = dig(&mut i, 4);
        let (hs, bits, st) = [(Hs::Toy(2), 64usize, None), (Hs::Toy(2), 65, Some(4)), (Hs::Toy(3), 90, Some(0)), (Hs::Md(0), 8 * 36, Some(17))][x];
        let rd = Script::new(vec![], Tail::Const(i as u32 * 0x01010101));
        let lg = logged!(rd);
        let sl = slen(hs, bits, st).unwrap();
        let (mut p, k) = mk(hs, bits, 2, st, false, rd)?;
        let s = sign(t, &mut p, hs, &k, sl, b"m", &lg)?;
        t.eq(&|| format!("signature with salt bytes {:02x}", i), &s, &forge(&k, &enc(hs, &k, b"m", &vec![i as u8; sl])).unwrap())
    });
    // every word of the random source reaches the salt
    c.par("salt-words", 16 * 8, |mut i, t| {
        let hs = Hs::Md(3);
        let pos = dig(&mut i, 8);
        let mut out = vec![];
        for f in [0u32, 1 << (2 * i)] {
            let mut w = vec![0u32; 16];
            w[pos] = f;
            let rd = Script::words(&w, Tail::Const(0));
            let lg = logged!(rd);
            let (mut p, k) = mk(hs, 8 * 68, 2, None, false, rd)?;
            out.push(sign(t, &mut p, hs, &k, 32, b"m", &lg)?);
        }
        if out[0] == out[1] { return Err(format!("random word {} does not influence the salt", pos)); }
        Ok(())
    });
    // corruptions of the encoded block
    let cc: Vec<(Hs, usize, Option<usize>)> = {
        let mut v = vec![];
        for r in 0..8 { v.push((Hs::Toy(4), 8 * 16 + 1 + r, Some(4))); }
        for r in [0usize, 1, 7] { v.push((Hs::Md(1), 8 * 45 + r, None)); v.push((Hs::Toy(3), 8 * 9 + r, Some(0))); v.push((Hs::Toy(2), 8 * 14 + r, Some(3))); v.push((Hs::Md(0), 8 * 40 + r, Some(1))); }
        v
    };
    let ncc = cc.len() as u64;
    // all 256 values of every byte of the data block, of the top byte and of the trailer
    c.par("data-block-bytes", ncc * 32 * 256, |mut i, t| {
        let (hs, bits, st) = cc[dig(&mut i, ncc)];
        let v = dig(&mut i, 256) as u8;
        let pos = i as usize;
        let sl = slen(hs, bits, st).unwrap();
        let el = em_len(bits);
        let dbl = el - hs.len() - 1;
        if pos >= dbl { return Ok(()); }
        if !t.thorough() && bits > 200 && v > 3 && v % 29 != 0 { return Ok(()); }
        let (mut p, k) = mk(hs, bits, 2, st, false, Script::stream(1))?;
        let salt = fill(sl, 7);
        // the hash stays the one of the salt found in the block, so that only the format is wrong
        let mut db = vec![0u8; dbl - sl - 1];
        db.push(1);
        db.extend(&salt);
        db[pos] = v;
        for rehash in [false, true] {
            let mut mm = vec![0u8; 8];
            mm.extend(hs.h(b"msg"));
            mm.extend(if rehash { &db[dbl - sl..] } else { &salt[..] });
            let hh = hs.h(&mm);
            let mut e = xor(&db, &mgf1(&|x| hs.h(x), &hh, dbl));
            e[0] &= 0xff >> (8 * el - (bits - 1));
            e.extend(&hh);
            e.push(0xbc);
            let s = match forge(&k, &e) { Some(s) => s, None => continue };
            ver(t, &mut p, hs, &k, sl, &s, b"msg", &|| format!("data block byte {} set to {:02x}", pos, v))?;
        }
        Ok(())
    });
    c.par("trailer-and-top", ncc * 256 * 2, |mut i, t| {
        let (hs, bits, st) = cc[dig(&mut i, ncc)];
        let which = dig(&mut i, 2);
        let v = i as u8;
        let sl = slen(hs, bits, st).unwrap();
        let (mut p, k) = mk(hs, bits, 2, st, false, Script::stream(1))?;
        let mut e = enc(hs, &k, b"msg", &fill(sl, 5));
        let n = e.len();
        if which == 0 { e[n - 1] = v } else { e[0] = v }
        match forge(&k, &e) { Some(s) => ver(t, &mut p, hs, &k, sl, &s, b"msg", &|| format!("{} byte {:02x}", ["trailer", "top"][which], v)), None => Ok(()) }
    });
    // a number that reaches into the byte above the encoded block, which exists when the modulus has one bit more than whole bytes
    c.par("byte-above", 5 * 40, |mut i, t| {
        let (hs, bits, st) = [(Hs::Toy(4), 8 * 16 + 1usize, Some(4)), (Hs::Md(1), 8 * 45 + 1, None), (Hs::Toy(3), 8 * 9 + 1, Some(0)), (Hs::Toy(2), 8 * 14 + 1, Some(3)), (Hs::Md(0), 8 * 40 + 1, Some(1))][dig(&mut i, 5)];
        let sl = slen(hs, bits, st).unwrap();
        let (mut p, k) = mk(hs, bits, 2, st, false, Script::stream(1))?;
        let msg = format!("msg{}", i);
        let mut some = false;
        for j in 0..40 {
            let mut e = vec![1u8];
            e.extend(enc(hs, &k, msg.as_bytes(), &fill(sl, j)));
            if let Some(s) = forge(&k, &e) {
                some = true;
                ver(t, &mut p, hs, &k, sl, &s, msg.as_bytes(), &|| "block with a byte 01 in front".into())?;
                break;
            }
        }
        if some { t.trace() }
        Ok(())
    });
    // a salt of another length than the configured one, every pair
    c.par("salt-lengths", 24 * 24 * 3, |mut i, t| {
        let (hs, bits) = [(Hs::Toy(2), 8 * 24 + 1usize), (Hs::Toy(3), 8 * 20), (Hs::Md(0), 8 * 36)][dig(&mut i, 3)];
        let (a, b) = (1 + dig(&mut i, 24), i as usize);
        let sl = match slen(hs, bits, Some(a)) { Some(x) => x, None => return Ok(()) };
        if slen(hs, bits, Some(b.max(1))).is_none() { return Ok(()); }
        let (mut p, k) = mk(hs, bits, 2, Some(a), false, Script::stream(1))?;
        let s = forge(&k, &enc(hs, &k, b"msg", &fill(b, 5))).unwrap();
        ver(t, &mut p, hs, &k, sl, &s, b"msg", &|| format!("salt of {} bytes, configured {}", b, a))
    });
    // every bit of block, signature and message flipped
    c.par("flips", ncc * 2 * 370, |mut i, t| {
        let (hs, bits, st) = cc[dig(&mut i, ncc)];
        let kind = dig(&mut i, 2);
        let bit = i as usize;
        let sl = slen(hs, bits, st).unwrap();
        let (mut p, k) = mk(hs, bits, 2, st, false, Script::stream(1))?;
        let mut e = enc(hs, &k, b"msg", &fill(sl, 5));
        if bit >= 8 * e.len() { return Ok(()); }
        if kind == 0 { e[bit / 8] ^= 0x80 >> (bit % 8); }
        let mut s = match forge(&k, &e) { Some(s) => s, None => return Ok(()) };
        if kind == 1 { s[bit / 8] ^= 0x80 >> (bit % 8); }
        ver(t, &mut p, hs, &k, sl, &s, b"msg", &|| format!("{} bit {} flipped", ["block", "signature"][kind], bit))?;
        if bit < 24 {
            let mut m = b"msg".to_vec();
            m[bit / 8] ^= 0x80 >> (bit % 8);
            ver(t, &mut p, hs, &k, sl, &s, &m, &|| format!("message bit {} flipped", bit))?;
        }
        Ok(())
    });
    // other octet strings
    c.par("representations", ncc * 16 * 10, |mut i, t| {
        let (hs, bits, st) = cc[dig(&mut i, ncc)];
        let shape = dig(&mut i, 16);
        let v = i as usize;
        let sl = slen(hs, bits, st).unwrap();
        let (mut p, k) = mk(hs, bits, 2, st, false, Script::stream(1))?;
        let mut s = vec![];
        let mut lead = false;
        for j in 0..if shape <= 2 { 200 } else { 1 } {
            s = forge(&k, &enc(hs, &k, b"msg", &fill(sl, 30 + v + 10 * j))).unwrap();
            if s[0] == 0 { lead = true; break; }
        }
        if shape <= 2 && !lead { return Ok(()); }
        let sb = Bn::from_be(&s);
        let x = match shape {
            0 | 1 => s[1..].to_vec(),
            2 => s.clone(),
            3 => { let mut x = vec![0]; x.extend(&s); x }
            4 => { let mut x = vec![0; 5]; x.extend(&s); x }
            5 => { let mut x = s.clone(); x.push(0); x }
            6 => sb.add(&k.n).to_be(),
            7 => { let x = sb.add(&k.n); if (x.bits() + 7) / 8 > k.k() { return Ok(()); } x.to_be_len(k.k()) }
            8 => k.n.sub(&sb).to_be_len(k.k()),
            9 => vec![],
            10 => vec![0; k.k()],
            11 => k.n.to_be(),
            12 => s.iter().rev().copied().collect(),
            13 => Bn::one().to_be_len(k.k()),
            14 => vec![0xff; k.k()],
            _ => s[..s.len() - 1].to_vec(),
        };
        ver(t, &mut p, hs, &k, sl, &x, b"msg", &|| format!("representation {}", shape))
    });
    // all representatives of small values: block too short, too long, zero
    c.par("small-values", 8 * 512, |mut i, t| {
        let r = dig(&mut i, 8);
        let bits = 8 * 9 + 1 + r;
        let hs = Hs::Toy(3);
        let (mut p, k) = mk(hs, bits, 2, Some(2), false, Script::stream(1))?;
        for e in [Bn::from_u64(i), k.n.sub(&Bn::from_u64(1 + i)), Bn::one().shl(bits - 1).sub(&Bn::from_u64(1 + i)), Bn::one().shl(bits - 2).add(&Bn::from_u64(i))] {
            let s = k.raw(&e).to_be_len(k.k());
            ver(t, &mut p, hs, &k, 2, &s, b"msg", &|| format!("recovered value {}", e.to_hex()))?;
        }
        Ok(())
    });
    // sequences of operations on one object
    let depth = c.pick(5u32, 6);
    c.par("histories", seqs_upto(6, depth) * 4, |mut i, t| {
        let x = dig(&mut i, 4);
        let ops = seq(i, 6, depth);
        let (hs, bits, st) = [(Hs::Toy(3), 97usize, None), (Hs::Toy(3), 96, Some(0)), (Hs::Toy(2), 99, Some(1)), (Hs::Md(0), 8 * 30, Some(9))][x];
        let rd = Script::stream(i);
        let lg = logged!(rd);
        let sl = slen(hs, bits, st).unwrap();
        let (mut p, k) = mk(hs, bits, 2, st, x % 2 == 1, rd)?;
        let mut last = forge(&k, &enc(hs, &k, b"A", &fill(sl, 3))).unwrap();
        let mut lm: Vec<u8> = b"A".to_vec();
        for op in ops {
            match op {
                0 => { last = sign(t, &mut p, hs, &k, sl, b"A", &lg)?; lm = b"A".to_vec(); }
                1 => { last = sign(t, &mut p, hs, &k, sl, b"", &lg)?; lm = vec![]; }
                2 => ver(t, &mut p, hs, &k, sl, &last, &lm, &|| "latest signature".into())?,
                3 => ver(t, &mut p, hs, &k, sl, &last, b"other", &|| "latest signature for another message".into())?,
                4 => ver(t, &mut p, hs, &k, sl, &last[1..], &lm, &|| "cut signature".into())?,
                _ => { let mut y = last.clone(); y[3] ^= 8; ver(t, &mut p, hs, &k, sl, &y, &lm, &|| "damaged signature".into())? }
            }
        }
        Ok(())
    });
    // public key only; generated keys
    c.par("public-only", 40, |i, t| {
        let hs = Hs::Toy(3);
        let (_, k) = cached(80 + i as usize, 2, 0)?;
        let pk = PublicKey::from_be_bytes(&k.n.to_be(), &k.e.to_be()).map_err(|e| format!("{}", e))?;
        let mut p = PSS::new(hs.make(), Script::stream(1), KeyPair::from(pk), Some(2), i % 2 == 0).map_err(|e| format!("{}", e))?;
        t.step();
        if p.sign(&mut SignatureContent::new(), b"m").is_ok() { return Err("signed with a public key only".into()); }
        let s = forge(&k, &enc(hs, &k, b"m", &[1, 2])).unwrap();
        ver(t, &mut p, hs, &k, 2, &s, b"m", &|| "public key".into())?;
        ver(t, &mut p, hs, &k, 2, &s, b"n", &|| "public key".into())
    });
    c.par("auto-generated", 40 * 3, |mut i, t| {
        let st = [None, Some(0), Some(3)][dig(&mut i, 3)];
        let hs = [Hs::Toy(4), Hs::Md(0)][i as usize % 2];
        let bits = if i % 2 == 0 { 49 + 2 * i as usize } else { 120 + 5 * i as usize };
        t.step();
        t.trace();
        match (PSS::auto_generate_key(bits, 4, hs.make(), Script::stream(i), st, i % 4 < 2), slen(hs, bits, st)) {
            (Err(_), None) => Ok(()),
            (Err(e), Some(_)) => Err(format!("generating a {}-bit key for {} with salt {:?} failed: {}", bits, hs.name(), st, e)),
            (Ok(_), None) => Err(format!("{} bits accepted for {} with salt {:?}", bits, hs.name(), st)),
            (Ok(mut p), Some(sl)) => {
                if p.salt_len() != sl || p.modulus_len() != (bits + 7) / 8 { return Err(format!("salt length {} instead of {} ({} bits, {}, {:?})", p.salt_len(), sl, bits, hs.name(), st)); }
                let mut s = SignatureContent::new();
                p.sign(&mut s, b"hello").map_err(|e| format!("{}", e))?;
                p.verify(&s, b"hello").map_err(|e| format!("own signature refused: {} ({} bits, {}, {:?})", e, bits, hs.name(), st))?;
                t.steps(2);
                if p.verify(&s, b"hellp").is_ok() { return Err("signature verifies for another message".into()); }
                Ok(())
            }
        }
    });
}
