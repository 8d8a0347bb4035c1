//! C05: HMAC.
use rcrypto::{Digest, HMAC};
use vh::engine::{self, hx, Ctx, R, T};
use vh::enumr::{dig, fill, seq, seqs_upto, At};
use vh::refs::mac::hmac;
use vh::toy::{toy_hash, ToyDigest};
use vh::zoo::{md_family, sha3_family, BoxD, Spec};

fn main() { engine::main("C05", run) }

fn mk(s: &Spec, key: Vec<u8>) -> Result<HMAC<BoxD>, String> { HMAC::new(key, BoxD((s.make)())).map_err(|e| format!("{}: HMAC::new refused: {}", s.name, e)) }
fn rf(s: &Spec, key: &[u8], m: &[u8]) -> Vec<u8> { hmac(&|x| (s.refh)(x), s.block.unwrap(), key, m) }

fn run(c: &Ctx) {
    let md = md_family();
    let s3 = sha3_family();
    let all: Vec<&Spec> = md.iter().chain(s3.iter()).filter(|s| s.block.is_some()).collect();
    for s in &all {
        let b = s.block.unwrap();
        let mls = [0usize, 1, b - 1, b + 5, 2 * b];
        c.par(&format!("key/{}", s.name), (2 * b + 4) as u64 * 5 * 2, |mut i, t| {
            let (ml, k) = (mls[dig(&mut i, 5)], [7usize, 1][dig(&mut i, 2)]);
            let (key, m) = (fill(i as usize, k), fill(ml, 3));
            let mut h = mk(s, key.clone())?;
            if h.bits_len() != s.bits || h.block_size() != s.block { return Err(format!("HMAC-{} reports {} bits, block {:?}", s.name, h.bits_len(), h.block_size())); }
            h.write(&m);
            let mut out = vec![1; 2];
            h.checksum(&mut out);
            t.steps(5);
            t.sample(|| format!("HMAC-{} key of {} bytes, message of {} bytes = {}", s.name, key.len(), ml, hx(&out)));
            t.eq(&|| format!("HMAC-{} key of {} bytes (fill {}), message of {} bytes", s.name, key.len(), k, ml), &out, &rf(s, &key, &m))
        });
        let kls = [0usize, 1, b, b + 1];
        c.par(&format!("msg/{}", s.name), (2 * b + 10) as u64 * 4, |mut i, t| {
            let (key, m) = (fill(kls[dig(&mut i, 4)], 8), fill(i as usize, 9));
            let mut h = mk(s, key.clone())?;
            h.write(&m);
            let mut out = vec![];
            h.checksum(&mut out);
            t.steps(3);
            t.eq(&|| format!("HMAC-{} key of {} bytes, message of {} bytes", s.name, key.len(), m.len()), &out, &rf(s, &key, &m))
        });
        // large keys and messages around every power of two
        let top = if b > 128 || s.name.starts_with("SHA3") || s.name.starts_with("sha3") { c.pick(12u64, 15) } else { c.pick(16, 19) };
        c.par(&format!("wide/{}", s.name), (top - 7) * 5 * 2, |mut i, t| {
            let (d, long) = ([-9i64, -1, 0, 1, 9][dig(&mut i, 5)], dig(&mut i, 2) == 1);
            let n = ((1i64 << (8 + i)) + d) as usize;
            let (key, m) = if long { (fill(n, 8), fill(5, 9)) } else { (fill(20, 8), fill(n, 9)) };
            let mut h = mk(s, key.clone())?;
            h.write(&m);
            let mut out = vec![];
            h.checksum(&mut out);
            t.steps(3);
            t.eq(&|| format!("HMAC-{} key of {} bytes, message of {} bytes", s.name, key.len(), m.len()), &out, &rf(s, &key, &m))
        });
        c.par(&format!("large/{}", s.name), if top > 15 { 4 * 2 } else { 0 }, |mut i, t| {
            let long = dig(&mut i, 2) == 1;
            let n = [(1usize << 17) + 1, (1 << 18) + 70, (1 << 19) - 1, (1 << 20) + 1][i as usize];
            let (key, m) = if long { (fill(n, 8), fill(5, 9)) } else { (fill(20, 8), fill(n, 9)) };
            let mut h = mk(s, key.clone())?;
            h.write(&m);
            let mut out = vec![];
            h.checksum(&mut out);
            t.steps(3);
            t.eq(&|| format!("HMAC-{} key of {} bytes, message of {} bytes", s.name, key.len(), m.len()), &out, &rf(s, &key, &m))
        });
        c.par(&format!("address/{}", s.name), 64, |i, t| {
            let (key, m) = (fill(20, 8), At::new(i as usize, &fill(3 * b + 1, 9)));
            let mut h = mk(s, key.clone())?;
            h.write(m.get());
            let mut out = vec![];
            h.checksum(&mut out);
            t.steps(3);
            t.eq(&|| format!("HMAC-{} of a message at an address {} above a multiple of 64", s.name, i), &out, &rf(s, &key, m.get()))
        });
        // a hash object that was already used must not matter
        c.par(&format!("dirty/{}", s.name), 3 * 3, |mut i, t| {
            let (st, kl) = (dig(&mut i, 3), [3, b, b + 9][dig(&mut i, 3)]);
            let mut d = (s.make)();
            let mut out = vec![];
            if st > 0 { d.write(b"already written"); }
            if st > 1 { d.checksum(&mut out); }
            let key = fill(kl, 7);
            let mut h = HMAC::new(key.clone(), BoxD(d)).map_err(|e| format!("{}", e))?;
            h.write(b"msg");
            h.checksum(&mut out);
            t.steps(3);
            t.eq(&|| format!("HMAC-{} built from a used hash object (state {})", s.name, st), &out, &rf(s, &key, b"msg"))
        });
    }
    for s in &all {
        let slow = s.name.starts_with("sha3") || s.name.starts_with("SHA3::");
        let depth = if slow { c.pick(3, 4) } else { c.pick(5, 6) };
        let b = s.block.unwrap();
        let sizes = [0, 1, b - 1, 2 * b + 1];
        let keys = [fill(4, 7), fill(b, 8), fill(b + 1, 9)];
        let a = (4 + 2 + 3 + 2) as u64;
        c.par(&format!("history/{}", s.name), seqs_upto(a, depth), |i, t| history(s, &sizes, &keys, &seq(i, a, depth), t));
    }
    // one object through many messages and keys, and one message in many writes
    for s in &all {
        let b = s.block.unwrap();
        c.par(&format!("endurance/{}", s.name), 3, |i, t| {
            let mut key = fill(9, 3);
            let mut h = mk(s, key.clone())?;
            let mut out = vec![];
            if i < 2 {
                for n in 0..t.pick(600usize, 5000) {
                    let m = fill(n * 7 % (b + 5), 3);
                    if i == 1 && n % 4 == 1 { key = fill(n * 11 % (2 * b), n % 9); h.set_key(key.clone()); }
                    if n % 5 == 3 { h.write(&m); h.reset(); }
                    h.write(&m);
                    if m.is_empty() { h.reset(); }
                    t.steps(2);
                    let want = rf(s, &key, &m);
                    for k in 0..1 + n % 3 {
                        h.checksum(&mut out);
                        t.eq(&|| format!("HMAC-{} message {} of {} bytes, checksum {}", s.name, n, m.len(), k), &out, &want)?;
                    }
                    if n % 3 == 0 { h.reset(); }
                }
                return Ok(());
            }
            let m = fill(3000, 3);
            for p in m.chunks(1) { h.write(p); t.step(); }
            h.checksum(&mut out);
            t.eq(&|| format!("HMAC-{} of {} bytes written singly", s.name, m.len()), &out, &rf(s, &key, &m))
        });
    }
    // hashes without a block size are refused; toy hashes with small blocks: every key/message length
    for s in s3.iter().filter(|s| s.block.is_none()) {
        c.par(&format!("refuse/{}", s.name), 300, |i, t| {
            t.step();
            t.trace();
            match HMAC::new(fill(i as usize, 2), BoxD((s.make)())) {
                Err(_) => Ok(()),
                Ok(_) => Err(format!("HMAC over {} was accepted", s.name)),
            }
        });
    }
    for (o, b) in [(1usize, 1usize), (1, 4), (3, 4), (4, 4), (2, 7), (8, 9)] {
        c.par(&format!("toy/{}-{}", o, b), 24 * 24, |i, t| {
            let (key, m) = (fill((i % 24) as usize, 7), fill((i / 24) as usize, 8));
            let mut h = HMAC::new(key.clone(), ToyDigest::new(o, b)).map_err(|e| format!("{}", e))?;
            let cut = m.len() / 2;
            h.write(&m[..cut]);
            h.write(&m[cut..]);
            let mut out = vec![];
            h.checksum(&mut out);
            t.steps(4);
            t.eq(&|| format!("HMAC over toy hash {}/{} key {} message {}", o, b, key.len(), m.len()), &out, &hmac(&|x| toy_hash(o, x), b, &key, &m))
        });
    }
    c.assume("a key change starts a new message; an empty write directly after a checksum may or may not start a new (empty) message");
}

#[derive(Clone)]
struct M { key: Vec<u8>, msg: Vec<u8>, done: bool, amb: bool }
fn history(s: &Spec, sizes: &[usize; 4], keys: &[Vec<u8>; 3], ops: &[usize], t: &T) -> R {
    let k0 = fill(11, 12);
    let mut cur = (mk(s, k0.clone())?, M { key: k0, msg: vec![], done: false, amb: false });
    let mut other: Option<(HMAC<BoxD>, M)> = None;
    let nm = |k: usize| match k { 0..=3 => format!("write({})", sizes[k]), 4 => "checksum".into(), 5 => "reset".into(), 6..=8 => format!("set_key({} bytes)", keys[k - 6].len()), 9 => "clone".into(), _ => "swap".to_string() };
    let show = || ops.iter().map(|&k| nm(k)).collect::<Vec<_>>().join(" ");
    t.sample(|| format!("HMAC-{}: {}", s.name, show()));
    let chk = |o: &mut HMAC<BoxD>, m: &mut M, n: usize| -> R {
        let mut out = vec![9; n % 3];
        o.checksum(&mut out);
        t.step();
        let want = rf(s, &m.key, &m.msg);
        if out != want {
            if m.amb && out == rf(s, &m.key, &[]) { m.msg.clear(); }
            else { return Err(format!("HMAC-{} after {}: got {} expected {}", s.name, show(), hx(&out), hx(&want))); }
        }
        m.amb = false;
        m.done = true;
        t.state(&out);
        Ok(())
    };
    for (n, &k) in ops.iter().enumerate() {
        t.step();
        match k {
            0..=3 => {
                let x = fill(sizes[k], 13 + n);
                cur.0.write(&x);
                let m = &mut cur.1;
                if m.done && x.is_empty() { m.amb = true; }
                if !x.is_empty() {
                    if m.done { m.msg.clear(); m.done = false; m.amb = false; }
                    m.msg.extend(x);
                }
            }
            4 => chk(&mut cur.0, &mut cur.1, n)?,
            5 => { cur.0.reset(); cur.1.msg.clear(); cur.1.done = false; cur.1.amb = false; }
            6..=8 => { cur.0.set_key(keys[k - 6].clone()); cur.1 = M { key: keys[k - 6].clone(), msg: vec![], done: false, amb: false }; }
            9 => other = Some((cur.0.clone(), cur.1.clone())),
            _ => if let Some(o) = other.take() { other = Some(std::mem::replace(&mut cur, o)); },
        }
    }
    for n in 0..2 { chk(&mut cur.0, &mut cur.1, n)?; }
    if let Some(mut o) = other { chk(&mut o.0, &mut o.1, 1)?; }
    t.trace();
    Ok(())
}
