//! C01: MD5, SHA-1, SHA-2, SM3 values.
use rcrypto::sha::SHA512T;
use rcrypto::{Digest, SHA};
use vh::engine::{self, Ctx};
use vh::enumr::{alike, dig, fill, At};
use vh::refs::hash;
use vh::zoo::{md_family, Spec};

fn digest_of(d: &mut dyn Digest, parts: &[&[u8]]) -> Vec<u8> {
    let mut out = vec![0x99; 3];
    for p in parts { d.write(p); }
    d.checksum(&mut out);
    out
}

fn main() { engine::main("C01", run) }
fn run(c: &Ctx) {
    let fam = md_family();
    // 1. every message length across block boundaries, several fillings
    let maxlen = c.pick(1300u64, 5000);
    let fills = c.pick(4u64, 7);
    for s in &fam {
        c.par(&format!("length/{}", s.name), (maxlen + 1) * fills, |i, t| {
            let (len, k) = ((i / fills) as usize, (i % fills) as usize);
            let m = fill(len, k);
            let mut d = (s.make)();
            t.steps(3);
            if d.bits_len() != s.bits { return Err(format!("{} reports {} bits", s.name, d.bits_len())); }
            if d.block_size() != s.block { return Err(format!("{} reports block size {:?}", s.name, d.block_size())); }
            let got = digest_of(d.as_mut(), &[&m]);
            t.sample(|| format!("{}(fill {} x {} bytes) = {}", s.name, k, len, engine::hx(&got)));
            t.eq(&|| format!("{} of {} bytes, fill {}", s.name, len, k), &got, &(s.refh)(&m))
        });
    }
    // 2. every one- and two-byte message
    for s in &fam {
        c.par(&format!("short/{}", s.name), 256 + 65536 / c.pick(8, 1), |i, t| {
            let m = if i < 256 { vec![i as u8] } else { let j = (i - 256) * c.pick(8, 1); vec![(j >> 8) as u8, j as u8] };
            t.steps(2);
            let got = digest_of((s.make)().as_mut(), &[&m]);
            t.eq(&|| format!("{} of {:02x?}", s.name, m), &got, &(s.refh)(&m))
        });
    }
    // 3. every single-bit message of two blocks minus the padding, and its complement
    for s in &fam {
        let n = 2 * s.rate;
        c.par(&format!("bit/{}", s.name), (n * 8 * 2) as u64, |i, t| {
            let mut m = fill(n, if i % 2 == 0 { 0 } else { 1 });
            let b = (i / 2) as usize;
            m[b / 8] ^= 0x80 >> (b % 8);
            t.steps(2);
            let got = digest_of((s.make)().as_mut(), &[&m]);
            t.eq(&|| format!("{} of {} bytes with bit {} flipped", s.name, n, b), &got, &(s.refh)(&m))
        });
    }
    // 4. carry-rich words: every position of a block holds 00000000 / ffffffff / 7fffffff / 80000000
    for s in &fam {
        let w = s.rate / 16;
        c.par(&format!("words/{}", s.name), 16 * 16 * 16, |i, t| {
            let (p, q, v) = ((i % 16) as usize, (i / 16 % 16) as usize, (i / 256) as usize);
            let word = |k: usize| -> Vec<u8> { let mut x = vec![[0x00u8, 0xff, 0xff, 0x00][k]; w]; x[0] = [0x00, 0xff, 0x7f, 0x80][k]; x };
            let mut m = fill(s.rate, 3);
            m[p * w..(p + 1) * w].copy_from_slice(&word(v % 4));
            m[q * w..(q + 1) * w].copy_from_slice(&word(v / 4));
            t.steps(2);
            let got = digest_of((s.make)().as_mut(), &[&m]);
            t.eq(&|| format!("{} of one block with extreme words at {} and {}", s.name, p, q), &got, &(s.refh)(&m))
        });
    }
    // blocks that differ from the one before in one byte, in one write and in a write each
    for s in &fam {
        c.par(&format!("alike/{}", s.name), 2 * s.rate as u64, |i, t| {
            let m = alike(s.rate, i as usize);
            t.steps(6);
            let want = (s.refh)(&m);
            t.eq(&|| format!("{} of three blocks of which the second differs in byte {}", s.name, i / 2), &digest_of((s.make)().as_mut(), &[&m]), &want)?;
            let parts: Vec<&[u8]> = m.chunks(s.rate).collect();
            t.eq(&|| format!("{} of three blocks written one by one of which the second differs in byte {}", s.name, i / 2), &digest_of((s.make)().as_mut(), &parts), &want)
        });
    }
    // messages at every address modulo 64, alone and after a first byte
    for s in &fam {
        c.par(&format!("address/{}", s.name), 64 * 6, |mut i, t| {
            let off = dig(&mut i, 64);
            let n = [1usize, s.rate - 1, s.rate, 2 * s.rate, 3 * s.rate + 5, 9 * s.rate][i as usize];
            let m = fill(n, 3);
            let at = At::new(off, &m);
            t.steps(5);
            let got = digest_of((s.make)().as_mut(), &[at.get()]);
            t.eq(&|| format!("{} of {} bytes at an address {} above a multiple of 64", s.name, n, off), &got, &(s.refh)(&m))?;
            let got = digest_of((s.make)().as_mut(), &[&[7], at.get()]);
            let want = [&[7][..], &m].concat();
            t.eq(&|| format!("{} of 1 + {} bytes, the second write at an address {} above a multiple of 64", s.name, n, off), &got, &(s.refh)(&want))
        });
    }
    // 5. single large writes around every power of two
    let (top, offs) = (c.pick(18u32, 21), [-65i64, -64, -57, -56, -55, -9, -8, -1, 0, 1, 7, 8, 55, 56, 63, 64, 65, 112, 119, 120, 127, 128]);
    for s in &fam {
        c.par(&format!("wide/{}", s.name), (top - 8) as u64 * offs.len() as u64, |i, t| {
            let len = ((1i64 << (9 + i / offs.len() as u64)) + offs[(i % offs.len() as u64) as usize]) as usize;
            let m = fill(len, 3);
            t.steps(2);
            let got = digest_of((s.make)().as_mut(), &[&m]);
            t.eq(&|| format!("{} of {} bytes in one write", s.name, len), &got, &(s.refh)(&m))
        });
    }
    // 6. SHA-512/t for every t
    c.par("sha512t/exists", 1100, |i, t| {
        let tt = i as usize;
        let want = tt > 0 && tt < 512 && tt != 384;
        t.steps(2);
        t.trace();
        let (a, b) = (SHA512T::new(tt).is_some(), SHA::sha512t(tt).is_some());
        t.state(&[a as u8, b as u8]);
        if a != want || b != want { return Err(format!("SHA-512/{}: type exists {}, front end exists {}, expected {}", tt, a, b, want)); }
        Ok(())
    });
    let lens: Vec<usize> = if c.thorough { (0..=260).collect() } else { vec![0, 1, 3, 111, 112, 113, 127, 128, 129, 239, 240, 256, 300] };
    c.par("sha512t/value", 511 * lens.len() as u64, |i, t| {
        let (tt, len) = ((i / lens.len() as u64 + 1) as usize, lens[(i % lens.len() as u64) as usize]);
        if tt == 384 { return Ok(()); }
        let m = fill(len, 3);
        let want = hash::sha512t(tt, &m);
        let mut a = match SHA512T::new(tt) { Some(a) => a, None => return Err(format!("SHA-512/{} missing", tt)) };
        let mut b = match SHA::sha512t(tt) { Some(a) => a, None => return Err(format!("SHA-512/{} missing", tt)) };
        t.steps(4);
        if a.bits_len() != tt || b.bits_len() != tt || a.block_size() != Some(128) || b.block_size() != Some(128) { return Err(format!("SHA-512/{} reports a wrong size", tt)); }
        t.eq(&|| format!("SHA512T::new({}) of {} bytes", tt, len), &digest_of(&mut a, &[&m]), &want)?;
        t.eq(&|| format!("SHA::sha512t({}) of {} bytes", tt, len), &digest_of(&mut b, &[&m]), &want)
    });
    // 7. messages whose bit length needs more than 32 bits
    let long: Vec<(&Spec, fn(&[u8], u64, &[u8]) -> Vec<u8>)> = fam.iter().filter_map(|s| {
        let f: fn(&[u8], u64, &[u8]) -> Vec<u8> = match s.name {
            "MD5" => hash::md5_rep,
            "SHA1" => hash::sha1_rep,
            "SHA224" => hash::sha224_rep,
            "SHA256" => hash::sha256_rep,
            "SHA384" => hash::sha384_rep,
            "SHA512" => hash::sha512_rep,
            "SM3" => hash::sm3_rep,
            "SHA512T(200)" => |b, r, m| hash::sha512t_rep(200, hash::sha512t_iv(200), b, r, m),
            _ => return None,
        };
        Some((s, f))
    }).collect();
    c.case_limit(400);
    c.par("long", long.len() as u64, |i, t| {
        let (s, f) = long[i as usize];
        let buf = fill(1 << 16, 3);
        let reps = 8192u64; // 2^29 bytes = 2^32 bits, plus a tail
        let tail = fill(61, 2);
        let mut d = (s.make)();
        for _ in 0..reps { d.write(&buf); }
        d.write(&tail);
        t.steps(reps + 2);
        let mut got = vec![];
        d.checksum(&mut got);
        t.eq(&|| format!("{} of 2^29+61 bytes", s.name), &got, &f(&buf, reps, &tail))
    });
    c.assume("message contents beyond the enumerated fillings are represented by them: the compression functions have no data-dependent control flow");
}
