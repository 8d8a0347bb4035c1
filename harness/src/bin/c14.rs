//! C14: ZUC keystream and the 128-EEA3 style cipher.
use rcrypto::{Cipher, ZUCCipher, ZUC};
use vh::engine::{self, hx, Ctx, R, T};
use vh::enumr::{composition, dig, fill, n_compositions, seq, seqs_upto};
use vh::refs::zuc::{eea3_stream, RZuc};

fn main() { engine::main("C14", run) }
fn a16(v: &[u8]) -> [u8; 16] { let mut a = [0; 16]; a.copy_from_slice(v); a }
fn bytes(w: &[u32]) -> Vec<u8> { w.iter().flat_map(|x| x.to_be_bytes().to_vec()).collect() }

/// n words by the given constructor/iteration style
fn stream(k: &[u8], iv: &[u8], n: usize, style: usize, t: &T) -> R {
    let mut r = RZuc::new(k, iv);
    let want: Vec<u32> = (0..n).map(|_| r.next()).collect();
    let mut z = match style {
        0 => ZUC::new(a16(k), a16(iv)),
        1 => ZUC::from_slice(k, iv).map_err(|e| format!("from_slice refused: {}", e))?,
        2 => { let mut z = ZUC::new([7; 16], [9; 16]); for _ in 0..n % 5 { z.zuc(); } z.set(a16(k), a16(iv)); z }
        _ => { let mut z = ZUC::new([0xff; 16], [0; 16]); z.zuc(); z.set_slice(k, iv).map_err(|e| format!("set_slice refused: {}", e))?; z }
    };
    t.steps(n as u64);
    let mut got = vec![];
    while got.len() < n {
        if got.len() % 3 == 2 { got.push(Iterator::next(&mut z).ok_or("iterator ended")?); } else { got.push(z.zuc()); }
        if got.len() == n / 2 { z = z.clone(); }
    }
    t.sample(|| format!("ZUC key {} iv {} {} words", hx(k), hx(iv), n));
    t.eq(&|| format!("ZUC key {} iv {} (constructor {})", hx(k), hx(iv), style), &bytes(&got), &bytes(&want))
}

#[derive(Clone)]
struct Model { ks: Vec<u8>, at: usize }

fn run(c: &Ctx) {
    let n = c.pick(40usize, 200);
    // every byte value at every key and IV position, on three backgrounds
    c.par("bytes", 32 * 256 * 3, |mut i, t| {
        let (bg, p) = (dig(&mut i, 3), dig(&mut i, 32));
        let (mut k, mut iv) = (fill(16, [0, 1, 7][bg]), fill(16, [0, 1, 8][bg]));
        if p < 16 { k[p] = i as u8 } else { iv[p - 16] = i as u8 }
        stream(&k, &iv, n, i as usize % 4, t)
    });
    // all pairs of key bit and IV bit
    c.par("bits", 128 * 128, |mut i, t| {
        let (a, b) = (dig(&mut i, 128), i as usize);
        let (mut k, mut iv) = (vec![0; 16], vec![0; 16]);
        k[a / 8] |= 0x80 >> (a % 8);
        iv[b / 8] |= 0x80 >> (b % 8);
        stream(&k, &iv, 20, (a + b) % 4, t)
    });
    c.par("backgrounds", 12 * 12 * 4, |mut i, t| {
        let (a, b) = (dig(&mut i, 12), dig(&mut i, 12));
        stream(&fill(16, a), &fill(16, b), 2500, i as usize, t)
    });
    // every S-box entry is reached in every lane (measured on the reference's trace)
    c.par("tables", 1, |_, t| {
        let mut seen = vec![[false; 256]; 8];
        let mut r = RZuc::traced(&fill(16, 7), &fill(16, 8));
        for _ in 0..20000 { r.next(); }
        for (u, v) in r.trace.as_ref().unwrap() {
            for j in 0..4 { seen[j][u.to_be_bytes()[j] as usize] = true; seen[4 + j][v.to_be_bytes()[j] as usize] = true; }
        }
        if seen.iter().any(|s| s.iter().any(|x| !x)) { panic!("trace does not cover the tables"); }
        stream(&fill(16, 7), &fill(16, 8), 20000, 0, t)
    });
    c.par("long", c.pick(8, 32), |i, t| stream(&fill(16, 6 + i as usize), &fill(16, 20 + i as usize), c.pick(600_000, 3_000_000), i as usize % 4, t));
    // the feedback value 0 stands for 2^31-1. In initialisation: keys/IVs solved so that it occurs in the
    // first round; in work mode: keys for which it occurs within 2000 words (found by searching 2^34 steps)
    c.par("zero-feedback/init", c.pick(64, 512), |i, t| {
        const P: u64 = (1 << 31) - 1;
        let d = [0x44D7u64, 0x26BC, 0x626B, 0x135E, 0x5789, 0x35E2, 0x7135, 0x09AF, 0x4D78, 0x2F13, 0x6BC4, 0x1AF1, 0x5E26, 0x3C4D, 0x789A, 0x47AC];
        let (mut k, mut iv) = (fill(16, 6 + i as usize), fill(16, 99 + i as usize));
        let s = |k: u8, iv: u8, j: usize| (k as u64) << 23 | d[j] << 8 | iv as u64;
        let v = |k: &[u8], iv: &[u8], j: usize| s(k[j], iv[j], j);
        let x0 = (v(&k, &iv, 15) >> 15) << 16 | (v(&k, &iv, 14) & 0xffff);
        let rest = ((v(&k, &iv, 15) << 15) + (v(&k, &iv, 13) << 17) + (v(&k, &iv, 10) << 21) + (x0 >> 1)) % P;
        let mut by: std::collections::HashMap<u64, (u8, u8)> = Default::default();
        for a in 0..65536u64 { by.insert((s((a >> 8) as u8, a as u8, 4) << 20) % P, ((a >> 8) as u8, a as u8)); }
        let mut found = 0;
        for a in 0..65536u64 {
            let w = (rest + s((a >> 8) as u8, a as u8, 0) * 257) % P;
            if let Some(&(k4, iv4)) = by.get(&((P - w) % P)) {
                k[4] = k4; iv[4] = iv4; k[0] = (a >> 8) as u8; iv[0] = a as u8;
                if RZuc::new(&k, &iv).zeros == 0 { panic!("feedback 0 not reached"); }
                found += 1;
                for style in 0..4 { stream(&k, &iv, 30, style, t)?; }
            }
        }
        t.state(&[found]);
        Ok(())
    });
    const ZEROS: [(u8, u32); 12] = [(6, 60280), (2, 43559), (0, 709676), (4, 315297), (7, 1480314), (3, 255498), (6, 1255234), (1, 1059459), (1, 1216005), (1, 1386455), (0, 1002055), (2, 908945)];
    c.par("zero-feedback/work", 12 * 4, |mut i, t| {
        let (th, kk) = ZEROS[dig(&mut i, 12)];
        let mut k: Vec<u8> = (0..16).map(|j| (j as u8).wrapping_mul(17)).collect();
        k[0] = th;
        for j in 1..4 { k[j] = (kk >> (8 * (j - 1))) as u8; }
        let mut r = RZuc::new(&k, &[0; 16]);
        for _ in 0..2000 { r.next(); }
        if r.zeros == 0 { panic!("feedback 0 not reached"); }
        stream(&k, &[0; 16], 2040, i as usize, t)
    });
    // wrong lengths are refused and change nothing
    c.par("lengths", 36 * 36, |mut i, t| {
        let (a, b) = (dig(&mut i, 36), i as usize);
        let (k, iv) = (fill(a, 7), fill(b, 8));
        let ok = a == 16 && b == 16;
        t.steps(3);
        t.trace();
        if ZUC::from_slice(&k, &iv).is_ok() != ok { return Err(format!("ZUC::from_slice with {}/{} bytes: accepted {}", a, b, !ok)); }
        let mut z = ZUC::new([1; 16], [2; 16]);
        z.zuc();
        if z.set_slice(&k, &iv).is_ok() != ok { return Err(format!("ZUC::set_slice with {}/{} bytes: accepted {}", a, b, !ok)); }
        if !ok {
            let mut r = RZuc::new(&[1; 16], &[2; 16]);
            r.next();
            t.eq(&|| format!("keystream after a refused key of {}/{} bytes", a, b), &z.zuc().to_be_bytes(), &r.next().to_be_bytes())?;
        }
        if b == 0 && ZUCCipher::from_slice(1, 2, true, &k).is_ok() != (a == 16) { return Err(format!("ZUCCipher::from_slice with {} bytes", a)); }
        Ok(())
    });
    // IV construction: every bearer (also values above 5 bits), both directions, every count byte/bit
    c.par("iv", 256 * 2 * 36, |mut i, t| {
        let (bearer, d) = (dig(&mut i, 256) as u8, dig(&mut i, 2) == 1);
        let count = match i { 0..=31 => 1u32 << i, 32 => 0, 33 => !0, 34 => 0x01020304, _ => 0xfedcba98 };
        let ck = fill(16, 9);
        let m = fill(23, 3);
        let x = if bearer % 2 == 0 { ZUCCipher::new(count, bearer, d, a16(&ck)) } else { ZUCCipher::from_slice(count, bearer, d, &ck).map_err(|e| format!("{}", e))? };
        let mut o = vec![1];
        x.encrypt(&mut o, &m).map_err(|e| format!("{}", e))?;
        t.step();
        let ks = eea3_stream(count, bearer, d, &ck, 23);
        t.eq(&|| format!("EEA3 count {:08x} bearer {} direction {}", count, bearer, d), &o, &m.iter().zip(&ks).map(|(a, b)| a ^ b).collect::<Vec<u8>>())
    });
    // every split of a stream into pieces; encrypt and decrypt are interchangeable
    let top = c.pick(17usize, 20);
    c.par("splits", top as u64 + 1, |i, t| {
        let n = i as usize;
        let (ck, m) = (fill(16, 9), fill(n, 3));
        let ks = eea3_stream(0x398a59b4, 21, true, &ck, n + 8);
        for mask in 0..n_compositions(n) {
            let parts = composition(n, mask);
            let x = ZUCCipher::new(0x398a59b4, 21, true, a16(&ck));
            let mut p = 0;
            let mut o = vec![];
            for (j, &k) in parts.iter().enumerate() {
                let r = if j % 2 == 0 { x.encrypt(&mut o, &m[p..p + k]) } else { x.decrypt(&mut o, &m[p..p + k]) };
                t.step();
                if r.as_ref().ok() != Some(&k) { return Err(format!("pieces {:?}: piece {} of {} bytes returned {:?}", parts, j, k, r.ok())); }
                let want: Vec<u8> = (p..p + k).map(|q| m[q] ^ ks[q]).collect();
                if o != want { return Err(format!("pieces {:?}: piece {} is {} instead of {}", parts, j, hx(&o), hx(&want))); }
                p += k;
            }
            t.trace();
        }
        Ok(())
    });
    // histories
    let ops = 10u64;
    let depth = c.pick(7, 8);
    c.par("history", seqs_upto(ops, depth), |i, t| {
        let s = seq(i, ops, depth);
        let ck = fill(16, 9);
        let mut x = ZUCCipher::new(7, 3, false, a16(&ck));
        let ks = eea3_stream(7, 3, false, &ck, 9 * 8 + 16);
        let mut md = Model { ks, at: 0 };
        let mut o = vec![];
        for &op in &s {
            t.step();
            match op {
                0..=7 => {
                    let n = [0, 1, 2, 3, 4, 5, 7, 9][op];
                    let m = fill(n, 3);
                    let r = if (op + md.at) % 2 == 0 { x.encrypt(&mut o, &m) } else { x.decrypt(&mut o, &m) };
                    let want: Vec<u8> = (0..n).map(|q| m[q] ^ md.ks[md.at + q]).collect();
                    if r.as_ref().ok() != Some(&n) || o != want { return Err(format!("history {:?}: {} bytes at {} returned {:?} {} instead of {}", s, n, md.at, r.ok(), hx(&o), hx(&want))); }
                    md.at += n;
                }
                8 => { x.reset(); md.at = 0; }
                _ => { let y = x.clone(); x.encrypt(&mut o, &[0; 6]).map_err(|e| format!("{}", e))?; x = y; }
            }
        }
        t.trace();
        t.state(&(md.at as u64).to_be_bytes());
        Ok(())
    });
    // single pieces around every power of two, after and before small ones
    c.par("wide", (c.pick(18, 21) - 6) * 7 * 5, |mut i, t| {
        let d = [-4i64, -3, -1, 0, 1, 3, 4][dig(&mut i, 7)];
        let a = [0usize, 1, 3, 4, 57][dig(&mut i, 5)];
        let n = ((1i64 << (6 + i)) + d) as usize;
        let ck = fill(16, 9);
        let m = fill(a + n + 9, 3);
        let ks = eea3_stream(5, 6, false, &ck, m.len());
        let x = ZUCCipher::new(5, 6, false, a16(&ck));
        let (mut o, mut all) = (vec![], vec![]);
        for (p, q) in [(0, a), (a, a + n), (a + n, a + n + 9)] {
            t.step();
            let l = x.encrypt(&mut o, &m[p..q]).map_err(|e| format!("{}", e))?;
            if l != q - p { return Err(format!("{} bytes reported for a piece of {}", l, q - p)); }
            all.extend(&o);
        }
        t.eq(&|| format!("EEA3 pieces of {}, {}, 9 bytes", a, n), &all, &m.iter().zip(&ks).map(|(a, b)| a ^ b).collect::<Vec<u8>>())
    });
    // one object through many resets, one generator through many keys
    c.par("endurance", 4, |i, t| {
        let ck = fill(16, 9);
        let ks = eea3_stream(5, 6, false, &ck, 400);
        let mut x = ZUCCipher::new(5, 6, false, a16(&ck));
        let mut z = ZUC::new(a16(&ck), a16(&ck));
        let mut o = vec![];
        for n in 0..t.pick(1500usize, 15000) {
            let m = fill(n * 7 % 300, n % 9);
            let cut = m.len() * (n % 5) / 5;
            t.steps(2);
            x.encrypt(&mut o, &m[..cut]).map_err(|e| format!("{}", e))?;
            let mut all = o.clone();
            x.decrypt(&mut o, &m[cut..]).map_err(|e| format!("{}", e))?;
            all.extend(&o);
            t.eq(&|| format!("EEA3 message {} of one object", n), &all, &m.iter().zip(&ks).map(|(a, b)| a ^ b).collect::<Vec<u8>>())?;
            x.reset();
            if i % 2 == 1 { x = x.clone(); }
            let (k, iv) = (fill(16, n % 200), fill(16, n / 3 % 200));
            if i < 2 { z.set(a16(&k), a16(&iv)); } else { z.set_slice(&k, &iv).map_err(|e| format!("{}", e))?; }
            let mut r = RZuc::new(&k, &iv);
            for j in 0..n % 40 { t.eq(&|| format!("ZUC word {} under key number {}", j, n), &z.zuc().to_be_bytes(), &r.next().to_be_bytes())?; }
        }
        Ok(())
    });
    c.par("long-cipher", 40, |i, t| {
        let ck = fill(16, 6 + i as usize);
        let n = 40_000;
        let ks = eea3_stream(i as u32, i as u8, i % 2 == 0, &ck, n);
        let x = ZUCCipher::new(i as u32, i as u8, i % 2 == 0, a16(&ck));
        let (m, mut p, mut o, mut all) = (fill(n, 3), 0, vec![], vec![]);
        let mut k = 1 + i as usize;
        while p < n {
            let e = (p + k).min(n);
            x.encrypt(&mut o, &m[p..e]).map_err(|e| format!("{}", e))?;
            t.step();
            all.extend(&o);
            p = e;
            k = k % 61 + i as usize % 5 + 1;
        }
        t.eq(&|| "long EEA3 stream".into(), &all, &m.iter().zip(&ks).map(|(a, b)| a ^ b).collect::<Vec<u8>>())
    });
}
