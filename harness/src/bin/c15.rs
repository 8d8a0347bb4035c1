//! C15: the ZUC MAC (128-EIA3 over byte messages).
use rcrypto::{Digest, ZUCMac};
use vh::engine::{self, hx, Ctx};
use vh::enumr::{composition, dig, fill, n_compositions, seq, seqs_upto, At};
use vh::refs::zuc::eia3;

fn main() { engine::main("C15", run) }
fn a16(v: &[u8]) -> [u8; 16] { let mut a = [0; 16]; a.copy_from_slice(v); a }
fn sum(x: &mut ZUCMac) -> Vec<u8> { let mut o = vec![1, 2, 3, 4, 5]; x.checksum(&mut o); o }

fn run(c: &Ctx) {
    // every length, several fillings, each under several keys
    let top = c.pick(1200u64, 6000);
    c.par("length", top * 5, |mut i, t| {
        let f = dig(&mut i, 5);
        let m = fill(i as usize, [0, 1, 3, 4, 7][f]);
        let k = fill(16, 6 + f);
        let mut x = ZUCMac::new(0x561eb2dd, 20, false, a16(&k));
        x.write(&m);
        t.steps(2);
        t.eq(&|| format!("EIA3 of {} bytes (filling {})", m.len(), f), &sum(&mut x), &eia3(0x561eb2dd, 20, false, &k, &m))
    });
    // lengths around every power of two, in one and in two writes
    c.par("wide", (c.pick(18, 21) - 7) * 8 * 4, |mut i, t| {
        let d = [-5i64, -4, -3, -1, 0, 1, 3, 4][dig(&mut i, 8)];
        let cut = [0usize, 1, 4, 57][dig(&mut i, 4)];
        let m = fill(((1i64 << (7 + i)) + d) as usize, 3);
        let k = fill(16, 6);
        let mut x = ZUCMac::new(0x561eb2dd, 20, false, a16(&k));
        if cut > 0 { x.write(&m[..cut]); }
        x.write(&m[cut..]);
        t.steps(3);
        t.eq(&|| format!("EIA3 of {} bytes cut at {}", m.len(), cut), &sum(&mut x), &eia3(0x561eb2dd, 20, false, &k, &m))
    });
    c.par("address", 64 * 3, |mut i, t| {
        let (off, k) = (dig(&mut i, 64), fill(16, 6));
        let m = At::new(off, &fill([4usize, 64, 203][i as usize], 3));
        let mut x = ZUCMac::new(0x561eb2dd, 20, false, a16(&k));
        x.write(m.get());
        t.steps(2);
        t.eq(&|| format!("EIA3 of {} bytes at an address {} above a multiple of 64", m.get().len(), off), &sum(&mut x), &eia3(0x561eb2dd, 20, false, &k, m.get()))
    });
    // no write at all, and only empty writes
    c.par("empty", 64 * 3, |mut i, t| {
        let w = dig(&mut i, 3);
        let k = fill(16, i as usize);
        let mut x = ZUCMac::from_slice(5, 1, true, &k).map_err(|e| format!("{}", e))?;
        for _ in 0..w { x.write(&[]); }
        t.step();
        t.eq(&|| format!("EIA3 of the empty message after {} empty writes", w), &sum(&mut x), &eia3(5, 1, true, &k, &[]))
    });
    // every single-bit message of up to 20 bytes, every two-byte message
    c.par("bits", 20 * 160, |mut i, t| {
        let n = 1 + dig(&mut i, 20);
        let b = i as usize;
        if b >= 8 * n { return Ok(()); }
        let mut m = vec![0; n];
        m[b / 8] = 0x80 >> (b % 8);
        let k = fill(16, 9);
        let mut x = ZUCMac::new(1, 2, true, a16(&k));
        x.write(&m);
        t.steps(2);
        t.eq(&|| format!("EIA3 of {}", hx(&m)), &sum(&mut x), &eia3(1, 2, true, &k, &m))
    });
    c.par("short", 65536 + 256, |i, t| {
        let m = if i < 256 { vec![i as u8] } else { vec![((i - 256) >> 8) as u8, (i - 256) as u8] };
        let k = fill(16, 8);
        let mut x = ZUCMac::new(1, 2, true, a16(&k));
        x.write(&m);
        t.steps(2);
        t.eq(&|| format!("EIA3 of {}", hx(&m)), &sum(&mut x), &eia3(1, 2, true, &k, &m))
    });
    // parameters: every bearer value, direction, count bit; every key byte value
    c.par("params", 256 * 2 * 36, |mut i, t| {
        let (b, d) = (dig(&mut i, 256) as u8, dig(&mut i, 2) == 1);
        let count = match i { 0..=31 => 1u32 << i, 32 => 0, 33 => !0, 34 => 0x01020304, _ => 0xfedcba98 };
        let (k, m) = (fill(16, 9), fill(11, 3));
        let mut x = if b % 2 == 0 { ZUCMac::new(count, b, d, a16(&k)) } else { ZUCMac::from_slice(count, b, d, &k).map_err(|e| format!("{}", e))? };
        x.write(&m);
        t.steps(2);
        t.eq(&|| format!("EIA3 count {:08x} bearer {} direction {}", count, b, d), &sum(&mut x), &eia3(count, b, d, &k, &m))?;
        x.reset();
        x.write(&m[..5]);
        t.eq(&|| format!("EIA3 after reset, count {:08x} bearer {} direction {}", count, b, d), &sum(&mut x), &eia3(count, b, d, &k, &m[..5]))
    });
    c.par("keys", 16 * 256, |mut i, t| {
        let p = dig(&mut i, 16);
        let mut k = fill(16, 9);
        k[p] = i as u8;
        let m = fill(17, 3);
        let mut x = ZUCMac::new(9, 9, false, a16(&k));
        x.write(&m);
        t.steps(2);
        t.eq(&|| format!("EIA3 key {}", hx(&k)), &sum(&mut x), &eia3(9, 9, false, &k, &m))
    });
    c.par("keylen", 40, |i, t| {
        t.step();
        t.trace();
        let ok = ZUCMac::from_slice(1, 1, true, &fill(i as usize, 1)).is_ok();
        if ok != (i == 16) { return Err(format!("ZUCMac::from_slice with {} bytes: accepted {}", i, ok)); }
        let x = ZUCMac::new(1, 1, true, [0; 16]);
        if x.bits_len() != 32 { return Err(format!("bits_len {}", x.bits_len())); }
        Ok(())
    });
    // every split of short messages, every pair of cuts of longer ones
    let top = c.pick(18usize, 21);
    c.par("splits", top as u64 + 1, |i, t| {
        let n = i as usize;
        let (k, m) = (fill(16, 9), fill(n, 3));
        let want = eia3(3, 4, true, &k, &m);
        for mask in 0..n_compositions(n) {
            let mut x = ZUCMac::new(3, 4, true, a16(&k));
            let mut p = 0;
            for q in composition(n, mask) { x.write(&m[p..p + q]); p += q; t.step(); }
            let got = sum(&mut x);
            if got != want { return Err(format!("EIA3 of {} bytes written as {:?}: {} instead of {}", n, composition(n, mask), hx(&got), hx(&want))); }
            t.trace();
        }
        Ok(())
    });
    c.par("cuts", c.pick(60, 120), |i, t| {
        let n = i as usize;
        let (k, m) = (fill(16, 9), fill(n, 7));
        let want = eia3(3, 4, true, &k, &m);
        for a in 0..=n {
            for b in a..=n {
                let mut x = ZUCMac::new(3, 4, true, a16(&k));
                x.write(&m[..a]);
                x.write(&m[a..b]);
                x.write(&m[b..]);
                t.steps(4);
                let got = sum(&mut x);
                if got != want { return Err(format!("EIA3 of {} bytes cut at {} and {}: {} instead of {}", n, a, b, hx(&got), hx(&want))); }
                t.trace();
            }
        }
        Ok(())
    });
    // one object through many messages, and one message in many writes
    c.par("endurance", 4, |i, t| {
        let k = fill(16, 9);
        let mut x = ZUCMac::new(3, 4, true, a16(&k));
        if i < 2 {
            for n in 0..t.pick(1500usize, 15000) {
                let m = fill(n * 7 % 60, n % 9);
                if n % 5 == 3 { x.write(&m); x.reset(); }
                x.write(&m);
                if m.is_empty() { x.reset(); }
                t.steps(2);
                let want = eia3(3, 4, true, &k, &m);
                for j in 0..1 + n % 3 { t.eq(&|| format!("EIA3 message {} of {} bytes, checksum {}", n, m.len(), j), &sum(&mut x), &want)?; }
                if i == 1 || n % 3 == 0 { x.reset(); }
                if n % 13 == 7 { x = x.clone(); }
            }
            return Ok(());
        }
        let m = fill(8000, 3);
        for p in m.chunks(i as usize - 1) { x.write(p); t.step(); }
        t.eq(&|| format!("EIA3 of {} bytes in writes of {}", m.len(), i - 1), &sum(&mut x), &eia3(3, 4, true, &k, &m))
    });
    // histories: writes, checksums, resets, clones. After a checksum a write starts a new message;
    // an empty write then may do so or leave the finished tag standing.
    let ops = 9u64;
    let depth = c.pick(7, 8);
    c.par("history", seqs_upto(ops, depth), |i, t| {
        let s = seq(i, ops, depth);
        let k = fill(16, 9);
        let mut x = ZUCMac::new(11, 12, true, a16(&k));
        let mut cur: Vec<Vec<u8>> = vec![vec![]];
        let mut fin = false;
        for &op in &s {
            t.step();
            match op {
                0..=5 => {
                    let w = fill([0, 1, 3, 4, 6, 9][op], 3);
                    x.write(&w);
                    if fin {
                        if w.is_empty() { cur.push(vec![]); cur.dedup(); continue; }
                        cur = vec![vec![]];
                        fin = false;
                    }
                    for m in cur.iter_mut() { m.extend(&w); }
                }
                6 => {
                    let got = sum(&mut x);
                    t.trace();
                    t.state(&got);
                    cur.retain(|m| eia3(11, 12, true, &k, m) == got);
                    if cur.is_empty() { return Err(format!("history {:?}: tag {}", s, hx(&got))); }
                    fin = true;
                }
                7 => { x.reset(); cur = vec![vec![]]; fin = false; }
                _ => { let y = x.clone(); x.write(&[1, 2, 3, 4, 5]); sum(&mut x); x = y; }
            }
        }
        let got = sum(&mut x);
        t.trace();
        if !cur.iter().any(|m| eia3(11, 12, true, &k, m) == got) { return Err(format!("history {:?}, then checksum: tag {}", s, hx(&got))); }
        Ok(())
    });
}
