//! C11: CTR mode and the default counter.
use rcrypto::cipher_mode::{Counter, DefaultCounter, CTR};
use rcrypto::Cipher;
use vh::engine::{self, hx, Ctx, R, T};
use vh::enumr::{dig, fill, seq, seqs_upto, special, At};
use vh::modes::{BoxC, Ciph, St, REAL, BIG};
use vh::refs::cipher::RefCipher;
use vh::refs::modes::xor;

fn main() { engine::main("C11", run) }

/// value init + k as `w` big-endian bytes, modulo 2^(8w)
fn value(init: &[u8], w: usize, k: u64) -> Vec<u8> {
    let mut v = vec![0; w - init.len()];
    v.extend_from_slice(init);
    let mut c = k as u128;
    for b in v.iter_mut().rev() {
        c += *b as u128;
        *b = c as u8;
        c >>= 8;
    }
    v
}
/// expected output when the first block uses counter position `at`
fn want(r: &dyn RefCipher, init: &[u8], w: usize, at: u64, m: &[u8]) -> Vec<u8> {
    let bs = r.bs();
    m.chunks(bs).enumerate().flat_map(|(i, b)| xor(b, &r.enc(&value(init, w, at + i as u64)[w - bs..]))).collect()
}
fn blocks(n: usize, bs: usize) -> u64 { ((n + bs - 1) / bs) as u64 }
fn counter(init: &[u8], w: usize) -> Result<DefaultCounter, String> { DefaultCounter::new(init.to_vec(), 8 * w).map_err(|e| format!("counter {} of {} bytes refused: {}", hx(init), w, e)) }
fn ctr(c: Ciph, init: &[u8], w: usize) -> Result<CTR<BoxC, DefaultCounter>, String> { CTR::new(c.lib(), counter(init, w)?).map_err(|e| format!("CTR refused: {}", e)) }

fn one(c: Ciph, init: &[u8], w: usize, m: &[u8], t: &T) -> R {
    let x = ctr(c, init, w)?;
    let r = c.reference();
    let mut o = vec![9, 9];
    t.steps(4);
    let what = || format!("CTR over {:?} counter {}/{} bytes", c, hx(init), w);
    match x.encrypt(&mut o, m) { Ok(n) if n == m.len() => {} e => return Err(format!("{}: encrypt returned {:?}", what(), e.ok())) }
    t.eq(&|| format!("{}: encrypt {} bytes", what(), m.len()), &o, &want(r.as_ref(), init, w, 0, m))?;
    let mut p = vec![];
    ctr(c, init, w)?.decrypt(&mut p, &o).map_err(|e| format!("{}", e))?;
    t.eq(&|| format!("{}: decrypt", what()), &p, m)?;
    // the following call goes on with the next counter values
    let at = blocks(m.len(), c.bs());
    x.decrypt(&mut p, m).map_err(|e| format!("{}", e))?;
    t.eq(&|| format!("{}: second call", what()), &p, &want(r.as_ref(), init, w, at, m))
}

/// counter with a prescribed list of values
#[derive(Clone)]
struct Listed { v: Vec<Vec<u8>>, pos: usize, bits: usize }
impl Counter for Listed {
    fn reset(&mut self) { self.pos = 0 }
    fn next(&mut self) -> Option<&Vec<u8>> { self.pos += 1; self.v.get(self.pos - 1) }
    fn bits_len(&self) -> usize { self.bits }
}

fn run(c: &Ctx) {
    // the counter alone: every one-byte start through a full wrap, every two-byte start
    c.par("counter/1", 256, |i, t| {
        let mut x = counter(&[i as u8], 1)?;
        for k in 0..600u64 {
            if k == 300 { x.reset(); }
            t.step();
            let v = x.next().cloned();
            t.eq(&|| format!("one-byte counter from {} step {}", i, k), &v.unwrap_or_default(), &value(&[i as u8], 1, k % 300))?;
        }
        Ok(())
    });
    c.par("counter/2", 65536, |i, t| {
        let init = [(i >> 8) as u8, i as u8];
        let mut x = counter(&init, 2)?;
        for k in 0..4u64 {
            t.step();
            let v = x.next().cloned().unwrap_or_default();
            t.eq(&|| format!("two-byte counter from {:04x} step {}", i, k), &v, &value(&init, 2, k))?;
        }
        Ok(())
    });
    c.par("counter/2-cycle", 1, |_, t| {
        let mut x = counter(&[0], 2)?;
        for k in 0..70000u64 {
            t.step();
            let v = x.next().cloned().unwrap_or_default();
            if v != value(&[0], 2, k) { return Err(format!("two-byte counter step {}: {}", k, hx(&v))); }
        }
        t.trace();
        Ok(())
    });
    // every width, every position of the carry, initial values shorter than the width
    c.par("counter/carry", 40 * 41, |mut i, t| {
        let w = 1 + dig(&mut i, 40);
        let z = i as usize; // trailing ff bytes
        if z > w { return Ok(()); }
        for len in 0..=w {
            for top in [0x00u8, 0x7f, 0xfe, 0xff] {
                let mut init = vec![top; len];
                for k in 0..z.min(len) { init[len - 1 - k] = 0xff; }
                let mut x = counter(&init, w)?;
                if x.bits_len() != 8 * w { return Err(format!("bits_len {} for a counter of {} bytes", x.bits_len(), w)); }
                for k in 0..3 {
                    t.step();
                    let v = x.next().cloned().unwrap_or_default();
                    t.eq(&|| format!("{}-byte counter from {} step {}", w, hx(&init), k), &v, &value(&init, w, k))?;
                }
                let mut y = x.clone();
                // a clone of a used counter either continues or starts over, but yields counter values
                let v = y.next().cloned().unwrap_or_default();
                if v != value(&init, w, 0) && v != value(&init, w, 3) { return Err(format!("clone of a counter yields {}", hx(&v))); }
                x.reset();
                t.eq(&|| "counter after reset".into(), &x.next().cloned().unwrap_or_default(), &value(&init, w, 0))?;
            }
        }
        Ok(())
    });
    // widths that are not whole bytes: values below the overflow; initial values that do not fit
    c.par("counter/bits", 140, |i, t| {
        let bits = i as usize;
        let w = (bits + 7) / 8;
        for len in 0..=w + 2 {
            let mut init = vec![0; len];
            if len > 0 { init[len - 1] = 0; }
            t.step();
            t.trace();
            let x = DefaultCounter::new(init.clone(), bits);
            if x.is_ok() != (len <= w) { return Err(format!("counter of {} bits with {} initial bytes: {}", bits, len, x.is_ok())); }
            if let Ok(mut x) = x {
                for k in 0..(1u64 << bits.min(7)) {
                    t.step();
                    t.eq(&|| format!("{}-bit counter step {}", bits, k), &x.next().cloned().unwrap_or_default(), &value(&init, w, k))?;
                }
            }
        }
        Ok(())
    });
    // counters narrower than the block are refused
    c.par("narrow", 20 * 200, |mut i, t| {
        let bs = 1 + dig(&mut i, 20);
        let bits = i as usize;
        let mk = || DefaultCounter::new(vec![], bits).map_err(|e| format!("{}", e));
        t.steps(2);
        t.trace();
        let want_ok = bits >= 8 * bs;
        if CTR::new(Ciph::Toy(bs).lib(), mk()?).is_ok() != want_ok { return Err(format!("CTR over {}-byte blocks with a {}-bit counter: accepted {}", bs, bits, !want_ok)); }
        let init = vec![7u8; bs];
        let mut x = ctr(Ciph::Toy(bs), &init, bs)?;
        let m = fill(2 * bs + 1, 3);
        let mut o = vec![];
        x.encrypt(&mut o, &m).map_err(|e| format!("{}", e))?;
        if x.set_counter(mk()?).is_ok() != want_ok { return Err(format!("set_counter over {}-byte blocks with a {}-bit counter: accepted {}", bs, bits, !want_ok)); }
        x.encrypt(&mut o, &m).map_err(|e| format!("{}", e))?;
        let r = Ciph::Toy(bs).reference();
        let w = (bits + 7) / 8;
        let exp = if want_ok { want(r.as_ref(), &[], w, 0, &m) } else { want(r.as_ref(), &init, bs, 3, &m) };
        t.eq(&|| format!("after set_counter with {} bits over {}-byte blocks", bits, bs), &o, &exp)
    });
    // complete small instances: every start value, lengths through a full wrap
    for bs in 1..=2usize {
        c.par(&format!("complete/{}", bs), 256 * 5, |mut i, t| {
            let w = bs + dig(&mut i, 5);
            let init = vec![i as u8; (i as usize % bs) + 1];
            one(Ciph::Toy(bs), &init, w, &fill(if bs == 1 { 300 } else { 11 }, 3), t)?;
            let mut top = vec![0xff; w];
            top[w - 1] = i as u8;
            one(Ciph::Toy(bs), &top, w, &fill(258 * bs, 3), t)
        });
    }
    // every length, every carry position, wider counters, real ciphers
    let mut cs = REAL.to_vec();
    cs.extend([3usize, 4, 5, 8].iter().map(|&b| Ciph::Toy(b)));
    cs.push(Ciph::Anon);
    for ci in cs {
        let bs = ci.bs();
        let lens = c.pick(9 * bs + 2, 20 * bs) as u64;
        c.par(&format!("length/{:?}", ci), lens * (bs as u64 + 1) * 3, |mut i, t| {
            let n = dig(&mut i, lens);
            let z = dig(&mut i, bs as u64 + 1);
            let w = bs + [0, 1, 7][i as usize];
            let mut init = fill(w, 9);
            for k in 0..z { init[w - 1 - k] = 0xff; }
            if z > 0 { init[w - 1] = 0xfe; }
            one(ci, &init, w, &fill(n, 3), t)?;
            if i == 0 { one(ci, &init[w - z..], w, &fill(n, 1), t)?; }
            Ok(())
        });
        c.par(&format!("wide/{:?}", ci), (c.pick(14, 17) - 6) * 5, |mut i, t| {
            let d = [-1i64, 0, 1, bs as i64 - 1, bs as i64][dig(&mut i, 5)];
            one(ci, &fill(bs, 9), bs, &fill(((1i64 << (6 + i)) + d) as usize, 3), t)
        });
        // the key stream or the result is special
        let sp = special(bs);
        c.par(&format!("special/{:?}", ci), if bs < 8 { 0 } else { sp.len() as u64 }, |i, t| {
            let (x, r) = (&sp[i as usize], ci.reference());
            for init in [fill(bs, 9), r.dec(x), x.clone()] {
                for m in [fill(2 * bs + 1, 3), [&x[..], &x[..]].concat(), [xor(&r.enc(&init), x), fill(3, 4)].concat()] { one(ci, &init, bs, &m, t)?; }
            }
            Ok(())
        });
        c.par(&format!("large/{:?}", ci), if bs < 8 { 0 } else { 4 * 3 }, |mut i, t| {
            let d = [-1i64, 0, bs as i64 + 1][dig(&mut i, 3)];
            one(ci, &fill(bs, 9), bs, &fill(((1i64 << (15 + i)) + d) as usize, 3), t)
        });
        c.par(&format!("long/{:?}", ci), 3, |i, t| {
            let w = bs + i as usize;
            let mut init = vec![0xff; w];
            init[w - 1] = 0;
            if w > 1 { init[w - 2] = 0xfd; }
            one(ci, &init, w, &fill((if bs == 1 { 256 } else { 1100 }) * bs + 1, 3), t)
        });
    }
    // messages at every address modulo 64
    c.par("address", REAL.len() as u64 * 64, |mut i, t| {
        let ci = REAL[dig(&mut i, REAL.len() as u64)];
        one(ci, &fill(ci.bs(), 9), ci.bs(), At::new(i as usize, &fill(3 * ci.bs() + 5, 3)).get(), t)
    });
    // blocks and counters around the limits of a byte: every carry length
    c.par("big-blocks", BIG.len() as u64 * 5 * 4, |mut i, t| {
        let ci = Ciph::Toy(BIG[dig(&mut i, BIG.len() as u64)]);
        let bs = ci.bs();
        let n = [1, bs, bs + 1, 2 * bs, 3 * bs - 1][dig(&mut i, 5)];
        let w = bs + [0, 1, 31, 256][i as usize];
        for z in 0..=w {
            let mut init = fill(w, 9);
            for k in 0..z { init[w - 1 - k] = 0xff; }
            one(ci, &init, w, &fill(n, 3), t)?;
            if z > 0 { one(ci, &init[w - z..], w, &fill(n, 1), t)?; }
        }
        Ok(())
    });
    // histories of calls on one object
    let lens = [0usize, 1, 2, 3, 5];
    let ops = 10u64;
    for (bs, w) in [(2usize, 2usize), (2, 3), (1, 1), (3, 5)] {
        let depth = c.pick(6, 7);
        c.par(&format!("history/{}-{}", bs, w), seqs_upto(ops, depth), |i, t| {
            let s = seq(i, ops, depth);
            let ci = Ciph::Toy(bs);
            let r = ci.reference();
            let mut init = vec![0xff; w];
            init[w - 1] = 0xfd;
            let mut x = ctr(ci, &init, w)?;
            let mut at = 0u64;
            let mut o = vec![];
            for &op in &s {
                let what = || format!("CTR ({} byte blocks, {} byte counter) after {:?}", bs, w, s);
                t.step();
                match op {
                    0..=4 => {
                        let m = fill(lens[op], 3);
                        let n = x.encrypt(&mut o, &m).map_err(|e| format!("{}: {}", what(), e))?;
                        if n != m.len() { return Err(format!("{}: returned {}", what(), n)); }
                        t.eq(&what, &o, &want(r.as_ref(), &init, w, at, &m))?;
                        at += blocks(m.len(), bs);
                    }
                    5 => {
                        let m = fill(bs + 1, 5);
                        x.decrypt(&mut o, &m).map_err(|e| format!("{}: {}", what(), e))?;
                        t.eq(&what, &o, &want(r.as_ref(), &init, w, at, &m))?;
                        at += 2;
                    }
                    6 => {
                        init = vec![0xff; w - 1];
                        x.set_counter(counter(&init, w)?).map_err(|e| format!("{}: {}", what(), e))?;
                        at = 0;
                    }
                    7 => if x.set_counter(DefaultCounter::new(vec![], 8 * bs - 1).map_err(|e| format!("{}", e))?).is_ok() { return Err(format!("{}: narrow counter accepted", what())); },
                    8 => {
                        // a clone starts over or continues, but never serves the original's blocks differently
                        let y = x.clone();
                        let m = fill(2 * bs, 3);
                        y.encrypt(&mut o, &m).map_err(|e| format!("{}: {}", what(), e))?;
                        if o != want(r.as_ref(), &init, w, 0, &m) && o != want(r.as_ref(), &init, w, at, &m) { return Err(format!("{}: clone used other counter values", what())); }
                        t.trace();
                    }
                    _ => {
                        // a stream restarts the counter, continues after finish and restarts after reset
                        let y = x;
                        let mut st: Box<dyn St> = if at % 2 == 0 { Box::new(y.encrypt_stream()) } else { Box::new(y.decrypt_stream()) };
                        let m = fill(2 * bs + 1, 3);
                        let mut out = vec![];
                        st.w(&m, Some(&mut out))?;
                        st.f(Some(&mut out))?;
                        t.eq(&|| format!("{}: stream", what()), &out, &want(r.as_ref(), &init, w, 0, &m))?;
                        out.clear();
                        st.w(&m[..bs], None)?;
                        st.f(Some(&mut out))?;
                        t.eq(&|| format!("{}: stream after finish", what()), &out, &want(r.as_ref(), &init, w, 3, &m[..bs]))?;
                        out.clear();
                        st.w(&m, None)?;
                        st.r();
                        st.w(&m, None)?;
                        st.f(Some(&mut out))?;
                        t.eq(&|| format!("{}: stream after reset", what()), &out, &want(r.as_ref(), &init, w, 0, &m))?;
                        t.steps(8);
                        return Ok(());
                    }
                }
            }
            t.trace();
            Ok(())
        });
    }
    // one object through many calls
    c.par("endurance", 3 * 4, |mut i, t| {
        let ci = [Ciph::Toy(2), Ciph::Toy(5), REAL[0]][dig(&mut i, 3)];
        let bs = ci.bs();
        let w = bs + [0, 1][i as usize % 2];
        let r = ci.reference();
        let mut init = vec![0xff; w];
        init[w - 1] = 0x80;
        let mut x = ctr(ci, &init, w)?;
        let (mut at, mut o) = (0u64, vec![]);
        for n in 0..t.pick(2500usize, 20000) {
            let m = fill(n * 7 % (3 * bs + 1), n % 9);
            t.step();
            if n % 3 == 0 { x.decrypt(&mut o, &m) } else { x.encrypt(&mut o, &m) }.map_err(|e| format!("call {}: {}", n, e))?;
            t.eq(&|| format!("CTR over {:?}, call {} of one object", ci, n), &o, &want(r.as_ref(), &init, w, at, &m))?;
            at += blocks(m.len(), bs);
            if i > 1 && n % 41 == 40 { init = fill(w, n % 200); x.set_counter(counter(&init, w)?).map_err(|e| format!("{}", e))?; at = 0; }
        }
        Ok(())
    });
    // counters supplied by the caller: values are used in order, running out is an error
    c.par("listed", 8 * 30, |mut i, t| {
        let have = dig(&mut i, 8);
        let n = i as usize;
        let (bs, ci) = (3, Ciph::Toy(3));
        let v: Vec<Vec<u8>> = (0..have).map(|k| fill(bs, 6 + k)).collect();
        let l = Listed { v: v.clone(), pos: 0, bits: 8 * bs };
        let x = CTR::new(ci.lib(), l).map_err(|e| format!("{}", e))?;
        let m = fill(n, 3);
        let mut o = vec![];
        t.step();
        t.trace();
        let got = x.encrypt(&mut o, &m);
        let enough = blocks(n, bs) as usize <= have;
        if got.is_ok() != enough { return Err(format!("{} bytes with {} counter values: {}", n, have, got.is_ok())); }
        if enough {
            let r = ci.reference();
            let w: Vec<u8> = m.chunks(bs).enumerate().flat_map(|(k, b)| xor(b, &r.enc(&v[k]))).collect();
            t.eq(&|| "CTR with listed counter values".into(), &o, &w)?;
        }
        Ok(())
    });
}
