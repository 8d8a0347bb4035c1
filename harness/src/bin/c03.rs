//! C03: SHA-3 and SHAKE values.
use rcrypto::sha3::{self, Shake128, Shake256};
use rcrypto::{Digest, DigestXOF, SHA3};
use vh::engine::{self, hx, Ctx, R, T};
use vh::enumr::{alike, dig, fill, seq, seqs_upto, At};
use vh::refs::hash::{bits_of, bytes_of, sha3_bits, shake, shake_bits};
use vh::zoo::sha3_family;

fn main() { engine::main("C03", run) }

trait BitD: Digest { fn bit(&mut self, b: u8); }
macro_rules! bitd { ($($t:ty),*) => { $(impl BitD for $t { fn bit(&mut self, b: u8) { self.write_bit(b) } })* } }
bitd!(sha3::SHA224, sha3::SHA256, sha3::SHA384, sha3::SHA512, SHA3);

trait Xof: Digest { fn set(&mut self, d: usize); fn raw(&self) -> bool; }
impl Xof for Shake128 { fn set(&mut self, d: usize) { self.set_digest_len(d) } fn raw(&self) -> bool { self.is_raw_shake() } }
impl Xof for Shake256 { fn set(&mut self, d: usize) { self.set_digest_len(d) } fn raw(&self) -> bool { self.is_raw_shake() } }

type MkBit = (&'static str, usize, fn() -> Box<dyn BitD>);
fn bit_family() -> Vec<MkBit> {
    vec![
        ("sha3::SHA224", 224, || Box::new(sha3::SHA224::new())),
        ("sha3::SHA256", 256, || Box::new(sha3::SHA256::new())),
        ("sha3::SHA384", 384, || Box::new(sha3::SHA384::new())),
        ("sha3::SHA512", 512, || Box::new(sha3::SHA512::new())),
        ("SHA3::sha224", 224, || Box::new(SHA3::sha224())),
        ("SHA3::sha256", 256, || Box::new(SHA3::sha256())),
        ("SHA3::sha384", 384, || Box::new(SHA3::sha384())),
        ("SHA3::sha512", 512, || Box::new(SHA3::sha512())),
    ]
}
type MkX = (&'static str, usize, bool, fn(usize) -> Box<dyn Xof>);
fn xof_family() -> Vec<MkX> {
    vec![
        ("Shake128", 128, false, |d| Box::new(Shake128::new(d))),
        ("Shake256", 256, false, |d| Box::new(Shake256::new(d))),
        ("RawShake128", 128, true, |d| Box::new(Shake128::new(d).to_raw_shake())),
        ("RawShake256", 256, true, |d| Box::new(Shake256::new(d).to_raw_shake())),
    ]
}

fn run(c: &Ctx) {
    let fam = sha3_family();
    // every message length over three rate blocks
    let kinds = [2usize, 7, 1];
    for s in &fam {
        let n = (3 * s.rate + 3) as u64;
        c.par(&format!("length/{}", s.name), n * kinds.len() as u64, |mut i, t| {
            let k = kinds[dig(&mut i, 3)];
            let m = fill(i as usize, k);
            let mut d = (s.make)();
            if d.bits_len() != s.bits { return Err(format!("{} reports {} bits", s.name, d.bits_len())); }
            if d.block_size() != s.block { return Err(format!("{} reports block size {:?}", s.name, d.block_size())); }
            let mut out = vec![7; 5];
            d.write(&m);
            d.checksum(&mut out);
            t.steps(4);
            t.sample(|| format!("{} of {} bytes, fill {} = {}", s.name, i, k, hx(&out)));
            t.eq(&|| format!("{} of {} bytes, fill {}", s.name, i, k), &out, &(s.refh)(&m))
        });
    }
    // single large writes around every power of two and around multiples of the rate
    let (top, offs) = (c.pick(14u32, 18), [-9i64, -8, -1, 0, 1, 7, 8, 9]);
    for s in &fam {
        c.par(&format!("wide/{}", s.name), (top - 8) as u64 * offs.len() as u64 * 2, |mut i, t| {
            let whole = dig(&mut i, 2) == 1;
            let o = offs[dig(&mut i, offs.len() as u64)];
            let mut n = 1i64 << (9 + i);
            if whole { n -= n % s.rate as i64; }
            let len = (n + o) as usize;
            let m = fill(len, 3);
            let mut out = vec![];
            let mut d = (s.make)();
            d.write(&m);
            d.checksum(&mut out);
            t.steps(2);
            t.eq(&|| format!("{} of {} bytes in one write", s.name, len), &out, &(s.refh)(&m))
        });
    }
    // blocks that differ from the one before in one byte
    for s in &fam {
        c.par(&format!("alike/{}", s.name), 2 * s.rate as u64, |i, t| {
            let m = alike(s.rate, i as usize);
            let mut out = vec![];
            let mut d = (s.make)();
            d.write(&m);
            d.checksum(&mut out);
            t.steps(2);
            t.eq(&|| format!("{} of three blocks of which the second differs in byte {}", s.name, i / 2), &out, &(s.refh)(&m))
        });
    }
    // single writes of more than 64 KiB, and messages at every address modulo 64
    for s in &fam {
        c.par(&format!("large/{}", s.name), 3 * 2, |mut i, t| {
            let o = [-1i64, 0, 9][dig(&mut i, 3)];
            let m = fill(((1i64 << (16 + i)) + o) as usize, 3);
            let (mut out, mut d) = (vec![], (s.make)());
            d.write(&m);
            d.checksum(&mut out);
            t.steps(2);
            t.eq(&|| format!("{} of {} bytes in one write", s.name, m.len()), &out, &(s.refh)(&m))
        });
        c.par(&format!("address/{}", s.name), 64 * 5, |mut i, t| {
            let off = dig(&mut i, 64);
            let m = fill([1, s.rate - 1, s.rate, 2 * s.rate + 3, 5 * s.rate][i as usize], 3);
            let at = At::new(off, &m);
            let (mut out, mut d) = (vec![], (s.make)());
            d.write(at.get());
            d.checksum(&mut out);
            t.steps(2);
            t.eq(&|| format!("{} of {} bytes at an address {} above a multiple of 64", s.name, m.len(), off), &out, &(s.refh)(&m))
        });
    }
    // every one-byte message, every single-bit block
    for s in &fam {
        c.par(&format!("bit/{}", s.name), 256 + s.rate as u64 * 8, |i, t| {
            let m = if i < 256 { vec![i as u8] } else {
                let b = (i - 256) as usize;
                let mut m = vec![0; s.rate];
                m[b / 8] = 1 << (b % 8);
                m
            };
            let (mut d, mut out) = ((s.make)(), vec![]);
            d.write(&m);
            d.checksum(&mut out);
            t.steps(2);
            t.eq(&|| format!("{} of {}", s.name, hx(&m)), &out, &(s.refh)(&m))
        });
    }
    // messages written bit by bit: every bit length over a rate block
    for (name, d, mk) in bit_family() {
        let rb = 1600 - 2 * d;
        let n = (rb + 18) as u64;
        c.par(&format!("bits/{}", name), n, |i, t| {
            let src = fill(300, 7);
            let bits = bits_of(&src, i as usize);
            let mut o = mk();
            for (j, b) in bits.iter().enumerate() { o.bit(*b | (src[j % 97] & 0xfe)); }
            t.steps(i + 1);
            let mut out = vec![1];
            o.checksum(&mut out);
            t.sample(|| format!("{} of {} single bits", name, i));
            t.eq(&|| format!("{} of {} bits written one by one", name, i), &out, &sha3_bits(d, &bits))
        });
        // bytes, then bits, then bytes, then bits; also as second message after a checksum
        let r = rb / 8;
        let pre = [0usize, 1, r - 1, r];
        let post = [0usize, 1, 2, r - 1];
        c.par(&format!("mixed/{}", name), 4 * 10 * 4 * 3 * 2, |mut i, t| {
            let (p, b, q, e, again) = (pre[dig(&mut i, 4)], dig(&mut i, 10), post[dig(&mut i, 4)], dig(&mut i, 3) * 3, dig(&mut i, 2) == 1);
            let src = fill(400, 8);
            let mut all = vec![];
            let mut o = mk();
            let mut out = vec![];
            if again {
                o.bit(1);
                o.write(&src[7..9]);
                o.checksum(&mut out);
            }
            // after a checksum the new message must also start with a bit
            if p > 0 { o.write(&src[..p]); }
            all.extend(bits_of(&src, p * 8));
            for j in 0..b { o.bit(src[j] >> 3); all.push(src[j] >> 3 & 1); }
            if q > 0 { o.write(&src[..q]); }
            all.extend(bits_of(&src, q * 8));
            for j in 0..e { o.bit(src[j + 20]); all.push(src[j + 20] & 1); }
            if again && all.is_empty() { o.reset(); }
            o.checksum(&mut out);
            t.steps((b + e + 4) as u64);
            t.eq(&|| format!("{} of {} bytes + {} bits + {} bytes + {} bits{}", name, p, b, q, e, if again { " (second message)" } else { "" }), &out, &sha3_bits(d, &all))?;
            o.checksum(&mut out);
            t.eq(&|| format!("{} repeated checksum", name), &out, &sha3_bits(d, &all))
        });
    }
    // every output length across two and a half squeeze blocks
    for (name, sec, raw, mk) in xof_family() {
        let rb = 1600 - 2 * sec;
        let top = (2 * rb + rb / 2) as u64;
        let mlens = [0usize, 3, rb / 8 - 1];
        let long: Vec<Vec<u8>> = mlens.iter().map(|&l| shake_bits(sec, raw, &bits_of(&fill(l, 9), l * 8), top as usize)).collect();
        c.par(&format!("output/{}", name), (top + 1) * 3, |mut i, t| {
            let k = dig(&mut i, 3);
            let d = i as usize;
            let mut o = mk(d);
            if o.raw() != raw { return Err(format!("{} says is_raw_shake {}", name, o.raw())); }
            if o.bits_len() != d || o.block_size().is_some() { return Err(format!("{}({}) reports {} bits, block {:?}", name, d, o.bits_len(), o.block_size())); }
            o.write(&fill(mlens[k], 9));
            let mut out = vec![0xff; 9];
            o.checksum(&mut out);
            t.steps(5);
            let want = bytes_of(&bits_of(&long[k], d));
            t.sample(|| format!("{} of {} bytes, {} bits = {}", name, mlens[k], d, hx(&out)));
            t.eq(&|| format!("{} of {} bytes, {} output bits", name, mlens[k], d), &out, &want)
        });
        // long outputs
        let longs = [4 * rb, 4 * rb + 1, 7 * rb - 1, 12_345, 20_000, 65_535, 65_537, 255 * rb + 8, 256 * rb, 257 * rb + 3, (1 << 19) + 8, 1 << 20];
        c.par(&format!("long/{}", name), 12 * 3 * 3, |mut i, t| {
            let (d, ml) = (longs[dig(&mut i, 12)], [0usize, rb / 8, 2 * rb / 8 + 1][dig(&mut i, 3)]);
            // the length given at construction, or set from a short or from a longer one
            let mut o = mk([d, 8, d + 8 * rb][i as usize]);
            if i > 0 { o.set(d); }
            let m = fill(ml, 10);
            o.write(&m);
            let mut out = vec![];
            o.checksum(&mut out);
            t.steps(2);
            t.eq(&|| format!("{} of {} bytes, {} output bits", name, ml, d), &out, &shake(sec, raw, &m, d))
        });
        // changing the output length at any point of a history
        let lens = [0usize, 1, 13, 256, rb, rb + 1];
        let a = (lens.len() + 4) as u64;
        let depth = c.pick(4, 5);
        c.par(&format!("setlen/{}", name), seqs_upto(a, depth), |i, t| setlen(name, sec, raw, mk, &lens, &seq(i, a, depth), t));
    }
    c.assume("changing the output length may either keep the message written so far or start a new one; both are accepted");
}

/// the messages the object may currently hold, and whether it is finished
fn setlen(name: &str, sec: usize, raw: bool, mk: fn(usize) -> Box<dyn Xof>, lens: &[usize], ops: &[usize], t: &T) -> R {
    let mut d = 40;
    let mut o = mk(d);
    let mut cand: Vec<Vec<u8>> = vec![vec![]];
    let mut done = false;
    let words = ["w(1)", "w(9)", "checksum", "reset"];
    let show = || ops.iter().map(|&k| if k < lens.len() { format!("set({})", lens[k]) } else { words[k - lens.len()].into() }).collect::<Vec<String>>().join(" ");
    t.sample(|| format!("{}: {}", name, show()));
    let mut all: Vec<usize> = ops.to_vec();
    all.push(lens.len() + 2);
    for (n, &k) in all.iter().enumerate() {
        t.step();
        if k < lens.len() {
            d = lens[k];
            o.set(d);
            if o.bits_len() != d { return Err(format!("{} {}: bits_len is {}", name, show(), o.bits_len())); }
            if !cand.contains(&vec![]) { cand.push(vec![]); }
            continue;
        }
        match k - lens.len() {
            w @ 0..=1 => {
                let x = fill([1, 9][w], 11 + n);
                o.write(&x);
                if done { cand = vec![vec![]]; }
                done = false;
                for m in cand.iter_mut() { m.extend_from_slice(&x); }
            }
            2 => {
                let mut out = vec![3; 4];
                o.checksum(&mut out);
                let ok: Vec<Vec<u8>> = cand.iter().filter(|m| shake(sec, raw, m, d) == out).cloned().collect();
                if ok.is_empty() { return Err(format!("{} {}: checksum {} gave {} expected {}", name, show(), n, hx(&out), cand.iter().map(|m| hx(&shake(sec, raw, m, d))).collect::<Vec<_>>().join(" or "))); }
                // an output of few bits cannot tell the candidates apart: keep those that fit
                cand = ok;
                done = true;
                t.state(&out);
            }
            _ => { o.reset(); cand = vec![vec![]]; done = false; }
        }
    }
    t.trace();
    Ok(())
}
