//! C02: a digest depends only on the bytes of the current message.
use std::collections::HashMap;
use std::sync::RwLock;
use vh::engine::{self, hx, Ctx, R, T};
use vh::enumr::{fill, seq, seqs_upto};
use vh::zoo::{md_family, sha3_family, DynD, Spec};

fn main() { engine::main("C02", run) }

/// reference digests of the first `len` bytes of filling `epoch`
struct Memo<'a> { s: &'a Spec, m: RwLock<HashMap<(usize, usize), Vec<u8>>>, src: Vec<Vec<u8>> }
impl<'a> Memo<'a> {
    fn new(s: &'a Spec) -> Memo<'a> { Memo { s, m: RwLock::new(HashMap::new()), src: (0..4).map(|e| fill(6000, 3 + e * 2)).collect() } }
    fn get(&self, e: usize, len: usize) -> Vec<u8> {
        if let Some(v) = self.m.read().unwrap().get(&(e, len)) { return v.clone(); }
        let v = (self.s.refh)(&self.src[e][..len]);
        self.m.write().unwrap().insert((e, len), v.clone());
        v
    }
}

/// model of one digest object: which message, how long, finished or not
#[derive(Clone, Copy, PartialEq, Debug)]
struct M {
    epoch: usize,
    len: usize,
    done: bool,
    /// an empty write followed the checksum: both "still finished" and "new empty message" are allowed
    amb: Option<usize>,
}

fn check(o: &mut dyn DynD, m: &mut M, memo: &Memo, dirty: usize, t: &T) -> R {
    let mut out = [vec![], vec![0xee; 3], vec![0x11; 200]][dirty % 3].clone();
    o.checksum(&mut out);
    t.step();
    let want = memo.get(m.epoch, m.len);
    if out == want {
        if m.amb.is_some() && !(memo.get(m.amb.unwrap(), 0) == want) { m.amb = None; }
    } else if m.amb.is_some() && out == memo.get(m.amb.unwrap(), 0) {
        m.epoch = m.amb.unwrap();
        m.len = 0;
    } else {
        return Err(format!("checksum gave {} expected {} (message of {} bytes, {:?})", hx(&out), hx(&want), m.len, m));
    }
    m.amb = None;
    m.done = true;
    t.state(&[(m.len >> 8) as u8, m.len as u8, m.epoch as u8, dirty as u8]);
    Ok(())
}

fn write(o: &mut dyn DynD, m: &mut M, n: usize, epochs: &mut usize, memo: &Memo, t: &T) {
    if n == 0 {
        if m.done && m.amb.is_none() { *epochs += 1; m.amb = Some(*epochs % 4); }
    } else if m.done {
        let e = match m.amb { Some(e) => e, None => { *epochs += 1; *epochs % 4 } };
        *m = M { epoch: e, len: 0, done: false, amb: None };
    }
    let e = if m.amb.is_some() { 0 } else { m.epoch };
    o.write(&memo.src[e][m.len..m.len + n]);
    t.step();
    if n > 0 { m.len += n; }
}

fn history(s: &Spec, memo: &Memo, sizes: &[usize], ops: &[usize], t: &T) -> R {
    let ns = sizes.len();
    let mut epochs = 0;
    let mut cur: (Box<dyn DynD>, M) = ((s.make)(), M { epoch: 0, len: 0, done: false, amb: None });
    let mut other: Option<(Box<dyn DynD>, M)> = None;
    let name = |k: usize| if k < ns { format!("write({})", sizes[k]) } else { ["checksum", "reset", "clone", "swap"][k - ns].to_string() };
    t.sample(|| format!("{}: {}", s.name, ops.iter().map(|&k| name(k)).collect::<Vec<_>>().join(" ")));
    let fail = |e: String, at: usize| format!("{} after {}: {}", s.name, ops[..at].iter().map(|&k| name(k)).collect::<Vec<_>>().join(" "), e);
    for (i, &k) in ops.iter().enumerate() {
        if k < ns {
            write(cur.0.as_mut(), &mut cur.1, sizes[k], &mut epochs, memo, t);
        } else {
            match k - ns {
                0 => check(cur.0.as_mut(), &mut cur.1, memo, i, t).map_err(|e| fail(e, i + 1))?,
                1 => {
                    cur.0.reset();
                    t.step();
                    epochs += 1;
                    cur.1 = M { epoch: epochs % 4, len: 0, done: false, amb: None };
                }
                2 => { other = Some((cur.0.boxed(), cur.1)); t.step(); }
                _ => if let Some(o) = other.take() { other = Some(std::mem::replace(&mut cur, o)); },
            }
        }
    }
    for k in 0..2 { check(cur.0.as_mut(), &mut cur.1, memo, k, t).map_err(|e| fail(e, ops.len()))?; }
    if let Some(mut o) = other { check(o.0.as_mut(), &mut o.1, memo, 0, t).map_err(|e| fail(format!("other object: {}", e), ops.len()))?; }
    t.trace();
    Ok(())
}

fn run(c: &Ctx) {
    let (md, s3) = (md_family(), sha3_family());
    for (fam, depth, slow) in [(&md, c.pick(5, 6), false), (&s3, c.pick(4, 5), true)] {
        for s in fam.iter() {
            let memo = Memo::new(s);
            let tailb = if s.rate == 128 { 17 } else { 9 };
            let sizes = if slow { vec![0, 1, s.rate - 1, s.rate, 2 * s.rate + 3] } else { vec![0, 1, 7, s.rate - tailb, s.rate - 1, s.rate, s.rate + 1, 2 * s.rate + 3] };
            let a = sizes.len() as u64 + 4;
            c.par(&format!("history/{}", s.name), seqs_upto(a, depth), |i, t| history(s, &memo, &sizes, &seq(i, a, depth), t));
        }
    }
    // long histories over the operations that change the state most
    for (fam, depth) in [(&md, c.pick(8, 9)), (&s3, c.pick(5, 6))] {
        for s in fam.iter() {
            let memo = Memo::new(s);
            let sizes = [1, s.rate - 1];
            // two writes, checksum, reset; clone and swap are left to the other unit
            c.par(&format!("deep/{}", s.name), seqs_upto(4, depth), |i, t| history(s, &memo, &sizes, &seq(i, 4, depth), t));
        }
    }
    // large writes after and before small ones, for the first and the second message of an object
    let (top, big) = (c.pick(13u32, 17), [-1i64, 0, 1]);
    for s in md.iter().chain(s3.iter()) {
        let r = s.rate;
        let small = [0usize, 1, r / 2, r - 1, r];
        c.par(&format!("wide/{}", s.name), 25 * 3 * (top - 9) as u64, |mut i, t| {
            let (a, b) = (small[(i % 5) as usize], small[(i / 5 % 5) as usize]);
            i /= 25;
            let n = ((1i64 << (10 + i / 3)) + big[(i % 3) as usize]) as usize;
            let m = vh::enumr::fill(a + n + b, 3);
            let want = (s.refh)(&m);
            let mut o = (s.make)();
            for round in 0..2 {
                o.write(&m[..a]);
                o.write(&m[a..a + n]);
                o.write(&m[a + n..]);
                let mut out = vec![];
                o.checksum(&mut out);
                t.steps(4);
                t.eq(&|| format!("{} writes {}+{}+{}, message {}", s.name, a, n, b, round), &out, &want)?;
                o.reset();
            }
            Ok(())
        });
    }
    for s in &md {
        c.par(&format!("large/{}", s.name), 5 * 2, |mut i, t| {
            let a = (i % 2) as usize;
            i /= 2;
            let n = [(1usize << 16) + 1, (1 << 17) + s.rate, (1 << 18) - 1, (1 << 20) + 1, (1 << 21) + s.rate + 1][i as usize];
            let m = vh::enumr::fill(a + n, 3);
            let mut o = (s.make)();
            o.write(&m[..a]);
            o.write(&m[a..]);
            let mut out = vec![];
            o.checksum(&mut out);
            t.steps(3);
            t.eq(&|| format!("{} writes {}+{}", s.name, a, n), &out, &(s.refh)(&m))
        });
    }
    // one object through many messages, and one message in many writes
    for s in md.iter().chain(s3.iter()) {
        let r = s.rate;
        c.par(&format!("endurance/{}", s.name), 4, |i, t| {
            let mut o = (s.make)();
            let m = vh::enumr::fill(4000, 3);
            if i < 2 {
                let mut want: Vec<Option<Vec<u8>>> = vec![None; r + 3];
                for n in 0..t.pick(1100usize, 9000) {
                    let l = if i == 0 { n % (r + 3) } else { n * 7 % (r + 3) };
                    if n % 5 == 3 { o.write(&m[..n % 90]); o.reset(); }
                    if n % 7 == 5 { let mut p = o.boxed(); p.write(&m[..9]); if n % 2 == 0 { o = p; o.reset(); } }
                    o.write(&m[..l / 2]);
                    o.write(&m[l / 2..l]);
                    t.steps(3);
                    if l == 0 { o.reset(); }
                    let w = want[l].get_or_insert_with(|| (s.refh)(&m[..l])).clone();
                    for k in 0..1 + n % 3 {
                        let mut out = vec![7; n % 4];
                        o.checksum(&mut out);
                        t.eq(&|| format!("{} message {} of {} bytes, checksum {}", s.name, n, l, k), &out, &w)?;
                    }
                    if n % 3 == 0 { o.reset(); }
                }
            } else {
                let step = if i == 2 { 1 } else { 3 };
                for p in m.chunks(step) { o.write(p); t.step(); }
                let mut out = vec![];
                o.checksum(&mut out);
                t.eq(&|| format!("{} of {} bytes in writes of {}", s.name, m.len(), step), &out, &(s.refh)(&m))?;
                // the checksum asked for many times
                let want = out.clone();
                for k in 0..1100 { o.checksum(&mut out); t.eq(&|| format!("{} checksum {} of one message", s.name, k), &out, &want)?; }
            }
            Ok(())
        });
    }
    // every pair of chunk sizes over two blocks, plus a third chunk
    for s in &md {
        let memo = Memo::new(s);
        let n = (2 * s.rate + 3) as u64;
        let third = [0usize, 1, s.rate - 8, s.rate];
        c.par(&format!("cuts/{}", s.name), n * n, |i, t| {
            let (a, b) = ((i % n) as usize, (i / n) as usize);
            for &d in &third {
                let mut o = (s.make)();
                o.write(&memo.src[0][..a]);
                o.write(&memo.src[0][a..a + b]);
                o.write(&memo.src[0][a + b..a + b + d]);
                let mut out = vec![];
                o.checksum(&mut out);
                t.steps(4);
                t.sample(|| format!("{}: writes of {}, {}, {} bytes", s.name, a, b, d));
                t.eq(&|| format!("{} writes {}+{}+{}", s.name, a, b, d), &out, &memo.get(0, a + b + d))?;
            }
            Ok(())
        });
    }
    for s in &s3 {
        let memo = Memo::new(s);
        let r = s.rate;
        let pts: Vec<usize> = [0, 1, 2, 7, 8, r / 2, r - 2, r - 1, r, r + 1, 2 * r - 1, 2 * r].to_vec();
        let n = pts.len() as u64;
        c.par(&format!("cuts/{}", s.name), n * n, |i, t| {
            let (a, b) = (pts[(i % n) as usize], pts[(i / n) as usize]);
            let mut o = (s.make)();
            o.write(&memo.src[0][..a]);
            o.write(&memo.src[0][a..a + b]);
            let mut out = vec![];
            o.checksum(&mut out);
            t.steps(3);
            t.eq(&|| format!("{} writes {}+{}", s.name, a, b), &out, &memo.get(0, a + b))
        });
    }
    c.assume("an empty write directly after a checksum may or may not start a new (empty) message; both readings of the interface are accepted");
}
