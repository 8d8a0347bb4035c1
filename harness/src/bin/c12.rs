//! C12: streams against one-shot results for every chunking and every collection schedule.
use rcrypto::cipher_mode::{DefaultCounter, CTR};
use vh::engine::{self, hx, Ctx, R, T};
use vh::enumr::{alike, composition, dig, fill, n_compositions, seq, seqs_upto, special, At};
use vh::modes::{configs_few, configs, BoxC, Cfg, Ciph, Dec, Mode, QIv, St, REAL, BIG};
use vh::refs::cipher::RefCipher;
use vh::refs::modes::{ctr, xor};

fn main() { engine::main("C12", run) }

/// a mode of C10 or CTR
#[derive(Clone, Copy, Debug)]
enum S { G(Cfg), Ctr(Ciph) }
fn all(c: Ciph) -> Vec<S> {
    let mut v: Vec<S> = configs(c).into_iter().map(S::G).collect();
    v.push(S::Ctr(c));
    v
}
impl S {
    fn name(&self) -> String { match self { S::G(g) => g.name(), S::Ctr(c) => format!("CTR/{:?}", c) } }
    fn c(&self) -> Ciph { match self { S::G(g) => g.c, S::Ctr(c) => *c } }
    fn unit(&self) -> usize { match self { S::G(g) => g.unit(), S::Ctr(_) => 1 } }
    fn stream(&self, e: bool) -> Result<Box<dyn St>, String> { self.stream_with(self.c().lib(), e) }
    fn stream_with(&self, c: BoxC, e: bool) -> Result<Box<dyn St>, String> {
        let bs = self.c().bs();
        match self {
            S::G(g) => Ok(g.make_with(c, QIv::fixed(&fill(bs, 7))).map_err(|e| format!("{}", e))?.stream(e)),
            S::Ctr(_) => {
                let x = CTR::new(c, DefaultCounter::new(init(bs), 8 * bs).map_err(|e| format!("{}", e))?).map_err(|e| format!("{}", e))?;
                Ok(if e { Box::new(x.encrypt_stream()) } else { Box::new(x.decrypt_stream()) })
            }
        }
    }
    /// prescribed result; `at` = counter position (CTR only)
    fn want(&self, r: &dyn RefCipher, e: bool, at: u64, d: &[u8]) -> Dec {
        let bs = self.c().bs();
        match self {
            S::G(g) if e => match g.enc(r, &fill(bs, 7), d) { Some(x) => Dec::Is(x), None => Dec::Refuse },
            S::G(g) => g.dec(r, &fill(bs, 7), d),
            S::Ctr(_) => Dec::Is(ctr(r, &mut |i| add(&init(bs), at + i as u64), d)),
        }
    }
    /// the output allowed for the message/ciphertext d (the CFB padding is only required to be valid)
    fn check(&self, what: &dyn Fn() -> String, r: &dyn RefCipher, e: bool, at: u64, d: &[u8], got: Result<Vec<u8>, String>) -> R {
        let w = self.want(r, e, at, d);
        if let (S::G(g), true, Ok(o)) = (self, e, &got) {
            if let (Mode::Cfb(_), true) = (g.m, g.pad) {
                return match g.dec_raw(r, &fill(g.c.bs(), 7), o) {
                    Some(raw) if raw.len() > d.len() && raw.len() - d.len() <= g.c.bs() && raw[..d.len()] == *d && raw[d.len()] == 0x80 && raw[d.len() + 1..].iter().all(|&x| x == 0) => Ok(()),
                    raw => Err(format!("{}: encrypting {} as a stream gave {}, which is {:02x?} before encryption", what(), hx(d), hx(o), raw)),
                };
            }
        }
        if w.allows(&got) { Ok(()) } else { Err(format!("{}: {} {} as a stream gave {:02x?}, expected {:02x?}", what(), if e { "encrypting" } else { "decrypting" }, hx(d), got, w)) }
    }
}
fn init(bs: usize) -> Vec<u8> { let mut v = vec![0xff; bs]; v[bs - 1] = 0xfd; v }
fn add(v: &[u8], k: u64) -> Vec<u8> {
    let mut v = v.to_vec();
    let mut c = k;
    for b in v.iter_mut().rev() { c += *b as u64; *b = c as u8; c >>= 8; }
    v
}
/// writes d in the given parts, collecting after part j when bit j of draws is set, then finishes
fn feed(s: &mut dyn St, d: &[u8], parts: &[usize], draws: u64, t: &T) -> Result<Vec<u8>, String> {
    let mut out = vec![0x5c, 0x5d];
    let mut p = 0;
    for (j, &n) in parts.iter().enumerate() {
        t.step();
        s.w(&d[p..p + n], if draws >> (j % 64) & 1 == 1 { Some(&mut out) } else { None })?;
        p += n;
    }
    t.step();
    s.f(Some(&mut out))?;
    if out[..2] != [0x5c, 0x5d] { return Err("the caller's buffer was changed".into()); }
    Ok(out[2..].to_vec())
}
fn data(g: &S, r: &dyn RefCipher, e: bool, n: usize, k: usize) -> Vec<u8> {
    // for decryption a valid ciphertext of about n bytes
    if e { return fill(n, k); }
    let u = g.unit();
    let m = fill(if let S::G(Cfg { pad: true, .. }) = g { n.saturating_sub(1) } else { n / u * u }, k);
    match g.want(r, true, 0, &m) { Dec::Is(c) => c, _ => m }
}

fn run(c: &Ctx) {
    // every chunking x every collection schedule of short data, then a second message on the same object
    for bs in 1..=4usize {
        let gs = all(Ciph::Toy(bs));
        let top = c.pick([7usize, 9, 10, 9][bs - 1], [8, 10, 11, 11][bs - 1]);
        c.par(&format!("chunks/{}", bs), gs.len() as u64 * 2 * (top as u64 + 1), |mut i, t| {
            let g = gs[dig(&mut i, gs.len() as u64)];
            let e = dig(&mut i, 2) == 0;
            let r = g.c().reference();
            let d = data(&g, r.as_ref(), e, i as usize, 3);
            if d.len() > top + 2 { return Ok(()); }
            let d2 = data(&g, r.as_ref(), e, 2 * bs, 8);
            for mask in 0..n_compositions(d.len()) {
                let parts = composition(d.len(), mask);
                // collecting after the last write is as good as at finish: all subsets of the writes
                for draws in 0..1u64 << parts.len() {
                    let what = || format!("{} parts {:?} collected {:b}", g.name(), parts, draws);
                    let mut s = g.stream(e)?;
                    let got = feed(s.as_mut(), &d, &parts, draws, t);
                    t.trace();
                    if let Ok(o) = &got { t.state(o); }
                    let failed = got.is_err();
                    g.check(&what, r.as_ref(), e, 0, &d, got)?;
                    if failed || draws % 3 == 1 { s.r(); } else if let S::Ctr(_) = g { continue; }
                    let got = feed(s.as_mut(), &d2, &[d2.len() / 2, d2.len() - d2.len() / 2], draws, t);
                    g.check(&|| format!("{}, next message", what()), r.as_ref(), e, 0, &d2, got)?;
                }
            }
            Ok(())
        });
        // arbitrary ciphertexts (mostly with broken padding or length), every chunking
        let top = c.pick([4usize, 5, 6, 6][bs - 1], [5, 6, 7, 8][bs - 1]);
        let nseq = seqs_upto(3, top as u32);
        c.par(&format!("anycipher/{}", bs), gs.len() as u64 * nseq, |mut i, t| {
            let g = gs[dig(&mut i, gs.len() as u64)];
            let r = g.c().reference();
            // choose the decrypted text, so that all padding patterns occur
            let p: Vec<u8> = seq(i, 3, top as u32).iter().map(|&x| [0x00u8, 0x80, 0x17][x]).collect();
            let ct = match g { S::G(x) => match (Cfg { pad: false, ..x }).enc(r.as_ref(), &fill(bs, 7), &p) { Some(c) => c, None => p.clone() }, _ => p.clone() };
            let d2 = data(&g, r.as_ref(), false, 2 * bs, 8);
            for mask in 0..n_compositions(ct.len()) {
                let parts = composition(ct.len(), mask);
                for draws in [0, u64::MAX, 0x5555] {
                    let what = || format!("{} ciphertext parts {:?} collected {:b}", g.name(), parts, draws);
                    let mut s = g.stream(false)?;
                    let got = feed(s.as_mut(), &ct, &parts, draws, t);
                    t.trace();
                    g.check(&what, r.as_ref(), false, 0, &ct, got)?;
                    s.r();
                    let got = feed(s.as_mut(), &d2, &[d2.len()], 1, t);
                    g.check(&|| format!("{}, next message after reset", what()), r.as_ref(), false, 0, &d2, got)?;
                }
            }
            Ok(())
        });
    }
    // an empty write in between, at every place
    c.par("empty-writes", 5 * 2 * 12, |mut i, t| {
        let bs = 1 + dig(&mut i, 5);
        let e = dig(&mut i, 2) == 0;
        for g in all(Ciph::Toy(bs)) {
            let r = g.c().reference();
            let d = data(&g, r.as_ref(), e, i as usize, 3);
            for a in 0..=d.len() {
                for b in a..=d.len() {
                    for draws in 0..64u64 {
                        let parts = [0, a, 0, b - a, d.len() - b, 0];
                        let mut s = g.stream(e)?;
                        let got = feed(s.as_mut(), &d, &parts, draws, t);
                        t.trace();
                        g.check(&|| format!("{} parts {:?} collected {:b}", g.name(), parts, draws), r.as_ref(), e, 0, &d, got)?;
                    }
                }
            }
        }
        Ok(())
    });
    // real ciphers: every pair of cut positions over several blocks
    for ci in REAL.iter().copied().chain([Ciph::Toy(16), Ciph::Toy(6), Ciph::Anon]) {
        let gs: Vec<S> = all(ci).into_iter().filter(|g| match g { S::G(Cfg { m: Mode::Cfb(s), .. }) => [1, 2, 3, 5, 7, 8, 15, 16].contains(s), _ => true }).collect();
        let bs = ci.bs();
        let lens: Vec<usize> = if c.thorough { (0..=4 * bs + 1).collect() } else { vec![0, 1, bs - 1, bs, bs + 1, 2 * bs, 3 * bs - 1, 3 * bs, 3 * bs + 1] };
        c.par(&format!("cuts/{:?}", ci), gs.len() as u64 * 2 * lens.len() as u64, |mut i, t| {
            let g = gs[dig(&mut i, gs.len() as u64)];
            let e = dig(&mut i, 2) == 0;
            let r = g.c().reference();
            let d = data(&g, r.as_ref(), e, lens[i as usize], 3);
            let heavy = matches!(ci, Ciph::Tdes | Ciph::Des);
            for a in 0..=d.len() {
                for b in (a..=d.len()).step_by(if heavy { 5 } else { 1 }) {
                    let parts = [a, b - a, d.len() - b];
                    let mut s = g.stream(e)?;
                    let got = feed(s.as_mut(), &d, &parts, (a + b) as u64, t);
                    t.trace();
                    if let Ok(o) = &got { t.state(o); }
                    g.check(&|| format!("{} parts {:?}", g.name(), parts), r.as_ref(), e, 0, &d, got)?;
                }
            }
            // equal pieces of every size
            for k in 1..=d.len() {
                let mut parts = vec![k; d.len() / k];
                if d.len() % k > 0 { parts.push(d.len() % k); }
                let mut s = g.stream(e)?;
                let got = feed(s.as_mut(), &d, &parts, 0xdb6d, t);
                g.check(&|| format!("{} pieces of {}", g.name(), k), r.as_ref(), e, 0, &d, got)?;
            }
            Ok(())
        });
    }
    // histories over write/finish/reset/one-shot calls
    let ops = 9u64;
    for bs in [2usize, 3] {
        let gs = all(Ciph::Toy(bs));
        let depth = c.pick(6, 7);
        c.par(&format!("history/{}", bs), gs.len() as u64 * 2 * seqs_upto(ops, depth), |mut i, t| {
            let g = gs[dig(&mut i, gs.len() as u64)];
            let e = dig(&mut i, 2) == 0;
            let h = seq(i, ops, depth);
            let r = g.c().reference();
            let mut s = g.stream(e)?;
            let src = data(&g, r.as_ref(), e, 4 * bs, 3);
            let what = || format!("{} {} history {:?}", g.name(), if e { "encryption" } else { "decryption" }, h);
            let (mut cur, mut out, mut at, mut dead): (Vec<u8>, Vec<u8>, u64, bool) = (vec![], vec![], 0, false);
            let is_ctr = matches!(g, S::Ctr(_));
            for &op in &h {
                t.step();
                // after an error only reset is meaningful
                if dead && op != 6 { return Ok(()); }
                match op {
                    0..=4 => {
                        let n = [0, 1, bs, 2 * bs + 1, bs + 1][op];
                        let piece: Vec<u8> = (0..n).map(|k| src[(cur.len() + k) % src.len()]).collect();
                        match s.w(&piece, if op % 2 == 0 { Some(&mut out) } else { None }) {
                            Ok(()) => cur.extend(&piece),
                            Err(x) => return Err(format!("{}: write refused: {}", what(), x)),
                        }
                    }
                    5 => {
                        let got = s.f(Some(&mut out)).map(|_| out.clone());
                        dead = got.is_err();
                        t.trace();
                        if let Ok(o) = &got { t.state(o); }
                        g.check(&what, r.as_ref(), e, at, &cur, got)?;
                        at += ((cur.len() + bs - 1) / bs) as u64;
                        cur.clear();
                        out.clear();
                    }
                    6 => { s.r(); cur.clear(); out.clear(); at = 0; dead = false; }
                    7 => {
                        // the last output of the message is not wanted: it must not turn up in the next one
                        dead = s.f(None).is_err();
                        at += ((cur.len() + bs - 1) / bs) as u64;
                        cur.clear();
                        out.clear();
                    }
                    _ => {
                        // a one-shot call on the stream object answers like the mode and leaves the stream alone
                        if is_ctr { return Ok(()); }
                        let m = fill(2 * bs, 9);
                        g.check(&|| format!("{} one-shot call", what()), r.as_ref(), true, 0, &m, s.one(true, &m))?;
                        g.check(&|| format!("{} one-shot call", what()), r.as_ref(), false, 0, &m, s.one(false, &m))?;
                    }
                }
            }
            Ok(())
        });
    }
    // a cipher failing at every possible call: an error is reported, reset makes the stream usable
    c.par("failing-cipher", 3 * 2 * 10, |mut i, t| {
        let bs = 1 + dig(&mut i, 3);
        let e = dig(&mut i, 2) == 0;
        for g in all(Ciph::Toy(bs)) {
            let r = g.c().reference();
            for n in [2 * bs, 3 * bs] {
                let d = data(&g, r.as_ref(), e, n, 3);
                let mut tc = vh::toy::ToyCipher::new(bs, 0x41);
                tc.fail_at = Some(i as usize);
                for (parts, draws) in [(vec![d.len()], 1u64), (vec![1, d.len() - 1], 0), (vec![d.len() - 1, 1], 3)] {
                    let mut s = g.stream_with(BoxC(Box::new(tc.clone())), e)?;
                    let got = feed(s.as_mut(), &d, &parts, draws, t);
                    t.trace();
                    if got.is_ok() { g.check(&|| format!("{} with call {} of the cipher failing", g.name(), i), r.as_ref(), e, 0, &d, got)?; }
                    // let the fault pass
                    for _ in 0..20 { s.r(); let _ = feed(s.as_mut(), &d, &[d.len()], 1, t); }
                    s.r();
                    let got = feed(s.as_mut(), &d, &parts, draws, t);
                    g.check(&|| format!("{} after a failure of the cipher (call {}) and reset", g.name(), i), r.as_ref(), e, 0, &d, got)?;
                }
            }
        }
        Ok(())
    });
    // lengths around every power of two in one, two and three writes
    c.par("wide", REAL.len() as u64 * 2 * (c.pick(13, 16) - 6) * 3, |mut i, t| {
        let ci = REAL[dig(&mut i, REAL.len() as u64)];
        let e = dig(&mut i, 2) == 0;
        let bs = ci.bs();
        let n = [0, 1, bs + 1][dig(&mut i, 3)] + (1usize << (6 + i)) - 1;
        for g in all(ci).into_iter().filter(|g| g.unit() == 1 || g.unit() % 8 == 0) {
            let r = g.c().reference();
            let d = data(&g, r.as_ref(), e, n, 3);
            let l = d.len();
            for parts in [vec![l], vec![1, l - 1], vec![l - bs, bs], vec![bs, l - 2 * bs, bs], vec![bs + 1, l - bs - 1], vec![l / 2, l - l / 2]] {
                let mut s = g.stream(e)?;
                let got = feed(s.as_mut(), &d, &parts, 0b101, t);
                t.trace();
                g.check(&|| format!("{} writes of {:?}", g.name(), parts), r.as_ref(), e, 0, &d, got)?;
            }
        }
        Ok(())
    });
    // what enters or leaves the cipher is special; blocks that differ from the one before in one byte
    c.par("special", REAL.len() as u64 * 2 * (7 * 16 + 2 + 32), |mut i, t| {
        let ci = REAL[dig(&mut i, REAL.len() as u64)];
        let e = dig(&mut i, 2) == 0;
        let (bs, r, i) = (ci.bs(), ci.reference(), i as usize);
        let (sp, iv) = (special(bs), fill(bs, 7));
        if i >= sp.len() + 2 * bs { return Ok(()); }
        let ds = if i < sp.len() {
            let x = &sp[i];
            [x.clone(), r.dec(x), xor(x, &iv), xor(&r.dec(x), &iv), xor(&r.enc(&iv), x)].iter().map(|m| [&m[..], &fill(bs, 5), &m[..]].concat()).collect()
        } else { vec![alike(bs, i - sp.len())] };
        for d in &ds {
            for g in all(ci).into_iter().filter(|g| g.unit() == 1 || g.unit() % 8 == 0) {
                for parts in [vec![3 * bs], vec![1, 3 * bs - 1], vec![bs, bs, bs]] {
                    let mut s = g.stream(e)?;
                    let got = feed(s.as_mut(), d, &parts, 0b101, t);
                    t.trace();
                    g.check(&|| format!("{} writes of {:?}", g.name(), parts), r.as_ref(), e, 0, d, got)?;
                }
            }
        }
        Ok(())
    });
    // writes of more than 64 KiB
    c.par("large", REAL.len() as u64 * 2 * c.pick(1, 3), |mut i, t| {
        let ci = REAL[dig(&mut i, REAL.len() as u64)];
        let e = dig(&mut i, 2) == 0;
        let n = [(1usize << 16) + ci.bs(), (1 << 16) - 1, (1 << 17) + 1][i as usize];
        for g in all(ci).into_iter().filter(|g| g.unit() == 1 || g.unit() % 8 == 0) {
            let r = g.c().reference();
            let d = data(&g, r.as_ref(), e, n, 3);
            let l = d.len();
            for parts in [vec![l], vec![1, l - 1], vec![l - 1, 1]] {
                let mut s = g.stream(e)?;
                let got = feed(s.as_mut(), &d, &parts, 0b101, t);
                t.trace();
                g.check(&|| format!("{} writes of {:?}", g.name(), parts), r.as_ref(), e, 0, &d, got)?;
            }
        }
        Ok(())
    });
    // data at every address modulo 64
    c.par("address", REAL.len() as u64 * 2 * 64, |mut i, t| {
        let ci = REAL[dig(&mut i, REAL.len() as u64)];
        let e = dig(&mut i, 2) == 0;
        let bs = ci.bs();
        for g in all(ci).into_iter().filter(|g| g.unit() == 1 || g.unit() % 8 == 0) {
            let r = g.c().reference();
            let d = data(&g, r.as_ref(), e, 6 * bs, 3);
            let at = At::new(i as usize, &d);
            for parts in [vec![d.len()], vec![3, d.len() - 3], vec![2 * bs, d.len() - 2 * bs]] {
                let mut s = g.stream(e)?;
                let got = feed(s.as_mut(), at.get(), &parts, 0b101, t);
                t.trace();
                g.check(&|| format!("{} writes of {:?} from an address {} above a multiple of 64", g.name(), parts, i), r.as_ref(), e, 0, &d, got)?;
            }
        }
        Ok(())
    });
    // blocks around the limits of a byte
    c.par("big-blocks", BIG.len() as u64 * 2 * 9, |mut i, t| {
        let ci = Ciph::Toy(BIG[dig(&mut i, BIG.len() as u64)]);
        let e = dig(&mut i, 2) == 0;
        let bs = ci.bs();
        let n = [0, 1, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 2 * bs + 1, 4 * bs][i as usize];
        for g in configs_few(ci).into_iter().map(S::G).chain([S::Ctr(ci)]) {
            let r = g.c().reference();
            let d = data(&g, r.as_ref(), e, n, 3);
            let l = d.len();
            for a in [0, 1, bs / 2, bs - 1, bs, bs + 1, 2 * bs] {
                for b in [0, 1, bs - 1, bs, bs + 1] {
                    if a + b > l { continue; }
                    let mut s = g.stream(e)?;
                    let got = feed(s.as_mut(), &d, &[a, b, l - a - b], (a % 4) as u64, t);
                    t.trace();
                    g.check(&|| format!("{} pieces of {}, {}, {}", g.name(), a, b, l - a - b), r.as_ref(), e, 0, &d, got)?;
                }
            }
            for k in [1, 7, bs / 2 + 1, bs - 1] {
                let mut parts = vec![k; l / k];
                if l % k > 0 { parts.push(l % k); }
                let mut s = g.stream(e)?;
                let got = feed(s.as_mut(), &d, &parts, 0x4924, t);
                g.check(&|| format!("{} pieces of {}", g.name(), k), r.as_ref(), e, 0, &d, got)?;
            }
        }
        Ok(())
    });
    // one stream object through many messages
    c.par("endurance", (REAL.len() as u64 + 2) * 2, |mut i, t| {
        let ci = *[&REAL[..], &[Ciph::Toy(2), Ciph::Toy(3)]].concat().get(dig(&mut i, REAL.len() as u64 + 2)).unwrap();
        let e = i == 0;
        let bs = ci.bs();
        for g in all(ci) {
            if g.unit() < bs && g.unit() != 1 && g.unit() != bs / 2 { continue; }
            let r = g.c().reference();
            let mut s = g.stream(e)?;
            let mut at = 0u64;
            for n in 0..t.pick(400usize, 4000) {
                let d = data(&g, r.as_ref(), e, n * 7 % (3 * bs) / g.unit() * g.unit(), n % 9);
                if n % 11 == 5 { let _ = s.w(&d[..d.len() / 2], None); s.r(); at = 0; }
                let a = d.len() * (n % 4) / 4;
                let got = feed(s.as_mut(), &d, &[a, d.len() - a], n as u64 % 4, t);
                t.trace();
                let failed = got.is_err();
                if let S::Ctr(_) = g {
                    let want = ctr(r.as_ref(), &mut |k| add(&init(bs), at + k as u64), &d);
                    if got.as_ref().ok() != Some(&want) { return Err(format!("{} message {}: {:02x?} instead of {}", g.name(), n, got, hx(&want))); }
                    at += ((d.len() + bs - 1) / bs) as u64;
                    continue;
                }
                g.check(&|| format!("{} message {} of one stream", g.name(), n), r.as_ref(), e, 0, &d, got)?;
                if failed { s.r(); }
            }
        }
        Ok(())
    });
    // single large writes around powers of two, after and before small ones
    c.par("large-writes", (REAL.len() as u64 + 1) * 2 * (c.pick(14, 17) - 7) * 3, |mut i, t| {
        let ci = *[&REAL[..], &[Ciph::Toy(4)]].concat().get(dig(&mut i, REAL.len() as u64 + 1)).unwrap();
        let e = dig(&mut i, 2) == 0;
        let dl = dig(&mut i, 3);
        let bs = ci.bs();
        for g in all(ci) {
            if g.unit() < bs && g.unit() != 1 { continue; }
            let r = g.c().reference();
            let n = (1usize << (7 + i)) + [0, bs, 2 * bs][dl];
            let d = data(&g, r.as_ref(), e, n, 3);
            for (a, b) in [(0, 0), (1, 0), (bs - 1, 1), (bs, bs + 1)] {
                let mut s = g.stream(e)?;
                let got = feed(s.as_mut(), &d, &[a, d.len() - a - b, b], (n % 3) as u64, t);
                t.trace();
                g.check(&|| format!("{} pieces of {}, {}, {}", g.name(), a, d.len() - a - b, b), r.as_ref(), e, 0, &d, got)?;
            }
        }
        Ok(())
    });
    // long streams
    c.par("long", REAL.len() as u64 * 2, |mut i, t| {
        let ci = REAL[dig(&mut i, REAL.len() as u64)];
        let e = i == 0;
        for g in all(ci).into_iter().filter(|g| g.unit() == 1 || g.unit() % 8 == 0) {
            let r = g.c().reference();
            let d = data(&g, r.as_ref(), e, 4096, 3);
            for k in [1usize, 7, 16, 33, 1000] {
                let mut parts = vec![k; d.len() / k];
                if d.len() % k > 0 { parts.push(d.len() % k); }
                let mut s = g.stream(e)?;
                let got = feed(s.as_mut(), &d, &parts[..], if parts.len() > 60 { 0 } else { 0x333 }, t);
                t.trace();
                g.check(&|| format!("{} 4096 bytes in pieces of {}", g.name(), k), r.as_ref(), e, 0, &d, got)?;
            }
        }
        Ok(())
    });
}
