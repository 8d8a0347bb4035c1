//! C10: one-shot ECB, CBC, CFB, OFB.
use rcrypto::cipher_mode::{DefaultInitialVec, InitialVec, CBC, CFB, EmptyPadding, OFB};
use rcrypto::Cipher;
use vh::engine::{self, hx, Ctx, R, T};
use vh::enumr::{alike, dig, fill, seq, seqs_upto, special, At};
use vh::refs::modes::xor;
use vh::modes::{configs_few, configs, BoxC, BoxP, Cfg, Ciph, Dec, Lib, Mode, QIv, REAL, BIG};
use vh::refs::cipher::RefCipher;
use vh::scripted::{Script, Tail};

fn main() { engine::main("C10", run) }

/// the CFB padding only has to be a valid padding of the message, not a particular one
fn same_ct(g: &Cfg, r: &dyn RefCipher, iv: &[u8], m: &[u8], got: &[u8]) -> bool {
    match (g.m, g.pad) {
        (Mode::Cfb(_), true) => match g.dec_raw(r, iv, got) {
            Some(raw) => raw.len() > m.len() && raw.len() - m.len() <= g.c.bs() && raw[..m.len()] == *m && raw[m.len()] == 0x80 && raw[m.len() + 1..].iter().all(|&x| x == 0),
            None => false,
        },
        _ => g.enc(r, iv, m).map(|e| e == got).unwrap_or(false),
    }
}
fn check_enc(what: &dyn Fn() -> String, g: &Cfg, l: &Lib, r: &dyn RefCipher, iv: &[u8], m: &[u8], t: &T) -> Result<Option<Vec<u8>>, String> {
    t.step();
    let got = l.enc(m);
    t.trace();
    match (g.enc(r, iv, m), got) {
        (None, Err(_)) => { t.state(b"refused"); Ok(None) }
        (None, Ok(o)) => Err(format!("{}: message {} of a length that cannot be processed gave {}", what(), hx(m), hx(&o))),
        (Some(_), Err(e)) => Err(format!("{}: message {} refused: {}", what(), hx(m), e)),
        (Some(w), Ok(o)) => {
            t.state(&o);
            if !same_ct(g, r, iv, m, &o) { return Err(format!("{}: encrypt {} gave {}, expected {}", what(), hx(m), hx(&o), hx(&w))); }
            Ok(Some(o))
        }
    }
}
fn check_dec(what: &dyn Fn() -> String, g: &Cfg, l: &Lib, r: &dyn RefCipher, iv: &[u8], c: &[u8], t: &T) -> R {
    t.step();
    let got = l.dec(c);
    t.trace();
    let want = g.dec(r, iv, c);
    if let Ok(o) = &got { t.state(o); }
    if !want.allows(&got) { return Err(format!("{}: decrypt {} gave {:02x?}, expected {:02x?}", what(), hx(c), got, want)); }
    Ok(())
}
fn round(g: &Cfg, l: &Lib, r: &dyn RefCipher, iv: &[u8], m: &[u8], t: &T) -> R {
    let what = || format!("{} iv {}", g.name(), hx(iv));
    if let Some(ct) = check_enc(&what, g, l, r, iv, m, t)? {
        t.step();
        let back = l.dec(&ct);
        if back.as_ref().ok().map(|b| &b[..]) != Some(m) { return Err(format!("{}: decrypt(encrypt({})) = {:02x?}", what(), hx(m), back)); }
        if let Some(again) = check_enc(&what, g, l, r, iv, m, t)? {
            if again != ct { return Err(format!("{}: encrypting {} twice gave {} and {}", what(), hx(m), hx(&ct), hx(&again))); }
        }
    }
    check_dec(&what, g, l, r, iv, m, t)
}

fn run(c: &Ctx) {
    // all short messages/ciphertexts over four letters, for every configuration of small toy ciphers
    let letters = [0x00u8, 0x80, 0x01, 0xff];
    for bs in 1..=4usize {
        let gs = configs(Ciph::Toy(bs));
        let depth = c.pick([5u32, 6, 6, 6][bs - 1], [7, 8, 8, 8][bs - 1]);
        let nseq = seqs_upto(4, depth);
        c.par(&format!("small/{}", bs), gs.len() as u64 * nseq, |mut i, t| {
            let g = gs[dig(&mut i, gs.len() as u64)];
            let m: Vec<u8> = seq(i, 4, depth).iter().map(|&x| letters[x]).collect();
            let r = g.c.reference();
            t.sample(|| format!("{}: {}", g.name(), hx(&m)));
            for iv in [fill(bs, 7), fill(bs, 1)] {
                let l = g.make(QIv::fixed(&iv)).map_err(|e| format!("{}: constructor refused: {}", g.name(), e))?;
                round(&g, &l, r.as_ref(), &iv, &m, t)?;
            }
            Ok(())
        });
    }
    // the complete one- and two-byte block ciphers: every IV, every message of up to two blocks (bs 1)
    c.par("complete/1", 256, |i, t| {
        let iv = [i as u8];
        for g in configs(Ciph::Toy(1)).into_iter().chain(configs(Ciph::Anon)) {
            let (l, r) = (g.make(QIv::fixed(&iv)).map_err(|e| format!("{}", e))?, g.c.reference());
            round(&g, &l, r.as_ref(), &iv, &[], t)?;
            for x in 0..=255u8 {
                round(&g, &l, r.as_ref(), &iv, &[x], t)?;
                for y in (0..=255u8).step_by(if t.thorough() { 1 } else { 5 }) { round(&g, &l, r.as_ref(), &iv, &[x, y], t)?; }
            }
        }
        Ok(())
    });
    c.par("complete/2", 256, |i, t| {
        for g in configs(Ciph::Toy(2)) {
            let iv = [i as u8, (i as u8).wrapping_mul(29)];
            let (l, r) = (g.make(QIv::fixed(&iv)).map_err(|e| format!("{}", e))?, g.c.reference());
            for x in 0..=255u8 {
                round(&g, &l, r.as_ref(), &iv, &[i as u8, x], t)?;
                round(&g, &l, r.as_ref(), &iv, &[0x42, 0x13, x, i as u8], t)?;
                round(&g, &l, r.as_ref(), &iv, &[x], t)?;
            }
        }
        Ok(())
    });
    // real ciphers and larger toy blocks: every length over five blocks, several fillings, IVs
    let mut cs = REAL.to_vec();
    cs.extend([5usize, 6, 7, 8, 12, 15, 16, 17, 24, 32].iter().map(|&b| Ciph::Toy(b)));
    cs.push(Ciph::Anon);
    for ci in cs {
        let gs = configs(ci);
        let blocks = c.pick(9, 33);
        let n = (blocks * ci.bs() + 2) as u64;
        c.par(&format!("length/{:?}", ci), gs.len() as u64 * n, |mut i, t| {
            let g = gs[dig(&mut i, gs.len() as u64)];
            let r = g.c.reference();
            for (k, ivk) in [(7, 8), (0, 1), (4, 0), (3, 2)] {
                let iv = fill(ci.bs(), ivk);
                let l = g.make(QIv::fixed(&iv)).map_err(|e| format!("{}: constructor refused: {}", g.name(), e))?;
                round(&g, &l, r.as_ref(), &iv, &fill(i as usize, k), t)?;
            }
            Ok(())
        });
    }
    // blocks around the limits of a byte
    c.par("big-blocks", BIG.len() as u64 * 12, |mut i, t| {
        let ci = Ciph::Toy(BIG[dig(&mut i, BIG.len() as u64)]);
        let bs = ci.bs();
        let n = [0, 1, 2, bs / 2, bs - 2, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 2 * bs + 1, 5 * bs][i as usize];
        for g in configs_few(ci) {
            let r = g.c.reference();
            let iv = fill(bs, 7);
            let l = g.make(QIv::fixed(&iv)).map_err(|e| format!("{}: constructor refused: {}", g.name(), e))?;
            for k in [3, 1, 0] { round(&g, &l, r.as_ref(), &iv, &fill(n, k), t)?; }
        }
        Ok(())
    });
    // one object through many calls
    c.par("endurance", (REAL.len() as u64 + 2) * 2, |mut i, t| {
        let ci = *[&REAL[..], &[Ciph::Toy(3), Ciph::Toy(8)]].concat().get(dig(&mut i, REAL.len() as u64 + 2)).unwrap();
        let bs = ci.bs();
        for (j, g) in configs(ci).into_iter().enumerate() {
            if g.unit() < bs && g.unit() != 1 && j % 4 != i as usize { continue; }
            let iv = fill(bs, 7);
            let r = g.c.reference();
            let l = g.make(QIv::fixed(&iv)).map_err(|e| format!("{}", e))?;
            for n in 0..t.pick(600usize, 5000) {
                let m = fill((if n % 4 == 0 { n * 7 % (3 * bs + 1) } else { n % 3 * bs }) / g.unit() * g.unit(), n % 9);
                let what = || format!("{} call {}", g.name(), n);
                if i == 0 || n % 2 == 0 { check_enc(&what, &g, &l, r.as_ref(), &iv, &m, t)?; }
                if i == 1 { check_dec(&what, &g, &l, r.as_ref(), &iv, &m, t)?; }
            }
        }
        Ok(())
    });
    // long messages (many blocks; one length in each residue)
    c.par("long", REAL.len() as u64 * 4, |mut i, t| {
        let ci = REAL[dig(&mut i, REAL.len() as u64)];
        for g in configs(ci) {
            let iv = fill(ci.bs(), 7);
            let l = g.make(QIv::fixed(&iv)).map_err(|e| format!("{}", e))?;
            round(&g, &l, g.c.reference().as_ref(), &iv, &fill(if g.unit() < 4 { 1100 } else { 70_000 / 48 * 48 } + i as usize, 3), t)?;
        }
        Ok(())
    });
    // messages at every address modulo 64
    c.par("address", REAL.len() as u64 * 64, |mut i, t| {
        let ci = REAL[dig(&mut i, REAL.len() as u64)];
        for g in configs(ci).into_iter().filter(|g| g.unit() == 1 || g.unit() == ci.bs()) {
            let iv = fill(ci.bs(), 7);
            let l = g.make(QIv::fixed(&iv)).map_err(|e| format!("{}", e))?;
            for n in [3, 5] { round(&g, &l, g.c.reference().as_ref(), &iv, At::new(i as usize, &fill(n * ci.bs(), 3)).get(), t)?; }
        }
        Ok(())
    });
    // lengths around every power of two
    c.par("wide", (REAL.len() as u64 + 1) * (c.pick(14, 17) - 6) * 5, |mut i, t| {
        let ci = *REAL.get(dig(&mut i, REAL.len() as u64 + 1)).unwrap_or(&Ciph::Toy(8));
        let bs = ci.bs();
        let n = [0, 1, bs - 1, bs, 2 * bs - 1][dig(&mut i, 5)] + (1usize << (6 + i)) - bs;
        for g in configs(ci) {
            if n > 2000 && g.unit() < bs && g.unit() != 1 { continue; }
            let iv = fill(bs, 7);
            let l = g.make(QIv::fixed(&iv)).map_err(|e| format!("{}", e))?;
            round(&g, &l, g.c.reference().as_ref(), &iv, &fill(n, 3), t)?;
        }
        Ok(())
    });
    c.par("large", REAL.len() as u64 * 4, |mut i, t| {
        let ci = REAL[dig(&mut i, REAL.len() as u64)];
        let bs = ci.bs();
        let n = [(1usize << 15) + 1, (1 << 16) + bs, (1 << 17) + bs + 3, if bs < 16 { (1 << 18) - 1 } else { (1 << 20) + 1 }][i as usize];
        for g in configs(ci) {
            if g.unit() < bs && (n > 1 << 16 || g.unit() != 1) { continue; }
            let iv = fill(bs, 7);
            let l = g.make(QIv::fixed(&iv)).map_err(|e| format!("{}", e))?;
            round(&g, &l, g.c.reference().as_ref(), &iv, &fill(n, 3), t)?;
        }
        Ok(())
    });
    // chosen so that what enters or leaves the cipher is special
    let cs: Vec<Ciph> = REAL.iter().copied().chain([Ciph::Toy(8)]).collect();
    c.par("special", cs.iter().map(|x| special(x.bs()).len() as u64).sum(), |mut i, t| {
        let ci = *cs.iter().find(|x| { let n = special(x.bs()).len() as u64; if i < n { true } else { i -= n; false } }).unwrap();
        let (x, r) = (&special(ci.bs())[i as usize], ci.reference());
        let bs = ci.bs();
        for g in configs(ci) {
            if g.unit() < bs && g.unit() != 1 { continue; }
            for iv in [fill(bs, 7), x.clone(), r.dec(x)] {
                let l = g.make(QIv::fixed(&iv)).map_err(|e| format!("{}", e))?;
                for m in [x.clone(), r.dec(x), xor(x, &iv), xor(&r.dec(x), &iv), xor(&r.enc(&iv), x)] {
                    round(&g, &l, r.as_ref(), &iv, &[&m[..], &fill(bs, 5), &m].concat(), t)?;
                    if g.m == Mode::Ecb { break; }
                }
            }
        }
        Ok(())
    });
    // blocks that differ from the one before in one byte
    c.par("alike", cs.iter().map(|x| 2 * x.bs() as u64).sum(), |mut i, t| {
        let ci = *cs.iter().find(|x| { let n = 2 * x.bs() as u64; if i < n { true } else { i -= n; false } }).unwrap();
        for g in configs(ci) {
            let iv = fill(ci.bs(), 7);
            let l = g.make(QIv::fixed(&iv)).map_err(|e| format!("{}", e))?;
            round(&g, &l, ci.reference().as_ref(), &iv, &alike(ci.bs(), i as usize), t)?;
        }
        Ok(())
    });
    // segment sizes and IV lengths at the constructor
    c.par("cfb-s", 34 * 2, |mut i, t| {
        let pad = dig(&mut i, 2) == 1;
        let bs = i as usize;
        if bs == 0 { return Ok(()); }
        for s in 0..=8 * bs + 40 {
            let ci = Ciph::Toy(bs);
            let lib = ci.lib();
            let p = if pad { BoxP::Default(rcrypto::cipher_mode::DefaultPadding::new(&lib)) } else { BoxP::Empty(EmptyPadding::new()) };
            let iv = fill(bs, 7);
            t.step();
            t.trace();
            let ok = CFB::new(lib, p, QIv::fixed(&iv), s);
            t.state(&[ok.is_ok() as u8, pad as u8]);
            let valid = s % 8 == 0 && s >= 8 && s <= 8 * bs;
            match ok {
                Ok(_) if !valid => return Err(format!("CFB with segment of {} bits over {}-byte blocks accepted", s, bs)),
                Err(_) if valid && (!pad || bs % (s / 8) == 0) => return Err(format!("CFB with segment of {} bits over {}-byte blocks refused (padding {})", s, bs, pad)),
                Ok(x) => {
                    // whatever is accepted must invert
                    for n in 0..=2 * bs + 1 {
                        let (m, mut ct, mut pt) = (fill(n, 3), vec![], vec![]);
                        let e = x.encrypt(&mut ct, &m);
                        if !pad && n % (s / 8) != 0 { if e.is_ok() { return Err(format!("CFB {} bits: {} bytes without padding accepted", s, n)); } continue; }
                        e.map_err(|e| format!("CFB {} bits: {}", s, e))?;
                        x.decrypt(&mut pt, &ct).map_err(|e| format!("CFB {} bits over {}: own ciphertext of {} bytes refused: {}", s, bs, n, e))?;
                        t.eq(&|| format!("CFB {} bits over {}-byte blocks, {} bytes", s, bs, n), &pt, &m)?;
                    }
                }
                _ => {}
            }
        }
        Ok(())
    });
    c.par("iv-len", 24 * 60, |mut i, t| {
        let bs = 1 + dig(&mut i, 24);
        let n = i as usize;
        let ci = Ciph::Toy(bs);
        for g in configs(ci) {
            if g.m == Mode::Ecb { continue; }
            let r = g.c.reference();
            t.steps(3);
            t.trace();
            let l = g.make(QIv::fixed(&fill(n, 7)));
            if l.is_ok() != (n == bs) { return Err(format!("{}: constructor with an IV of {} bytes: {}", g.name(), n, l.is_ok())); }
            let iv = fill(bs, 8);
            let mut l = g.make(QIv { ivs: vec![Some(iv.clone()), Some(fill(n, 5))], pos: 0 }).map_err(|e| format!("{}", e))?;
            let m = fill(2 * bs, 3);
            if l.set_iv(&fill(n, 5)).is_ok() != (n == bs) { return Err(format!("{}: set_iv with {} bytes", g.name(), n)); }
            let now = if n == bs { fill(n, 5) } else { iv.clone() };
            check_enc(&|| format!("{} after set_iv of {} bytes", g.name(), n), &g, &l, r.as_ref(), &now, &m, t)?;
            let mut l = g.make(QIv { ivs: vec![Some(iv.clone()), Some(fill(n, 5))], pos: 0 }).map_err(|e| format!("{}", e))?;
            if l.update_iv().is_ok() != (n == bs) { return Err(format!("{}: update_iv yielding {} bytes", g.name(), n)); }
            check_enc(&|| format!("{} after update_iv yielding {} bytes", g.name(), n), &g, &l, r.as_ref(), &now, &m, t)?;
        }
        Ok(())
    });
    // the default IV source: which bytes of the random words it uses, and every failing draw
    c.par("default-iv", c.pick(300, 600), |i, t| {
        let bs = 1 + i as usize;
        let words: Vec<u32> = (0..400).map(|k| 0x01020304u32.wrapping_mul(k + 1) ^ 0x80000000 >> k % 7).collect();
        let need = (bs + 3) / 4;
        let bytes: Vec<u8> = words.iter().flat_map(|w| w.to_be_bytes().to_vec()).collect();
        for fail in (0..=2 * need).filter(|&f| need < 12 || f % need < 2 || f % need > need - 2 || f % 16 < 2) {
            let mut ws: Vec<Option<u32>> = words.iter().map(|&w| Some(w)).collect();
            if fail < 2 * need { ws[fail] = None; }
            let lib = Ciph::Toy(bs).lib();
            let src = Script::new(ws, Tail::Const(0));
            t.steps(2);
            t.trace();
            let l = CBC::new(lib.clone(), EmptyPadding::new(), DefaultInitialVec::new(&lib, src.clone()));
            let o = OFB::new(lib.clone(), DefaultInitialVec::new(&lib, src.clone()));
            let f = CFB::new(lib.clone(), EmptyPadding::new(), DefaultInitialVec::new(&lib, src.clone()), 8);
            let want = fail >= need;
            if l.is_ok() != want || o.is_ok() != want || f.is_ok() != want { return Err(format!("random source failing at draw {} for {}-byte blocks: accepted {} {} {}", fail, bs, l.is_ok(), o.is_ok(), f.is_ok())); }
            if !want { continue; }
            let (mut l, mut o, mut f) = (l.ok().unwrap(), o.ok().unwrap(), f.ok().unwrap());
            for v in [l.cur_iv(), o.cur_iv(), f.cur_iv()] { t.eq(&|| format!("IV drawn for {}-byte blocks", bs), &v, &bytes[..bs])?; }
            let second = fail >= 2 * need;
            let got = [l.update_iv().is_ok(), o.update_iv().is_ok(), f.update_iv().is_ok()];
            if got != [second; 3] { return Err(format!("update_iv with the source failing at draw {}: {:?}", fail, got)); }
            let now = if second { &bytes[4 * need..4 * need + bs] } else { &bytes[..bs] };
            for v in [l.cur_iv(), o.cur_iv(), f.cur_iv()] { t.eq(&|| format!("IV after update_iv (source failing at draw {})", fail), &v, now)?; }
            let mut d = DefaultInitialVec::new(&lib, src.clone());
            let mut iv = vec![1, 2, 3];
            InitialVec::<BoxC>::initial_vec(&mut d, &mut iv).map_err(|e| format!("{}", e))?;
            t.eq(&|| "DefaultInitialVec".into(), &iv, &bytes[..bs])?;
        }
        Ok(())
    });
    // histories: calls never influence each other, failed calls change nothing, clones behave alike
    let ops = 10u64;
    for ci in [Ciph::Toy(2), Ciph::Toy(3), Ciph::Des] {
        let gs: Vec<Cfg> = configs(ci).into_iter().filter(|g| match g.m { Mode::Cfb(s) => s == 1 || s == 2 || s == ci.bs(), _ => true }).collect();
        let depth = if ci == Ciph::Des { c.pick(3, 4) } else { c.pick(4, 5) };
        let n = seqs_upto(ops, depth);
        c.par(&format!("history/{:?}", ci), gs.len() as u64 * n, |mut i, t| {
            let g = gs[dig(&mut i, gs.len() as u64)];
            let s = seq(i, ops, depth);
            let bs = ci.bs();
            let r = ci.reference();
            let ivs = [fill(bs, 7), fill(bs, 8), fill(bs, 9), fill(bs, 10)];
            // update_iv answers: good, failing, wrong length, good, ...
            let src = vec![Some(ivs[0].clone()), Some(ivs[1].clone()), None, Some(fill(bs + 1, 3)), Some(ivs[2].clone()), Some(vec![]), Some(ivs[1].clone())];
            let mut q = QIv { ivs: src.clone(), pos: 0 };
            let mut l = g.make(q.clone()).map_err(|e| format!("{}", e))?;
            q.pos = 1;
            let mut iv = ivs[0].clone();
            let what = || format!("{} after {:?}", g.name(), s);
            let u = g.unit();
            let m1 = fill(3 * u, 3);
            for &op in &s {
                match op {
                    0 => { check_enc(&what, &g, &l, r.as_ref(), &iv, &m1, t)?; }
                    1 => { check_enc(&what, &g, &l, r.as_ref(), &iv, &fill(2 * u + 1, 5), t)?; }
                    2 => { let ct = g.enc(r.as_ref(), &iv, &m1).unwrap(); check_dec(&what, &g, &l, r.as_ref(), &iv, &ct, t)?; }
                    3 => check_dec(&what, &g, &l, r.as_ref(), &iv, &fill(2 * bs, 5), t)?,
                    4 => check_dec(&what, &g, &l, r.as_ref(), &iv, &fill(2 * bs + 1, 5), t)?,
                    5 => { check_enc(&what, &g, &l, r.as_ref(), &iv, &[], t)?; }
                    6 => { l.set_iv(&ivs[3])?; if g.m != Mode::Ecb { iv = ivs[3].clone(); } t.step(); }
                    7 => { if g.m != Mode::Ecb && l.set_iv(&fill(bs - 1, 1)).is_ok() { return Err(format!("{}: short IV accepted", what())); } t.step(); }
                    8 => {
                        let a = src[q.pos.min(src.len() - 1)].clone();
                        q.pos += 1;
                        t.step();
                        let got = l.update_iv();
                        if g.m != Mode::Ecb {
                            match a { Some(v) if v.len() == bs => { if got != Ok(v.clone()) { return Err(format!("{}: update_iv gave {:02x?}", what(), got)); } iv = v; } _ => if got.is_ok() { return Err(format!("{}: update_iv accepted a bad IV", what())); } }
                        }
                    }
                    _ => {
                        // go on with the clone after disturbing the original
                        let c2 = l.clone();
                        let _ = l.enc(&fill(5 * bs, 1));
                        let _ = l.set_iv(&fill(bs, 4));
                        l = c2;
                        t.steps(3);
                    }
                }
                if let Some(v) = l.cur_iv() { if v != iv { return Err(format!("{}: current IV {} instead of {}", what(), hx(&v), hx(&iv))); } }
            }
            round(&g, &l, r.as_ref(), &iv, &m1, t)
        });
    }
    // a failing cipher: the error is reported, and the object works afterwards
    c.par("failing-cipher", 12 * 2, |mut i, t| {
        let at = dig(&mut i, 12);
        let bs = 2 + i as usize;
        for g in configs(Ciph::Toy(bs)) {
            for dec in [false, true] {
                let mut tc = vh::toy::ToyCipher::new(bs, 0x41);
                tc.fail_at = Some(at);
                let iv = fill(bs, 7);
                let l = g.make_with(BoxC(Box::new(tc.clone())), QIv::fixed(&iv)).map_err(|e| format!("{}", e))?;
                let r = g.c.reference();
                let m = fill(4 * bs, 3);
                let ct = g.enc(r.as_ref(), &iv, &m).unwrap();
                t.steps(2);
                t.trace();
                let got = if dec { l.dec(&ct) } else { l.enc(&m) };
                if let Ok(o) = got {
                    // the failing call was not needed: then the result has to be right
                    let ok = if dec { o == m } else { same_ct(&g, r.as_ref(), &iv, &m, &o) };
                    if !ok { return Err(format!("{}: call {} of the cipher failed, yet {} came out", g.name(), at, hx(&o))); }
                }
                // let the fault pass, then everything works
                for _ in 0..12 { let _ = l.enc(&m); }
                round(&g, &l, r.as_ref(), &iv, &m, t)?;
                if let Dec::Is(x) = g.dec(r.as_ref(), &iv, &ct) { if x != m { panic!("reference model: not inverse"); } }
            }
        }
        Ok(())
    });
}
