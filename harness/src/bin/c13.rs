//! C13: paddings.
use rcrypto::cipher_mode::{DefaultPadding, EmptyPadding, Padding};
use vh::engine::{self, hx, Ctx, R, T};
use vh::enumr::{dig, fill, seq, seqs_upto};
use vh::modes::{configs, BoxC, Cfg, Ciph, Mode, QIv, BIG};
use vh::refs::modes::pad;

fn main() { engine::main("C13", run) }

/// what removing the padding must do: Some = stripped, None = refused
fn strip(b: &[u8]) -> Option<Vec<u8>> {
    let mut v = b.to_vec();
    while v.last() == Some(&0) { v.pop(); }
    if v.pop() == Some(0x80) { Some(v) } else { None }
}
fn both(bs: usize, p: &DefaultPadding<BoxC>, m: &[u8], t: &T) -> R {
    let mut b = m.to_vec();
    p.padding(&mut b);
    t.steps(3);
    t.eq(&|| format!("padding {} to {}-byte blocks", hx(m), bs), &b, &pad(m, bs))?;
    let n = p.unpadding(&mut b).map_err(|e| format!("own padding of {} refused: {}", hx(m), e))?;
    if n != m.len() { return Err(format!("unpadding reported {} bytes for {}", n, hx(m))); }
    t.eq(&|| format!("removing the padding of {} ({}-byte blocks)", hx(m), bs), &b, m)?;
    undo(bs, p, m, t)
}
fn undo(bs: usize, p: &DefaultPadding<BoxC>, m: &[u8], t: &T) -> R {
    let mut b = m.to_vec();
    let got = p.unpadding(&mut b);
    t.trace();
    match (strip(m), got) {
        (Some(w), Ok(n)) if w == b && n == b.len() => { t.state(&b); Ok(()) }
        (None, Err(_)) if b == m => { t.state(b"refused"); Ok(()) }
        // the marker followed by a whole block of zeros or more is never produced by the padding
        (Some(w), Err(_)) if b == m && m.len() - w.len() > bs => Ok(()),
        (w, g) => Err(format!("removing the padding from {} ({}-byte blocks): {:?}, buffer {}, expected {:02x?}", hx(m), bs, g.ok(), hx(&b), w)),
    }
}

fn run(c: &Ctx) {
    let letters = [0x00u8, 0x80, 0x01, 0xff];
    let depth = c.pick(9, 11);
    let n = seqs_upto(4, depth);
    c.par("strings", n, |i, t| {
        let m: Vec<u8> = seq(i, 4, depth).iter().map(|&x| letters[x]).collect();
        for bs in 1..=6 { both(bs, &DefaultPadding::new(&Ciph::Toy(bs).lib()), &m, t)?; }
        both(1, &DefaultPadding::new(&Ciph::Anon.lib()), &m, t)?;
        let mut b = m.clone();
        EmptyPadding::new().padding(&mut b);
        t.eq(&|| "empty padding".into(), &b, &m)?;
        if EmptyPadding::new().unpadding(&mut b).ok() != Some(m.len()) || b != m { return Err(format!("empty padding removed something from {}", hx(&m))); }
        Ok(())
    });
    // every byte value as each of the last three bytes
    c.par("tails", 65536, |i, t| {
        let p = [1usize, 2, 3, 4, 16].iter().map(|&bs| (bs, DefaultPadding::new(&Ciph::Toy(bs).lib()))).collect::<Vec<_>>();
        for (bs, p) in &p {
            both(*bs, p, &[(i >> 8) as u8, i as u8], t)?;
            both(*bs, p, &[0x55, (i >> 8) as u8, i as u8], t)?;
            undo(*bs, p, &[(i >> 8) as u8, i as u8, 0], t)?;
            undo(*bs, p, &[0x80, (i >> 8) as u8, i as u8, 0], t)?;
        }
        Ok(())
    });
    // every length and block size; the last byte before the padding takes every interesting value
    c.par("lengths", 40 * 130, |mut i, t| {
        let bs = 1 + dig(&mut i, 40);
        let p = DefaultPadding::new(&Ciph::Toy(bs).lib());
        for last in [0x00u8, 0x80, 0x40, 0x01, 0xff, 0x7f, 0x81] {
            let mut m = fill(i as usize, 3);
            if let Some(x) = m.last_mut() { *x = last; }
            both(bs, &p, &m, t)?;
            m.extend(vec![0; bs - 1]);
            undo(bs, &p, &m, t)?;
        }
        Ok(())
    });
    c.par("zeros", 40 * 130, |mut i, t| {
        let bs = 1 + dig(&mut i, 40);
        let p = DefaultPadding::new(&Ciph::Toy(bs).lib());
        both(bs, &p, &vec![0; i as usize], t)?;
        for head in [vec![], vec![0x80], vec![0x80, 0x80], vec![0x42, 0x80], vec![0x80, 0x01]] {
            let mut m = head;
            m.extend(vec![0; i as usize]);
            undo(bs, &p, &m, t)?;
        }
        Ok(())
    });
    // blocks around the limits of a byte, long buffers and long runs of zeros
    c.par("big", BIG.len() as u64 * 1100, |mut i, t| {
        let bs = BIG[dig(&mut i, BIG.len() as u64)];
        let p = DefaultPadding::new(&Ciph::Toy(bs).lib());
        for last in [0x00u8, 0x80, 0x01, 0xff] {
            let mut m = fill(i as usize, 3);
            if let Some(x) = m.last_mut() { *x = last; }
            both(bs, &p, &m, t)?;
        }
        both(bs, &p, &vec![0; i as usize], t)?;
        for head in [vec![], vec![0x80], vec![0x42, 0x80], vec![0x80, 0x01]] {
            let mut m = head;
            m.extend(vec![0; i as usize]);
            undo(bs, &p, &m, t)?;
        }
        Ok(())
    });
    c.par("wide", 8 * (c.pick(17, 20) - 6) * 5, |mut i, t| {
        let bs = [1usize, 2, 8, 16, 17, 255, 256, 512][dig(&mut i, 8)];
        let d = [0, 1, 2, bs, bs + 1][dig(&mut i, 5)];
        let n = (1usize << (6 + i)) - 1 + d;
        let p = DefaultPadding::new(&Ciph::Toy(bs).lib());
        both(bs, &p, &fill(n, 3), t)?;
        both(bs, &p, &vec![0; n], t)?;
        let mut m = vec![0x80];
        m.extend(vec![0; n]);
        undo(bs, &p, &m, t)?;
        let mut m = fill(n, 3);
        m.push(0x80);
        m.extend(vec![0; d.min(bs - 1)]);
        undo(bs, &p, &m, t)
    });
    // the decrypted end of a ciphertext: every last block of two-byte ciphers, one-shot and as a stream
    let gs: Vec<Cfg> = configs(Ciph::Toy(2)).into_iter().chain(configs(Ciph::Toy(1))).chain(configs(Ciph::Anon)).filter(|g| g.pad).collect();
    c.par("cipher-tails", gs.len() as u64 * 65536, |mut i, t| {
        let g = gs[dig(&mut i, gs.len() as u64)];
        let (r, bs) = (g.c.reference(), g.c.bs());
        let iv = fill(bs, 7);
        let plain = Cfg { pad: false, ..g };
        for head in [vec![], vec![0x80, 0x33]] {
            let mut m = head;
            m.extend([(i >> 8) as u8, i as u8]);
            let ct = plain.enc(r.as_ref(), &iv, &m).unwrap();
            t.steps(3);
            t.trace();
            let l = g.make(QIv::fixed(&iv)).map_err(|e| format!("{}", e))?;
            let want = g.dec(r.as_ref(), &iv, &ct);
            let got = l.dec(&ct);
            if let Ok(o) = &got { t.state(o); }
            if !want.allows(&got) { return Err(format!("{}: decrypted end {}: {:02x?}, expected {:02x?}", g.name(), hx(&m), got, want)); }
            let mut s = g.make(QIv::fixed(&iv)).map_err(|e| format!("{}", e))?.stream(false);
            let mut out = vec![];
            let got = s.w(&ct, Some(&mut out)).and_then(|_| s.f(Some(&mut out))).map(|_| out.clone());
            if !want.allows(&got) { return Err(format!("{} stream: decrypted end {}: {:02x?}, expected {:02x?}", g.name(), hx(&m), got, want)); }
        }
        Ok(())
    });
    // whole last blocks of 8 and 16 bytes: marker at every place, one disturbing byte at every place
    c.par("big-tails", 2 * 17 * 17, |mut i, t| {
        let ci = [Ciph::Des, Ciph::Aes(16)][dig(&mut i, 2)];
        let (mark, dist) = (dig(&mut i, 17), i as usize);
        let (r, bs) = (ci.reference(), ci.bs());
        let iv = fill(bs, 7);
        for g in configs(ci).into_iter().filter(|g| g.pad && !matches!(g.m, Mode::Ofb)) {
            for v in [0x01u8, 0x40, 0x80, 0xff] {
                let mut m = fill(bs, 3);
                let mut tail = vec![0; bs];
                if mark < bs { tail[mark] = 0x80; }
                if dist < bs { tail[dist] ^= v; }
                m.extend(&tail);
                let ct = Cfg { pad: false, ..g }.enc(r.as_ref(), &iv, &m).unwrap();
                let want = g.dec(r.as_ref(), &iv, &ct);
                t.steps(2);
                t.trace();
                let got = g.make(QIv::fixed(&iv)).map_err(|e| format!("{}", e))?.dec(&ct);
                if !want.allows(&got) { return Err(format!("{}: decrypted end {}: {:02x?}, expected {:02x?}", g.name(), hx(&m), got, want)); }
                let mut s = g.make(QIv::fixed(&iv)).map_err(|e| format!("{}", e))?.stream(false);
                let mut out = vec![];
                let got = s.w(&ct, Some(&mut out)).and_then(|_| s.f(Some(&mut out))).map(|_| out.clone());
                if !want.allows(&got) { return Err(format!("{} stream: decrypted end {}: {:02x?}, expected {:02x?}", g.name(), hx(&m), got, want)); }
            }
        }
        Ok(())
    });
}
