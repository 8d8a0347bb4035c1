//! C04: Keccak-p and the sponge over it.
use rcrypto::{Keccak, KeccakSponge};
use vh::engine::{self, hx, Ctx};
use vh::enumr::{dig, fill, seq, seqs_upto};
use vh::refs::hash::{bits_of, bytes_of, perm_bits, sponge};

fn main() { engine::main("C04", run) }
const W: [usize; 7] = [25, 50, 100, 200, 400, 800, 1600];
fn l_of(b: usize) -> usize { (b / 25).trailing_zeros() as usize }
fn named(k: usize, nr: u32) -> Keccak {
    match k {
        0 => Keccak::keccak_25(nr),
        1 => Keccak::keccak_50(nr),
        2 => Keccak::keccak_100(nr),
        3 => Keccak::keccak_200(nr),
        4 => Keccak::keccak_400(nr),
        5 => Keccak::keccak_800(nr),
        _ => Keccak::keccak_1600(nr),
    }
}
/// reference permutation on packed bytes (bit i of the state is bit i%8 of byte i/8)
fn rperm(b: usize, nr: usize, s: &[u8]) -> Vec<u8> { bytes_of(&perm_bits(&bits_of(s, b), (b / 25) as u32, nr as i64)) }
fn rsponge(b: usize, nr: usize, r: usize, m: &[u8], mbits: usize, d: usize) -> Vec<u8> { bytes_of(&sponge(b, nr as i64, r, &bits_of(m, mbits), d)) }
fn clip(b: usize, mut s: Vec<u8>) -> Vec<u8> {
    s.truncate((b + 7) / 8);
    if b % 8 != 0 { *s.last_mut().unwrap() &= (1 << (b % 8)) - 1; }
    s
}

fn run(c: &Ctx) {
    // widths: exactly the seven of the standard
    c.par("width", 3300, |i, t| {
        let ok = Keccak::new(i as usize, 24).is_ok();
        t.step();
        t.trace();
        t.state(&[ok as u8]);
        if ok != W.contains(&(i as usize)) { return Err(format!("Keccak::new({}, 24) accepted: {}", i, ok)); }
        Ok(())
    });
    for (k, &b) in W.iter().enumerate() {
        let n = (b + 7) / 8;
        let full = 12 + 2 * l_of(b);
        // every round count from 0 to far beyond the standard's (all round constants, negative round indices)
        c.par(&format!("rounds/{}", b), 320 * 2, |i, t| {
            let nr = (i / 2) as usize;
            let s = clip(b, fill(n, if i % 2 == 0 { 0 } else { 7 }));
            let mut kk = named(k, nr as u32);
            let mut out = vec![9; 3];
            let len = kk.permutation(&s, &mut out).map_err(|e| format!("refused: {}", e))?;
            t.steps(2);
            if len != b || kk.widths() != b { return Err(format!("Keccak-p[{},{}] reports {} / {} bits", b, nr, len, kk.widths())); }
            t.sample(|| format!("Keccak-p[{},{}]({}) = {}", b, nr, hx(&s), hx(&out)));
            t.eq(&|| format!("Keccak-p[{},{}]({})", b, nr, hx(&s)), &out, &rperm(b, nr, &s))
        });
        // round counts around powers of two
        let tops = if b == 25 { 17 } else { c.pick(11, 13) };
        c.par(&format!("many-rounds/{}", b), (tops - 8) * 5, |mut i, t| {
            let d = dig(&mut i, 5);
            let nr = (1usize << (9 + i)) + [0, 1, 2, 3, full + 2][d] - 2;
            let s = clip(b, fill(n, 7));
            let mut out = vec![];
            named(k, nr as u32).permutation(&s, &mut out).map_err(|e| format!("refused: {}", e))?;
            t.steps(2);
            t.eq(&|| format!("Keccak-p[{},{}]({})", b, nr, hx(&s)), &out, &rperm(b, nr, &s))
        });
        // one round: every single-bit state, every complement, every pair of bits (limited for the two largest widths)
        c.par(&format!("onebit/{}", b), (b * 2 * 3) as u64, |mut i, t| {
            let (f, nr) = (dig(&mut i, 2), [1, 2, full][dig(&mut i, 3)]);
            let mut s = fill(n, f);
            s[i as usize / 8] ^= 1 << (i % 8);
            let s = clip(b, s);
            let mut out = vec![];
            Keccak::new(b, nr as u32).unwrap().permutation(&s, &mut out).map_err(|e| format!("refused: {}", e))?;
            t.step();
            t.eq(&|| format!("Keccak-p[{},{}] of state with bit {} flipped in fill {}", b, nr, i, f), &out, &rperm(b, nr, &s))
        });
        let lim = if b <= 400 { b } else { c.pick(60, 800).min(b) };
        c.par(&format!("twobit/{}", b), (lim * b) as u64, |i, t| {
            let (x, y) = ((i as usize / b * (b / lim)) , i as usize % b);
            let mut s = vec![0u8; n];
            s[x / 8] |= 1 << (x % 8);
            s[y / 8] |= 1 << (y % 8);
            let mut out = vec![];
            Keccak::new(b, 1).unwrap().permutation(&s, &mut out).map_err(|e| format!("refused: {}", e))?;
            t.step();
            t.eq(&|| format!("Keccak-p[{},1] of bits {} and {}", b, x, y), &out, &rperm(b, 1, &s))
        });
        // surplus input bits are ignored, short input refused without output
        c.par(&format!("inlen/{}", b), (n + 4) as u64, |i, t| {
            let l = i as usize;
            let s = fill(l, 7);
            let mut out = vec![];
            let r = Keccak::new(b, 3).unwrap().permutation(&s, &mut out);
            t.step();
            t.trace();
            match r {
                Err(_) if l < n => Ok(()),
                Ok(_) if l >= n => t.eq(&|| format!("Keccak-p[{},3] of {} input bytes", b, l), &out, &rperm(b, 3, &s)),
                x => Err(format!("Keccak-p[{}] with {} input bytes: {:?}", b, l, x.is_ok())),
            }
        });
        // sponge: rates
        c.par(&format!("rate/{}", b), (2 * b + 70) as u64, |i, t| {
            let r = if i as usize > 2 * b + 5 { usize::MAX >> (i as usize - 2 * b - 6).min(63) } else { i as usize };
            let (x, y) = (Keccak::new(b, 5).unwrap().sponge(r).is_ok(), KeccakSponge::new(Keccak::new(b, 5).unwrap(), r).is_ok());
            t.steps(2);
            t.trace();
            t.state(&[x as u8]);
            let want = r > 0 && r < b;
            if x != want || y != want { return Err(format!("width {} rate {}: accepted {} / {}", b, r, x, y)); }
            Ok(())
        });
        // sponge: every rate (all for small widths, a dense grid for the large ones) x message lengths x output lengths
        let rates: Vec<usize> = if b <= 200 || c.thorough { (1..b).collect() } else { (1..b).filter(|r| *r < 12 || *r > b - 12 || r % 64 < 2 || r % 97 == 0).collect() };
        let nr = full;
        c.par(&format!("sponge/{}", b), rates.len() as u64 * 9, |mut i, t| {
            let mi = dig(&mut i, 9);
            let r = rates[i as usize];
            let ml = [0, 1, r.saturating_sub(3), r.saturating_sub(2), r - 1, r, r + 1, 2 * r - 1, 2 * r + 1][mi].min(c.pick(1700, 3300));
            let m = fill(ml / 8 + 2, 8);
            let mut o = Keccak::new(b, nr as u32).unwrap().sponge(r).map_err(|e| format!("rate {} refused: {}", r, e))?;
            for d in [0, 1, 8, r - 1, r, r + 1, 2 * r + 3] {
                if r < 8 && d > 8 { continue; }
                let mut out = vec![5; 2];
                o.sponge(&m, ml, d, &mut out);
                t.step();
                t.sample(|| format!("Sponge[Keccak-p[{},{}],{}] of {} bits to {} bits = {}", b, nr, r, ml, d, hx(&out)));
                t.eq(&|| format!("Sponge[Keccak-p[{},{}],{}] of {} bits to {} bits", b, nr, r, ml, d), &out, &rsponge(b, nr, r, &m, ml, d))?;
            }
            Ok(())
        });
        // many absorbed and squeezed blocks
        let wide = [1usize, 7, 8, 9, b / 4, b / 2, b - 9, b - 1];
        c.par(&format!("many/{}", b), wide.len() as u64 * 4, |mut i, t| {
            let r = wide[dig(&mut i, wide.len() as u64)].max(1);
            let k = [63usize, 129, 257, c.pick(300, 1025)][i as usize];
            let m = fill((k + 1) * r / 8 + 2, 8);
            let mut o = Keccak::new(b, 2).unwrap().sponge(r).map_err(|e| format!("rate {} refused: {}", r, e))?;
            for (ml, d) in [(k * r, 40), (k * r + r / 2, 8), (k * r - 1, 100), (11, k * r), (r, k * r + r / 2 + 1)] {
                let mut out = vec![5; 2];
                o.sponge(&m, ml, d, &mut out);
                t.step();
                t.eq(&|| format!("Sponge[Keccak-p[{},2],{}] of {} bits to {} bits", b, r, ml, d), &out, &rsponge(b, 2, r, &m, ml, d))?;
            }
            Ok(())
        });
        // short messages: every bit length, every value of the surplus bits
        let r0 = (b / 2).max(3);
        let nb = 2 * r0.min(200) + 10;
        c.par(&format!("mlen/{}", b), nb as u64, |i, t| {
            let ml = i as usize;
            let m = fill((ml + 7) / 8, 1);
            let mut out = vec![];
            let mut o = Keccak::new(b, nr as u32).unwrap().sponge(r0).unwrap();
            o.sponge(&m, ml, 64, &mut out);
            t.step();
            t.eq(&|| format!("Sponge[Keccak-p[{},{}],{}] of {} one bits", b, nr, r0, ml), &out, &rsponge(b, nr, r0, &m, ml, 64))
        });
        // histories on one permutation object and one sponge object
        let depth = c.pick(4, 5);
        let hr = 3 * b / 5;
        let sts: Vec<Vec<u8>> = (0..2).map(|f| clip(b, fill(n, 6 + f))).collect();
        let pw: Vec<Vec<u8>> = sts.iter().map(|s| rperm(b, 2, s)).collect();
        let runs = [(0usize, 9usize), (hr + 3, 5), (5, 2 * hr + 1)];
        let sm = fill(300, 9);
        let sw: Vec<Vec<u8>> = runs.iter().map(|&(ml, d)| rsponge(b, 2, hr, &sm, ml, d)).collect();
        c.par(&format!("history/{}", b), seqs_upto(9, depth), |i, t| {
            let ops = seq(i, 9, depth);
            let mut kk = Keccak::new(b, 2).unwrap();
            let mut sp = kk.sponge(hr).unwrap();
            t.sample(|| format!("width {} operations {:?}", b, ops));
            for (at, &op) in ops.iter().enumerate() {
                let mut out = vec![1, 2];
                t.step();
                match op {
                    0 | 1 => {
                        kk.permutation(&sts[op], &mut out).map_err(|e| format!("{}", e))?;
                        t.eq(&|| format!("width {} after {:?}: permutation", b, &ops[..at]), &out, &pw[op])?;
                    }
                    2 => if kk.permutation(&sts[0][..n - 1], &mut out).is_ok() { return Err("short state accepted".into()); },
                    3 | 4 | 5 => {
                        let (ml, d) = runs[op - 3];
                        sp.sponge(&sm, ml, d, &mut out);
                        t.eq(&|| format!("width {} after {:?}: sponge of {} bits to {}", b, &ops[..at], ml, d), &out, &sw[op - 3])?;
                    }
                    6 => kk = kk.clone(),
                    7 => { let mut old = sp.clone(); std::mem::swap(&mut old, &mut sp); old.sponge(&sm, 7, 3, &mut out); }
                    _ => sp = kk.sponge(hr).unwrap(),
                }
            }
            Ok(())
        });
    }
    // the smallest width completely: all 2^25 states
    let nrs: Vec<usize> = c.pick(vec![1], vec![1, 2, 12, 13]);
    for nr in nrs {
        const CH: u64 = 1 << 12;
        c.par(&format!("all25/{}", nr), (1 << 25) / CH, |i, t| {
            let mut kk = Keccak::new(25, nr as u32).unwrap();
            let mut out = vec![];
            let mut tab = [0u32; CH as usize];
            for j in 0..CH {
                let s = ((i * CH + j) as u32).to_le_bytes();
                kk.permutation(&s, &mut out).map_err(|e| format!("{}", e))?;
                t.step();
                if out.len() != 4 { return Err(format!("Keccak-p[25,{}] gave {} bytes", nr, out.len())); }
                tab[j as usize] = u32::from_le_bytes([out[0], out[1], out[2], out[3]]);
            }
            for j in 0..CH as usize {
                let x = (i * CH) as u32 + j as u32;
                let want = p25(x, nr);
                t.trace();
                if tab[j] != want { return Err(format!("Keccak-p[25,{}]({:07x}) = {:07x} expected {:07x}", nr, x, tab[j], want)); }
            }
            t.state(&i.to_le_bytes());
            Ok(())
        });
    }
    c.assume("bit i of a state or message is bit i mod 8 (least significant first) of byte i div 8, as in FIPS 202 appendix B.1");
}
/// Keccak-p[25] on a packed state through the general reference
fn p25(x: u32, nr: usize) -> u32 {
    let mut a = [0u64; 25];
    for (i, v) in a.iter_mut().enumerate() { *v = (x >> i & 1) as u64; }
    vh::refs::hash::keccak_p(&mut a, 1, nr as i64);
    a.iter().enumerate().fold(0, |s, (i, v)| s | (*v as u32) << i)
}
