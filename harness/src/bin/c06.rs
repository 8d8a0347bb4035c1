//! C06: CMAC.
use rcrypto::{Cipher, CryptoError, Digest, AES, CMAC, DES, SM4, TDES};
use vh::engine::{self, hx, Ctx, R, T};
use vh::enumr::{alike, composition, dig, fill, n_compositions, seq, seqs_upto, special, At};
use vh::refs::modes::xor;
use vh::refs::cipher::{self, RefCipher};
use vh::refs::mac::{cmac, dbl, RB};
use vh::toy::ToyCipher;

fn main() { engine::main("C06", run) }

/// cipher whose encryption of the zero block is chosen: E(x) = toy(x) xor toy(0) xor l
#[derive(Clone)]
struct ChosenL { toy: ToyCipher, l: Vec<u8> }
impl ChosenL {
    fn enc(&self, b: &[u8]) -> Vec<u8> { let z = self.toy.enc(&vec![0; self.toy.bs]); self.toy.enc(b).iter().zip(z).zip(&self.l).map(|((a, b), c)| a ^ b ^ c).collect() }
}
impl Cipher for ChosenL {
    type Output = usize;
    fn block_size(&self) -> Option<usize> { Some(self.toy.bs) }
    fn encrypt(&self, dst: &mut Vec<u8>, p: &[u8]) -> Result<usize, CryptoError> {
        if p.len() != self.toy.bs { return Err(CryptoError::new(rcrypto::CryptoErrorKind::InvalidParameter, "length")); }
        *dst = self.enc(p);
        Ok(p.len())
    }
    fn decrypt(&self, _: &mut Vec<u8>, _: &[u8]) -> Result<usize, CryptoError> { panic!("CMAC never decrypts") }
}
/// cipher that declares no block size
struct NoBlock;
impl Cipher for NoBlock {
    type Output = usize;
    fn block_size(&self) -> Option<usize> { None }
    fn encrypt(&self, _: &mut Vec<u8>, _: &[u8]) -> Result<usize, CryptoError> { panic!("used") }
    fn decrypt(&self, _: &mut Vec<u8>, _: &[u8]) -> Result<usize, CryptoError> { panic!("used") }
}

fn tag<C: Cipher + 'static>(c: C, m: &[u8]) -> Result<Vec<u8>, String> {
    let mut x = CMAC::new(c).map_err(|e| format!("CMAC::new refused: {}", e))?;
    x.write(m);
    let mut out = vec![1; 3];
    x.checksum(&mut out);
    Ok(out)
}

fn history<C: Cipher + 'static>(name: &str, ci: C, enc: &dyn Fn(&[u8]) -> Vec<u8>, bs: usize, ops: &[usize], t: &T) -> R {
    let sizes = [0, 1, bs - 1, bs, bs + 1, 2 * bs, 3 * bs - 1];
    let mut o = CMAC::new(ci).map_err(|e| format!("{}: refused: {}", name, e))?;
    let (mut msg, mut done, mut amb) = (vec![], false, false);
    let show = || ops.iter().map(|&k| if k < 7 { format!("write({})", sizes[k]) } else { ["checksum", "reset"][k - 7].to_string() }).collect::<Vec<_>>().join(" ");
    t.sample(|| format!("CMAC-{}: {}", name, show()));
    let mut all = ops.to_vec();
    all.extend_from_slice(&[7, 7]);
    for (n, &k) in all.iter().enumerate() {
        t.step();
        match k {
            0..=6 => {
                let x = fill(sizes[k], 7 + n);
                o.write(&x);
                if done && x.is_empty() { amb = true; }
                if !x.is_empty() {
                    if done { msg.clear(); done = false; amb = false; }
                    msg.extend(x);
                }
            }
            7 => {
                let mut out = vec![3; n % 4];
                o.checksum(&mut out);
                let want = cmac(enc, bs, &msg);
                if out != want {
                    if amb && out == cmac(enc, bs, &[]) { msg.clear(); }
                    else { return Err(format!("CMAC-{} after {}: got {} expected {}", name, show(), hx(&out), hx(&want))); }
                }
                amb = false;
                done = true;
                t.state(&out);
            }
            _ => { o.reset(); msg.clear(); done = false; amb = false; }
        }
    }
    t.trace();
    Ok(())
}

/// all lengths, all compositions of short messages, all short histories for one real cipher
fn real<C: Cipher + 'static, F: Fn(&[u8]) -> Vec<u8> + Sync>(c: &Ctx, name: &str, bs: usize, mk: impl Fn() -> C + Sync, enc: F) {
    c.par(&format!("length/{}", name), (c.pick(20, 60) * bs + 3) as u64 * 3, |mut i, t| {
        let m = { let k = dig(&mut i, 3); fill(i as usize, [0, 1, 7][k]) };
        t.steps(3);
        let got = tag(mk(), &m)?;
        t.sample(|| format!("CMAC-{} of {} bytes = {}", name, m.len(), hx(&got)));
        t.eq(&|| format!("CMAC-{} of {}", name, hx(&m)), &got, &cmac(&enc, bs, &m))
    });
    c.par(&format!("address/{}", name), 64 * 3, |mut i, t| {
        let off = dig(&mut i, 64);
        let m = At::new(off, &fill([bs, 3 * bs, 7 * bs + 1][i as usize], 7));
        t.steps(3);
        let got = tag(mk(), m.get())?;
        t.eq(&|| format!("CMAC-{} of {} at an address {} above a multiple of 64", name, hx(m.get()), off), &got, &cmac(&enc, bs, m.get()))
    });
    // long messages around every power of two, alone and after or before a short write
    c.par(&format!("wide/{}", name), (c.pick(16, 19) - 6) * 5 * 4, |mut i, t| {
        let (d, a) = ([-(bs as i64), -1, 0, 1, bs as i64 - 1][dig(&mut i, 5)], [0, 1, bs - 1, bs][dig(&mut i, 4)]);
        let n = ((1i64 << (7 + i)) + d) as usize;
        let m = fill(n + a, 8);
        let want = cmac(&enc, bs, &m);
        for cut in [a, n] {
            let mut o = CMAC::new(mk()).map_err(|e| format!("{}", e))?;
            o.write(&m[..cut]);
            o.write(&m[cut..]);
            let mut out = vec![];
            o.checksum(&mut out);
            t.steps(3);
            t.eq(&|| format!("CMAC-{} writes {}+{}", name, cut, m.len() - cut), &out, &want)?;
        }
        Ok(())
    });
    // what enters or leaves the cipher is special; blocks that differ from the one before in one byte
    let sp = special(bs);
    c.par(&format!("special/{}", name), sp.len() as u64, |i, t| {
        let x = &sp[i as usize];
        for m in [[&x[..], &x[..]].concat(), [&x[..], &xor(&enc(x), x), &fill(bs, 2)].concat(), [&x[..], &enc(x), &fill(3, 2)].concat(), [&fill(bs, 2)[..], &xor(&enc(&fill(bs, 2)), x), x].concat(), x.clone(), x[..bs - 1].to_vec(), x[1..].to_vec()] {
            t.steps(3);
            t.eq(&|| format!("CMAC-{} of {}", name, hx(&m)), &tag(mk(), &m)?, &cmac(&enc, bs, &m))?;
        }
        Ok(())
    });
    c.par(&format!("alike/{}", name), 2 * bs as u64, |i, t| {
        let m = alike(bs, i as usize);
        t.steps(3);
        t.eq(&|| format!("CMAC-{} of {}", name, hx(&m)), &tag(mk(), &m)?, &cmac(&enc, bs, &m))
    });
    c.par(&format!("large/{}", name), 6 * 2, |mut i, t| {
        let a = [0, bs - 1][dig(&mut i, 2)];
        let n = [(1 << 16) - 1, (1 << 16) + bs, (1 << 17) + bs + 1, (1 << 18) + 1, (1 << 19) - bs, (1 << 20) + 1][i as usize] / if bs < 16 { 4 } else { 1 };
        let m = fill(n + a, 8);
        let mut o = CMAC::new(mk()).map_err(|e| format!("{}", e))?;
        o.write(&m[..a]);
        o.write(&m[a..]);
        let mut out = vec![];
        o.checksum(&mut out);
        t.steps(3);
        t.eq(&|| format!("CMAC-{} writes {}+{}", name, a, n), &out, &cmac(&enc, bs, &m))
    });
    // one object through many messages, and one message in many writes
    c.par(&format!("endurance/{}", name), 2, |i, t| {
        let mut o = CMAC::new(mk()).map_err(|e| format!("{}", e))?;
        let mut out = vec![];
        if i == 0 {
            for n in 0..t.pick(1100usize, 9000) {
                let m = fill(n * 7 % (3 * bs + 2), 3);
                if n % 5 == 3 { o.write(&m); o.reset(); }
                o.write(&m);
                if m.is_empty() { o.reset(); }
                t.steps(2);
                let want = cmac(&enc, bs, &m);
                for k in 0..1 + n % 3 {
                    o.checksum(&mut out);
                    t.eq(&|| format!("CMAC-{} message {} of {} bytes, checksum {}", name, n, m.len(), k), &out, &want)?;
                }
                if n % 3 == 0 { o.reset(); }
            }
            return Ok(());
        }
        let m = fill(5000, 3);
        for p in m.chunks(1) { o.write(p); t.step(); }
        o.checksum(&mut out);
        t.eq(&|| format!("CMAC-{} of {} bytes written singly", name, m.len()), &out, &cmac(&enc, bs, &m))
    });
    // every pair of chunk sizes (a, b) over three blocks, then a third chunk
    let n = (3 * bs + 2) as u64;
    c.par(&format!("cuts/{}", name), n * n, |i, t| {
        let (a, b) = ((i % n) as usize, (i / n) as usize);
        for d in [0, 1, bs] {
            let m = fill(a + b + d, 8);
            let mut o = CMAC::new(mk()).map_err(|e| format!("{}", e))?;
            if o.bits_len() != bs * 8 || o.block_size() != Some(bs) { return Err(format!("CMAC-{} reports {} bits / {:?}", name, o.bits_len(), o.block_size())); }
            o.write(&m[..a]);
            o.write(&m[a..a + b]);
            o.write(&m[a + b..]);
            let mut out = vec![];
            o.checksum(&mut out);
            t.steps(4);
            t.eq(&|| format!("CMAC-{} writes {}+{}+{}", name, a, b, d), &out, &cmac(&enc, bs, &m))?;
        }
        Ok(())
    });
    let depth = c.pick(6, 7);
    c.par(&format!("history/{}", name), seqs_upto(9, depth), |i, t| history(name, mk(), &enc, bs, &seq(i, 9, depth), t));
}

fn run(c: &Ctx) {
    let k16: [u8; 16] = { let mut k = [0; 16]; k.copy_from_slice(&fill(16, 7)); k };
    let k8 = |j: usize| -> [u8; 8] { let mut k = [0; 8]; k.copy_from_slice(&fill(8, 8 + j)); k };
    let ra = cipher::Aes::new(&k16);
    real(c, "AES128", 16, || AES::aes_128(k16), |b: &[u8]| ra.enc(b));
    let k32 = fill(32, 9);
    let ra2 = cipher::Aes::new(&k32);
    real(c, "AES256", 16, || AES::new(k32.clone()).unwrap(), |b: &[u8]| ra2.enc(b));
    let rs = cipher::Sm4::new(&k16);
    real(c, "SM4", 16, || SM4::new(k16), |b: &[u8]| rs.enc(b));
    let rd = cipher::Des::new(&k8(0));
    real(c, "DES", 8, || DES::new(k8(0)), |b: &[u8]| rd.enc(b));
    let rt = cipher::Tdes(cipher::Des::new(&k8(0)), cipher::Des::new(&k8(1)), cipher::Des::new(&k8(2)));
    real(c, "TDES", 8, || TDES::new(k8(0), k8(1), k8(2)), |b: &[u8]| rt.enc(b));
    // both doublings with and without carry for real ciphers: many keys
    c.par("keys/AES128", c.pick(512, 8192), |i, t| {
        let mut k = k16;
        k[0] = i as u8;
        k[1] = (i >> 8) as u8;
        let r = cipher::Aes::new(&k);
        let l = r.enc(&[0; 16]);
        t.state(&[l[0] >> 7, dbl(&l)[0] >> 7]);
        for n in [0usize, 15, 16, 17, 32] {
            t.steps(3);
            t.eq(&|| format!("CMAC-AES128 key {} of {} bytes", hx(&k), n), &tag(AES::aes_128(k), &fill(n, 7))?, &cmac(&|b| r.enc(b), 16, &fill(n, 7)))?;
        }
        Ok(())
    });
    c.par("keys/DES", c.pick(512, 8192), |i, t| {
        let mut k = k8(0);
        k[0] = (i as u8) << 1;
        k[1] = (i >> 6) as u8 & 0xfe;
        let r = cipher::Des::new(&k);
        for n in [0usize, 7, 8, 9, 16] {
            t.steps(3);
            t.eq(&|| format!("CMAC-DES key {} of {} bytes", hx(&k), n), &tag(DES::new(k), &fill(n, 7))?, &cmac(&|b| r.enc(b), 8, &fill(n, 7)))?;
        }
        Ok(())
    });
    // every supported block size: chosen E(0) with every bit set alone and combined top bits, message lengths over 3 blocks
    for &(bs, _) in RB.iter() {
        let lens: Vec<usize> = if bs <= 32 { (0..=2 * bs + 2).collect() } else { vec![0, 1, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 2 * bs + 1] };
        c.par(&format!("size/{}", bs), (bs * 8 + 8) as u64, |i, t| {
            let mut l = vec![0u8; bs];
            if (i as usize) < bs * 8 { l[i as usize / 8] = 0x80 >> (i % 8); } else { l = fill(bs, 7); l[0] = (i as u8 & 7) << 5; }
            let ci = ChosenL { toy: ToyCipher::new(bs, 0x31), l: l.clone() };
            if !CMAC::is_support(&ci) { return Err(format!("block size {} not supported", bs)); }
            t.sample(|| format!("block size {} E(0) = {}", bs, hx(&l)));
            for &n in &lens {
                if i as usize % 8 > 1 && (i as usize) < bs * 8 && n != 0 && n != bs && n != bs + 1 { continue; }
                let m = fill(n, 8);
                t.steps(3);
                t.eq(&|| format!("CMAC block size {} E(0)={} of {} bytes", bs, hx(&l), n), &tag(ci.clone(), &m)?, &cmac(&|b| ci.enc(b), bs, &m))?;
            }
            Ok(())
        });
    }
    // every split of every short message for a 4-byte and a 6-byte block
    for bs in [4usize, 6] {
        let top = c.pick(16, 19);
        for n in 0..=top {
            c.par(&format!("splits/{}/{}", bs, n), n_compositions(n), |i, t| {
                let toy = ToyCipher::new(bs, 0x77);
                let m = fill(n, 7);
                let mut o = CMAC::new(toy.clone()).map_err(|e| format!("{}", e))?;
                let mut at = 0;
                for p in composition(n, i) { o.write(&m[at..at + p]); at += p; t.step(); }
                let mut out = vec![];
                o.checksum(&mut out);
                t.eq(&|| format!("CMAC block size {} split {:?}", bs, composition(n, i)), &out, &cmac(&|b| toy.enc(b), bs, &m))
            });
        }
    }
    // block sizes that are not supported, and a cipher without blocks
    c.par("unsupported", 600, |i, t| {
        t.steps(2);
        t.trace();
        let known = RB.iter().any(|x| x.0 == i as usize);
        let (a, b) = if i == 0 { (CMAC::is_support(&NoBlock), CMAC::new(NoBlock).is_ok()) } else {
            let ci = ToyCipher::new(i as usize, 5);
            (CMAC::is_support(&ci), CMAC::new(ci).is_ok())
        };
        t.state(&[a as u8]);
        if a != b || a != known { return Err(format!("block size {}: is_support {}, accepted {}, expected {}", i, a, b, known)); }
        Ok(())
    });
}
