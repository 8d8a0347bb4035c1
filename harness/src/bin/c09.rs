//! C09: SM4.
use rcrypto::SM4;
use vh::blk::{addresses, both, wrong_length, Blk};
use vh::engine::{self, hx, Ctx};
use vh::enumr::{dig, fill, At};
use vh::refs::cipher::Sm4;

fn main() { engine::main("C09", run) }
fn mk(i: usize, k: &[u8]) -> Result<SM4, String> {
    if i % 2 == 0 { SM4::from_slice(k).map_err(|e| format!("from_slice refused: {}", e)) } else { let mut a = [0; 16]; a.copy_from_slice(k); Ok(SM4::new(a)) }
}
fn words(v: &[u8]) -> [u32; 4] { let mut w = [0; 4]; for i in 0..4 { w[i] = u32::from_be_bytes([v[4 * i], v[4 * i + 1], v[4 * i + 2], v[4 * i + 3]]); } w }

fn run(c: &Ctx) {
    let nk = c.pick(24u64, 96);
    // every S-box input at every position in every round of the cipher
    c.par("sbox", nk * 32 * 4, |mut i, t| {
        let (k, r, p) = (dig(&mut i, nk), dig(&mut i, 32), i as usize);
        let key = fill(16, 6 + k);
        let (s, rf) = (mk(k, &key)?, Sm4::new(&key));
        for v in 0..256u32 {
            let mut st = words(&fill(16, k));
            // make byte p of x1^x2^x3^rk equal to v
            let cur = st[1] ^ st[2] ^ st[3] ^ rf.round_keys()[r];
            st[1 + v as usize % 3] ^= (cur ^ v << (24 - 8 * p)) & 0xff << (24 - 8 * p);
            let b = rf.plain_for_state(r, st);
            if (rf.sbox_inputs(&b)[r] >> (24 - 8 * p)) & 0xff != v { panic!("reference model: S-box input not reached"); }
            t.sample(|| format!("SM4 key {} block {}", hx(&key), hx(&b)));
            both(&|| format!("SM4 key {}", hx(&key)), &s, &rf, &b, t)?;
        }
        Ok(())
    });
    // every S-box input at every position in every round of the key schedule
    c.par("schedule", 32 * 4, |mut i, t| {
        let (r, p) = (dig(&mut i, 32), i as usize);
        for v in 0..256u32 {
            let mut st = words(&fill(16, 7 + r % 3));
            let mut ck = 0u32;
            for j in 0..4u32 { ck = ck << 8 | ((4 * r as u32 + j) * 7 % 256); }
            st[1] ^= (st[1] ^ st[2] ^ st[3] ^ ck ^ v << (24 - 8 * p)) & 0xff << (24 - 8 * p);
            let key = Sm4::key_for_state(r, st);
            both(&|| format!("SM4 key {}", hx(&key)), &mk(v as usize, &key)?, &Sm4::new(&key), &fill(16, 8), t)?;
        }
        Ok(())
    });
    c.par("bits", 128 * 2, |mut i, t| {
        let f = dig(&mut i, 2);
        let mut key = vec![if f == 0 { 0u8 } else { 0xff }; 16];
        key[i as usize / 8] ^= 0x80 >> (i % 8);
        let (s, rf) = (mk(f, &key)?, Sm4::new(&key));
        for j in 0..128 {
            let mut b = vec![if f == 0 { 0u8 } else { 0xff }; 16];
            b[j / 8] ^= 0x80 >> (j % 8);
            both(&|| format!("SM4 key {}", hx(&key)), &s, &rf, &b, t)?;
        }
        Ok(())
    });
    c.par("keybyte", 16 * 256 * 3, |mut i, t| {
        let (f, p, v) = (dig(&mut i, 3), dig(&mut i, 16), i as u8);
        let mut key = fill(16, [0, 1, 7][f]);
        key[p] = v;
        for cons in 0..2 { both(&|| format!("SM4 key {}", hx(&key)), &mk(cons, &key)?, &Sm4::new(&key), &fill(16, 8), t)?; }
        Ok(())
    });
    c.par("blockbyte", 16 * 256 * 3, |mut i, t| {
        let (f, p, v) = (dig(&mut i, 3), dig(&mut i, 16), i as u8);
        let key = fill(16, [0, 1, 9][f]);
        let mut b = fill(16, [0, 1, 8][f]);
        b[p] = v;
        both(&|| format!("SM4 key {}", hx(&key)), &mk(0, &key)?, &Sm4::new(&key), &b, t)
    });
    c.par("chain", c.pick(1024, 8192), |i, t| {
        let mut key = fill(16, 7 + i as usize);
        let mut b = fill(16, 6);
        for n in 0..40 {
            let (s, rf) = (mk(n, &key)?, Sm4::new(&key));
            let s2 = s.dup();
            for _ in 0..5 {
                both(&|| format!("SM4 key {}", hx(&key)), &s, &rf, &b, t)?;
                let mut o = vec![0x42; n % 20];
                s2.e(&mut o, &b)?;
                b = o;
            }
            for j in 0..16 { key[j] ^= b[j]; }
        }
        Ok(())
    });
    // the standard's million-fold encryption
    let n = 1_000_000u64;
    c.par("million", 1, |_, t| {
        let key: Vec<u8> = (0..16).map(|i| [0x01, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xef, 0xfe, 0xdc, 0xba, 0x98, 0x76, 0x54, 0x32, 0x10][i]).collect();
        let s = mk(0, &key)?;
        let (mut a, mut o) = (key.clone(), vec![]);
        for _ in 0..n { s.e(&mut o, &a)?; std::mem::swap(&mut a, &mut o); }
        t.steps(n);
        t.eq(&|| "million-fold SM4".into(), &a, &[0x59, 0x52, 0x98, 0xc7, 0xc6, 0xfd, 0x27, 0x1f, 0x04, 0x02, 0xf8, 0x04, 0xc3, 0x3d, 0x3f, 0x66])
    });
    // blocks and keys at every address modulo 64
    c.par("address", 64, |i, t| {
        let key = At::new(i as usize, &fill(16, 7 + i as usize));
        let s = SM4::from_slice(key.get()).map_err(|e| format!("{}", e))?;
        addresses(&|| format!("SM4 key {} at an address {} above a multiple of 64", hx(key.get()), i), &s, &Sm4::new(key.get()), 16, t)
    });
    c.par("wronglen", 70, |i, t| {
        let key = fill(16, 7);
        let s = mk(0, &key)?;
        if i != 16 { wrong_length("SM4", &s, 16, i as usize, t)?; }
        both(&|| "SM4 after a refusal".into(), &s, &Sm4::new(&key), &fill(16, 5), t)?;
        let ok = SM4::from_slice(&fill(i as usize, 7)).is_ok();
        t.step();
        if ok != (i == 16) { return Err(format!("SM4::from_slice with {} bytes: accepted {}", i, ok)); }
        Ok(())
    });
}
