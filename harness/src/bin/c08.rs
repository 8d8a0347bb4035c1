//! C08: DES and triple DES.
use rcrypto::{DES, TDES};
use vh::blk::{addresses, both, wrong_length, Blk};
use vh::engine::{self, hx, Ctx};
use vh::enumr::{dig, fill};
use vh::refs::cipher::{Des, RefCipher, Tdes};

fn main() { engine::main("C08", run) }
fn a8(v: &[u8]) -> [u8; 8] { let mut a = [0; 8]; a.copy_from_slice(v); a }
const WEAK: [u64; 16] = [
    0x0101010101010101, 0xFEFEFEFEFEFEFEFE, 0xE0E0E0E0F1F1F1F1, 0x1F1F1F1F0E0E0E0E,
    0x011F011F010E010E, 0x1F011F010E010E01, 0x01E001E001F101F1, 0xE001E001F101F101,
    0x01FE01FE01FE01FE, 0xFE01FE01FE01FE01, 0x1FE01FE00EF10EF1, 0xE01FE01FF10EF10E,
    0x1FFE1FFE0EFE0EFE, 0xFE1FFE1FFE0EFE0E, 0xE0FEE0FEF1FEF1FE, 0xFEE0FEE0FEF1FEF1,
];

fn run(c: &Ctx) {
    let nkeys = c.pick(40u64, 400);
    // every S-box input of every S-box in every round
    c.par("sbox", nkeys * 16 * 8, |mut i, t| {
        let (k, r, b) = (dig(&mut i, nkeys), dig(&mut i, 16), i as usize);
        let key = a8(&fill(8, [0, 1, 7, 8, 9, 10][k % 6] + k / 6 * 3));
        let (d, rf) = (DES::new(key), Des::new(&key));
        for v in 0..64 {
            let base = u32::from_be_bytes([v as u8, 0x5a, (v * 7) as u8, 0xc3]);
            let rr = rf.right_for_sbox(r, b, v as u8, base);
            let blk = rf.plain_for_state(r, base.rotate_left(9), rr);
            let got = (rf.sbox_inputs(&blk)[r] >> (42 - 6 * b)) as u8 & 0x3f;
            if got != v as u8 { panic!("reference model: S-box input not reached"); }
            t.sample(|| format!("DES key {} block {}: round {} S-box {} input {}", hx(&key), hx(&blk), r + 1, b + 1, v));
            both(&|| format!("DES key {}", hx(&key)), &d, &rf, &blk, t)?;
        }
        Ok(())
    });
    // every single-bit key x every single-bit block, and complements
    c.par("bits", 64 * 2, |mut i, t| {
        let f = dig(&mut i, 2);
        let mut key = [if f == 0 { 0 } else { 0xff }; 8];
        key[i as usize / 8] ^= 0x80 >> (i % 8);
        let (d, rf) = (DES::new(key), Des::new(&key));
        for j in 0..64 {
            let mut b = [if f == 0 { 0 } else { 0xff }; 8];
            b[j / 8] ^= 0x80 >> (j % 8);
            both(&|| format!("DES key {}", hx(&key)), &d, &rf, &b, t)?;
        }
        Ok(())
    });
    // every byte value at every key position; the parity bit of every byte has no influence
    c.par("keybyte", 8 * 256 * 3, |mut i, t| {
        let (f, p, v) = (dig(&mut i, 3), dig(&mut i, 8), i as u8);
        let mut key = a8(&fill(8, [0, 1, 7][f]));
        key[p] = v;
        let blk = fill(8, 8);
        let rf = Des::new(&key);
        both(&|| format!("DES key {}", hx(&key)), &DES::new(key), &rf, &blk, t)?;
        let mut flipped = key;
        flipped[p] ^= 1;
        let mut o = vec![];
        DES::new(flipped).e(&mut o, &blk)?;
        t.step();
        t.eq(&|| format!("DES keys {} and {} (parity)", hx(&key), hx(&flipped)), &o, &rf.enc(&blk))
    });
    c.par("blockbyte", 8 * 256 * 3, |mut i, t| {
        let (f, p, v) = (dig(&mut i, 3), dig(&mut i, 8), i as u8);
        let key = a8(&fill(8, [0, 1, 9][f]));
        let mut b = fill(8, [0, 1, 8][f]);
        b[p] = v;
        both(&|| format!("DES key {}", hx(&key)), &DES::new(key), &Des::new(&key), &b, t)
    });
    c.par("address", 4, |i, t| {
        let k: Vec<[u8; 8]> = (0..3).map(|j| a8(&fill(8, 7 + 3 * i as usize + j))).collect();
        let r = |j: usize| Des::new(&k[j]);
        addresses(&|| format!("DES key {}", hx(&k[0])), &DES::new(k[0]), &r(0), 8, t)?;
        addresses(&|| format!("TDES keys {}", hx(&k.concat())), &TDES::new(k[0], k[1], k[2]), &Tdes(r(0), r(1), r(2)), 8, t)
    });
    // weak and semi-weak keys
    c.par("weak", 16 * 64, |mut i, t| {
        let key = WEAK[dig(&mut i, 16)].to_be_bytes();
        let b = fill(8, 6 + i as usize);
        both(&|| format!("DES weak key {}", hx(&key)), &DES::new(key), &Des::new(&key), &b, t)
    });
    // complementation and chains
    c.par("chain", c.pick(4096, 40960), |i, t| {
        let mut key = a8(&fill(8, 7 + i as usize));
        let mut b = fill(8, 6);
        for _ in 0..20 {
            let (d, rf) = (DES::new(key), Des::new(&key));
            both(&|| format!("DES key {}", hx(&key)), &d, &rf, &b, t)?;
            let mut o = vec![];
            d.dup().e(&mut o, &b)?;
            let (mut ck, cb) = (key, b.iter().map(|x| !x).collect::<Vec<u8>>());
            for x in ck.iter_mut() { *x = !*x; }
            let mut o2 = vec![];
            DES::new(ck).e(&mut o2, &cb)?;
            t.steps(2);
            t.eq(&|| format!("DES complementation key {} block {}", hx(&key), hx(&b)), &o2, &o.iter().map(|x| !x).collect::<Vec<u8>>())?;
            for j in 0..8 { key[j] ^= o[j]; }
            b = o;
        }
        Ok(())
    });
    // triple DES: all 27 choices of keys from three, single bits, chains on one object
    let ks: Vec<[u8; 8]> = (0..3).map(|j| a8(&fill(8, 7 + j))).collect();
    c.par("tdes/keys", 27, |mut i, t| {
        let (x, y, z) = (ks[dig(&mut i, 3)], ks[dig(&mut i, 3)], ks[dig(&mut i, 3)]);
        let (d, rf) = (TDES::new(x, y, z), Tdes(Des::new(&x), Des::new(&y), Des::new(&z)));
        let what = || format!("TDES keys {} {} {}", hx(&x), hx(&y), hx(&z));
        let mut b = fill(8, 9);
        for n in 0..200 {
            both(&what, &d, &rf, &b, t)?;
            let mut o = vec![0x11; n % 12];
            d.e(&mut o, &b)?;
            let mut o2 = vec![];
            d.dup().e(&mut o2, &b)?;
            t.steps(2);
            t.eq(&|| format!("{}: clone", what()), &o2, &o)?;
            if x == y && y == z {
                let mut o3 = vec![];
                DES::new(x).e(&mut o3, &b)?;
                t.eq(&|| format!("{}: equal keys against single DES", what()), &o, &o3)?;
            }
            b = o;
        }
        Ok(())
    });
    c.par("tdes/bits", 192 * 2, |mut i, t| {
        let f = dig(&mut i, 2);
        let mut k = [[if f == 0 { 0u8 } else { 0xff }; 8]; 3];
        k[i as usize / 64][i as usize % 64 / 8] ^= 0x80 >> (i % 8);
        let (d, rf) = (TDES::new(k[0], k[1], k[2]), Tdes(Des::new(&k[0]), Des::new(&k[1]), Des::new(&k[2])));
        for j in 0..64 {
            let mut b = [0u8; 8];
            b[j / 8] = 0x80 >> (j % 8);
            both(&|| format!("TDES keys {:02x?}", k), &d, &rf, &b, t)?;
        }
        Ok(())
    });
    c.par("tdes/bytes", 24 * 256, |mut i, t| {
        let p = dig(&mut i, 24);
        let mut k = [ks[0], ks[1], ks[2]];
        k[p / 8][p % 8] = i as u8;
        let rf = Tdes(Des::new(&k[0]), Des::new(&k[1]), Des::new(&k[2]));
        both(&|| format!("TDES keys {:02x?}", k), &TDES::new(k[0], k[1], k[2]), &rf, &fill(8, 8), t)
    });
    // a refused block in between must not disturb later blocks
    c.par("wronglen", 40, |i, t| {
        if i == 8 { return Ok(()); }
        let (d, td) = (DES::new(ks[0]), TDES::new(ks[0], ks[1], ks[2]));
        both(&|| "DES".into(), &d, &Des::new(&ks[0]), &fill(8, 5), t)?;
        wrong_length("DES", &d, 8, i as usize, t)?;
        wrong_length("TDES", &td, 8, i as usize, t)?;
        both(&|| "DES after a refusal".into(), &d, &Des::new(&ks[0]), &fill(8, 5), t)?;
        both(&|| "TDES after a refusal".into(), &td, &Tdes(Des::new(&ks[0]), Des::new(&ks[1]), Des::new(&ks[2])), &fill(8, 5), t)
    });
}
