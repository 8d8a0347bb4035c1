//! C07: AES, in the accelerated and in the portable build.
use vh::blk::{addresses, both, wrong_length, Blk};
use vh::engine::{self, Ctx};
use vh::enumr::{dig, fill};
use vh::refs::cipher::Aes;

fn main() { engine::main("C07", run) }

type Mk = fn(&[u8]) -> Result<Box<dyn Blk>, String>;
macro_rules! makers {
    ($lib:ident) => {{
        let a: Mk = |k| $lib::AES::new(k.to_vec()).map(|x| Box::new(x) as Box<dyn Blk>).map_err(|e| format!("{}", e));
        let b: Mk = |k| Ok(match k.len() {
            16 => { let mut x = [0; 16]; x.copy_from_slice(k); Box::new($lib::AES::aes_128(x)) }
            24 => { let mut x = [0; 24]; x.copy_from_slice(k); Box::new($lib::AES::aes_192(x)) }
            _ => { let mut x = [0; 32]; x.copy_from_slice(k); Box::new($lib::AES::aes_256(x)) }
        });
        [a, b]
    }};
}

fn run(c: &Ctx) {
    build(c, "default", makers!(rcrypto));
    #[cfg(feature = "portable")]
    build(c, "portable", makers!(rcrypto_portable));
    #[cfg(not(feature = "portable"))]
    c.note("the portable build of the library did not compile and was not explored");
}

fn build(c: &Ctx, tag: &str, mk: [Mk; 2]) {
    for kl in [16usize, 24, 32] {
        let nr = kl / 4 + 6;
        let nkeys = c.pick(24u64, 96);
        // every byte value at every position entering SubBytes of every round
        c.par(&format!("{}/table/{}", tag, kl), nkeys * nr as u64 * 16, |mut i, t| {
            let (k, r, p) = (dig(&mut i, nkeys), 1 + dig(&mut i, nr as u64), i as usize);
            let key = fill(kl, 6 + k);
            let a = mk[k % 2](&key)?;
            let rf = Aes::new(&key);
            for v in 0..256 {
                let mut st = [0u8; 16];
                st.copy_from_slice(&fill(16, k));
                st[p] = v as u8;
                let b = rf.plain_for_state(r, &st);
                t.sample(|| format!("AES-{} key {} block {}", kl * 8, engine::hx(&key), engine::hx(&b)));
                both(&|| format!("AES-{} ({}) key {}", kl * 8, tag, engine::hx(&key)), a.as_ref(), &rf, &b, t)?;
            }
            Ok(())
        });
        // every byte value in every word of the expanded key that feeds a later word
        let steps = 4 * (nr + 1) - kl / 4;
        c.par(&format!("{}/schedule/{}", tag, kl), steps as u64 * 4, |mut i, t| {
            let (s, p) = (dig(&mut i, steps as u64), i as usize);
            for v in 0..256 {
                let mut w: Vec<[u8; 4]> = fill(kl, 8 + s % 3).chunks(4).map(|x| [x[0], x[1], x[2], x[3]]).collect();
                w[kl / 4 - 1][p] = v as u8;
                let key = Aes::key_for_words(s, &w);
                let rf = Aes::new(&key);
                both(&|| format!("AES-{} ({}) key {}", kl * 8, tag, engine::hx(&key)), mk[v % 2](&key)?.as_ref(), &rf, &fill(16, 7), t)?;
            }
            Ok(())
        });
        // every byte value at every key position; every single-bit key
        c.par(&format!("{}/keybyte/{}", tag, kl), kl as u64 * 256 * 3, |mut i, t| {
            let (f, p, v) = (dig(&mut i, 3), dig(&mut i, kl as u64), i as usize);
            let mut key = fill(kl, [0, 1, 7][f]);
            key[p] = v as u8;
            let rf = Aes::new(&key);
            for cons in &mk { both(&|| format!("AES-{} ({}) key {}", kl * 8, tag, engine::hx(&key)), cons(&key)?.as_ref(), &rf, &fill(16, 2), t)?; }
            Ok(())
        });
        // every byte value at every block position (covers every single-bit block)
        c.par(&format!("{}/block/{}", tag, kl), 16 * 256 * 3, |mut i, t| {
            let (f, p, v) = (dig(&mut i, 3), dig(&mut i, 16), i as usize);
            let key = fill(kl, [0, 1, 9][f]);
            let mut b = fill(16, [0, 1, 8][f]);
            b[p] = v as u8;
            both(&|| format!("AES-{} ({}) key {}", kl * 8, tag, engine::hx(&key)), mk[0](&key)?.as_ref(), &Aes::new(&key), &b, t)
        });
        // all pairs of single bits: key bit x block bit
        c.par(&format!("{}/bits/{}", tag, kl), kl as u64 * 8, |i, t| {
            let mut key = vec![0; kl];
            key[i as usize / 8] = 0x80 >> (i % 8);
            let (a, rf) = (mk[(i % 2) as usize](&key)?, Aes::new(&key));
            for j in 0..128 {
                let mut b = vec![0; 16];
                b[j / 8] = 0x80 >> (j % 8);
                both(&|| format!("AES-{} ({}) key {}", kl * 8, tag, engine::hx(&key)), a.as_ref(), &rf, &b, t)?;
            }
            Ok(())
        });
        // long chains of encryptions, re-keying from the output; one object and its clone
        c.par(&format!("{}/chain/{}", tag, kl), c.pick(64, 1024), |i, t| {
            let mut key = fill(kl, 7 + i as usize);
            let mut b = fill(16, 6);
            for _ in 0..40 {
                let (a, rf) = (mk[0](&key)?, Aes::new(&key));
                let a2 = a.dup();
                for _ in 0..5 {
                    both(&|| format!("AES-{} ({}) key {}", kl * 8, tag, engine::hx(&key)), a.as_ref(), &rf, &b, t)?;
                    let mut o = vec![];
                    a2.e(&mut o, &b)?;
                    b = o;
                }
                for j in 0..kl { key[j] ^= b[j % 16].rotate_left((j / 16) as u32); }
            }
            Ok(())
        });
        c.par(&format!("{}/address/{}", tag, kl), 8, |i, t| {
            let key = fill(kl, 7 + i as usize / 2);
            addresses(&|| format!("AES-{} ({}) key {}", kl * 8, tag, engine::hx(&key)), mk[i as usize % 2](&key)?.as_ref(), &Aes::new(&key), 16, t)
        });
        c.par(&format!("{}/wronglen/{}", tag, kl), 70, |i, t| {
            if i == 16 { return Ok(()); }
            wrong_length(&format!("AES-{} ({})", kl * 8, tag), mk[0](&fill(kl, 7))?.as_ref(), 16, i as usize, t)
        });
    }
    c.par(&format!("{}/wrongkey", tag), 140, |i, t| {
        let ok = mk[0](&fill(i as usize, 7)).is_ok();
        t.step();
        t.trace();
        t.state(&[ok as u8]);
        if ok != [16, 24, 32].contains(&i) { return Err(format!("AES::new ({}) with a key of {} bytes: accepted {}", tag, i, ok)); }
        Ok(())
    });
}
