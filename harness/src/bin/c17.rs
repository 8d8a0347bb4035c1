//! C17: the raw RSA operations are mutually inverse on every residue.
use rcrypto::rsa::{PrivateKey, PublicKey};
use rmath::bigint::BigInt;
use std::collections::BTreeMap;
use vh::engine::{self, Ctx, R, T};
use vh::enumr::dig;
use vh::refs::bn::Bn;
use vh::rsak::{big, bn, key, nums, Nums, LARGE};
use vh::scripted::{Script, Tail};

fn main() { engine::main("C17", run) }

/// words from which the library generates a key; used to rebuild the key inside each thread
#[derive(Clone)]
struct Recipe { n_primes: usize, bits: usize, words: Vec<u32>, tail: u64 }
impl Recipe {
    fn make(&self) -> PrivateKey {
        PrivateKey::generate_multi_prime_key(self.n_primes, self.bits, 1, &mut Script::words(&self.words, Tail::Stream(self.tail))).unwrap()
    }
}

/// one recipe for every displayed key reachable from the given words (order of primes included through decryption cost only)
fn harvest(n_primes: usize, bits: usize, depth: u32, letters: u32) -> Vec<Recipe> {
    let mut m: BTreeMap<(String, Vec<u32>), Recipe> = BTreeMap::new();
    for mut i in 0..(letters as u64).pow(depth) {
        let words: Vec<u32> = (0..depth).map(|_| dig(&mut i, letters as u64) as u32 * 2 + 1).collect();
        let r = Recipe { n_primes, bits, words: words.clone(), tail: 3 };
        let sk = match engine::guarded(|| PrivateKey::generate_multi_prime_key(n_primes, bits, 1, &mut Script::words(&words, Tail::Stream(3)))) { Ok(Ok(k)) => k, _ => continue };
        // the order of the primes matters to the implementation: keep one recipe per order of the words
        let mut order: Vec<usize> = (0..words.len()).collect();
        order.sort_by_key(|&j| words[j]);
        m.entry((format!("{}", sk), order.iter().map(|&x| x as u32).collect())).or_insert(r);
    }
    m.into_values().collect()
}

fn dec(t: &T, sk: &PrivateKey, c: &Bn, rd: Option<&mut Script>, checked: bool) -> Result<Result<Bn, ()>, String> {
    t.step();
    let cb = big(c);
    let r = if checked { sk.decrypt_and_check(&cb, rd) } else { sk.decrypt(&cb, rd) };
    match r {
        Ok(m) => Ok(Ok(bn(&m)?)),
        Err(_) => Ok(Err(())),
    }
}
fn enc(t: &T, pk: &PublicKey, m: &Bn) -> Result<Bn, String> { t.step(); bn(&pk.encrypt(&big(m))) }

fn round(t: &T, sk: &PrivateKey, k: &Nums, m: &Bn, rd: Option<&mut Script>, checked: bool) -> R {
    let want = m.powm(&k.e, &k.n);
    let c = enc(t, sk.public_key(), m)?;
    if c != want { return Err(format!("encrypt({}) = {}, expected {} (key {})", m.to_hex(), c.to_hex(), want.to_hex(), sk)); }
    let blind = rd.is_some();
    t.trace();
    let r = dec(t, sk, &c, rd, checked)?;
    match r {
        Ok(x) if &x == m => Ok(()),
        Ok(x) => Err(format!("decrypt({}) = {}, expected {} (blinding {}, key {})", c.to_hex(), x.to_hex(), m.to_hex(), blind, sk)),
        Err(()) => Err(format!("decrypt({}) refused, expected {} (blinding {}, key {})", c.to_hex(), m.to_hex(), blind, sk)),
    }
}

/// residues at which carries, zeros and prime multiples happen
fn edge(k: &Nums) -> Vec<Bn> {
    let one = Bn::one();
    let mut v: Vec<Bn> = (0..8).map(Bn::from_u64).collect();
    for i in 1..6 { v.push(k.n.sub(&Bn::from_u64(i))); }
    v.push(k.n.shr(1));
    for p in &k.primes {
        for j in [1u64, 2, 3, 7] { v.push(p.mul(&Bn::from_u64(j)).rem(&k.n)); }
        v.push(p.sub(&one));
        v.push(p.add(&one));
        v.push(k.n.sub(p));
        v.push(k.n.sub(p).add(&one));
        v.push(k.n.divrem(p).0);
        v.push(k.n.divrem(p).0.mul(&p.sub(&one)));
        for q in &k.primes { v.push(p.mul(q).rem(&k.n)); v.push(p.mul(p).mul(q).rem(&k.n)); }
    }
    let mut b = 1;
    while b < k.n.bits() - 1 {
        let p = Bn::one().shl(b);
        v.push(p.sub(&one));
        v.push(p.clone());
        v.push(p.add(&one));
        b += if b < 64 { 5 } else { 31 };
    }
    v.retain(|x| x.lt(&k.n));
    v.sort_by(|a, b| a.cmp(b));
    v.dedup();
    v
}

fn run(c: &Ctx) {
    // all residues of all small keys, prime orders included
    let mut keys = harvest(2, 12, 2, 32);
    keys.extend(harvest(2, 13, 2, 64));
    keys.extend(harvest(2, 14, 2, 64));
    let full = keys.len();
    keys.extend(harvest(2, 15, 2, 128).into_iter().step_by(c.pick(12, 1)));
    c.note(format!("{} two-prime keys of 12 to 15 bits", keys.len()));
    if full < 10 { panic!("only {} small keys could be generated", full); }
    let nk = keys.len() as u64;
    c.par("all-residues", nk * 64, |mut i, t| {
        let part = dig(&mut i, 64) as u64;
        let sk = keys[i as usize].make();
        let k = nums(&sk)?;
        let n = k.n.low_u64();
        let mut x = part;
        while x < n {
            let m = Bn::from_u64(x);
            round(t, &sk, &k, &m, None, x / 64 % 2 == 0)?;
            let mut rd = Script::stream(x + 1);
            round(t, &sk, &k, &m, Some(&mut rd), x / 64 % 2 == 1)?;
            x += 64;
        }
        t.state(format!("{}", sk).as_bytes());
        Ok(())
    });
    // three and four primes: all residues for some keys
    let mut multi = harvest(3, 21, 3, 16);
    let step = c.pick((multi.len() / 12).max(1), (multi.len() / 200).max(1));
    multi = multi.into_iter().step_by(step).collect();
    c.note(format!("{} three-prime keys of 21 bits, all residues", multi.len()));
    let nm = multi.len() as u64;
    let stride = c.pick(16u64, 1);
    c.par("three-primes", nm * 64, |mut i, t| {
        let part = dig(&mut i, 64) as u64;
        let sk = multi[i as usize].make();
        let k = nums(&sk)?;
        let n = k.n.low_u64();
        let mut x = part;
        while x < n {
            round(t, &sk, &k, &Bn::from_u64(x), None, false)?;
            x += 64 * stride + if stride > 1 { (x / 64) % 3 } else { 0 };
        }
        // residues near zero and near the modulus, all of them
        for d in 0..1500u64 / 64 {
            let e = d * 64 + part;
            for m in [e, n - 1 - e] {
                let mut rd = Script::stream(m + 1);
                round(t, &sk, &k, &Bn::from_u64(m), if m % 2 == 0 { None } else { Some(&mut rd) }, true)?;
            }
        }
        t.state(format!("{}", sk).as_bytes());
        Ok(())
    });
    if c.thorough { c.note("three-primes: every residue"); } else { c.note("three-primes: every 1024th-or-so residue in 64 interleaved walks plus all residues within 1472 of 0 and n"); }
    let mut quad = harvest(4, 28, 4, 16);
    let step = (quad.len() / c.pick(60, 600)).max(1);
    quad = quad.into_iter().step_by(step).collect();
    let nq = quad.len() as u64;
    c.par("four-primes", nq, |i, t| {
        let sk = quad[i as usize].make();
        let k = nums(&sk)?;
        t.state(format!("{}", sk).as_bytes());
        let mut v = edge(&k);
        for x in 0..600u64 { v.push(Bn::from_u64(x * 7)); v.push(k.n.sub(&Bn::from_u64(x * 7 + 1))); }
        for m in v { round(t, &sk, &k, &m, None, false)?; round(t, &sk, &k, &m, Some(&mut Script::stream(9)), true)?; }
        Ok(())
    });
    // every blinding value of the 12-bit keys, including 0 and multiples of the primes
    let small: Vec<&Recipe> = keys.iter().filter(|r| r.bits == 12).collect();
    let ns = small.len() as u64;
    c.par("all-blinding", ns * 4096, |mut i, t| {
        let r = dig(&mut i, 4096) as u32;
        let sk = small[i as usize].make();
        let k = nums(&sk)?;
        let ms = if t.thorough() { (0..k.n.low_u64()).step_by(5).map(Bn::from_u64).collect() } else { edge(&k) };
        for m in ms {
            let mut rd = Script::words(&[r, 0, r], Tail::Stream(r as u64));
            round(t, &sk, &k, &m, Some(&mut rd), m.is_odd())?;
        }
        t.state(&r.to_be_bytes());
        Ok(())
    });
    // sequences of blinding values: repeated useless ones first
    c.par("blinding-retries", ns * 6 * 40, |mut i, t| {
        let sk = small[dig(&mut i, ns)].make();
        let k = nums(&sk)?;
        let n = dig(&mut i, 6);
        let p = &k.primes[i as usize % k.primes.len()];
        let bad = p.mul(&Bn::from_u64(1 + i / 2)).low_u64() as u32;
        let mut w = vec![bad; n];
        w.push(0);
        w.push(5);
        for m in edge(&k) { round(t, &sk, &k, &m, Some(&mut Script::words(&w, Tail::Stream(i))), false)?; }
        Ok(())
    });
    // representatives outside [0, n)
    c.par("out-of-range", nk, |i, t| {
        let sk = keys[i as usize].make();
        outside(t, &sk)
    });
    // checked variant: every c below n decrypts to an m with m^e = c
    c.par("every-ciphertext", ns * 4, |mut i, t| {
        let q = dig(&mut i, 4) as u64;
        let sk = small[i as usize].make();
        let k = nums(&sk)?;
        let mut x = q;
        while x < k.n.low_u64() {
            let cc = Bn::from_u64(x);
            for checked in [false, true] {
                let mut rd = Script::stream(x);
                let blind = x / 4 % 2 == 1;
                match dec(t, &sk, &cc, if blind { Some(&mut rd) } else { None }, checked)? {
                    Ok(m) => if m.ge(&k.n) || m.powm(&k.e, &k.n) != cc { return Err(format!("decrypt({}) = {} (key {})", x, m.to_hex(), sk)); },
                    Err(()) => return Err(format!("decrypt({}) refused (key {})", x, sk)),
                }
                t.trace();
            }
            x += 4;
        }
        Ok(())
    });
    // larger moduli at their edges
    let sizes: Vec<(usize, usize)> = {
        let mut v: Vec<(usize, usize)> = vec![];
        for b in 16..=80 { v.push((b, 2)); }
        for b in [24usize, 31, 32, 33, 47, 63, 64, 65, 95, 96, 97, 127, 128, 129, 160, 191, 192, 255, 256, 257, 384, 512] {
            for n in 2..=5 { if b / n >= 8 && (n > 2 || b > 80) { v.push((b, n)); } }
        }
        if c.thorough { for b in [768usize, 1023, 1024, 1025, 1536, 2048] { for n in 2..=5 { v.push((b, n)); } } } else { v.push((1024, 2)); v.push((768, 3)); }
        v.extend(LARGE);
        v
    };
    let seeds = c.pick(3u64, 8);
    c.par("sizes", sizes.len() as u64 * seeds, |mut i, t| {
        let s = dig(&mut i, seeds) as u64;
        let (bits, n) = sizes[i as usize];
        if bits > 500 && s > 0 { return Ok(()); }
        let (sk, k) = key(bits, n, s)?;
        t.state(format!("{}", sk).as_bytes());
        let e = edge(&k);
        let e: Vec<Bn> = if bits > 300 { e.into_iter().step_by(bits / 200).collect() } else { e };
        for m in &e {
            round(t, &sk, &k, m, None, false)?;
            round(t, &sk, &k, m, Some(&mut Script::stream(s + 5)), true)?;
        }
        // blinding values at the edges of the modulus, as little-endian words
        for r in e.iter().step_by(1 + e.len() / 12) {
            let mut w = r.0.clone();
            w.resize((bits + 31) / 32, 0);
            round(t, &sk, &k, &e[e.len() / 2], Some(&mut Script::words(&w, Tail::Stream(3))), false)?;
        }
        outside(t, &sk)
    });
    // every length of exponent, up to and beyond word boundaries, for the bases that are easy to get wrong
    c.par("exponent-lengths", 140 * 4, |mut i, t| {
        let s = dig(&mut i, 4);
        let b = 2 + i as usize;
        let e = match s { 0 => Bn::one().shl(b), 1 => Bn::one().shl(b).add(&Bn::one()), 2 => Bn::one().shl(b + 1).sub(&Bn::one()), _ => Bn::one().shl(b).add(&Bn::one().shl(b / 2)) };
        let n = Bn::one().shl(b + 2).add(&Bn::from_u64(1 + s as u64 % 2));
        let pk = PublicKey::from_bigint(&big(&n), &big(&e)).map_err(|x| format!("{}", x))?;
        for m in [Bn::zero(), Bn::one(), Bn::from_u64(2), Bn::from_u64(3), n.sub(&Bn::one()), n.sub(&Bn::from_u64(2)), n.shr(1), n.clone(), n.add(&Bn::from_u64(2))] {
            let got = enc(t, &pk, &m)?;
            t.eq(&|| format!("{}^{} mod {}", m.to_hex(), e.to_hex(), n.to_hex()), &got.to_be(), &m.powm(&e, &n).to_be())?;
        }
        Ok(())
    });
    // encryption under public keys with arbitrary exponents
    c.par("encrypt-exponents", 40 * 64, |mut i, t| {
        let e = [3u64, 4, 5, 6, 7, 17, 257, 65537][dig(&mut i, 8)];
        let x = dig(&mut i, 8) as u64;
        let n = [1_000_003u64, 0xffff_fffb, 0xffff_fffe, 0x1_0000_0000, 0x1_0000_0001, 0xffff_ffff_ffff_ffc5, 70000, 99991, 65539, 0x8000_0000, 131071, 0x8000_0001,
            0x1_ffff_ffff, 0xffff_ffff, 0x7fff_ffff, 65538, 0xffff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 100_000, 123_457, 0x1000_0000_0001, 90, 91, 97, 8, 9, 100, 121, 128, 255, 256, 257, 258, 259, 260, 300, 1000, 1001, 1023, 1024][i as usize];
        if e >= n { return Ok(()); }
        let (nb, eb) = (Bn::from_u64(n), Bn::from_u64(e));
        let pk = PublicKey::from_bigint(&big(&nb), &big(&eb)).map_err(|e| format!("{}", e))?;
        for m in [x, n - 1 - x % n, n / 2 + x, n / 3 + x, (1 << 31) + x, (1 << 32) - 1 - x] {
            let m = Bn::from_u64(m).rem(&nb);
            let got = enc(t, &pk, &m)?;
            t.eq(&|| format!("{}^{} mod {}", m.to_hex(), e, n), &got.to_be(), &m.powm(&eb, &nb).to_be())?;
        }
        Ok(())
    });
}

fn outside(t: &T, sk: &PrivateKey) -> R {
    let k = nums(sk)?;
    let mut v = vec![];
    for d in 0..4u64 { v.push(k.n.add(&Bn::from_u64(d))); v.push(k.n.mul(&Bn::from_u64(2)).add(&Bn::from_u64(d))); }
    v.push(k.n.mul(&k.n));
    v.push(Bn::one().shl(k.n.bits()));
    v.push(Bn::one().shl(8 * k.k()));
    v.push(Bn::one().shl(k.n.bits().max(4000)));
    for x in v {
        for f in 0..4 {
            let mut rd = Script::stream(1);
            t.trace();
            if let Ok(m) = dec(t, sk, &x, if f & 1 == 1 { Some(&mut rd) } else { None }, f & 2 == 2)? {
                return Err(format!("decrypt({}) with a value not below the modulus gave {} (key {})", x.to_hex(), m.to_hex(), sk));
            }
        }
    }
    // negative numbers and no number at all
    for neg in [-BigInt::from(1u32), -BigInt::from(2u32), -big(&k.n), -big(&k.n.add(&Bn::one())), BigInt::from_be_bytes(&[])] {
        for f in 0..4 {
            let mut rd = Script::stream(1);
            let r = if f & 1 == 1 { Some(&mut rd) } else { None };
            t.step();
            t.trace();
            let out = if f & 2 == 2 { sk.decrypt_and_check(&neg, r) } else { sk.decrypt(&neg, r) };
            if let Ok(m) = out { return Err(format!("decrypt({:#x}) outside [0, n) gave {:#x} (key {})", neg, m, sk)); }
        }
    }
    Ok(())
}
