//! C16: validity of generated RSA keys and of public-key construction.
use rcrypto::rsa::{KeyPair, PrivateKey, PublicKey, OAEP, PKCS1, PSS};
use rcrypto::sha::SHA1;
use rmath::bigint::{BigInt, Nat};
use vh::engine::{self, Ctx, T};
use vh::enumr::{dig, fill};
use vh::refs::bn::Bn;
use vh::rsak::{big, pub_nums, validate};
use vh::scripted::{Script, Tail};

fn main() { engine::main("C16", run) }

fn gen(t: &T, n_primes: usize, bits: usize, rounds: usize, mut rd: Script, must: bool) -> engine::R {
    t.step();
    let r = if n_primes == 2 && bits % 3 != 0 { PrivateKey::generate_key(bits, rounds, &mut rd) } else { PrivateKey::generate_multi_prime_key(n_primes, bits, rounds, &mut rd) };
    match r {
        Ok(sk) => {
            t.trace();
            let k = validate(&sk, n_primes, bits).map_err(|e| format!("{} (script {:x?}, tail {:?})", e, rd.words.iter().map(|w| w.unwrap_or(0)).collect::<Vec<_>>(), rd.tail))?;
            t.state(&k.n.to_be());
            t.state(&k.d.to_be());
            Ok(())
        }
        Err(e) => {
            t.trace();
            if must { Err(format!("generation of a {}-bit key with {} primes refused: {}", bits, n_primes, e)) } else { Ok(()) }
        }
    }
}

fn primes_upto(n: usize) -> Vec<u64> {
    let mut s = vec![true; n + 1];
    let mut v = vec![];
    for i in 2..=n {
        if s[i] { v.push(i as u64); let mut j = i * i; while j <= n { s[j] = false; j += i; } }
    }
    v
}

fn run(c: &Ctx) {
    c.assume("primality of factors above 46 bits is decided by the reference Miller-Rabin test with fixed bases; factors of small moduli by trial division");
    // every pair of first random words (all bits that can matter), several continuations
    for bits in [12usize, 13, 14, 15] {
        let w = 1u64 << ((bits + 1) / 2);
        let tails = c.pick(4u64, 16);
        c.par(&format!("pairs-{}", bits), w * w * tails, |mut i, t| {
            let tail = dig(&mut i, tails) as u64;
            let (a, b) = (dig(&mut i, w) as u32, i as u32);
            // bits above the prime size must be ignored
            let hi = [0u32, 0xffff_ff00, 0xa5a5_0000, 0x8000_0000][tail as usize % 4];
            gen(t, 2, bits, [1, 5, 0, 20][tail as usize % 4], Script::words(&[a | hi, b | hi], Tail::Stream(tail)), true)
        });
    }
    // three to five words with the forced bits (top two, lowest) left out of the alphabet
    for (n, bits, depth) in [(2usize, 14usize, 4u32), (3, 21, c.pick(4, 5)), (4, 28, c.pick(4, 5))] {
        c.par(&format!("words-{}-{}-{}", n, bits, depth), 16u64.pow(depth), |mut i, t| {
            let w: Vec<u32> = (0..depth).map(|_| dig(&mut i, 16) as u32 * 2).collect();
            gen(t, n, bits, 1, Script::words(&w, Tail::Stream(w.iter().fold(7, |a, &b| a * 31 + b as u64))), true)
        });
    }
    c.par("words-3-22", 8 * 16 * 16 * 16, |mut i, t| {
        let mut w: Vec<u32> = (0..3).map(|_| dig(&mut i, 16) as u32 * 2).collect();
        w.push(i as u32 * 2);
        gen(t, 3, 22, 1, Script::words(&w, Tail::Stream(w[0] as u64)), true)
    });
    // the same prime forced again and again: two- to five-prime keys from constant leading words
    c.par("repeats", 4 * 64 * 6, |mut i, t| {
        let n = 2 + dig(&mut i, 4);
        let reps = 1 + dig(&mut i, 6);
        let v = i as u32 * 4 + 1;
        let bits = [16, 24, 32, 40][n - 2];
        let mut w = vec![];
        for r in 0..reps { for _ in 0..r + 1 { w.push(v); } w.push(v ^ 2 << r); }
        gen(t, n, bits, 1, Script::words(&w, Tail::Stream(v as u64)), true)
    });
    // each of the first draws replaced by every 8-bit value, in turn (8- and 9-bit primes: the primality test draws as well)
    c.par("single-draw", 3 * 24 * 512, |mut i, t| {
        let bits = 16 + dig(&mut i, 3);
        let pos = dig(&mut i, 24);
        let mut base = Script::stream(bits as u64);
        let mut w: Vec<u32> = (0..24).map(|_| rmath::rand::Source::gen(&mut base).unwrap()).collect();
        w[pos] = i as u32;
        gen(t, 2, bits, 2, Script::words(&w, Tail::Stream(5)), true)
    });
    // primes p with p = 1 modulo the public exponent cannot be used
    let top = c.pick(26usize, 31);
    let mut bad = vec![];
    for b in 18..=top {
        let (lo, hi) = (3u64 << (b - 2), 1u64 << b);
        let mut p = 65537 * 2 * ((lo / 131074) + 1) + 1;
        while p < hi { if Bn::from_u64(p).is_prime() { bad.push((b, p)); } p += 131074; }
    }
    c.note(format!("{} primes p = 1 mod 65537 of 18..={} bits offered as first, second or third draw", bad.len(), top));
    if bad.is_empty() { panic!("no primes congruent 1 modulo 65537 found"); }
    let nb = bad.len() as u64;
    c.par("exponent-not-invertible", nb * 4, |mut i, t| {
        let (b, p) = bad[dig(&mut i, nb)];
        let (n, w): (usize, Vec<u32>) = match i {
            0 => (2, vec![p as u32]),
            1 => (2, vec![p as u32; 30]),
            2 => (3, vec![p as u32; 2]),
            _ => (2, vec![0x2aaaa, p as u32, p as u32, p as u32, p as u32, p as u32, p as u32]),
        };
        gen(t, n, n * b, 1, Script::words(&w, Tail::Stream(p)), true)
    });
    // every bit length, two to five primes
    let top = c.pick(140u64, 300);
    let seeds = c.pick(6u64, 20);
    c.par("sizes", (top + 1) * 4 * seeds, |mut i, t| {
        let n = 2 + dig(&mut i, 4);
        let s = dig(&mut i, seeds) as u64;
        let bits = i as usize;
        gen(t, n, bits, 1 + s as usize % 3, Script::stream(1000 * n as u64 + s), bits / n >= 10)
    });
    let big_sizes = c.pick(vec![256usize, 257, 384, 511, 512], vec![256, 257, 384, 511, 512, 513, 768, 1023, 1024, 1025, 2048]);
    c.par("large", big_sizes.len() as u64 * 4, |mut i, t| {
        let n = 2 + dig(&mut i, 4);
        gen(t, n, big_sizes[i as usize], 3, Script::stream(77 + n as u64), true)
    });
    // requests: every small bit length with zero to many primes; nothing may hang or yield a bad key
    c.case_limit(100);
    let ps = primes_upto(400);
    c.par("requests", 26 * 131, |mut i, t| {
        let n = dig(&mut i, 26);
        let bits = i as usize;
        let mut prod = Bn::one();
        for p in ps.iter().take(n) { prod = prod.mul(&Bn::from_u64(*p)); }
        let mut rd = Script::stream(i + 1);
        t.step();
        match PrivateKey::generate_multi_prime_key(n, bits, 1, &mut rd) {
            Ok(sk) => {
                if n < 2 { return Err(format!("a key with {} primes was generated", n)); }
                if prod.bits() > bits { return Err(format!("{} distinct primes cannot multiply to {} bits, yet a key was returned: {}", n, bits, sk)); }
                t.trace();
                validate(&sk, n, bits).map(|_| ())
            }
            Err(_) => {
                t.trace();
                if n >= 2 && bits >= 64 && bits / n >= 16 { Err(format!("a {}-bit key with {} primes was refused", bits, n)) } else { Ok(()) }
            }
        }
    });
    c.case_limit(150);
    public(c);
}

#[derive(Clone, Copy, PartialEq)]
enum Via { Nat, Big, Be, Le }

/// Ok(accepted and shown value right) as the library sees it
fn build(via: Via, n: &Bn, e: &Bn, pad: usize) -> Option<PublicKey> {
    let (mut nb, mut eb) = (vec![0u8; pad], vec![0u8; pad]);
    nb.extend(if n.is_zero() { vec![0] } else { n.to_be() });
    eb.extend(if e.is_zero() { vec![0] } else { e.to_be() });
    match via {
        Via::Nat => PublicKey::from_nat(&Nat::from_be_bytes(&nb), &Nat::from_be_bytes(&eb)),
        Via::Big => PublicKey::from_bigint(&BigInt::from_be_bytes(&nb), &BigInt::from_be_bytes(&eb)),
        Via::Be => PublicKey::from_be_bytes(&nb, &eb),
        Via::Le => { nb.reverse(); eb.reverse(); PublicKey::from_le_bytes(&nb, &eb) }
    }.ok()
}
const VIAS: [Via; 4] = [Via::Nat, Via::Big, Via::Be, Via::Le];

fn public(c: &Ctx) {
    let one = |t: &T, via: Via, n: &Bn, e: &Bn, pad: usize| -> engine::R {
        t.step();
        t.trace();
        let want = e.ge(&Bn::from_u64(3)) && e.lt(n);
        match build(via, n, e, pad) {
            Some(pk) => {
                if !want { return Err(format!("public key n={} e={} accepted", n.to_hex(), e.to_hex())); }
                let (n2, e2) = pub_nums(&pk)?;
                t.state(&n2.to_be());
                if &n2 != n || &e2 != e { return Err(format!("public key n={} e={} became {}", n.to_hex(), e.to_hex(), pk)); }
                if pk.modulus_len() != (n.bits() + 7) / 8 { return Err(format!("modulus_len() {} for n={}", pk.modulus_len(), n.to_hex())); }
                Ok(())
            }
            None => if want { Err(format!("public key n={} e={} refused", n.to_hex(), e.to_hex())) } else { Ok(()) },
        }
    };
    // all pairs of small numbers
    c.par("public-small", 4 * 80 * 80, |mut i, t| {
        let v = VIAS[dig(&mut i, 4)];
        let (n, e) = (dig(&mut i, 80) as u64, i);
        one(t, v, &Bn::from_u64(n), &Bn::from_u64(e), 0)
    });
    // word and byte boundaries
    let mut vals = vec![Bn::zero(), Bn::from_u64(2), Bn::from_u64(3), Bn::from_u64(65537)];
    for s in [8usize, 16, 31, 32, 33, 63, 64, 65, 96, 128, 512, 1024] {
        let p = Bn::one().shl(s);
        vals.push(p.sub(&Bn::one()));
        vals.push(p.add(&Bn::one()));
        vals.push(p);
    }
    let nv = vals.len() as u64;
    c.par("public-boundary", 4 * nv * nv * 3, |mut i, t| {
        let v = VIAS[dig(&mut i, 4)];
        let pad = [0, 1, 5][dig(&mut i, 3)];
        let n = dig(&mut i, nv);
        one(t, v, &vals[n], &vals[i as usize], pad)
    });
    // numbers that are missing or negative
    c.par("public-not-positive", 64, |mut i, t| {
        let (a, b) = (dig(&mut i, 4), dig(&mut i, 4));
        let v = dig(&mut i, 4);
        let num = |x: usize, big: u32| -> BigInt {
            match x { 0 => BigInt::from(big), 1 => -BigInt::from(big), 2 => BigInt::from_be_bytes(&[]), _ => BigInt::from(0u32) }
        };
        let bytes = |x: usize, b: u32| -> Vec<u8> { match x { 0 => b.to_be_bytes().to_vec(), 1 => vec![0], 2 => vec![], _ => vec![0; 9] } };
        t.step();
        t.trace();
        let (ok, name) = match v {
            0 | 1 => {
                let (n, e) = (num(a, 3233 + v as u32), num(b, 17));
                (PublicKey::from_bigint(&n, &e).is_ok(), "from_bigint")
            }
            2 => (PublicKey::from_be_bytes(&bytes(a, 3233), &bytes(b, 17)).is_ok(), "from_be_bytes"),
            _ => (PublicKey::from_le_bytes(&bytes(a, 0xa10c0000), &bytes(b, 0x11000000)).is_ok(), "from_le_bytes"),
        };
        if ok != (a == 0 && b == 0) { return Err(format!("{} accepted={} for modulus kind {} and exponent kind {} (0 positive, 1 negative, 2 missing, 3 zero)", name, ok, a, b)); }
        Ok(())
    });
    // the checked constructors of the schemes: exponents around the limits of the validity check
    let mut es: Vec<u64> = vec![3, 4, 5, 17, 65537];
    for s in [8u32, 16, 24, 30, 31, 32, 33, 40] { for d in [-2i64, -1, 0, 1, 2] { es.push(((1i64 << s) + d) as u64); } }
    let ne = es.len() as u64;
    c.par("scheme-constructors", ne * 3, |mut i, t| {
        let w = dig(&mut i, 3);
        let e = es[i as usize];
        let mut nb = fill(128, 9);
        nb[0] |= 0x80;
        nb[127] |= 1;
        let n = Bn::from_be(&nb);
        let pk = PublicKey::from_bigint(&big(&n), &big(&Bn::from_u64(e))).map_err(|x| format!("e={} refused: {}", e, x))?;
        let (h, rd, kp) = (SHA1::new(), Script::stream(1), KeyPair::from(pk));
        t.step();
        t.trace();
        let ok = match w {
            0 => OAEP::new(h, rd, kp, vec![], false).is_ok(),
            1 => PKCS1::new(h, rd, kp, false).is_ok(),
            _ => PSS::new(h, rd, kp, None, false).is_ok(),
        };
        let want = e < 1 << 31;
        if ok != want { return Err(format!("checked constructor {} accepted={} for public exponent {}", ["OAEP", "PKCS1", "PSS"][w], ok, e)); }
        Ok(())
    });
}
