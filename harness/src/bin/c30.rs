//! C30: signature objects against a plain model of their content.
use rcrypto::dsa::{SignatureContent as Pair, DSA};
use rcrypto::rsa::SignatureContent as Bytes;
use rcrypto::Signature;
use rmath::bigint::BigInt;
use vh::dsak::dom;
use vh::engine::{self, hx, Ctx, R, T};
use vh::enumr::{dig, fill, seq, seqs_upto};
use vh::refs::bn::Bn;
use vh::rsak::{big, bn};
use vh::scripted::Script;
use vh::toy::RawDigest;

fn main() { engine::main("C30", run) }

/// numbers whose byte forms have all lengths and extreme leading and trailing bytes
fn values() -> Vec<Bn> {
    let mut v = vec![Bn::zero()];
    for n in (1..=10).chain([16, 20, 28, 32, 33, 48, 66, 127, 128, 129, 255, 256, 257, 384]) {
        for head in [0x01u8, 0x7f, 0x80, 0xff] {
            for (mid, tail) in [(0x00u8, 0x00u8), (0x00, 0x01), (0xff, 0xff), (0x5a, 0x80)] {
                let mut b = vec![mid; n];
                b[n - 1] = tail;
                b[0] = head;
                v.push(Bn::from_be(&b));
            }
        }
    }
    v
}
fn be(x: &Bn) -> Vec<u8> { x.to_be() }
/// the bytes are the two numbers one after the other (each possibly with leading zeros)
fn holds(c: &[u8], r: &Bn, s: &Bn) -> bool { (0..=c.len()).any(|i| Bn::from_be(&c[..i]) == *r && Bn::from_be(&c[i..]) == *s) }
fn vecr(p: &Pair) -> &Vec<u8> { p.as_ref() }
fn slir(p: &Pair) -> &[u8] { p.as_ref() }

/// the object holds exactly this pair
fn check(what: &dyn Fn() -> String, p: &Pair, r: &Bn, s: &Bn, t: &T) -> R {
    t.step();
    let (a, b) = p.to_bigint();
    match (bn(&a), bn(&b)) {
        (Ok(a), Ok(b)) if a == *r && b == *s => {}
        x => return Err(format!("{}: holds {:?} instead of ({}, {})", what(), x.0.and_then(|a| x.1.map(|b| (a.to_hex(), b.to_hex()))), r.to_hex(), s.to_hex())),
    }
    if vecr(p) != slir(p) || !holds(vecr(p), r, s) { return Err(format!("{}: the bytes are {} for ({}, {})", what(), hx(vecr(p)), r.to_hex(), s.to_hex())); }
    Ok(())
}

fn run(c: &Ctx) {
    let vals = values();
    let n = vals.len() as u64;
    let v = &vals;
    // every pair of values: made from the numbers, set over another pair
    c.par("pairs", n * n, |mut i, t| {
        let (r, s) = (&v[dig(&mut i, n)], &v[i as usize]);
        let (br, bs) = (big(r), big(s));
        let p = Pair::form_bigint(&br, &bs);
        check(&|| "made from numbers".into(), &p, r, s, t)?;
        if bn(&br)? != *r || bn(&bs)? != *s { return Err("the numbers passed in have changed".into()); }
        for (k, mut q) in [Pair::new(), Pair::with_capacity(0), Pair::with_capacity(700), Pair::form_bigint(&bs, &br), p].into_iter().enumerate() {
            q.set(br.deep_clone(), bs.deep_clone());
            check(&|| format!("set over object {}", k), &q, r, s, t)?;
        }
        t.state(format!("{}.{}", be(r).len(), be(s).len()).as_bytes());
        Ok(())
    });
    // every value of two one-byte numbers and every two-byte number beside a one-byte one
    c.par("small", 256 * 256, |i, t| {
        let (r, s) = (Bn::from_u64(i >> 8), Bn::from_u64(i & 255));
        let mut p = Pair::form_bigint(&big(&r), &big(&s));
        check(&|| "made from numbers".into(), &p, &r, &s, t)?;
        let w = Bn::from_u64(i);
        p.set(big(&w), big(&s));
        check(&|| "set".into(), &p, &w, &s, t)?;
        p.set(big(&r), big(&w));
        check(&|| "set".into(), &p, &r, &w, t)
    });
    // histories: sets, signatures, changes of single bytes in place, replaced bytes
    let hv: Vec<(Bn, Bn)> = [(1usize, 1usize), (20, 20), (19, 20), (20, 19), (3, 40)].iter().map(|&(a, b)| (Bn::from_be(&fill(a, 1)), Bn::from_be(&fill(b, 4)))).collect();
    let depth = c.pick(6, 7);
    let d = dom(16, 0, 64, 0);
    let (hv, d) = (&hv, &d);
    c.par("history", seqs_upto(9, depth), |i, t| {
        let ops = seq(i, 9, depth);
        let mut p = Pair::new();
        let mut m: Option<(Vec<u8>, usize)> = None;
        let mut want: Option<(Bn, Bn)> = None;
        t.trace();
        for (at, &op) in ops.iter().enumerate() {
            t.step();
            match op {
                0..=4 => {
                    let (r, s) = &hv[op];
                    if at % 2 == 0 { p.set(big(r), big(s)) } else { p = Pair::form_bigint(&big(r), &big(s)) }
                    want = Some((r.clone(), s.clone()));
                    m = None;
                }
                5 | 6 => {
                    // a byte changed in place changes the number it belongs to
                    let Some((r, s)) = &want else { continue };
                    let (rl, sl) = (be(r).len(), be(s).len());
                    if vecr(&p).len() != rl + sl { continue; }
                    let x = if op == 5 { rl - 1 } else { rl + sl - 1 };
                    if at % 2 == 0 { let b: &mut Vec<u8> = p.as_mut(); b[x] ^= 0x01; } else { let b: &mut [u8] = p.as_mut(); b[x] ^= 0x01; }
                    let mut all = [be(r), be(s)].concat();
                    all[x] ^= 0x01;
                    want = Some((Bn::from_be(&all[..rl]), Bn::from_be(&all[rl..])));
                    // a number that has lost a leading byte keeps its place
                    m = Some((all, rl));
                }
                7 => {
                    // bytes put in by the caller
                    let b: &mut Vec<u8> = p.as_mut();
                    b.clear();
                    b.extend(fill(5 + at, 3));
                    want = None;
                    m = Some((fill(5 + at, 3), 0));
                }
                _ => {
                    let mut x = DSA::new_uncheck(RawDigest::new(2, 64), Script::stream(at as u64), d.sk(&Bn::from_u64(0x1234))).map_err(|e| format!("{}", e))?;
                    x.sign(&mut p, &[7, at as u8]).map_err(|e| format!("{}", e))?;
                    let (r, s) = p.to_bigint();
                    let (r, s) = (bn(&r)?, bn(&s)?);
                    if !d.verify(&d.y(&Bn::from_u64(0x1234)), &[7, at as u8], &r, &s) { return Err(format!("after {:?}: the object does not hold the signature just made", &ops[..at])); }
                    want = Some((r, s));
                    m = None;
                }
            }
            let what = || format!("after {:?}", &ops[..=at]);
            match (&want, &m) {
                (Some((r, s)), None) => check(&what, &p, r, s, t)?,
                (Some((r, s)), Some((all, _))) => {
                    let (a, b) = p.to_bigint();
                    let zero = r.is_zero() || s.is_zero();
                    if vecr(&p) != all || (!zero && (bn(&a)? != *r || bn(&b)? != *s)) { return Err(format!("{}: bytes {} numbers {:#x} {:#x}, expected {} and ({}, {})", what(), hx(vecr(&p)), a, b, hx(all), r.to_hex(), s.to_hex())); }
                    // zero bytes in front: lengths no longer follow from the numbers
                    if be(r).len() + be(s).len() != all.len() { want = None; m = Some((all.clone(), 0)); }
                }
                (None, Some((all, _))) => {
                    if vecr(&p) != all || slir(&p) != &all[..] { return Err(format!("{}: bytes {} instead of {}", what(), hx(vecr(&p)), hx(all))); }
                    let _ = p.to_bigint();
                }
                (None, None) => if !vecr(&p).is_empty() { return Err(format!("{}: a new object holds {}", what(), hx(vecr(&p)))); },
            }
        }
        Ok(())
    });
    // the numbers handed out are copies
    c.par("copies", n, |i, t| {
        let x = &v[i as usize];
        let p = Pair::form_bigint(&big(x), &big(x));
        let (mut a, mut b) = p.to_bigint();
        a += BigInt::from(1u32);
        b += BigInt::from(3u32);
        let (mut r, mut s) = (big(x), big(x));
        let mut q = Pair::form_bigint(&r, &s);
        r += BigInt::from(1u32);
        s += BigInt::from(1u32);
        check(&|| "after changing the numbers handed out".into(), &p, x, x, t)?;
        check(&|| "after changing the numbers put in".into(), &q, x, x, t)?;
        let w = big(x);
        q.set(w.clone(), w.clone());
        check(&|| "after setting one number twice".into(), &q, x, x, t)
    });
    // byte signatures: every history of construction, copying and changes
    let depth = c.pick(6, 7);
    c.par("bytes", seqs_upto(10, depth), |i, t| {
        let ops = seq(i, 10, depth);
        let (mut x, mut m) = (Bytes::new(), vec![]);
        let mut other: Option<(Bytes, Vec<u8>)> = None;
        t.trace();
        for (at, &op) in ops.iter().enumerate() {
            t.step();
            match op {
                0 => { m = fill(at * 3, 3); x = Bytes::from(m.clone()); }
                1 => { m = fill(at + 1, 4); let src = m.clone(); x = Bytes::from(&src[..]); }
                2 => { x = Bytes::with_capacity(at * 9); m.clear(); }
                3 => { let b: &mut Vec<u8> = x.as_mut(); b.push(at as u8); m.push(at as u8); }
                4 => { let b: &mut Vec<u8> = x.as_mut(); b.truncate(1); m.truncate(1); }
                5 => { for b in x.as_mut_slice() { *b ^= 0x0f; } for b in m.iter_mut() { *b ^= 0x0f; } }
                6 => { let b: &mut [u8] = x.as_mut(); if let Some(l) = b.last_mut() { *l = 0; } if let Some(l) = m.last_mut() { *l = 0; } }
                7 => other = Some((x.clone(), m.clone())),
                8 => if let Some((o, om)) = &mut other { std::mem::swap(o, &mut x); std::mem::swap(om, &mut m); },
                _ => { let b: &mut Vec<u8> = x.as_mut(); b.insert(0, 0); m.insert(0, 0); }
            }
            for (o, w) in [(Some(&x), &m)].into_iter().chain([other.as_ref().map_or((None, &m), |(o, w)| (Some(o), w))]) {
                let Some(o) = o else { continue };
                let (a, b): (&Vec<u8>, &[u8]) = (o.as_ref(), o.as_ref());
                if a != w || b != &w[..] || o.as_slice() != &w[..] { return Err(format!("after {:?}: {} instead of {}", &ops[..=at], hx(a), hx(w))); }
            }
        }
        t.state(&m);
        Ok(())
    });
    // long byte signatures
    c.par("long-bytes", 1100, |i, t| {
        let w = fill(i as usize, 3);
        t.steps(3);
        for o in [Bytes::from(&w[..]), Bytes::from(w.clone()), Bytes::from(&w[..]).clone()] { t.eq(&|| format!("{} bytes", i), o.as_slice(), &w)?; }
        Ok(())
    });
}
