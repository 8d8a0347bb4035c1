//! C24: generic elliptic-curve arithmetic.
use rcrypto::elliptic::{CurveParams, EllipticCurve};
use rmath::bigint::BigInt;
use vh::eck::{self, b, generic, nat, params, points, pt, show, standard, with_x, xy};
use vh::engine::{self, Ctx, R, T};
use vh::refs::bn::Bn;
use vh::refs::ec::{Curve, Pt};
use vh::rsak::{big, quoted};
use vh::scripted::{Script, Tail};

fn main() { engine::main("C24", run) }

fn same(t: &T, what: &dyn Fn() -> String, got: (BigInt, BigInt), want: &Pt) -> R {
    t.step();
    t.trace();
    let g = pt(&got).map_err(|e| format!("{}: {}", what(), e))?;
    if g != *want { return Err(format!("{} = {} but the group law gives {}", what(), show(&g), show(want))); }
    Ok(())
}
fn curve_name(c: &Curve) -> String { format!("y^2=x^3-3x+{} mod {} of order {}", c.b.low_u64(), c.p.low_u64(), c.n.low_u64()) }

fn small(c: &Curve, t: &T) -> R {
    let cp = params(c).unwrap();
    let ps = points(c);
    let n = c.n.low_u64();
    assert_eq!(ps.len() as u64, n);
    for q in &ps {
        let (x, y) = xy(q);
        for r in &ps {
            let (u, v) = xy(r);
            let want = c.add(q, r);
            t.state(format!("{:?}{:?}{:?}", q, r, want).as_bytes());
            same(t, &|| format!("{}: {} + {}", curve_name(c), show(q), show(r)), cp.add(&x, &y, &u, &v), &want)?;
        }
        same(t, &|| format!("{}: double of {}", curve_name(c), show(q)), cp.double(&x, &y), &c.dbl(q))?;
        // q * k from the multiples of q, which repeat with period n
        let mut mult = vec![Pt::Inf];
        for i in 1..n as usize { let m = c.add(&mult[i - 1], q); mult.push(m); }
        let ks = (0..2 * n + 3).map(b).chain((0..n).map(|k| Bn::one().shl(32).add(&b(k)))).chain((0..4).map(|i| Bn::one().shl(64 + 8 * i))).chain((0..4).map(|i| Bn::one().shl(32 * i + 31).sub(&b(i as u64))));
        for k in ks {
            let want = &mult[k.rem(&c.n).low_u64() as usize];
            same(t, &|| format!("{}: {} * {}", curve_name(c), show(q), k.to_hex()), cp.scalar(&x, &y, &nat(&k)), want)?;
            if *q == c.g() { same(t, &|| format!("{}: base point * {}", curve_name(c), k.to_hex()), cp.scalar_base_point(&nat(&k)), want)?; }
        }
    }
    Ok(())
}

fn member(t: &T, cp: &CurveParams, c: &Curve, x: &BigInt, y: &BigInt, want: bool) -> R {
    t.step();
    if cp.is_on_curve(x, y) != want { return Err(format!("{}: membership of ({:#x}, {:#x}) answered {} (p = {})", cp.name(), x, y, !want, c.p.to_hex())); }
    Ok(())
}
fn small_members(c: &Curve, t: &T) -> R {
    let cp = params(c).unwrap();
    let p = c.p.low_u64() as i64;
    let num = |v: i64| -> BigInt { let m = BigInt::from(v.abs() as u32); if v < 0 { -m } else { m } };
    for x in -p..=2 * p {
        for y in -p..=2 * p {
            if x == 0 && y == 0 { continue; }
            let want = x >= 0 && y >= 0 && c.on(&Pt::A(b(x as u64), b(y as u64)));
            if want { t.state(format!("{} {} {:?}", x, y, c.b).as_bytes()); }
            member(t, &cp, c, &num(x), &num(y), want)?;
        }
    }
    t.trace();
    Ok(())
}

/// points of a standard curve used in pairs
fn grid(c: &Curve, thorough: bool) -> Vec<Pt> {
    let g = c.g();
    let mut v = vec![Pt::Inf];
    let half = c.n.shr(1);
    let mut ks: Vec<Bn> = vec![b(1), b(2), b(3), b(4), half.clone(), Bn::one().shl(c.n.bits() - 1), Bn::one().shl(100)];
    if thorough { ks.extend((5..17).map(b)); ks.extend((0..8).map(|i| Bn::one().shl(c.n.bits() / 8 * i + 5))); }
    for k in ks { let q = c.mul(&k, &g); v.push(c.neg(&q)); v.push(q); }
    // extreme x coordinates
    let mut xs: Vec<Bn> = (0..if thorough { 12 } else { 4 }).map(b).collect();
    xs.extend((1..if thorough { 12 } else { 4 }).map(|i| c.p.sub(&b(i))));
    xs.extend([Bn::one().shl(c.p.bits() / 2), Bn::one().shl(32).sub(&b(1)), c.p.shr(1), Bn::one().shl(c.p.bits() - 1)]);
    for x in xs { v.extend(with_x(c, &x)); }
    v
}

fn scalars(c: &Curve, thorough: bool) -> Vec<Bn> {
    let n = &c.n;
    let mut v: Vec<Bn> = (0..20).map(b).collect();
    for i in 0..12 { v.push(n.sub(&b(i))); v.push(n.add(&b(i))); }
    v.push(n.shl(1)); v.push(n.shl(1).add(&b(1))); v.push(n.mul(n)); v.push(n.mul(n).sub(&b(1)));
    v.push(n.shl(64).add(&b(5))); v.push(Bn::one().shl(600).add(&b(3))); v.push(n.shr(1)); v.push(n.shr(1).add(&b(1)));
    let st = match (thorough, n.bits() > 300) { (true, false) => 1, (true, true) => 3, (false, true) => 13, _ => 5 };
    for i in (4..n.bits() + 9).step_by(st) { v.push(Bn::one().shl(i)); v.push(Bn::one().shl(i).sub(&b(1))); if thorough { v.push(Bn::one().shl(i).add(&b(1))); if i < n.bits() - 1 { v.push(n.sub(&Bn::one().shl(i))); } } }
    // repeated bytes
    for y in [0x55u8, 0xaa, 0x80, 0x01, 0xfe, 0x7f] { v.push(Bn::from_be(&vec![y; (n.bits() + 7) / 8])); }
    v
}

fn keygen(t: &T, cp: &CurveParams, c: &Curve, tab: &[Pt], words: &[u32], seed: u64) -> Result<Bn, String> {
    let mut rd = Script::words(words, Tail::Stream(seed));
    t.step();
    t.trace();
    let sk = cp.generate_key(&mut rd).map_err(|e| format!("{}: key generation from {:x?} failed: {}", cp.name(), words, e))?;
    let v = quoted(&format!("{}", sk));
    if v.len() != 3 { return Err(format!("displayed key {} does not show three numbers", sk)); }
    let d = v[0].clone();
    if d.is_zero() || d.ge(&c.n) { return Err(format!("{}: random words {:x?} give the private key {}", cp.name(), words, d.to_hex())); }
    let want = c.mul_table(&d, tab);
    if Pt::A(v[1].clone(), v[2].clone()) != want { return Err(format!("{}: random words {:x?} give d = {} with public key ({}, {}) instead of {}", cp.name(), words, d.to_hex(), v[1].to_hex(), v[2].to_hex(), show(&want))); }
    let w = quoted(&format!("{}", sk.public_key()));
    if w[..] != v[1..] { return Err(format!("{}: the public key displays {:?}", cp.name(), w)); }
    t.state(&d.to_be());
    Ok(d)
}
fn words_of(bytes: &[u8]) -> Vec<u32> {
    bytes.chunks(4).map(|c| { let mut w = [0u8; 4]; w[..c.len()].copy_from_slice(c); u32::from_be_bytes(w) }).collect()
}

fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let hooks = cfg!(feature = "hooks");
    if hooks {
        let curves = eck::small_curves(5, ctx.pick(53, 97));
        ctx.note(format!("{} small curves of prime order, p up to {}", curves.len(), ctx.pick(53, 97)));
        ctx.each("small-curves", curves.len(), |i, t| small(&curves[i], t));
        let mc = eck::small_curves(5, ctx.pick(31, 53));
        ctx.each("small-members", mc.len(), |i, t| small_members(&mc[i], t));
        // larger orders: every scalar of the base point, additions with the next points
        let big_curves: Vec<Curve> = [530u64, 1012, 4096, 16384].iter().take(ctx.pick(3, 4)).map(|&h| eck::one_curve(h)).collect();
        ctx.each("medium-curves", big_curves.len() * 16, |i, t| {
            let c = &big_curves[i / 16];
            let cp = params(c).unwrap();
            let n = c.n.low_u64();
            let mut q = c.mul(&b((i % 16) as u64), &c.g());
            let s16 = c.mul(&b(16), &c.g());
            let (gx, gy) = xy(&c.g());
            let mut k = (i % 16) as u64;
            while k < n + 20 {
                same(t, &|| format!("{}: base point * {}", curve_name(c), k), cp.scalar_base_point(&nat(&b(k))), &q)?;
                let (x, y) = xy(&q);
                same(t, &|| format!("{}: {} + base point", curve_name(c), show(&q)), cp.add(&x, &y, &gx, &gy), &c.add(&q, &c.g()))?;
                let m = c.neg(&q);
                let (mx, my) = xy(&m);
                same(t, &|| format!("{}: {} + its opposite", curve_name(c), show(&q)), cp.add(&x, &y, &mx, &my), &Pt::Inf)?;
                same(t, &|| format!("{}: double of {}", curve_name(c), show(&q)), cp.double(&x, &y), &c.dbl(&q))?;
                q = c.add(&q, &s16);
                k += 16;
            }
            Ok(())
        });
        // key generation: every 16-bit prefix of the random stream
        let kc = [eck::one_curve(310), eck::one_curve(530), eck::one_curve(32768), eck::one_curve(65536)];
        ctx.each("keygen-small", kc.len() * 64, |i, t| {
            let c = &kc[i / 64];
            let cp = params(c).unwrap();
            let tab = c.pow2_table(&c.g(), 20);
            let stride = if t.thorough() || i / 64 == 1 { 1 } else { 5 };
            for v in ((i % 64) as u32 * 1024..(i % 64 + 1) as u32 * 1024).step_by(stride) { keygen(t, &cp, c, &tab, &[v << 16 | v], 5)?; }
            // the words that map to zero or to the order, whatever the byte order
            for v in [0u32, 0x42, 0x4200, 0x0042, c.n.low_u64() as u32, c.n.low_u64() as u32 ^ 0x42, c.n.low_u64() as u32 - 1, 0xffff] { keygen(t, &cp, c, &tab, &[v << 16 | v], 6)?; }
            Ok(())
        });
    } else {
        ctx.assume("built without the small-curve constructor: only the standard curves were enumerated");
    }

    ctx.each("constants", 4, |i, t| {
        let (name, bits, c) = standard().swap_remove(i);
        let cp = generic(i);
        if cp.name() != name { return Err(format!("{} is named {:?}", name, cp.name())); }
        if cp.field_bits_size() != bits || cp.curve_params().field_bits_size() != bits { return Err(format!("{} reports a field of {} bits", name, cp.field_bits_size())); }
        same(t, &|| format!("{} base point", name), cp.scalar_base_point(&nat(&b(1))), &c.g())?;
        same(t, &|| format!("{} base point * n", name), cp.scalar_base_point(&nat(&c.n)), &Pt::Inf)?;
        same(t, &|| format!("{} base point * (n-1)", name), cp.scalar_base_point(&nat(&c.n.sub(&b(1)))), &c.neg(&c.g()))?;
        let nan = BigInt::from_be_bytes(&[]);
        member(t, &cp, &c, &nan, &big(&c.gy), false)?;
        member(t, &cp, &c, &big(&c.gx), &nan, false)
    });
    for i in 0..4 {
        let (name, _, c) = standard().swap_remove(i);
        let gr = grid(&c, th);
        ctx.each(&format!("pairs-{}", name), gr.len(), |j, t| {
            let cp = generic(i);
            let q = &gr[j];
            let (x, y) = xy(q);
            for r in &gr {
                let (u, v) = xy(r);
                let want = c.add(q, r);
                t.state(format!("{:?}", want).as_bytes());
                same(t, &|| format!("{}: {} + {}", name, show(q), show(r)), cp.add(&x, &y, &u, &v), &want)?;
            }
            same(t, &|| format!("{}: double of {}", name, show(q)), cp.double(&x, &y), &c.dbl(q))
        });
        ctx.each(&format!("members-{}", name), gr.len(), |j, t| {
            let cp = generic(i);
            let (x, y) = match &gr[j] { Pt::Inf => return Ok(()), Pt::A(x, y) => (x.clone(), y.clone()) };
            t.trace();
            let ck = |x: &Bn, y: &Bn| -> R { if x.is_zero() && y.is_zero() { return Ok(()); } member(t, &cp, &c, &big(x), &big(y), c.on(&Pt::A(x.clone(), y.clone()))) };
            ck(&x, &y)?;
            ck(&x.add(&c.p), &y)?;
            ck(&x, &y.add(&c.p))?;
            ck(&x, &y.add(&c.p.shl(1)))?;
            ck(&y, &x)?;
            member(t, &cp, &c, &big(&x), &-big(&y), y.is_zero())?;
            if !x.is_zero() { member(t, &cp, &c, &-big(&x), &big(&y), false)?; member(t, &cp, &c, &-big(&c.p.sub(&x)), &big(&y), false)?; }
            member(t, &cp, &c, &big(&x), &-big(&c.p.sub(&y)), false)?;
            for k in 0..c.p.bits() + 2 {
                let f = |v: &Bn| { let m = Bn::one().shl(k); if v.bit(k) { v.sub(&m) } else { v.add(&m) } };
                ck(&f(&x), &y)?;
                ck(&x, &f(&y))?;
            }
            Ok(())
        });
        let ks = scalars(&c, th);
        let others: Vec<Pt> = gr.iter().cloned().filter(|q| *q != c.g()).step_by(if th { 3 } else { 7 }).collect();
        let tab = c.pow2_table(&c.g(), c.n.bits() + 1);
        ctx.each(&format!("scalars-{}", name), ks.len(), |j, t| {
            let cp = generic(i);
            let k = &ks[j];
            let r = k.rem(&c.n);
            let want = c.mul_table(&r, &tab);
            t.state(&k.to_be());
            let (gx, gy) = xy(&c.g());
            same(t, &|| format!("{}: base point * {}", name, k.to_hex()), cp.scalar_base_point(&nat(k)), &want)?;
            same(t, &|| format!("{}: G * {}", name, k.to_hex()), cp.scalar(&gx, &gy, &nat(k)), &want)?;
            same(t, &|| format!("{}: infinity * {}", name, k.to_hex()), cp.scalar(&BigInt::from(0u32), &BigInt::from(0u32), &nat(k)), &Pt::Inf)?;
            // a few scalars on other points
            if j < 8 || j % 11 == 0 {
                for q in &others {
                    let (x, y) = xy(q);
                    same(t, &|| format!("{}: {} * {}", name, show(q), k.to_hex()), cp.scalar(&x, &y, &nat(k)), &c.mul(&r, q))?;
                }
            }
            Ok(())
        });
        // key generation
        let blen = (c.n.bits() + 7) / 8;
        let mut streams: Vec<Vec<u8>> = vec![vec![0; blen], vec![0xff; blen]];
        for p in 0..blen { for y in [0x42u8, 0xff, 0x01, 0x80].into_iter().take(if th { 4 } else if i < 2 { 2 } else if p < 6 || p + 2 > blen { 2 } else if p % 3 == 0 { 1 } else { 0 }) { let mut v = vec![0u8; blen]; v[p] = y; streams.push(v); } }
        for d in [c.n.clone(), c.n.sub(&b(1)), c.n.add(&b(1)), c.n.shr(1)] {
            let e = d.to_be_len(blen);
            for m in 0..4 {
                let mut f = e.clone();
                if m & 1 == 1 { f[1] ^= 0x42; }
                if m & 2 == 2 { f.reverse(); }
                streams.push(f);
            }
        }
        let n_fixed = streams.len();
        ctx.each(&format!("keygen-{}", name), n_fixed + ctx.pick(20, 200), |j, t| {
            let cp = generic(i);
            let w = if j < n_fixed { words_of(&streams[j]) } else { vec![] };
            keygen(t, &cp, &c, &tab, &w, j as u64)?;
            if j < n_fixed { let le: Vec<u32> = w.iter().map(|x| x.swap_bytes()).collect(); keygen(t, &cp, &c, &tab, &le, j as u64)?; }
            Ok(())
        });
    }
}
