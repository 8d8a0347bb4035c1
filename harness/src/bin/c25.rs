//! C25: the optimised P-224 and P-256.
use rcrypto::elliptic::{CurveP224, CurveP256, EllipticCurve};
use rmath::bigint::BigInt;
use vh::eck::{b, nat, pt, show, with_x, with_y, xy};
use vh::engine::{self, Ctx, R, T};
use vh::refs::bn::Bn;
use vh::refs::ec::{p224, p256, Curve, Pt};
use vh::rsak::big;

fn main() { engine::main("C25", run) }

fn lib(w: usize) -> Box<dyn EllipticCurve> { if w == 0 { Box::new(CurveP224::new().unwrap()) } else { Box::new(CurveP256::new().unwrap()) } }
const NAME: [&str; 2] = ["P-224", "P-256"];

fn same(t: &T, what: &dyn Fn() -> String, got: (BigInt, BigInt), want: &Pt) -> R {
    t.step();
    let g = pt(&got).map_err(|e| format!("{}: {}", what(), e))?;
    if g != *want { return Err(format!("{} = {} but the group law gives {}", what(), show(&g), show(want))); }
    Ok(())
}
fn one_shl(i: usize) -> Bn { Bn::one().shl(i) }

/// field values likely to hit limb boundaries, as integers below p
fn extreme(c: &Curve, w: usize, n: u64) -> Vec<Bn> {
    let p = &c.p;
    let mut v: Vec<Bn> = vec![];
    for i in 0..n { v.push(b(i)); v.push(p.sub(&b(i + 1))); }
    // limb positions: 28-bit limbs for P-224; alternating 29 and 28 for P-256, and 32-bit words
    let mut pos = vec![];
    if w == 0 { pos.extend((1..8).map(|i| 28 * i)); } else { let mut s = 0; for i in 0..9 { s += if i % 2 == 0 { 29 } else { 28 }; pos.push(s); } }
    pos.extend((1..8).map(|i| 32 * i));
    for &i in &pos { if i < p.bits() { for d in 0..3 { v.push(one_shl(i).sub(&b(d + 1))); v.push(one_shl(i).add(&b(d))); v.push(p.sub(&one_shl(i)).sub(&b(d))); v.push(p.sub(&one_shl(i)).add(&b(d + 1))); } } }
    // all limbs maximal but one, one limb maximal
    let width = |i: usize| if w == 0 { 28 } else if i % 2 == 0 { 29 } else { 28 };
    let mut s = 0;
    for i in 0..if w == 0 { 8 } else { 9 } {
        let l = one_shl(width(i)).sub(&Bn::one()).shl(s);
        v.push(l.rem(p));
        v.push(one_shl(p.bits()).sub(&Bn::one()).sub(&l.rem(&one_shl(p.bits()))).rem(p));
        s += width(i);
    }
    // smallest limb full, value small: these have a second representation below 2^224
    if w == 0 { for m in 0..4 * n { v.push(b(m).shl(28).add(&b(0xfffffff))); v.push(b(m).shl(29).add(&b(0xffffff0))); v.push(one_shl(96).sub(&b(m + 2))); v.push(b(m).shl(56).add(&one_shl(56).sub(&Bn::one())).rem(p)); } }
    v.sort_by(|a, b| a.cmp(b));
    v.dedup();
    v
}
/// the same values seen by a Montgomery representation with factor 2^257
fn unmont(c: &Curve, v: &Bn) -> Bn { v.mulm(&one_shl(257).rem(&c.p).invm(&c.p).unwrap(), &c.p) }

/// points with extreme coordinates
fn special(c: &Curve, w: usize, n: u64, ys: bool) -> Vec<Pt> {
    let mut vals = extreme(c, w, n);
    if w == 1 { let m: Vec<Bn> = vals.iter().map(|v| unmont(c, v)).collect(); vals.extend(m); }
    let parts: Vec<Vec<Pt>> = std::thread::scope(|s| {
        let hs: Vec<_> = vals.chunks(vals.len() / 8 + 1).map(|ch| s.spawn(move || {
            let mut o = vec![];
            for v in ch { o.extend(with_x(c, v)); if ys { o.extend(with_y(c, v)); } }
            o
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut out: Vec<Pt> = parts.concat();
    let mut seen = std::collections::HashSet::new();
    out.retain(|q| seen.insert(q.clone()));
    out
}

/// points that make intermediate values of the usual addition and doubling formulas extreme
fn inner(c: &Curve, w: usize, n: u64) -> Vec<Pt> {
    let p = &c.p;
    let vals: Vec<Bn> = extreme(c, w, n).iter().map(|v| if w == 1 { unmont(c, v) } else { v.clone() }).collect();
    let inv = |k: u64| b(k).invm(p).unwrap();
    let (half, third, eighth) = (inv(2), inv(3), inv(8));
    let parts: Vec<Vec<Pt>> = std::thread::scope(|s| {
        let hs: Vec<_> = vals.chunks(vals.len() / 8 + 1).map(|ch| { let (half, third, eighth) = (&half, &third, &eighth); s.spawn(move || {
            let mut o = vec![];
            for u in ch {
                // x - 1, x + 1, x^2 - 1, 3(x^2 - 1) and its square, differences to the base point
                let mut xs = vec![u.addm(&b(1), p), u.subm(&b(1), p), c.gx.subm(u, p), c.gx.addm(u, p), c.gx.subm(&u.mulm(half, p), p)];
                xs.extend(u.addm(&b(1), p).sqrtm(p));
                xs.extend(u.mulm(third, p).addm(&b(1), p).sqrtm(p));
                xs.extend(u.sqrtm(p).and_then(|r| r.mulm(third, p).addm(&b(1), p).sqrtm(p)));
                // y^2, 2y, 8y^4, (y + 1)^2, differences to the base point
                let mut ys = vec![u.mulm(half, p), c.gy.subm(u, p), c.gy.addm(u, p), c.gy.subm(&u.mulm(half, p), p)];
                ys.extend(u.sqrtm(p));
                ys.extend(u.sqrtm(p).map(|r| r.subm(&b(1), p)));
                ys.extend(u.mulm(eighth, p).sqrtm(p).and_then(|r| r.sqrtm(p)));
                for x in &xs { o.extend(with_x(c, x)); }
                for y in &ys { o.extend(with_y(c, y)); }
            }
            o
        }) }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut out: Vec<Pt> = parts.concat();
    let mut seen = std::collections::HashSet::new();
    out.retain(|q| seen.insert(q.clone()));
    out
}

fn run(ctx: &Ctx) {
    for w in 0..2 {
        let c = if w == 0 { p224() } else { p256() };
        let nm = NAME[w];
        let bytes = (c.n.bits() + 7) / 8;
        let g = c.g();
        let pow2 = c.pow2_table(&g, c.n.bits() + 1);
        let gmul = |k: &Bn| c.mul_table(&k.rem(&c.n), &pow2);

        // every byte value at every position, alone and inside three patterns
        ctx.each(&format!("{}-base-bytes", nm), bytes * 4, |i, t| {
            let l = lib(w);
            let (p, pat) = (i / 4, [0u8, 0xff, 0x55, 0xa6][i % 4]);
            let mut base = vec![pat; bytes];
            base[bytes - 1 - p] = 0;
            let kb = Bn::from_be(&base);
            let mut want = gmul(&kb);
            let step = &pow2[8 * p];
            for v in 0..256u64 {
                let k = kb.add(&b(v).shl(8 * p));
                t.state(&k.to_be());
                t.trace();
                same(t, &|| format!("{}: base point * {}", nm, k.to_hex()), l.scalar_base_point(&nat(&k)), &want)?;
                want = c.add(&want, step);
            }
            Ok(())
        });
        // every combination of four bits spaced by 32 or 64, every column
        ctx.each(&format!("{}-base-combs", nm), 64 * 3, |i, t| {
            let l = lib(w);
            let (col, ctxt) = (i / 3, i % 3);
            for v in 0..16usize {
                for sp in [64usize, 32, 16] {
                    let mut k = Bn::zero();
                    for j in 0..4 { if v >> j & 1 == 1 { k = k.add(&one_shl(col + sp * j)); } }
                    // the neighbours of the column all zero, all one, or only the column below one
                    match ctxt {
                        1 => { for j in 0..4 { for d in 1..4 { if col >= d { k = k.add(&one_shl(col - d + sp * j)); } } } }
                        2 => { for d in 1..16 { if col >= d { k = k.add(&one_shl(col - d)); } } }
                        _ => {}
                    }
                    t.trace();
                    same(t, &|| format!("{}: base point * {}", nm, k.to_hex()), l.scalar_base_point(&nat(&k)), &gmul(&k))?;
                }
            }
            Ok(())
        });
        // around multiples of the order, powers of two, over-long scalars
        let mut ks: Vec<Bn> = (0..40).map(b).collect();
        for m in (1..9u64).chain([255, 256, 0xffffffff, 0x100000001]) { for d in 0..if m == 1 { 60 } else { 10 } { ks.push(c.n.mul(&b(m)).add(&b(d))); ks.push(c.n.mul(&b(m)).sub(&b(d + 1))); } }
        ks.push(c.n.mul(&c.n)); ks.push(c.n.mul(&c.n).sub(&b(1)));
        ks.push(c.n.shr(1)); ks.push(c.n.shr(1).add(&b(1))); ks.push(c.p.clone()); ks.push(c.p.sub(&b(1))); ks.push(c.p.add(&b(1)));
        for i in 0..c.n.bits() + 70 { ks.push(one_shl(i)); ks.push(one_shl(i).sub(&b(1))); ks.push(one_shl(i).add(&b(1))); if i < c.n.bits() - 1 { ks.push(c.n.sub(&one_shl(i))); } }
        for i in [511usize, 512, 1000, 1024, 2047] { ks.push(one_shl(i).sub(&b(3))); ks.push(one_shl(i)); }
        ctx.each(&format!("{}-scalars", nm), ks.len(), |i, t| {
            let l = lib(w);
            let k = &ks[i];
            let want = gmul(k);
            t.trace();
            t.state(&k.to_be());
            let (gx, gy) = xy(&g);
            same(t, &|| format!("{}: base point * {}", nm, k.to_hex()), l.scalar_base_point(&nat(k)), &want)?;
            same(t, &|| format!("{}: G * {}", nm, k.to_hex()), l.scalar(&gx, &gy, &nat(k)), &want)?;
            let (mx, my) = xy(&c.neg(&g));
            same(t, &|| format!("{}: -G * {}", nm, k.to_hex()), l.scalar(&mx, &my, &nat(k)), &c.neg(&want))?;
            same(t, &|| format!("{}: infinity * {}", nm, k.to_hex()), l.scalar(&BigInt::from(0u32), &BigInt::from(0u32), &nat(k)), &Pt::Inf)
        });

        // points with extreme coordinates
        let sp = special(&c, w, ctx.pick(20, 200), true);
        ctx.note(format!("{}: {} points with extreme coordinates", nm, sp.len()));

        // window digits on other points: every byte value at every position
        let digs: Vec<Pt> = vec![g.clone(), c.mul(&b(5), &g), sp[0].clone(), sp[sp.len() / 2].clone()].into_iter().take(ctx.pick(3, 4)).collect();
        ctx.each(&format!("{}-point-bytes", nm), digs.len() * bytes * 2, |i, t| {
            let l = lib(w);
            let q = &digs[i / bytes / 2];
            let (p, pat) = (i / 2 % bytes, [0u8, 0xa6][i % 2]);
            let mut base = vec![pat; bytes];
            base[bytes - 1 - p] = 0;
            let kb = Bn::from_be(&base);
            let mut want = c.mul(&kb, q);
            let step = c.mul(&one_shl(8 * p), q);
            let (x, y) = xy(q);
            for v in 0..256u64 {
                let k = kb.add(&b(v).shl(8 * p));
                if t.thorough() || v < 17 || v & 15 == 0 || v & 15 == 15 || v > 240 {
                    t.trace();
                    same(t, &|| format!("{}: {} * {}", nm, show(q), k.to_hex()), l.scalar(&x, &y, &nat(&k)), &want)?;
                }
                want = c.add(&want, &step);
            }
            Ok(())
        });
        // arrive at every extreme point by different chains
        let mults: Vec<(Bn, bool)> = {
            let mut v = vec![(b(1), false), (c.n.sub(&b(1)), true)];
            for m in 1..ctx.pick(7u64, 40) { v.push((c.n.mul(&b(m)).add(&b(1)), false)); v.push((c.n.mul(&b(m + 1)).sub(&b(1)), true)); }
            v
        };
        ctx.each(&format!("{}-extreme-results", nm), sp.len(), |i, t| {
            let l = lib(w);
            let q = &sp[i];
            let (x, y) = xy(q);
            let m = c.neg(q);
            t.state(show(q).as_bytes());
            for (k, neg) in &mults {
                t.trace();
                same(t, &|| format!("{}: {} * {}", nm, show(q), k.to_hex()), l.scalar(&x, &y, &nat(k)), if *neg { &m } else { q })?;
            }
            // as a sum and as a double
            let u = c.add(q, &c.neg(&g));
            let ((gx, gy), (ux, uy)) = (xy(&g), xy(&u));
            same(t, &|| format!("{}: {} + G", nm, show(&u)), l.add(&ux, &uy, &gx, &gy), q)?;
            same(t, &|| format!("{}: G + {}", nm, show(&u)), l.add(&gx, &gy, &ux, &uy), q)?;
            let h = c.mul(&c.n.add(&b(1)).shr(1), q);
            let (hx, hy) = xy(&h);
            same(t, &|| format!("{}: double of {}", nm, show(&h)), l.double(&hx, &hy), q)?;
            same(t, &|| format!("{}: {} + itself", nm, show(&h)), l.add(&hx, &hy, &hx, &hy), q)?;
            // through full-length chains
            let k = Bn::from_be(&vec![0x9d; bytes]).add(&b(i as u64)).rem(&c.n);
            let s = c.mul(&k.invm(&c.n).unwrap(), q);
            let (sx, sy) = xy(&s);
            same(t, &|| format!("{}: {} * {}", nm, show(&s), k.to_hex()), l.scalar(&sx, &sy, &nat(&k)), q)?;
            same(t, &|| format!("{}: double of {}", nm, show(q)), l.double(&x, &y), &c.dbl(q))
        });
        // points with extreme intermediate values: small multiples and sums with the base point
        let inn = inner(&c, w, ctx.pick(4, 60));
        ctx.note(format!("{}: {} points with extreme intermediate values", nm, inn.len()));
        ctx.each(&format!("{}-inner-values", nm), inn.len(), |i, t| {
            let l = lib(w);
            let q = &inn[i];
            let (x, y) = xy(q);
            let (gx, gy) = xy(&g);
            t.trace();
            t.state(show(q).as_bytes());
            let mut m = q.clone();
            for k in 2..if t.thorough() { 17 } else { 6 } {
                m = c.add(&m, q);
                same(t, &|| format!("{}: {} * {}", nm, show(q), k), l.scalar(&x, &y, &nat(&b(k))), &m)?;
            }
            let s = c.add(q, &g);
            same(t, &|| format!("{}: double of {}", nm, show(q)), l.double(&x, &y), &c.dbl(q))?;
            same(t, &|| format!("{}: {} + G", nm, show(q)), l.add(&x, &y, &gx, &gy), &s)?;
            same(t, &|| format!("{}: G + {}", nm, show(q)), l.add(&gx, &gy, &x, &y), &s)
        });
        // coordinates that belong to no point: any answer but a panic
        let odd: Vec<(Bn, bool)> = {
            let mut v: Vec<Bn> = vec![b(0), b(1), b(2), c.p.sub(&b(1)), c.p.clone(), c.p.add(&b(1)), c.p.shl(1), c.gx.clone(), c.gy.clone(), c.gx.add(&c.p), c.gy.add(&c.p)];
            for k in [28usize, 32, 224, 255, 256, 257, 258, 261, 264, 288, 512, 1000] { v.push(one_shl(k)); v.push(one_shl(k).sub(&b(1))); }
            v.iter().map(|x| (x.clone(), false)).chain(v.iter().skip(1).map(|x| (x.clone(), true))).collect()
        };
        ctx.each(&format!("{}-foreign", nm), odd.len() * odd.len(), |i, t| {
            let l = lib(w);
            let get = |k: usize| if odd[k].1 { -big(&odd[k].0) } else { big(&odd[k].0) };
            let (x, y) = (&get(i / odd.len()), &get(i % odd.len()));
            let (gx, gy) = xy(&g);
            t.trace();
            t.steps(8);
            l.is_on_curve(x, y);
            l.add(x, y, &gx, &gy);
            l.add(&gx, &gy, x, y);
            l.add(x, y, x, y);
            l.double(x, y);
            for k in [b(1), b(3), c.n.sub(&b(2))] { l.scalar(x, y, &nat(&k)); }
            Ok(())
        });
        // pairs
        let mut gr = vec![Pt::Inf];
        for k in [b(1), b(2), b(3), b(4), c.n.shr(1), one_shl(100)] { let q = gmul(&k); gr.push(c.neg(&q)); gr.push(q); }
        gr.extend(sp.iter().step_by((sp.len() / ctx.pick(60, 200)).max(1)).cloned());
        ctx.each(&format!("{}-pairs", nm), gr.len(), |i, t| {
            let l = lib(w);
            let (x, y) = xy(&gr[i]);
            for r in &gr {
                let (u, v) = xy(r);
                let want = c.add(&gr[i], r);
                t.trace();
                t.state(show(&want).as_bytes());
                same(t, &|| format!("{}: {} + {}", nm, show(&gr[i]), show(r)), l.add(&x, &y, &u, &v), &want)?;
            }
            let (mx, my) = xy(&c.neg(&gr[i]));
            same(t, &|| format!("{}: {} + its opposite", nm, show(&gr[i])), l.add(&x, &y, &mx, &my), &Pt::Inf)?;
            same(t, &|| format!("{}: double of {}", nm, show(&gr[i])), l.double(&x, &y), &c.dbl(&gr[i]))
        });
        // membership
        ctx.each(&format!("{}-members", nm), sp.len(), |i, t| {
            let l = lib(w);
            let (x, y) = match &sp[i] { Pt::A(x, y) => (x.clone(), y.clone()), _ => return Ok(()) };
            t.trace();
            let ask = |x: &BigInt, y: &BigInt, want: bool| -> R {
                t.step();
                if l.is_on_curve(x, y) != want { return Err(format!("{}: membership of ({:#x}, {:#x}) answered {}", nm, x, y, !want)); }
                Ok(())
            };
            let ck = |x: &Bn, y: &Bn| -> R { if x.is_zero() && y.is_zero() { return Ok(()); } ask(&big(x), &big(y), c.on(&Pt::A(x.clone(), y.clone()))) };
            ck(&x, &y)?;
            for k in 0..2 { ck(&x.add(&c.p.shl(k)), &y)?; ck(&x, &y.add(&c.p.shl(k)))?; ck(&x.add(&one_shl(c.p.bits() + k)), &y)?; ck(&x, &y.add(&one_shl(c.p.bits() + k)))?; }
            ck(&y, &x)?;
            ck(&x, &c.p.sub(&y).rem(&c.p))?;
            ask(&big(&x), &-big(&y), y.is_zero())?;
            if !x.is_zero() { ask(&-big(&x), &big(&y), false)?; ask(&-big(&c.p.sub(&x)), &big(&y), false)?; }
            ask(&big(&x), &-big(&c.p.sub(&y)), false)?;
            for k in 0..c.p.bits() {
                let f = |v: &Bn| { let m = one_shl(k); if v.bit(k) { v.sub(&m) } else { v.add(&m) } };
                if t.thorough() || (k + i) % 8 == 0 { ck(&f(&x), &y)?; ck(&x, &f(&y))?; }
            }
            Ok(())
        });
        // y^2 differs from x^3 - 3x + b by one power of two
        ctx.each(&format!("{}-near-members", nm), c.p.bits() * 2, |i, t| {
            let l = lib(w);
            let d = if i % 2 == 0 { one_shl(i / 2).rem(&c.p) } else { c.p.sub(&one_shl(i / 2).rem(&c.p)) };
            for x in [b(0), b(1), b(2), c.gx.clone(), c.p.sub(&b(1)), one_shl(100)] {
                if let Some(y) = c.rhs(&x).addm(&d, &c.p).sqrtm(&c.p) {
                    t.step();
                    t.trace();
                    let want = c.on(&Pt::A(x.clone(), y.clone()));
                    if l.is_on_curve(&big(&x), &big(&y)) != want { return Err(format!("{}: membership of ({}, {}) answered {}", nm, x.to_hex(), y.to_hex(), !want)); }
                }
            }
            Ok(())
        });
        // curve description
        ctx.each(&format!("{}-description", nm), 1, |_, t| {
            let l = lib(w);
            t.step();
            t.trace();
            if l.curve_params().name() != nm || l.curve_params().field_bits_size() != c.p.bits() { return Err(format!("{} describes itself as {} with {} bits", nm, l.curve_params().name(), l.curve_params().field_bits_size())); }
            let nan = || BigInt::from_be_bytes(&[]);
            let (gx, gy) = xy(&g);
            for m in 0..4 {
                let (x, y) = (if m & 1 == 0 { nan() } else { gx.clone() }, if m & 2 == 0 { nan() } else { gy.clone() });
                if m == 3 { continue; }
                if l.is_on_curve(&x, &y) { return Err(format!("{}: not-a-number is on the curve", nm)); }
                for r in [l.add(&x, &y, &gx, &gy), l.add(&gx, &gy, &x, &y), l.double(&x, &y), l.scalar(&x, &y, &nat(&b(5)))] {
                    t.step();
                    if !r.0.is_nan() || !r.1.is_nan() { return Err(format!("{}: operation on not-a-number gave ({:#x}, {:#x})", nm, r.0, r.1)); }
                }
            }
            Ok(())
        });
    }
}
