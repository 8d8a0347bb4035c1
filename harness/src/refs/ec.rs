//! Reference short-Weierstrass arithmetic (affine, boring).
use super::bn::Bn;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Pt { Inf, A(Bn, Bn) }

#[derive(Clone)]
pub struct Curve { pub p: Bn, pub a: Bn, pub b: Bn, pub n: Bn, pub gx: Bn, pub gy: Bn }

impl Curve {
    pub fn g(&self) -> Pt { Pt::A(self.gx.clone(), self.gy.clone()) }
    pub fn rhs(&self, x: &Bn) -> Bn {
        let p = &self.p;
        x.mulm(x, p).mulm(x, p).addm(&self.a.mulm(x, p), p).addm(&self.b, p)
    }
    pub fn on(&self, q: &Pt) -> bool {
        match q { Pt::Inf => true, Pt::A(x, y) => x.lt(&self.p) && y.lt(&self.p) && y.mulm(y, &self.p) == self.rhs(x) }
    }
    pub fn neg(&self, q: &Pt) -> Pt {
        match q {
            Pt::Inf => Pt::Inf,
            Pt::A(x, y) => Pt::A(x.clone(), if y.is_zero() { Bn::zero() } else { self.p.sub(y) }),
        }
    }
    pub fn add(&self, u: &Pt, v: &Pt) -> Pt {
        let p = &self.p;
        let (x1, y1, x2, y2) = match (u, v) {
            (Pt::Inf, _) => return v.clone(),
            (_, Pt::Inf) => return u.clone(),
            (Pt::A(a, b), Pt::A(c, d)) => (a, b, c, d),
        };
        let l = if x1 == x2 {
            if y1 != y2 || y1.is_zero() { return Pt::Inf; }
            let t = x1.mulm(x1, p);
            let num = t.addm(&t, p).addm(&t, p).addm(&self.a, p);
            num.mulm(&y1.addm(y1, p).invm(p).unwrap(), p)
        } else {
            y2.subm(y1, p).mulm(&x2.subm(x1, p).invm(p).unwrap(), p)
        };
        let x3 = l.mulm(&l, p).subm(x1, p).subm(x2, p);
        let y3 = l.mulm(&x1.subm(&x3, p), p).subm(y1, p);
        Pt::A(x3, y3)
    }
    pub fn dbl(&self, u: &Pt) -> Pt { self.add(u, u) }
    pub fn mul(&self, k: &Bn, q: &Pt) -> Pt {
        let mut r = Pt::Inf;
        for i in (0..k.bits()).rev() {
            r = self.dbl(&r);
            if k.bit(i) { r = self.add(&r, q); }
        }
        r
    }
    /// 2^i * q for i in 0..n
    pub fn pow2_table(&self, q: &Pt, n: usize) -> Vec<Pt> {
        let mut v = vec![q.clone()];
        while v.len() < n { let l = v.last().unwrap(); let d = self.dbl(l); v.push(d); }
        v
    }
    pub fn mul_table(&self, k: &Bn, t: &[Pt]) -> Pt {
        let mut r = Pt::Inf;
        for i in 0..k.bits() { if k.bit(i) { r = self.add(&r, &t[i]); } }
        r
    }
}

fn h(s: &str) -> Bn { Bn::from_hex(s) }
pub fn p224() -> Curve {
    let p = Bn::one().shl(224).sub(&Bn::one().shl(96)).add(&Bn::one());
    Curve {
        a: p.sub(&Bn::from_u64(3)), p,
        b: h("b4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4"),
        n: h("ffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d"),
        gx: h("b70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21"),
        gy: h("bd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34"),
    }
}
pub fn p256() -> Curve {
    let p = Bn::one().shl(256).sub(&Bn::one().shl(224)).add(&Bn::one().shl(192)).add(&Bn::one().shl(96)).sub(&Bn::one());
    Curve {
        a: p.sub(&Bn::from_u64(3)), p,
        b: h("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
        n: h("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
        gx: h("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
        gy: h("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
    }
}
pub fn p384() -> Curve {
    let p = Bn::one().shl(384).sub(&Bn::one().shl(128)).sub(&Bn::one().shl(96)).add(&Bn::one().shl(32)).sub(&Bn::one());
    Curve {
        a: p.sub(&Bn::from_u64(3)), p,
        b: h("b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef"),
        n: h("ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973"),
        gx: h("aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7"),
        gy: h("3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f"),
    }
}
pub fn p521() -> Curve {
    let p = Bn::one().shl(521).sub(&Bn::one());
    Curve {
        a: p.sub(&Bn::from_u64(3)), p,
        b: h("051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00"),
        n: h("1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409"),
        gx: h("c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66"),
        gy: h("11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650"),
    }
}
