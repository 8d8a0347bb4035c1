//! Unsigned multi-precision integers (little-endian 32-bit limbs, no trailing zero limbs).
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Bn(pub Vec<u32>);

impl Bn {
    pub fn zero() -> Bn { Bn(vec![]) }
    pub fn one() -> Bn { Bn(vec![1]) }
    pub fn from_u64(x: u64) -> Bn { Bn(vec![x as u32, (x >> 32) as u32]).norm() }
    fn norm(mut self) -> Bn {
        while let Some(0) = self.0.last() { self.0.pop(); }
        self
    }
    pub fn from_be(b: &[u8]) -> Bn {
        let mut v = vec![0u32; (b.len() + 3) / 4];
        for (i, &x) in b.iter().rev().enumerate() { v[i / 4] |= (x as u32) << (8 * (i % 4)); }
        Bn(v).norm()
    }
    pub fn from_hex(s: &str) -> Bn {
        let s = s.trim_start_matches("0x");
        let mut r = Bn::zero();
        for c in s.chars() {
            if c == '_' { continue; }
            let d = c.to_digit(16).unwrap_or_else(|| panic!("bad hex digit {:?} in {:?}", c, s));
            r = r.shl(4).add(&Bn::from_u64(d as u64));
        }
        r
    }
    pub fn from_dec(s: &str) -> Bn {
        let mut r = Bn::zero();
        let ten = Bn::from_u64(10);
        for c in s.chars() { r = r.mul(&ten).add(&Bn::from_u64(c.to_digit(10).unwrap() as u64)); }
        r
    }
    pub fn to_be(&self) -> Vec<u8> {
        let n = (self.bits() + 7) / 8;
        self.to_be_len(n)
    }
    /// big-endian bytes, left-padded to n (panics when it does not fit)
    pub fn to_be_len(&self, n: usize) -> Vec<u8> {
        assert!((self.bits() + 7) / 8 <= n, "value does not fit");
        let mut v = vec![0u8; n];
        for i in 0..n {
            let limb = self.0.get(i / 4).copied().unwrap_or(0);
            v[n - 1 - i] = (limb >> (8 * (i % 4))) as u8;
        }
        v
    }
    pub fn to_hex(&self) -> String {
        if self.is_zero() { return "0".into(); }
        let s: String = self.to_be().iter().map(|b| format!("{:02x}", b)).collect();
        s.trim_start_matches('0').to_string()
    }
    pub fn low_u64(&self) -> u64 {
        self.0.get(0).copied().unwrap_or(0) as u64 | (self.0.get(1).copied().unwrap_or(0) as u64) << 32
    }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn is_odd(&self) -> bool { self.0.get(0).map_or(false, |x| x & 1 == 1) }
    pub fn bits(&self) -> usize {
        match self.0.last() { None => 0, Some(t) => self.0.len() * 32 - t.leading_zeros() as usize }
    }
    pub fn bit(&self, i: usize) -> bool { self.0.get(i / 32).map_or(false, |x| x >> (i % 32) & 1 == 1) }
    pub fn cmp(&self, o: &Bn) -> Ordering {
        if self.0.len() != o.0.len() { return self.0.len().cmp(&o.0.len()); }
        for i in (0..self.0.len()).rev() {
            if self.0[i] != o.0[i] { return self.0[i].cmp(&o.0[i]); }
        }
        Ordering::Equal
    }
    pub fn lt(&self, o: &Bn) -> bool { self.cmp(o) == Ordering::Less }
    pub fn ge(&self, o: &Bn) -> bool { !self.lt(o) }
    pub fn add(&self, o: &Bn) -> Bn {
        let (a, b) = if self.0.len() >= o.0.len() { (self, o) } else { (o, self) };
        let mut r = Vec::with_capacity(a.0.len() + 1);
        let mut c = 0u64;
        for i in 0..a.0.len() {
            c += a.0[i] as u64 + b.0.get(i).copied().unwrap_or(0) as u64;
            r.push(c as u32);
            c >>= 32;
        }
        if c > 0 { r.push(c as u32); }
        Bn(r)
    }
    /// self - o, requires self >= o
    pub fn sub(&self, o: &Bn) -> Bn {
        assert!(self.ge(o), "negative result");
        let mut r = Vec::with_capacity(self.0.len());
        let mut br = 0i64;
        for i in 0..self.0.len() {
            let mut d = self.0[i] as i64 - o.0.get(i).copied().unwrap_or(0) as i64 - br;
            if d < 0 { d += 1 << 32; br = 1 } else { br = 0 }
            r.push(d as u32);
        }
        Bn(r).norm()
    }
    pub fn mul(&self, o: &Bn) -> Bn {
        if self.is_zero() || o.is_zero() { return Bn::zero(); }
        let mut r = vec![0u32; self.0.len() + o.0.len()];
        for i in 0..self.0.len() {
            let mut c = 0u64;
            let x = self.0[i] as u64;
            for j in 0..o.0.len() {
                let t = x * o.0[j] as u64 + r[i + j] as u64 + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
            r[i + o.0.len()] = c as u32;
        }
        Bn(r).norm()
    }
    pub fn shl(&self, n: usize) -> Bn {
        if self.is_zero() { return Bn::zero(); }
        let mut r = vec![0u32; n / 32];
        let s = n % 32;
        let mut c = 0u64;
        for &x in &self.0 {
            let t = ((x as u64) << s) | c;
            r.push(t as u32);
            c = t >> 32;
        }
        r.push(c as u32);
        Bn(r).norm()
    }
    pub fn shr(&self, n: usize) -> Bn {
        let w = n / 32;
        if w >= self.0.len() { return Bn::zero(); }
        let s = n % 32;
        let mut r = Vec::with_capacity(self.0.len() - w);
        for i in w..self.0.len() {
            let hi = self.0.get(i + 1).copied().unwrap_or(0) as u64;
            r.push((((hi << 32) | self.0[i] as u64) >> s) as u32);
        }
        Bn(r).norm()
    }
    pub fn divrem(&self, d: &Bn) -> (Bn, Bn) {
        assert!(!d.is_zero(), "division by zero");
        if self.lt(d) { return (Bn::zero(), self.clone()); }
        if d.0.len() == 1 {
            let dv = d.0[0] as u64;
            let mut q = vec![0u32; self.0.len()];
            let mut r = 0u64;
            for i in (0..self.0.len()).rev() {
                let t = (r << 32) | self.0[i] as u64;
                q[i] = (t / dv) as u32;
                r = t % dv;
            }
            return (Bn(q).norm(), Bn::from_u64(r));
        }
        // Knuth algorithm D
        let s = d.0.last().unwrap().leading_zeros() as usize;
        let v = d.shl(s);
        let mut u = self.shl(s).0;
        while u.len() < self.0.len() + 1 { u.push(0); }
        let n = v.0.len();
        let m = u.len() - n - 1;
        let mut q = vec![0u32; m + 1];
        let b = 1u64 << 32;
        for j in (0..=m).rev() {
            let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
            let mut qh = num / v.0[n - 1] as u64;
            let mut rh = num % v.0[n - 1] as u64;
            while qh >= b || qh * v.0[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) {
                qh -= 1;
                rh += v.0[n - 1] as u64;
                if rh >= b { break; }
            }
            let mut borrow = 0i64;
            let mut carry = 0u64;
            for i in 0..n {
                let p = qh * v.0[i] as u64 + carry;
                carry = p >> 32;
                let t = u[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
                u[i + j] = t as u32;
                borrow = if t < 0 { 1 } else { 0 };
            }
            let t = u[j + n] as i64 - borrow - carry as i64;
            u[j + n] = t as u32;
            if t < 0 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    c += u[i + j] as u64 + v.0[i] as u64;
                    u[i + j] = c as u32;
                    c >>= 32;
                }
                u[j + n] = (u[j + n] as u64 + c) as u32;
            }
            q[j] = qh as u32;
        }
        u.truncate(n);
        (Bn(q).norm(), Bn(u).norm().shr(s))
    }
    pub fn rem(&self, m: &Bn) -> Bn { self.divrem(m).1 }
    pub fn addm(&self, o: &Bn, m: &Bn) -> Bn {
        let r = self.add(o);
        if r.ge(m) { r.sub(m) } else { r }
    }
    pub fn subm(&self, o: &Bn, m: &Bn) -> Bn {
        if self.ge(o) { self.sub(o) } else { self.add(m).sub(o) }
    }
    pub fn mulm(&self, o: &Bn, m: &Bn) -> Bn { self.mul(o).rem(m) }
    pub fn powm(&self, e: &Bn, m: &Bn) -> Bn {
        let mut r = Bn::one().rem(m);
        let b = self.rem(m);
        for i in (0..e.bits()).rev() {
            r = r.mulm(&r, m);
            if e.bit(i) { r = r.mulm(&b, m); }
        }
        r
    }
    pub fn gcd(&self, o: &Bn) -> Bn {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() { let r = a.rem(&b); a = b; b = r; }
        a
    }
    /// inverse modulo m, None when not coprime
    pub fn invm(&self, m: &Bn) -> Option<Bn> {
        // (r0, s0) with s0 tracked as (magnitude, negative)
        let (mut r0, mut r1) = (m.clone(), self.rem(m));
        let (mut t0, mut t1) = ((Bn::zero(), false), (Bn::one(), false));
        while !r1.is_zero() {
            let (q, r) = r0.divrem(&r1);
            let p = q.mul(&t1.0);
            // t0 - q*t1
            let t2 = if t0.1 == t1.1 {
                if t0.0.ge(&p) { (t0.0.sub(&p), t0.1) } else { (p.sub(&t0.0), !t0.1) }
            } else {
                (t0.0.add(&p), t0.1)
            };
            t0 = t1;
            t1 = t2;
            r0 = r1;
            r1 = r;
        }
        if r0 != Bn::one() { return None; }
        let v = t0.0.rem(m);
        Some(if t0.1 && !v.is_zero() { m.sub(&v) } else { v })
    }
    pub fn is_prime(&self) -> bool {
        const SP: [u64; 24] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89];
        if self.bits() < 2 { return false; }
        for &p in &SP {
            let p = Bn::from_u64(p);
            if self == &p { return true; }
            if self.rem(&p).is_zero() { return false; }
        }
        let n1 = self.sub(&Bn::one());
        let mut d = n1.clone();
        let mut s = 0;
        while !d.is_odd() { d = d.shr(1); s += 1; }
        'base: for &a in &SP {
            let mut x = Bn::from_u64(a).powm(&d, self);
            if x == Bn::one() || x == n1 { continue; }
            for _ in 1..s {
                x = x.mulm(&x, self);
                if x == n1 { continue 'base; }
            }
            return false;
        }
        true
    }
    /// square root modulo an odd prime
    pub fn sqrtm(&self, p: &Bn) -> Option<Bn> {
        let one = Bn::one();
        let a = self.rem(p);
        if a.is_zero() { return Some(a); }
        let pm1 = p.sub(&one);
        if a.powm(&pm1.shr(1), p) != one { return None; }
        let mut q = pm1.clone();
        let mut s = 0;
        while !q.is_odd() { q = q.shr(1); s += 1; }
        let mut z = Bn::from_u64(2);
        while z.powm(&pm1.shr(1), p) != pm1 { z = z.add(&one); }
        let mut m = s;
        let mut c = z.powm(&q, p);
        let mut t = a.powm(&q, p);
        let mut r = a.powm(&q.add(&one).shr(1), p);
        while t != one {
            let mut i = 0;
            let mut tt = t.clone();
            while tt != one { tt = tt.mulm(&tt, p); i += 1; }
            let mut b = c.clone();
            for _ in 0..(m - i - 1) { b = b.mulm(&b, p); }
            m = i;
            c = b.mulm(&b, p);
            t = t.mulm(&c, p);
            r = r.mulm(&b, p);
        }
        Some(r)
    }
}
