//! Reference ZUC, 128-EEA3 and 128-EIA3.
use std::sync::OnceLock;

const D: [u32; 16] = [0x44D7, 0x26BC, 0x626B, 0x135E, 0x5789, 0x35E2, 0x7135, 0x09AF, 0x4D78, 0x2F13, 0x6BC4, 0x1AF1, 0x5E26, 0x3C4D, 0x789A, 0x47AC];

/// S0 from its three-step 4-bit network, S1 as an affine map of the inverse in GF(2^8)/(x^8+x^7+x^3+x+1)
pub fn sboxes() -> &'static ([u8; 256], [u8; 256]) {
    static T: OnceLock<([u8; 256], [u8; 256])> = OnceLock::new();
    T.get_or_init(|| {
        const P1: [u8; 16] = [9, 15, 0, 14, 15, 15, 2, 10, 0, 4, 0, 12, 7, 5, 3, 9];
        const P2: [u8; 16] = [8, 13, 6, 5, 7, 0, 12, 4, 11, 1, 14, 10, 15, 3, 9, 2];
        const P3: [u8; 16] = [2, 6, 10, 6, 0, 13, 10, 15, 3, 3, 13, 5, 0, 9, 12, 13];
        const M: [u8; 8] = [0x77, 0xbb, 0xdd, 0xee, 0xcb, 0x6d, 0x3e, 0x97];
        let mul = |mut a: u16, mut b: u16| -> u16 {
            let mut r = 0;
            while b != 0 {
                if b & 1 == 1 { r ^= a; }
                a <<= 1;
                if a & 0x100 != 0 { a ^= 0x18b; }
                b >>= 1;
            }
            r
        };
        let (mut s0, mut s1) = ([0u8; 256], [0u8; 256]);
        for x in 0..256usize {
            let (h, l) = ((x >> 4) as u8, (x & 15) as u8);
            let a = h ^ P1[l as usize];
            let b = l ^ P2[a as usize];
            let c = a ^ P3[b as usize];
            s0[x] = (c << 4 | b).rotate_left(5);
            let inv = if x == 0 { 0 } else { (1..256u16).find(|&y| mul(x as u16, y) == 1).unwrap() } as u8;
            let mut r = 0x55u8;
            // column for input bit i (value 1<<i)
            for i in 0..8 { if inv >> i & 1 == 1 { r ^= M[7 - i]; } }
            s1[x] = r;
        }
        (s0, s1)
    })
}

#[derive(Clone)]
pub struct RZuc { s: [u32; 16], r1: u32, r2: u32, pub trace: Option<Vec<(u32, u32)>>,
    /// how often the feedback was 0 and had to be replaced by 2^31-1
    pub zeros: u32 }
impl RZuc {
    pub fn new(k: &[u8], iv: &[u8]) -> RZuc { Self::build(k, iv, false) }
    pub fn traced(k: &[u8], iv: &[u8]) -> RZuc { Self::build(k, iv, true) }
    fn build(k: &[u8], iv: &[u8], tr: bool) -> RZuc {
        let mut z = RZuc { s: [0; 16], r1: 0, r2: 0, trace: if tr { Some(vec![]) } else { None }, zeros: 0 };
        for i in 0..16 { z.s[i] = (k[i] as u32) << 23 | D[i] << 8 | iv[i] as u32; }
        for _ in 0..32 {
            let x = z.br();
            let w = z.f(x);
            z.lfsr(w >> 1);
        }
        let x = z.br();
        z.f(x);
        z.lfsr(0);
        z
    }
    fn br(&self) -> [u32; 4] {
        let h = |i: usize| self.s[i] >> 15;
        let l = |i: usize| self.s[i] & 0xffff;
        [h(15) << 16 | l(14), l(11) << 16 | h(9), l(7) << 16 | h(5), l(2) << 16 | h(0)]
    }
    fn f(&mut self, x: [u32; 4]) -> u32 {
        let (s0, s1) = sboxes();
        let sb = |v: u32| -> u32 {
            let b = v.to_be_bytes();
            u32::from_be_bytes([s0[b[0] as usize], s1[b[1] as usize], s0[b[2] as usize], s1[b[3] as usize]])
        };
        let w = (x[0] ^ self.r1).wrapping_add(self.r2);
        let w1 = self.r1.wrapping_add(x[1]);
        let w2 = self.r2 ^ x[2];
        let u = w1 << 16 | w2 >> 16;
        let v = w2 << 16 | w1 >> 16;
        let u = u ^ u.rotate_left(2) ^ u.rotate_left(10) ^ u.rotate_left(18) ^ u.rotate_left(24);
        let v = v ^ v.rotate_left(8) ^ v.rotate_left(14) ^ v.rotate_left(22) ^ v.rotate_left(30);
        if let Some(t) = self.trace.as_mut() { t.push((u, v)); }
        self.r1 = sb(u);
        self.r2 = sb(v);
        w
    }
    fn lfsr(&mut self, u: u32) {
        const P: u64 = (1 << 31) - 1;
        let s = |i: usize| self.s[i] as u64;
        let v = (s(15) << 15) % P + (s(13) << 17) % P + (s(10) << 21) % P + (s(4) << 20) % P + (s(0) << 8) % P + s(0) + u as u64;
        let mut v = (v % P) as u32;
        if v == 0 { v = P as u32; self.zeros += 1; }
        for i in 0..15 { self.s[i] = self.s[i + 1]; }
        self.s[15] = v;
    }
    pub fn next(&mut self) -> u32 {
        let x = self.br();
        let z = self.f(x) ^ x[3];
        self.lfsr(0);
        z
    }
}

pub fn eea3_iv(count: u32, bearer: u8, dir: bool) -> [u8; 16] {
    let c = count.to_be_bytes();
    let b4 = (bearer & 31) << 3 | (dir as u8) << 2;
    [c[0], c[1], c[2], c[3], b4, 0, 0, 0, c[0], c[1], c[2], c[3], b4, 0, 0, 0]
}
pub fn eea3_stream(count: u32, bearer: u8, dir: bool, ck: &[u8], n: usize) -> Vec<u8> {
    let mut z = RZuc::new(ck, &eea3_iv(count, bearer, dir));
    let mut v = vec![];
    while v.len() < n { v.extend_from_slice(&z.next().to_be_bytes()); }
    v.truncate(n);
    v
}
pub fn eia3_iv(count: u32, bearer: u8, dir: bool) -> [u8; 16] {
    let c = count.to_be_bytes();
    let b4 = (bearer & 31) << 3;
    let d = (dir as u8) << 7;
    [c[0], c[1], c[2], c[3], b4, 0, 0, 0, c[0] ^ d, c[1], c[2], c[3], b4, 0, d, 0]
}
pub fn eia3(count: u32, bearer: u8, dir: bool, ik: &[u8], m: &[u8]) -> Vec<u8> { eia3_bits(count, bearer, dir, ik, m, m.len() * 8) }
pub fn eia3_bits(count: u32, bearer: u8, dir: bool, ik: &[u8], m: &[u8], n: usize) -> Vec<u8> {
    let l = (n + 31) / 32 + 2;
    let mut z = RZuc::new(ik, &eia3_iv(count, bearer, dir));
    let ks: Vec<u32> = (0..l).map(|_| z.next()).collect();
    let word = |i: usize| -> u32 {
        if i % 32 == 0 { ks[i / 32] } else { ks[i / 32] << (i % 32) | ks[i / 32 + 1] >> (32 - i % 32) }
    };
    let mut t = 0u32;
    for i in 0..n { if m[i / 8] >> (7 - i % 8) & 1 == 1 { t ^= word(i); } }
    t ^= word(n);
    (t ^ ks[l - 1]).to_be_bytes().to_vec()
}
