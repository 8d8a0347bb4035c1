//! Reference block ciphers: AES, DES/TDES, SM4.
use std::sync::OnceLock;

pub trait RefCipher {
    fn bs(&self) -> usize;
    fn enc(&self, b: &[u8]) -> Vec<u8>;
    fn dec(&self, b: &[u8]) -> Vec<u8>;
}

// ------------------------------------------------------------------ AES
pub fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 { r ^= a; }
        a = (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 };
        b >>= 1;
    }
    r
}
pub struct AesTab { pub s: [u8; 256], pub si: [u8; 256], mul: [[u8; 256]; 16] }
pub fn aes_tab() -> &'static AesTab {
    static T: OnceLock<AesTab> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = AesTab { s: [0; 256], si: [0; 256], mul: [[0; 256]; 16] };
        for x in 0..256usize {
            let inv = if x == 0 { 0 } else { (1..=255u8).find(|&y| gmul(x as u8, y) == 1).unwrap() };
            let mut r = 0x63u8;
            for k in 0..5 { r ^= inv.rotate_left(k); }
            t.s[x] = r;
            t.si[r as usize] = x as u8;
        }
        for m in 0..16 { for x in 0..256 { t.mul[m][x] = gmul(m as u8, x as u8); } }
        t
    })
}
#[derive(Clone)]
pub struct Aes { rk: Vec<[u8; 16]> }
impl Aes {
    pub fn new(key: &[u8]) -> Aes {
        let t = aes_tab();
        let nk = key.len() / 4;
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
        let mut rcon = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut x = w[i - 1];
            if i % nk == 0 {
                x = [x[1], x[2], x[3], x[0]];
                for b in x.iter_mut() { *b = t.s[*b as usize]; }
                x[0] ^= rcon;
                rcon = gmul(rcon, 2);
            } else if nk > 6 && i % nk == 4 {
                for b in x.iter_mut() { *b = t.s[*b as usize]; }
            }
            for j in 0..4 { x[j] ^= w[i - nk][j]; }
            w.push(x);
        }
        let rk = w.chunks(4).map(|c| {
            let mut k = [0u8; 16];
            for i in 0..4 { k[4 * i..4 * i + 4].copy_from_slice(&c[i]); }
            k
        }).collect();
        Aes { rk }
    }
    pub fn round_keys(&self) -> &[[u8; 16]] { &self.rk }
    /// key of nk words whose expanded words i..i+nk are `w`
    pub fn key_for_words(i: usize, w: &[[u8; 4]]) -> Vec<u8> {
        let t = aes_tab();
        let nk = w.len();
        let mut w = w.to_vec();
        let mut i = i;
        while i > 0 {
            // word i-1 = word (i-1+nk) ^ g(word (i-2+nk))
            let j = i - 1 + nk;
            let mut x = w[nk - 2];
            if j % nk == 0 {
                x = [x[1], x[2], x[3], x[0]];
                for b in x.iter_mut() { *b = t.s[*b as usize]; }
                let mut rcon = 1u8;
                for _ in 1..j / nk { rcon = gmul(rcon, 2); }
                x[0] ^= rcon;
            } else if nk > 6 && j % nk == 4 {
                for b in x.iter_mut() { *b = t.s[*b as usize]; }
            }
            for k in 0..4 { x[k] ^= w[nk - 1][k]; }
            w.pop();
            w.insert(0, x);
            i -= 1;
        }
        w.concat()
    }
    /// number of rounds
    pub fn nr(&self) -> usize { self.rk.len() - 1 }
    /// the state just before the substitution of round r (1-based)
    pub fn states(&self, b: &[u8]) -> Vec<[u8; 16]> {
        let mut out = vec![];
        self.enc_trace(b, &mut |s| out.push(*s));
        out
    }
    fn enc_trace(&self, b: &[u8], f: &mut dyn FnMut(&[u8; 16])) -> Vec<u8> {
        let t = aes_tab();
        let mut s = [0u8; 16];
        s.copy_from_slice(&b[..16]);
        for i in 0..16 { s[i] ^= self.rk[0][i]; }
        for r in 1..=self.nr() {
            f(&s);
            for x in s.iter_mut() { *x = t.s[*x as usize]; }
            let o = s;
            for c in 0..4 { for row in 0..4 { s[4 * c + row] = o[4 * ((c + row) % 4) + row]; } }
            if r != self.nr() {
                let o = s;
                for c in 0..4 { for row in 0..4 {
                    let g = |k: usize| o[4 * c + (row + k) % 4] as usize;
                    s[4 * c + row] = t.mul[2][g(0)] ^ t.mul[3][g(1)] ^ o[4 * c + (row + 2) % 4] ^ o[4 * c + (row + 3) % 4];
                } }
            }
            for i in 0..16 { s[i] ^= self.rk[r][i]; }
        }
        s.to_vec()
    }
    /// plaintext that makes the state before the substitution of round r (1-based) equal to st
    pub fn plain_for_state(&self, r: usize, st: &[u8; 16]) -> Vec<u8> {
        let t = aes_tab();
        let mut s = *st;
        for rr in (1..r).rev() {
            // undo round rr
            for i in 0..16 { s[i] ^= self.rk[rr][i]; }
            inv_mix(&mut s, t);
            inv_shift(&mut s);
            for x in s.iter_mut() { *x = t.si[*x as usize]; }
        }
        for i in 0..16 { s[i] ^= self.rk[0][i]; }
        s.to_vec()
    }
}
fn inv_mix(s: &mut [u8; 16], t: &AesTab) {
    let o = *s;
    for c in 0..4 { for row in 0..4 {
        let g = |k: usize| o[4 * c + (row + k) % 4] as usize;
        s[4 * c + row] = t.mul[14][g(0)] ^ t.mul[11][g(1)] ^ t.mul[13][g(2)] ^ t.mul[9][g(3)];
    } }
}
fn inv_shift(s: &mut [u8; 16]) {
    let o = *s;
    for c in 0..4 { for row in 0..4 { s[4 * ((c + row) % 4) + row] = o[4 * c + row]; } }
}
impl RefCipher for Aes {
    fn bs(&self) -> usize { 16 }
    fn enc(&self, b: &[u8]) -> Vec<u8> { self.enc_trace(b, &mut |_| {}) }
    fn dec(&self, b: &[u8]) -> Vec<u8> {
        let t = aes_tab();
        let mut s = [0u8; 16];
        s.copy_from_slice(&b[..16]);
        for r in (1..=self.nr()).rev() {
            for i in 0..16 { s[i] ^= self.rk[r][i]; }
            if r != self.nr() { inv_mix(&mut s, t); }
            inv_shift(&mut s);
            for x in s.iter_mut() { *x = t.si[*x as usize]; }
        }
        for i in 0..16 { s[i] ^= self.rk[0][i]; }
        s.to_vec()
    }
}

// ------------------------------------------------------------------ DES
const IP: [u8; 64] = [58, 50, 42, 34, 26, 18, 10, 2, 60, 52, 44, 36, 28, 20, 12, 4, 62, 54, 46, 38, 30, 22, 14, 6, 64, 56, 48, 40, 32, 24, 16, 8,
    57, 49, 41, 33, 25, 17, 9, 1, 59, 51, 43, 35, 27, 19, 11, 3, 61, 53, 45, 37, 29, 21, 13, 5, 63, 55, 47, 39, 31, 23, 15, 7];
const E: [u8; 48] = [32, 1, 2, 3, 4, 5, 4, 5, 6, 7, 8, 9, 8, 9, 10, 11, 12, 13, 12, 13, 14, 15, 16, 17, 16, 17, 18, 19, 20, 21, 20, 21, 22, 23, 24, 25,
    24, 25, 26, 27, 28, 29, 28, 29, 30, 31, 32, 1];
const P: [u8; 32] = [16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11, 4, 25];
const PC1: [u8; 56] = [57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36,
    63, 55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4];
const PC2: [u8; 48] = [14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2,
    41, 52, 31, 37, 47, 55, 30, 40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32];
const SHIFTS: [usize; 16] = [1, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1];
pub const SB: [[u8; 64]; 8] = [
    [14, 4, 13, 1, 2, 15, 11, 8, 3, 10, 6, 12, 5, 9, 0, 7, 0, 15, 7, 4, 14, 2, 13, 1, 10, 6, 12, 11, 9, 5, 3, 8,
     4, 1, 14, 8, 13, 6, 2, 11, 15, 12, 9, 7, 3, 10, 5, 0, 15, 12, 8, 2, 4, 9, 1, 7, 5, 11, 3, 14, 10, 0, 6, 13],
    [15, 1, 8, 14, 6, 11, 3, 4, 9, 7, 2, 13, 12, 0, 5, 10, 3, 13, 4, 7, 15, 2, 8, 14, 12, 0, 1, 10, 6, 9, 11, 5,
     0, 14, 7, 11, 10, 4, 13, 1, 5, 8, 12, 6, 9, 3, 2, 15, 13, 8, 10, 1, 3, 15, 4, 2, 11, 6, 7, 12, 0, 5, 14, 9],
    [10, 0, 9, 14, 6, 3, 15, 5, 1, 13, 12, 7, 11, 4, 2, 8, 13, 7, 0, 9, 3, 4, 6, 10, 2, 8, 5, 14, 12, 11, 15, 1,
     13, 6, 4, 9, 8, 15, 3, 0, 11, 1, 2, 12, 5, 10, 14, 7, 1, 10, 13, 0, 6, 9, 8, 7, 4, 15, 14, 3, 11, 5, 2, 12],
    [7, 13, 14, 3, 0, 6, 9, 10, 1, 2, 8, 5, 11, 12, 4, 15, 13, 8, 11, 5, 6, 15, 0, 3, 4, 7, 2, 12, 1, 10, 14, 9,
     10, 6, 9, 0, 12, 11, 7, 13, 15, 1, 3, 14, 5, 2, 8, 4, 3, 15, 0, 6, 10, 1, 13, 8, 9, 4, 5, 11, 12, 7, 2, 14],
    [2, 12, 4, 1, 7, 10, 11, 6, 8, 5, 3, 15, 13, 0, 14, 9, 14, 11, 2, 12, 4, 7, 13, 1, 5, 0, 15, 10, 3, 9, 8, 6,
     4, 2, 1, 11, 10, 13, 7, 8, 15, 9, 12, 5, 6, 3, 0, 14, 11, 8, 12, 7, 1, 14, 2, 13, 6, 15, 0, 9, 10, 4, 5, 3],
    [12, 1, 10, 15, 9, 2, 6, 8, 0, 13, 3, 4, 14, 7, 5, 11, 10, 15, 4, 2, 7, 12, 9, 5, 6, 1, 13, 14, 0, 11, 3, 8,
     9, 14, 15, 5, 2, 8, 12, 3, 7, 0, 4, 10, 1, 13, 11, 6, 4, 3, 2, 12, 9, 5, 15, 10, 11, 14, 1, 7, 6, 0, 8, 13],
    [4, 11, 2, 14, 15, 0, 8, 13, 3, 12, 9, 7, 5, 10, 6, 1, 13, 0, 11, 7, 4, 9, 1, 10, 14, 3, 5, 12, 2, 15, 8, 6,
     1, 4, 11, 13, 12, 3, 7, 14, 10, 15, 6, 8, 0, 5, 9, 2, 6, 11, 13, 8, 1, 4, 10, 7, 9, 5, 0, 15, 14, 2, 3, 12],
    [13, 2, 8, 4, 6, 15, 11, 1, 10, 9, 3, 14, 5, 0, 12, 7, 1, 15, 13, 8, 10, 3, 7, 4, 12, 5, 6, 11, 0, 14, 9, 2,
     7, 11, 4, 1, 9, 12, 14, 2, 0, 6, 10, 13, 15, 3, 5, 8, 2, 1, 14, 7, 4, 10, 8, 13, 15, 12, 9, 0, 3, 5, 6, 11],
];
fn permute(x: u64, inbits: usize, tab: &[u8]) -> u64 {
    let mut r = 0;
    for &t in tab { r = r << 1 | (x >> (inbits - t as usize) & 1); }
    r
}
#[derive(Clone)]
pub struct Des { k: [u64; 16] }
impl Des {
    pub fn new(key: &[u8]) -> Des {
        let mut kb = [0u8; 8];
        kb.copy_from_slice(key);
        let cd = permute(u64::from_be_bytes(kb), 64, &PC1);
        let (mut c, mut d) = (cd >> 28, cd & 0xfffffff);
        let mut k = [0; 16];
        for i in 0..16 {
            let s = SHIFTS[i];
            c = (c << s | c >> (28 - s)) & 0xfffffff;
            d = (d << s | d >> (28 - s)) & 0xfffffff;
            k[i] = permute(c << 28 | d, 56, &PC2);
        }
        Des { k }
    }
    pub fn round_keys(&self) -> &[u64; 16] { &self.k }
    fn f(r: u64, k: u64) -> u64 {
        let x = permute(r, 32, &E) ^ k;
        let mut o = 0u64;
        for i in 0..8 {
            let v = (x >> (42 - 6 * i)) & 0x3f;
            let row = (v >> 4 & 2) | (v & 1);
            let col = v >> 1 & 0xf;
            o = o << 4 | SB[i][(row * 16 + col) as usize] as u64;
        }
        permute(o, 32, &P)
    }
    fn run(&self, b: &[u8], dec: bool, tr: &mut dyn FnMut(usize, u64)) -> Vec<u8> {
        let mut bb = [0u8; 8];
        bb.copy_from_slice(&b[..8]);
        let x = permute(u64::from_be_bytes(bb), 64, &IP);
        let (mut l, mut r) = (x >> 32, x & 0xffffffff);
        for i in 0..16 {
            let k = if dec { self.k[15 - i] } else { self.k[i] };
            tr(i, permute(r, 32, &E) ^ k);
            let t = l ^ Self::f(r, k);
            l = r;
            r = t;
        }
        let y = r << 32 | l;
        let mut fp = [0u8; 64];
        for (i, &p) in IP.iter().enumerate() { fp[p as usize - 1] = i as u8 + 1; }
        permute(y, 64, &fp).to_be_bytes().to_vec()
    }
    /// block whose halves entering round i (0-based) are l and r
    pub fn plain_for_state(&self, i: usize, l: u32, r: u32) -> Vec<u8> {
        let (mut l, mut r) = (l as u64, r as u64);
        for j in (0..i).rev() {
            let p = r ^ Self::f(l, self.k[j]);
            r = l;
            l = p;
        }
        let mut fp = [0u8; 64];
        for (i, &p) in IP.iter().enumerate() { fp[p as usize - 1] = i as u8 + 1; }
        permute(l << 32 | r, 64, &fp).to_be_bytes().to_vec()
    }
    /// right half that makes the input of S-box `b` in round i equal to v (other bits from `base`)
    pub fn right_for_sbox(&self, i: usize, b: usize, v: u8, base: u32) -> u32 {
        let want = (v ^ (self.k[i] >> (42 - 6 * b)) as u8) & 0x3f;
        let mut r = base;
        for j in 0..6 {
            let pos = E[6 * b + j] as u32; // 1-based from the left
            let m = 1u32 << (32 - pos);
            if want >> (5 - j) & 1 == 1 { r |= m } else { r &= !m }
        }
        r
    }
    /// S-box inputs (48 bits) of each round while encrypting
    pub fn sbox_inputs(&self, b: &[u8]) -> Vec<u64> {
        let mut v = vec![];
        self.run(b, false, &mut |_, x| v.push(x));
        v
    }
}
impl RefCipher for Des {
    fn bs(&self) -> usize { 8 }
    fn enc(&self, b: &[u8]) -> Vec<u8> { self.run(b, false, &mut |_, _| {}) }
    fn dec(&self, b: &[u8]) -> Vec<u8> { self.run(b, true, &mut |_, _| {}) }
}
#[derive(Clone)]
pub struct Tdes(pub Des, pub Des, pub Des);
impl RefCipher for Tdes {
    fn bs(&self) -> usize { 8 }
    fn enc(&self, b: &[u8]) -> Vec<u8> { self.2.enc(&self.1.dec(&self.0.enc(b))) }
    fn dec(&self, b: &[u8]) -> Vec<u8> { self.0.dec(&self.1.enc(&self.2.dec(b))) }
}

// ------------------------------------------------------------------ SM4
/// S(x) = A*I(A*x + C) + C over GF(2^8) with x^8+x^7+x^6+x^5+x^4+x^2+1
pub fn sm4_sbox() -> &'static [u8; 256] {
    static T: OnceLock<[u8; 256]> = OnceLock::new();
    T.get_or_init(|| {
        let mul = |mut a: u16, mut b: u16| -> u16 {
            let mut r = 0;
            while b != 0 {
                if b & 1 == 1 { r ^= a; }
                a <<= 1;
                if a & 0x100 != 0 { a ^= 0x1f5; }
                b >>= 1;
            }
            r
        };
        let aff = |x: u8| -> u8 {
            let mut r = 0u8;
            // circulant matrix, most significant row first
            for i in 0..8 { r = r << 1 | ((x & 0xd3u8.rotate_right(i)).count_ones() & 1) as u8; }
            r ^ 0xd3
        };
        let mut s = [0u8; 256];
        for x in 0..256usize {
            let y = aff(x as u8) as u16;
            let inv = if y == 0 { 0 } else { (1..256u16).find(|&z| mul(y, z) == 1).unwrap() };
            s[x] = aff(inv as u8);
        }
        s
    })
}
#[derive(Clone)]
pub struct Sm4 { rk: [u32; 32] }
fn tau(x: u32) -> u32 {
    let s = sm4_sbox();
    let b = x.to_be_bytes();
    u32::from_be_bytes([s[b[0] as usize], s[b[1] as usize], s[b[2] as usize], s[b[3] as usize]])
}
impl Sm4 {
    pub fn new(key: &[u8]) -> Sm4 {
        let fk = [0xa3b1bac6u32, 0x56aa3350, 0x677d9197, 0xb27022dc];
        let mut k: Vec<u32> = (0..4).map(|i| u32::from_be_bytes([key[4 * i], key[4 * i + 1], key[4 * i + 2], key[4 * i + 3]]) ^ fk[i]).collect();
        let mut rk = [0; 32];
        for i in 0..32 {
            let mut ck = 0u32;
            for j in 0..4u32 { ck = ck << 8 | ((4 * i as u32 + j) * 7 % 256); }
            let t = tau(k[i + 1] ^ k[i + 2] ^ k[i + 3] ^ ck);
            let x = k[i] ^ t ^ t.rotate_left(13) ^ t.rotate_left(23);
            k.push(x);
            rk[i] = x;
        }
        Sm4 { rk }
    }
    fn run(&self, b: &[u8], dec: bool, tr: &mut dyn FnMut(usize, u32)) -> Vec<u8> {
        let mut x: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect();
        for i in 0..32 {
            let k = if dec { self.rk[31 - i] } else { self.rk[i] };
            let a = x[i + 1] ^ x[i + 2] ^ x[i + 3] ^ k;
            tr(i, a);
            let t = tau(a);
            let y = x[i] ^ t ^ t.rotate_left(2) ^ t.rotate_left(10) ^ t.rotate_left(18) ^ t.rotate_left(24);
            x.push(y);
        }
        [x[35], x[34], x[33], x[32]].iter().flat_map(|v| v.to_be_bytes().to_vec()).collect()
    }
    pub fn sbox_inputs(&self, b: &[u8]) -> Vec<u32> {
        let mut v = vec![];
        self.run(b, false, &mut |_, x| v.push(x));
        v
    }
    /// block whose four words entering round r (0-based) are st
    pub fn plain_for_state(&self, r: usize, st: [u32; 4]) -> Vec<u8> {
        let mut x = st;
        for i in (0..r).rev() {
            // x = (X_{i+1},X_{i+2},X_{i+3},X_{i+4}) -> X_i
            let t = tau(x[0] ^ x[1] ^ x[2] ^ self.rk[i]);
            let y = x[3] ^ t ^ t.rotate_left(2) ^ t.rotate_left(10) ^ t.rotate_left(18) ^ t.rotate_left(24);
            x = [y, x[0], x[1], x[2]];
        }
        x.iter().flat_map(|v| v.to_be_bytes().to_vec()).collect()
    }
    pub fn round_keys(&self) -> &[u32; 32] { &self.rk }
    /// key whose schedule words K_r..K_r+3 are st
    pub fn key_for_state(r: usize, st: [u32; 4]) -> Vec<u8> {
        let fk = [0xa3b1bac6u32, 0x56aa3350, 0x677d9197, 0xb27022dc];
        let mut x = st;
        for i in (0..r).rev() {
            let mut ck = 0u32;
            for j in 0..4u32 { ck = ck << 8 | ((4 * i as u32 + j) * 7 % 256); }
            let t = tau(x[0] ^ x[1] ^ x[2] ^ ck);
            let y = x[3] ^ t ^ t.rotate_left(13) ^ t.rotate_left(23);
            x = [y, x[0], x[1], x[2]];
        }
        (0..4).flat_map(|i| (x[i] ^ fk[i]).to_be_bytes().to_vec()).collect()
    }
}
impl RefCipher for Sm4 {
    fn bs(&self) -> usize { 16 }
    fn enc(&self, b: &[u8]) -> Vec<u8> { self.run(b, false, &mut |_, _| {}) }
    fn dec(&self, b: &[u8]) -> Vec<u8> { self.run(b, true, &mut |_, _| {}) }
}
