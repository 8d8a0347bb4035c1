//! One-shot reference hash functions.

/// blocks of (buf repeated reps times) || tail after padding; buf.len() must be a multiple of the block
struct Blocks<'a> { buf: &'a [u8], reps: u64, end: Vec<u8>, block: usize }
impl<'a> Blocks<'a> {
    fn new(buf: &'a [u8], reps: u64, tail: &[u8], block: usize, lenbytes: usize, big: bool) -> Blocks<'a> {
        assert!(buf.len() % block == 0);
        let mut end = tail.to_vec();
        end.push(0x80);
        while end.len() % block != block - lenbytes { end.push(0); }
        let bits = (buf.len() as u128 * reps as u128 + tail.len() as u128) * 8;
        if big { end.extend_from_slice(&bits.to_be_bytes()[16 - lenbytes..]) } else { end.extend_from_slice(&bits.to_le_bytes()[..lenbytes]) }
        Blocks { buf, reps, end, block }
    }
    fn each(&self, f: &mut dyn FnMut(&[u8])) {
        for _ in 0..self.reps { for c in self.buf.chunks(self.block) { f(c) } }
        for c in self.end.chunks(self.block) { f(c) }
    }
}

pub fn md5(m: &[u8]) -> Vec<u8> { md5_rep(&[], 0, m) }
pub fn md5_rep(buf: &[u8], reps: u64, m: &[u8]) -> Vec<u8> {
    const S: [[u32; 4]; 4] = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
    let mut st = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476];
    let k: Vec<u32> = (0..64).map(|i| ((((i + 1) as f64).sin().abs()) * 4294967296.0) as u32).collect();
    Blocks::new(buf, reps, m, 64, 8, false).each(&mut |c| {
        let mut w = [0u32; 16];
        for (i, x) in c.chunks(4).enumerate() { w[i] = u32::from_le_bytes([x[0], x[1], x[2], x[3]]); }
        let [mut a, mut b, mut cc, mut d] = st;
        for i in 0..64 {
            let (f, g) = match i / 16 {
                0 => ((b & cc) | (!b & d), i),
                1 => ((d & b) | (!d & cc), (5 * i + 1) % 16),
                2 => (b ^ cc ^ d, (3 * i + 5) % 16),
                _ => (cc ^ (b | !d), (7 * i) % 16),
            };
            let t = a.wrapping_add(f).wrapping_add(k[i]).wrapping_add(w[g]);
            a = d;
            d = cc;
            cc = b;
            b = b.wrapping_add(t.rotate_left(S[i / 16][i % 4]));
        }
        st[0] = st[0].wrapping_add(a);
        st[1] = st[1].wrapping_add(b);
        st[2] = st[2].wrapping_add(cc);
        st[3] = st[3].wrapping_add(d);
    });
    st.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect()
}

pub fn sha1(m: &[u8]) -> Vec<u8> { sha1_rep(&[], 0, m) }
pub fn sha1_rep(buf: &[u8], reps: u64, m: &[u8]) -> Vec<u8> {
    let mut h = [0x67452301u32, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    Blocks::new(buf, reps, m, 64, 8, true).each(&mut |c| {
        let mut w = [0u32; 80];
        for (i, x) in c.chunks(4).enumerate() { w[i] = u32::from_be_bytes([x[0], x[1], x[2], x[3]]); }
        for t in 16..80 { w[t] = (w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotate_left(1); }
        let [mut a, mut b, mut cc, mut d, mut e] = h;
        for t in 0..80 {
            let (f, k) = match t / 20 {
                0 => ((b & cc) ^ (!b & d), 0x5a827999u32),
                1 => (b ^ cc ^ d, 0x6ed9eba1),
                2 => ((b & cc) ^ (b & d) ^ (cc & d), 0x8f1bbcdc),
                _ => (b ^ cc ^ d, 0xca62c1d6),
            };
            let x = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[t]);
            e = d;
            d = cc;
            cc = b.rotate_left(30);
            b = a;
            a = x;
        }
        for (x, y) in h.iter_mut().zip([a, b, cc, d, e].iter()) { *x = x.wrapping_add(*y); }
    });
    h.iter().flat_map(|x| x.to_be_bytes().to_vec()).collect()
}

fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut c = 2;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) { v.push(c); }
        c += 1;
    }
    v
}

/// first 64 fractional bits of the square root (root=2) or cube root (root=3) of p
fn frac_root(p: u64, root: u32) -> u64 {
    use super::bn::Bn;
    // floor((p * 2^(64*root))^(1/root)) by binary search, low 64 bits
    let target = Bn::from_u64(p).shl(64 * root as usize);
    let (mut lo, mut hi) = (Bn::zero(), Bn::one().shl(72));
    while hi.sub(&lo) != Bn::one() {
        let mid = lo.add(&hi).shr(1);
        let mut x = mid.clone();
        for _ in 1..root { x = x.mul(&mid); }
        if x.cmp(&target) == std::cmp::Ordering::Greater { hi = mid } else { lo = mid }
    }
    lo.low_u64()
}

struct Sha2Consts { k64: Vec<u64>, h384: [u64; 8], h512: [u64; 8] }

fn consts() -> &'static Sha2Consts {
    use std::sync::OnceLock;
    static C: OnceLock<Sha2Consts> = OnceLock::new();
    C.get_or_init(|| {
        let p = primes(80);
        let k64: Vec<u64> = p.iter().map(|&x| frac_root(x, 3)).collect();
        let mut h512 = [0u64; 8];
        let mut h384 = [0u64; 8];
        for i in 0..8 {
            h512[i] = frac_root(p[i], 2);
            h384[i] = frac_root(p[i + 8], 2);
        }
        Sha2Consts { k64, h384, h512 }
    })
}

fn sha256_core(buf: &[u8], reps: u64, m: &[u8], iv: [u32; 8]) -> Vec<u8> {
    let kk = &consts().k64;
    let mut h = iv;
    Blocks::new(buf, reps, m, 64, 8, true).each(&mut |c| {
        let mut w = [0u32; 80];
        for (i, x) in c.chunks(4).enumerate() { w[i] = u32::from_be_bytes([x[0], x[1], x[2], x[3]]); }
        for t in 16..64 {
            let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ (w[t - 15] >> 3);
            let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ (w[t - 2] >> 10);
            w[t] = s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]);
        }
        let mut v = h;
        for t in 0..64 {
            let (a, e) = (v[0], v[4]);
            let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
            let ch = (e & v[5]) ^ (!e & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add((kk[t] >> 32) as u32).wrapping_add(w[t]);
            let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
            let mj = (a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 { h[i] = h[i].wrapping_add(v[i]); }
    });
    h.iter().flat_map(|x| x.to_be_bytes().to_vec()).collect()
}

pub fn sha256(m: &[u8]) -> Vec<u8> { sha256_rep(&[], 0, m) }
pub fn sha256_rep(buf: &[u8], reps: u64, m: &[u8]) -> Vec<u8> {
    let mut iv = [0u32; 8];
    for i in 0..8 { iv[i] = (consts().h512[i] >> 32) as u32; }
    sha256_core(buf, reps, m, iv)
}
pub fn sha224(m: &[u8]) -> Vec<u8> { sha224_rep(&[], 0, m) }
pub fn sha224_rep(buf: &[u8], reps: u64, m: &[u8]) -> Vec<u8> {
    let mut iv = [0u32; 8];
    for i in 0..8 { iv[i] = consts().h384[i] as u32; }
    let mut d = sha256_core(buf, reps, m, iv);
    d.truncate(28);
    d
}

fn sha512_core(buf: &[u8], reps: u64, m: &[u8], iv: [u64; 8]) -> Vec<u8> {
    let kk = &consts().k64;
    let mut h = iv;
    Blocks::new(buf, reps, m, 128, 16, true).each(&mut |c| {
        let mut w = [0u64; 80];
        for (i, x) in c.chunks(8).enumerate() { w[i] = u64::from_be_bytes([x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]]); }
        for t in 16..80 {
            let s0 = w[t - 15].rotate_right(1) ^ w[t - 15].rotate_right(8) ^ (w[t - 15] >> 7);
            let s1 = w[t - 2].rotate_right(19) ^ w[t - 2].rotate_right(61) ^ (w[t - 2] >> 6);
            w[t] = s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]);
        }
        let mut v = h;
        for t in 0..80 {
            let (a, e) = (v[0], v[4]);
            let s1 = e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41);
            let ch = (e & v[5]) ^ (!e & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(kk[t]).wrapping_add(w[t]);
            let s0 = a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39);
            let mj = (a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]);
            v = [t1.wrapping_add(s0.wrapping_add(mj)), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 { h[i] = h[i].wrapping_add(v[i]); }
    });
    h.iter().flat_map(|x| x.to_be_bytes().to_vec()).collect()
}
pub fn sha512(m: &[u8]) -> Vec<u8> { sha512_rep(&[], 0, m) }
pub fn sha512_rep(buf: &[u8], reps: u64, m: &[u8]) -> Vec<u8> { sha512_core(buf, reps, m, consts().h512) }
pub fn sha384(m: &[u8]) -> Vec<u8> { sha384_rep(&[], 0, m) }
pub fn sha384_rep(buf: &[u8], reps: u64, m: &[u8]) -> Vec<u8> {
    let mut d = sha512_core(buf, reps, m, consts().h384);
    d.truncate(48);
    d
}
pub fn sha512t_iv(t: usize) -> [u64; 8] {
    let mut iv = consts().h512;
    for x in iv.iter_mut() { *x ^= 0xa5a5a5a5a5a5a5a5; }
    let d = sha512_core(&[], 0, format!("SHA-512/{}", t).as_bytes(), iv);
    let mut r = [0u64; 8];
    for i in 0..8 {
        let mut b = [0u8; 8];
        b.copy_from_slice(&d[8 * i..8 * i + 8]);
        r[i] = u64::from_be_bytes(b);
    }
    r
}
pub fn sha512t_with_iv(t: usize, iv: [u64; 8], m: &[u8]) -> Vec<u8> { sha512t_rep(t, iv, &[], 0, m) }
pub fn sha512t_rep(t: usize, iv: [u64; 8], buf: &[u8], reps: u64, m: &[u8]) -> Vec<u8> {
    let mut d = sha512_core(buf, reps, m, iv);
    d.truncate((t + 7) / 8);
    if t % 8 != 0 {
        let l = d.len() - 1;
        d[l] &= 0xffu8 << (8 - t % 8);
    }
    d
}
pub fn sha512t(t: usize, m: &[u8]) -> Vec<u8> { sha512t_with_iv(t, sha512t_iv(t), m) }

pub fn sm3(m: &[u8]) -> Vec<u8> { sm3_rep(&[], 0, m) }
pub fn sm3_rep(buf: &[u8], reps: u64, m: &[u8]) -> Vec<u8> {
    let mut v = [0x7380166fu32, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e];
    let p0 = |x: u32| x ^ x.rotate_left(9) ^ x.rotate_left(17);
    let p1 = |x: u32| x ^ x.rotate_left(15) ^ x.rotate_left(23);
    Blocks::new(buf, reps, m, 64, 8, true).each(&mut |c| {
        let mut w = [0u32; 80];
        for (i, x) in c.chunks(4).enumerate() { w[i] = u32::from_be_bytes([x[0], x[1], x[2], x[3]]); }
        for j in 16..68 {
            let x = p1(w[j - 16] ^ w[j - 9] ^ w[j - 3].rotate_left(15)) ^ w[j - 13].rotate_left(7) ^ w[j - 6];
            w[j] = x;
        }
        let mut r = v;
        for j in 0..64u32 {
            let t = if j < 16 { 0x79cc4519u32 } else { 0x7a879d8a };
            let ss1 = r[0].rotate_left(12).wrapping_add(r[4]).wrapping_add(t.rotate_left(j % 32)).rotate_left(7);
            let ss2 = ss1 ^ r[0].rotate_left(12);
            let (ff, gg) = if j < 16 {
                (r[0] ^ r[1] ^ r[2], r[4] ^ r[5] ^ r[6])
            } else {
                ((r[0] & r[1]) | (r[0] & r[2]) | (r[1] & r[2]), (r[4] & r[5]) | (!r[4] & r[6]))
            };
            let j = j as usize;
            let tt1 = ff.wrapping_add(r[3]).wrapping_add(ss2).wrapping_add(w[j] ^ w[j + 4]);
            let tt2 = gg.wrapping_add(r[7]).wrapping_add(ss1).wrapping_add(w[j]);
            r = [tt1, r[0], r[1].rotate_left(9), r[2], p0(tt2), r[4], r[5].rotate_left(19), r[6]];
        }
        for i in 0..8 { v[i] ^= r[i]; }
    });
    v.iter().flat_map(|x| x.to_be_bytes().to_vec()).collect()
}

// ---------------------------------------------------------------- Keccak

/// FIPS 202 rc(t)
fn rc_bit(t: i64) -> u64 {
    let t = t.rem_euclid(255);
    let mut r: u16 = 1; // bit i of r is R[i]
    for _ in 0..t {
        // R = 0 || R; R[0]^=R[8]; R[4]^=R[8]; R[5]^=R[8]; R[6]^=R[8]; trunc8
        r <<= 1;
        let top = (r >> 8) & 1;
        r ^= top | top << 4 | top << 5 | top << 6;
        r &= 0xff;
    }
    (r & 1) as u64
}

/// Keccak-p[25w, nr] on lanes a[x + 5y], w = lane bits
pub fn keccak_p(a: &mut [u64; 25], w: u32, nr: i64) {
    let l = w.trailing_zeros() as i64;
    let mask = if w == 64 { !0u64 } else { (1u64 << w) - 1 };
    let rot = |x: u64, n: u32| -> u64 {
        let n = n % w;
        if n == 0 { x } else { ((x << n) | (x >> (w - n))) & mask }
    };
    for ir in (12 + 2 * l - nr)..(12 + 2 * l) {
        // theta
        let mut c = [0u64; 5];
        for x in 0..5 { for y in 0..5 { c[x] ^= a[x + 5 * y]; } }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ rot(c[(x + 1) % 5], 1);
            for y in 0..5 { a[x + 5 * y] ^= d; }
        }
        // rho
        let (mut x, mut y) = (1usize, 0usize);
        for t in 0..24u32 {
            a[x + 5 * y] = rot(a[x + 5 * y], (t + 1) * (t + 2) / 2);
            let ny = (2 * x + 3 * y) % 5;
            x = y;
            y = ny;
        }
        // pi
        let o = *a;
        for x in 0..5 { for y in 0..5 { a[x + 5 * y] = o[(x + 3 * y) % 5 + 5 * x]; } }
        // chi
        let o = *a;
        for x in 0..5 { for y in 0..5 {
            a[x + 5 * y] = o[x + 5 * y] ^ (!o[(x + 1) % 5 + 5 * y] & o[(x + 2) % 5 + 5 * y] & mask);
        } }
        // iota
        let mut rc = 0u64;
        for j in 0..=l { rc |= rc_bit(j + 7 * ir) << ((1u64 << j) - 1); }
        a[0] ^= rc;
    }
}

pub fn bits_of(bytes: &[u8], n: usize) -> Vec<u8> { (0..n).map(|i| bytes[i / 8] >> (i % 8) & 1).collect() }
pub fn bytes_of(bits: &[u8]) -> Vec<u8> {
    let mut v = vec![0u8; (bits.len() + 7) / 8];
    for (i, b) in bits.iter().enumerate() { v[i / 8] |= b << (i % 8); }
    v
}

pub fn perm_bits(s: &[u8], w: u32, nr: i64) -> Vec<u8> {
    let mut a = [0u64; 25];
    for (i, &b) in s.iter().enumerate() { a[i / w as usize] |= (b as u64) << (i % w as usize); }
    keccak_p(&mut a, w, nr);
    (0..25 * w as usize).map(|i| (a[i / w as usize] >> (i % w as usize) & 1) as u8).collect()
}

/// SPONGE[Keccak-p[b,nr], pad10*1, r](N, d) on bit vectors
pub fn sponge(b: usize, nr: i64, r: usize, n: &[u8], d: usize) -> Vec<u8> {
    let w = (b / 25) as u32;
    let mut p = n.to_vec();
    p.push(1);
    while p.len() % r != r - 1 { p.push(0); }
    p.push(1);
    // r == 1: pad10*1 gives "11"; the loop above already yields that
    let mut s = vec![0u8; b];
    for c in p.chunks(r) {
        for i in 0..c.len() { s[i] ^= c[i]; }
        s = perm_bits(&s, w, nr);
    }
    let mut z = vec![];
    while z.len() < d {
        z.extend_from_slice(&s[..r]);
        if z.len() < d { s = perm_bits(&s, w, nr); }
    }
    z.truncate(d);
    z
}
pub fn keccak_c_bits(c: usize, n: &[u8], d: usize) -> Vec<u8> { sponge(1600, 24, 1600 - c, n, d) }
pub fn sha3_bits(d: usize, m: &[u8]) -> Vec<u8> {
    let mut n = m.to_vec();
    n.extend_from_slice(&[0, 1]);
    bytes_of(&keccak_c_bits(2 * d, &n, d))
}
pub fn shake_bits(sec: usize, raw: bool, m: &[u8], d: usize) -> Vec<u8> {
    let mut n = m.to_vec();
    if raw { n.extend_from_slice(&[1, 1]) } else { n.extend_from_slice(&[1, 1, 1, 1]) }
    bytes_of(&keccak_c_bits(2 * sec, &n, d))
}
pub fn sha3(d: usize, m: &[u8]) -> Vec<u8> { sha3_bits(d, &bits_of(m, m.len() * 8)) }
pub fn shake(sec: usize, raw: bool, m: &[u8], d: usize) -> Vec<u8> { shake_bits(sec, raw, &bits_of(m, m.len() * 8), d) }
