//! Small enumeration helpers.

/// takes one mixed-radix digit off i
pub fn dig(i: &mut u64, base: u64) -> usize {
    let d = *i % base;
    *i /= base;
    d as usize
}

/// deterministic byte patterns used as message fillers
pub fn fill(n: usize, kind: usize) -> Vec<u8> {
    (0..n).map(|i| match kind {
        0 => 0x00,
        1 => 0xff,
        2 => i as u8,
        3 => (i.wrapping_mul(37) ^ (i >> 3).wrapping_mul(101) ^ 0x5a) as u8,
        4 => 0x80,
        5 => if i % 2 == 0 { 0xaa } else { 0x55 },
        k => {
            let mut x = (i as u64).wrapping_add((k as u64) << 32).wrapping_mul(0x9E3779B97F4A7C15);
            x ^= x >> 31;
            x = x.wrapping_mul(0xbf58476d1ce4e5b9);
            (x >> 56) as u8
        }
    }).collect()
}

/// parts of the composition of n described by the bit mask of cut positions (n-1 bits)
pub fn composition(n: usize, mask: u64) -> Vec<usize> {
    let mut v = vec![];
    let mut cur = 0;
    for i in 0..n {
        cur += 1;
        if i + 1 == n || mask >> i & 1 == 1 { v.push(cur); cur = 0; }
    }
    v
}
pub fn n_compositions(n: usize) -> u64 { if n <= 1 { 1 } else { 1 << (n - 1) } }

/// number of sequences over an alphabet of a letters of length exactly l
pub fn pow(a: u64, l: u32) -> u64 { a.pow(l) }
/// number of sequences of length 0..=l
pub fn seqs_upto(a: u64, l: u32) -> u64 { (0..=l).map(|k| a.pow(k)).sum() }
/// i-th sequence in length-then-lexicographic order
pub fn seq(mut i: u64, a: u64, l: u32) -> Vec<usize> {
    for k in 0..=l {
        let n = a.pow(k);
        if i < n {
            let mut v = vec![0; k as usize];
            for j in (0..k as usize).rev() { v[j] = (i % a) as usize; i /= a; }
            return v;
        }
        i -= n;
    }
    panic!("sequence index out of range")
}

/// the bytes at an address that leaves the given remainder modulo 64
pub struct At(Vec<u8>, usize, usize);
impl At {
    pub fn new(off: usize, d: &[u8]) -> At {
        let mut v = vec![0xc5; d.len() + 128];
        let s = (off + 64 - v.as_ptr() as usize % 64) % 64;
        v[s..s + d.len()].copy_from_slice(d);
        At(v, s, d.len())
    }
    pub fn get(&self) -> &[u8] { &self.0[self.1..self.1 + self.2] }
}

/// blocks of n bytes with zeros or ones in special places
pub fn special(n: usize) -> Vec<Vec<u8>> {
    let mut r = vec![vec![0; n], vec![0xff; n]];
    for i in 0..n {
        for k in 0..7 {
            let mut x = fill(n, 3);
            match k {
                0 => x[i] = 0,
                1 => x[i] = 0xff,
                2 => x[..=i].iter_mut().for_each(|a| *a = 0),
                3 => x[i..].iter_mut().for_each(|a| *a = 0),
                4 => x[..=i].iter_mut().for_each(|a| *a = 0xff),
                5 => x[i..].iter_mut().for_each(|a| *a = 0xff),
                _ => { x = vec![0; n]; x[i] = 1; }
            }
            r.push(x);
        }
    }
    r
}
/// three blocks of n bytes, the second of which differs from the others in byte k / 2 only
pub fn alike(n: usize, k: usize) -> Vec<u8> {
    let a = fill(n, 3);
    let mut x = [&a[..], &a, &a].concat();
    x[n + k / 2] ^= [0x01, 0x90][k % 2];
    x
}
