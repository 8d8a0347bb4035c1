//! Reference HMAC (RFC 2104) and CMAC (SP 800-38B).
pub fn hmac(h: &dyn Fn(&[u8]) -> Vec<u8>, block: usize, key: &[u8], m: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > block { h(key) } else { key.to_vec() };
    k.resize(block, 0);
    let mut inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    inner.extend_from_slice(m);
    let mut outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    outer.extend(h(&inner));
    h(&outer)
}

/// low part of the lexicographically first minimal-weight irreducible polynomial of degree 8*len
pub const RB: [(usize, u32); 16] = [
    (4, 0x8d), (6, 0x2d), (8, 0x1b), (12, 0x641), (16, 0x87), (20, 0x2d), (24, 0x87), (28, 0x309), (32, 0x425),
    (40, 0x1b), (48, 0x100d), (56, 0x851), (64, 0x125), (96, 0xa0011), (128, 0x80043), (256, 0x86001),
];
/// doubling in GF(2^n), n = 8*len
pub fn dbl(b: &[u8]) -> Vec<u8> {
    let rb = RB.iter().find(|x| x.0 == b.len()).expect("block size").1;
    let msb = b[0] >> 7;
    let mut r: Vec<u8> = (0..b.len()).map(|i| b[i] << 1 | if i + 1 < b.len() { b[i + 1] >> 7 } else { 0 }).collect();
    if msb == 1 {
        let n = r.len();
        for (i, x) in rb.to_le_bytes().iter().enumerate() { if i < n { r[n - 1 - i] ^= x; } }
    }
    r
}
pub fn cmac(enc: &dyn Fn(&[u8]) -> Vec<u8>, bs: usize, m: &[u8]) -> Vec<u8> {
    let k1 = dbl(&enc(&vec![0; bs]));
    let k2 = dbl(&k1);
    let n = if m.is_empty() { 1 } else { (m.len() + bs - 1) / bs };
    let mut c = vec![0u8; bs];
    for i in 0..n {
        let mut blk = m[(i * bs).min(m.len())..((i + 1) * bs).min(m.len())].to_vec();
        if i == n - 1 {
            let k = if blk.len() == bs { &k1 } else { blk.push(0x80); blk.resize(bs, 0); &k2 };
            for j in 0..bs { blk[j] ^= k[j]; }
        }
        for j in 0..bs { blk[j] ^= c[j]; }
        c = enc(&blk);
    }
    c
}
