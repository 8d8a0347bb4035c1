//! Toy instances of the library's public traits: small enough to enumerate completely.
use crate::refs::cipher::RefCipher;
use rcrypto::{Cipher, CryptoError, CryptoErrorKind, Digest};
use std::cell::Cell;

/// keyed byte permutation chained over the block; a bijection on blocks of any size
#[derive(Clone)]
pub struct ToyCipher {
    pub bs: usize,
    pub key: u8,
    /// states no block size (bytes are processed one by one)
    pub anon: bool,
    /// fail the n-th call (counted from 0) when set
    pub fail_at: Option<usize>,
    pub calls: Cell<usize>,
}
impl ToyCipher {
    pub fn new(bs: usize, key: u8) -> ToyCipher { ToyCipher { bs, key, anon: false, fail_at: None, calls: Cell::new(0) } }
    pub fn anon(key: u8) -> ToyCipher { ToyCipher { anon: true, ..ToyCipher::new(1, key) } }
    fn p(&self, x: u8, i: usize) -> u8 { (x ^ self.key.wrapping_add(i as u8)).wrapping_mul(0xb5).rotate_left(3).wrapping_add(0x3d) }
    fn pinv(&self, y: u8, i: usize) -> u8 { y.wrapping_sub(0x3d).rotate_right(3).wrapping_mul(0x9d) ^ self.key.wrapping_add(i as u8) }
}
impl RefCipher for ToyCipher {
    fn bs(&self) -> usize { self.bs }
    fn enc(&self, b: &[u8]) -> Vec<u8> {
        assert_eq!(b.len(), self.bs);
        let mut v = b.to_vec();
        let mut c = 0u8;
        for i in 0..v.len() { v[i] = self.p(v[i] ^ c, i); c = v[i]; }
        c = 0;
        for i in (0..v.len()).rev() { v[i] = self.p(v[i] ^ c, i + 7); c = v[i]; }
        v
    }
    fn dec(&self, b: &[u8]) -> Vec<u8> {
        assert_eq!(b.len(), self.bs);
        let mut v = b.to_vec();
        let o = v.clone();
        for i in 0..v.len() { let c = if i + 1 < v.len() { o[i + 1] } else { 0 }; v[i] = self.pinv(o[i], i + 7) ^ c; }
        let o = v.clone();
        for i in 0..v.len() { let c = if i > 0 { o[i - 1] } else { 0 }; v[i] = self.pinv(o[i], i) ^ c; }
        v
    }
}
impl Cipher for ToyCipher {
    type Output = usize;
    fn block_size(&self) -> Option<usize> { if self.anon { None } else { Some(self.bs) } }
    fn encrypt(&self, dst: &mut Vec<u8>, p: &[u8]) -> Result<usize, CryptoError> { self.go(dst, p, true) }
    fn decrypt(&self, dst: &mut Vec<u8>, p: &[u8]) -> Result<usize, CryptoError> { self.go(dst, p, false) }
}
impl ToyCipher {
    fn go(&self, dst: &mut Vec<u8>, p: &[u8], e: bool) -> Result<usize, CryptoError> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if p.len() != self.bs || self.fail_at == Some(n) {
            return Err(CryptoError::new(CryptoErrorKind::OuterErr, "toy cipher refuses"));
        }
        dst.clear();
        dst.extend(if e { self.enc(p) } else { self.dec(p) });
        Ok(self.bs)
    }
}

/// digest with `out` output bytes and `block` byte blocks, a small mixing function
#[derive(Clone)]
pub struct ToyDigest { pub out: usize, pub block: usize, pub data: Vec<u8>, pub done: bool }
impl ToyDigest {
    pub fn new(out: usize, block: usize) -> ToyDigest { ToyDigest { out, block, data: vec![], done: false } }
}
pub fn toy_hash(out: usize, m: &[u8]) -> Vec<u8> {
    let mut s = 0x2545F491u32 ^ out as u32;
    for &b in m { s = (s ^ b as u32).wrapping_mul(0x01000193).rotate_left(7) ^ (s >> 5); }
    s ^= m.len() as u32;
    (0..out).map(|i| {
        s = s.wrapping_mul(1664525).wrapping_add(1013904223 + i as u32);
        (s >> 24) as u8 ^ (s >> 11) as u8
    }).collect()
}
impl Digest for ToyDigest {
    fn block_size(&self) -> Option<usize> { Some(self.block) }
    fn bits_len(&self) -> usize { self.out * 8 }
    fn write(&mut self, d: &[u8]) {
        if self.done { self.data.clear(); self.done = false; }
        self.data.extend_from_slice(d)
    }
    fn checksum(&mut self, digest: &mut Vec<u8>) {
        digest.clear();
        digest.extend(toy_hash(self.out, &self.data));
        self.done = true;
    }
    fn reset(&mut self) { self.data.clear(); self.done = false; }
}

/// identity-like digest: the output is the message itself cut/padded to `out` bytes, so that every
/// digest value can be produced
#[derive(Clone)]
pub struct RawDigest { pub out: usize, pub block: usize, pub data: Vec<u8>, pub done: bool }
impl RawDigest {
    pub fn new(out: usize, block: usize) -> RawDigest { RawDigest { out, block, data: vec![], done: false } }
}
pub fn raw_hash(out: usize, m: &[u8]) -> Vec<u8> {
    let mut v = m.to_vec();
    v.resize(out, 0);
    v
}
impl Digest for RawDigest {
    fn block_size(&self) -> Option<usize> { Some(self.block) }
    fn bits_len(&self) -> usize { self.out * 8 }
    fn write(&mut self, d: &[u8]) {
        if self.done { self.data.clear(); self.done = false; }
        self.data.extend_from_slice(d)
    }
    fn checksum(&mut self, digest: &mut Vec<u8>) {
        digest.clear();
        digest.extend(raw_hash(self.out, &self.data));
        self.done = true;
    }
    fn reset(&mut self) { self.data.clear(); self.done = false; }
}
