//! Reference modes of operation (SP 800-38A) on whole blocks/segments.
use super::cipher::RefCipher;

pub fn xor(a: &[u8], b: &[u8]) -> Vec<u8> { a.iter().zip(b).map(|(x, y)| x ^ y).collect() }

/// 10* padding to a whole number of blocks: at least one byte, at most one block
pub fn pad(m: &[u8], bs: usize) -> Vec<u8> {
    let mut v = m.to_vec();
    v.push(0x80);
    while v.len() % bs != 0 { v.push(0); }
    v
}
/// strips 0x80 00*; None when the data does not end in such a pattern within the last `bs` bytes
pub fn unpad(m: &[u8], bs: usize) -> Option<Vec<u8>> {
    let mut i = m.len();
    while i > 0 && m[i - 1] == 0 && m.len() - i < bs { i -= 1; }
    if i == 0 || m[i - 1] != 0x80 || m.len() - (i - 1) > bs { return None; }
    Some(m[..i - 1].to_vec())
}
pub fn ecb_enc(c: &dyn RefCipher, m: &[u8]) -> Vec<u8> { m.chunks(c.bs()).flat_map(|b| c.enc(b)).collect() }
pub fn ecb_dec(c: &dyn RefCipher, m: &[u8]) -> Vec<u8> { m.chunks(c.bs()).flat_map(|b| c.dec(b)).collect() }
pub fn cbc_enc(c: &dyn RefCipher, iv: &[u8], m: &[u8]) -> Vec<u8> {
    let mut prev = iv.to_vec();
    let mut out = vec![];
    for b in m.chunks(c.bs()) {
        prev = c.enc(&xor(b, &prev));
        out.extend_from_slice(&prev);
    }
    out
}
pub fn cbc_dec(c: &dyn RefCipher, iv: &[u8], m: &[u8]) -> Vec<u8> {
    let mut prev = iv.to_vec();
    let mut out = vec![];
    for b in m.chunks(c.bs()) {
        out.extend(xor(&c.dec(b), &prev));
        prev = b.to_vec();
    }
    out
}
/// s bytes per segment
pub fn cfb(c: &dyn RefCipher, iv: &[u8], s: usize, m: &[u8], dec: bool) -> Vec<u8> {
    let mut reg = iv.to_vec();
    let mut out = vec![];
    for seg in m.chunks(s) {
        let o = xor(seg, &c.enc(&reg)[..s]);
        let ct = if dec { seg } else { &o[..] };
        reg.extend_from_slice(ct);
        reg = reg[s..].to_vec();
        out.extend(&o);
    }
    out
}
pub fn ofb(c: &dyn RefCipher, iv: &[u8], m: &[u8]) -> Vec<u8> {
    let mut reg = iv.to_vec();
    let mut out = vec![];
    for b in m.chunks(c.bs()) {
        reg = c.enc(&reg);
        out.extend(xor(b, &reg));
    }
    out
}
/// counter blocks are given explicitly
pub fn ctr(c: &dyn RefCipher, ctr_block: &mut dyn FnMut(usize) -> Vec<u8>, m: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for (i, b) in m.chunks(c.bs()).enumerate() { out.extend(xor(b, &c.enc(&ctr_block(i)))); }
    out
}
