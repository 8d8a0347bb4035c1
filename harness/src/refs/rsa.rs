//! Reference RSA encodings (RFC 8017).
use super::bn::Bn;
use super::modes::xor;

pub type H<'a> = &'a dyn Fn(&[u8]) -> Vec<u8>;

pub fn mgf1(h: H, seed: &[u8], n: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut c = 0u32;
    while out.len() < n {
        let mut s = seed.to_vec();
        s.extend_from_slice(&c.to_be_bytes());
        out.extend(h(&s));
        c += 1;
    }
    out.truncate(n);
    out
}
/// EME-OAEP encoding, None when the message is too long
pub fn oaep_encode(h: H, hlen: usize, k: usize, label: &[u8], m: &[u8], seed: &[u8]) -> Option<Vec<u8>> {
    if k < 2 * hlen + 2 || m.len() > k - 2 * hlen - 2 { return None; }
    let mut db = h(label);
    db.resize(k - m.len() - hlen - 2, 0);
    db.push(1);
    db.extend_from_slice(m);
    Some(oaep_mask(h, hlen, 0, seed, &db))
}
pub fn oaep_mask(h: H, hlen: usize, y: u8, seed: &[u8], db: &[u8]) -> Vec<u8> {
    let mdb = xor(db, &mgf1(h, seed, db.len()));
    let ms = xor(seed, &mgf1(h, &mdb, hlen));
    let mut em = vec![y];
    em.extend(ms);
    em.extend(mdb);
    em
}
pub fn oaep_decode(h: H, hlen: usize, label: &[u8], em: &[u8]) -> Option<Vec<u8>> {
    if em[0] != 0 { return None; }
    let (ms, mdb) = (&em[1..1 + hlen], &em[1 + hlen..]);
    let seed = xor(ms, &mgf1(h, mdb, hlen));
    let db = xor(mdb, &mgf1(h, &seed, mdb.len()));
    if db[..hlen] != h(label)[..] { return None; }
    let mut i = hlen;
    while i < db.len() && db[i] == 0 { i += 1; }
    if i == db.len() || db[i] != 1 { return None; }
    Some(db[i + 1..].to_vec())
}
/// EME-PKCS1-v1_5 decoding
pub fn pkcs1_decode(em: &[u8]) -> Option<Vec<u8>> {
    if em.len() < 11 || em[0] != 0 || em[1] != 2 { return None; }
    let z = em[2..].iter().position(|&b| b == 0)? + 2;
    if z - 2 < 8 { return None; }
    Some(em[z + 1..].to_vec())
}
/// DER DigestInfo prefixes
pub fn digest_info(name: &str) -> &'static [u8] {
    match name {
        "MD5" => &[0x30, 0x20, 0x30, 0x0c, 0x06, 0x08, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x02, 0x05, 0x05, 0x00, 0x04, 0x10],
        "SHA1" => &[0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14],
        "SHA224" => &[0x30, 0x2d, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x04, 0x05, 0x00, 0x04, 0x1c],
        "SHA256" => &[0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01, 0x05, 0x00, 0x04, 0x20],
        "SHA384" => &[0x30, 0x41, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x02, 0x05, 0x00, 0x04, 0x30],
        "SHA512" => &[0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03, 0x05, 0x00, 0x04, 0x40],
        "SHA512T224" => &[0x30, 0x2d, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x05, 0x05, 0x00, 0x04, 0x1c],
        "SHA512T256" => &[0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x06, 0x05, 0x00, 0x04, 0x20],
        _ => panic!("no digest info for {}", name),
    }
}
pub fn emsa_pkcs1(name: &str, hash: &[u8], k: usize) -> Option<Vec<u8>> {
    let t = digest_info(name);
    if k < t.len() + hash.len() + 11 { return None; }
    let mut em = vec![0, 1];
    em.resize(k - t.len() - hash.len() - 1, 0xff);
    em.push(0);
    em.extend_from_slice(t);
    em.extend_from_slice(hash);
    Some(em)
}
/// EMSA-PSS encoding, em_bits = modulus bits - 1
pub fn pss_encode(h: H, hlen: usize, mhash: &[u8], salt: &[u8], em_bits: usize) -> Option<Vec<u8>> {
    let em_len = (em_bits + 7) / 8;
    if em_len < hlen + salt.len() + 2 { return None; }
    let mut m = vec![0u8; 8];
    m.extend_from_slice(mhash);
    m.extend_from_slice(salt);
    let hh = h(&m);
    let mut db = vec![0u8; em_len - salt.len() - hlen - 2];
    db.push(1);
    db.extend_from_slice(salt);
    let mut mdb = xor(&db, &mgf1(h, &hh, em_len - hlen - 1));
    mdb[0] &= 0xff >> (8 * em_len - em_bits);
    mdb.extend(hh);
    mdb.push(0xbc);
    Some(mdb)
}
/// slen None: recover the salt length from the position of the separator
pub fn pss_verify(h: H, hlen: usize, mhash: &[u8], em: &[u8], em_bits: usize, slen: Option<usize>) -> bool {
    let em_len = (em_bits + 7) / 8;
    if em.len() != em_len || em_len < hlen + slen.unwrap_or(0) + 2 || em[em_len - 1] != 0xbc { return false; }
    let (mdb, hh) = (&em[..em_len - hlen - 1], &em[em_len - hlen - 1..em_len - 1]);
    let mask = 0xffu8 >> (8 * em_len - em_bits);
    if mdb[0] & !mask != 0 { return false; }
    let mut db = xor(mdb, &mgf1(h, hh, mdb.len()));
    db[0] &= mask;
    let one = match slen {
        Some(s) => em_len - hlen - s - 2,
        None => match db.iter().position(|&b| b != 0) { Some(p) => p, None => return false },
    };
    if db[..one].iter().any(|&b| b != 0) || db[one] != 1 { return false; }
    let mut m = vec![0u8; 8];
    m.extend_from_slice(mhash);
    m.extend_from_slice(&db[one + 1..]);
    h(&m) == hh
}

/// RSA private key facts recomputed from (n, e, d)
pub fn factor_small(n: u64) -> Vec<u64> {
    let mut n = n;
    let mut v = vec![];
    let mut p = 2;
    while p * p <= n {
        while n % p == 0 { v.push(p); n /= p; }
        p += 1;
    }
    if n > 1 { v.push(n); }
    v
}
/// splits n = p*q given a working (e, d)
pub fn factor_from_d(n: &Bn, e: &Bn, d: &Bn) -> Option<(Bn, Bn)> {
    let one = Bn::one();
    let mut t = e.mul(d);
    if t.is_zero() { return None; }
    t = t.sub(&one);
    let mut s = 0;
    while !t.is_zero() && !t.is_odd() { t = t.shr(1); s += 1; }
    let nm1 = n.sub(&one);
    for g in 2..200u64 {
        let mut x = Bn::from_u64(g).powm(&t, n);
        for _ in 0..s {
            let y = x.mulm(&x, n);
            if y == one && x != one && x != nm1 {
                let p = x.sub(&one).gcd(n);
                if p != one && &p != n { let q = n.divrem(&p).0; return Some((p, q)); }
            }
            x = y;
        }
    }
    None
}
