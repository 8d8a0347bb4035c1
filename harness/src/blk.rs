//! Block ciphers of the library behind one interface, and comparisons shared by their checks.
use crate::engine::{hx, R, T};
use crate::enumr::{fill, At};
use crate::refs::cipher::RefCipher;

pub trait Blk {
    fn e(&self, dst: &mut Vec<u8>, b: &[u8]) -> Result<usize, String>;
    fn d(&self, dst: &mut Vec<u8>, b: &[u8]) -> Result<usize, String>;
    fn bsz(&self) -> Option<usize>;
    fn dup(&self) -> Box<dyn Blk>;
}
macro_rules! blk {
    ($lib:ident, $($t:ty),*) => { $(
        impl Blk for $t {
            fn e(&self, dst: &mut Vec<u8>, b: &[u8]) -> Result<usize, String> { $lib::Cipher::encrypt(self, dst, b).map_err(|e| format!("{}", e)) }
            fn d(&self, dst: &mut Vec<u8>, b: &[u8]) -> Result<usize, String> { $lib::Cipher::decrypt(self, dst, b).map_err(|e| format!("{}", e)) }
            fn bsz(&self) -> Option<usize> { $lib::Cipher::block_size(self) }
            fn dup(&self) -> Box<dyn Blk> { Box::new(self.clone()) }
        }
    )* };
}
blk!(rcrypto, rcrypto::AES, rcrypto::DES, rcrypto::TDES, rcrypto::SM4, crate::toy::ToyCipher);
#[cfg(feature = "portable")]
blk!(rcrypto_portable, rcrypto_portable::AES);

/// encrypts and decrypts one block (into buffers with old content) and compares both directions
pub fn both(what: &dyn Fn() -> String, c: &dyn Blk, r: &dyn RefCipher, b: &[u8], t: &T) -> R {
    let ct = r.enc(b);
    let mut out = vec![0xa5; 5];
    t.steps(3);
    match c.e(&mut out, b) {
        Ok(n) if n == b.len() => {}
        x => return Err(format!("{}: encrypt of {} returned {:?}", what(), hx(b), x)),
    }
    t.eq(&|| format!("{}: encrypt of {}", what(), hx(b)), &out, &ct)?;
    let mut back = vec![];
    match c.d(&mut back, &ct) {
        Ok(n) if n == b.len() => {}
        x => return Err(format!("{}: decrypt returned {:?}", what(), x)),
    }
    t.eq(&|| format!("{}: decrypt of {}", what(), hx(&ct)), &back, b)?;
    // the same buffer again, now holding a full block
    c.d(&mut back, b).map_err(|e| format!("{}: decrypt of {} refused: {}", what(), hx(b), e))?;
    t.eq(&|| format!("{}: decrypt of {}", what(), hx(b)), &back, &r.dec(b))
}

/// blocks of a wrong length must be refused and leave nothing that looks like output
pub fn wrong_length(what: &str, c: &dyn Blk, bs: usize, n: usize, t: &T) -> R {
    let b = vec![0x3c; n];
    for pre in [0usize, 3, bs] {
        for dec in [false, true] {
            let old = vec![0x77u8; pre];
            let mut out = old.clone();
            let r = if dec { c.d(&mut out, &b) } else { c.e(&mut out, &b) };
            t.step();
            if r.is_ok() { return Err(format!("{}: block of {} bytes accepted", what, n)); }
            if !out.is_empty() && out != old { return Err(format!("{}: refused block of {} bytes left {} in the output", what, n, hx(&out))); }
        }
    }
    t.trace();
    if c.bsz() != Some(bs) { return Err(format!("{}: block size {:?}", what, c.bsz())); }
    Ok(())
}

/// blocks at every address modulo 64
pub fn addresses(what: &dyn Fn() -> String, c: &dyn Blk, r: &dyn RefCipher, bs: usize, t: &T) -> R {
    for off in 0..64 {
        let b = At::new(off, &fill(bs, 7 + off));
        both(&|| format!("{}: block at an address {} above a multiple of 64", what(), off), c, r, b.get(), t)?;
        let ct = r.enc(b.get());
        let e = At::new(off, &ct);
        let mut o = vec![];
        t.step();
        c.d(&mut o, e.get()).map_err(|e| format!("{}: refused a block at an address {} above a multiple of 64: {}", what(), off, e))?;
        t.eq(&|| format!("{}: decrypt of a block at an address {} above a multiple of 64", what(), off), &o, b.get())?;
    }
    Ok(())
}
