//! Modes of operation of the library over any cipher, padding and IV source, behind plain interfaces,
//! next to the results SP 800-38A prescribes.
use crate::blk::Blk;
use crate::refs::cipher::{Aes, Des, RefCipher, Sm4, Tdes};
use crate::refs::modes as rm;
use crate::toy::ToyCipher;
use rcrypto::cipher_mode::*;
use rcrypto::{Cipher, CryptoError, CryptoErrorKind};

fn err(s: String) -> CryptoError { CryptoError::new(CryptoErrorKind::OuterErr, s) }

/// a boxed cipher usable wherever the library wants a `Cipher + Clone`
pub struct BoxC(pub Box<dyn Blk>);
impl Clone for BoxC { fn clone(&self) -> BoxC { BoxC(self.0.dup()) } }
impl Cipher for BoxC {
    type Output = usize;
    fn block_size(&self) -> Option<usize> { self.0.bsz() }
    fn encrypt(&self, dst: &mut Vec<u8>, p: &[u8]) -> Result<usize, CryptoError> { self.0.e(dst, p).map_err(err) }
    fn decrypt(&self, dst: &mut Vec<u8>, p: &[u8]) -> Result<usize, CryptoError> { self.0.d(dst, p).map_err(err) }
}
#[derive(Clone)]
pub enum BoxP { Default(DefaultPadding<BoxC>), Empty(EmptyPadding) }
impl Padding for BoxP {
    fn padding(&self, b: &mut Vec<u8>) { match self { BoxP::Default(p) => p.padding(b), BoxP::Empty(p) => p.padding(b) } }
    fn unpadding(&self, b: &mut Vec<u8>) -> Result<usize, CryptoError> { match self { BoxP::Default(p) => p.unpadding(b), BoxP::Empty(p) => p.unpadding(b) } }
}
/// IV source with prescribed answers; the last one repeats. None = fails after scribbling on the buffer
#[derive(Clone)]
pub struct QIv { pub ivs: Vec<Option<Vec<u8>>>, pub pos: usize }
impl QIv {
    pub fn fixed(iv: &[u8]) -> QIv { QIv { ivs: vec![Some(iv.to_vec())], pos: 0 } }
}
impl InitialVec<BoxC> for QIv {
    fn initial_vec(&mut self, iv: &mut Vec<u8>) -> Result<(), CryptoError> {
        let i = self.pos.min(self.ivs.len() - 1);
        self.pos += 1;
        iv.clear();
        match &self.ivs[i] {
            Some(v) => { iv.extend_from_slice(v); Ok(()) }
            None => { iv.push(0xee); Err(err("IV source fails".into())) }
        }
    }
}
/// which cipher: toy ciphers of any block size (Anon: bytewise, without stating one) and the real ones
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ciph { Toy(usize), Anon, Aes(usize), Des, Tdes, Sm4 }
impl Ciph {
    pub fn bs(self) -> usize { match self { Ciph::Toy(b) => b, Ciph::Anon => 1, Ciph::Des | Ciph::Tdes => 8, _ => 16 } }
    pub fn lib(self) -> BoxC {
        let k: Vec<u8> = crate::enumr::fill(32, 9);
        let a8 = |o: usize| { let mut a = [0u8; 8]; a.copy_from_slice(&k[o..o + 8]); a };
        BoxC(match self {
            Ciph::Toy(b) => Box::new(ToyCipher::new(b, 0x41)),
            Ciph::Anon => Box::new(ToyCipher::anon(0x41)),
            Ciph::Aes(n) => Box::new(rcrypto::AES::new(k[..n].to_vec()).ok().unwrap()),
            Ciph::Des => Box::new(rcrypto::DES::new(a8(0))),
            Ciph::Tdes => Box::new(rcrypto::TDES::new(a8(0), a8(8), a8(16))),
            Ciph::Sm4 => Box::new(rcrypto::SM4::from_slice(&k[..16]).ok().unwrap()),
        })
    }
    pub fn reference(self) -> Box<dyn RefCipher> {
        let k: Vec<u8> = crate::enumr::fill(32, 9);
        match self {
            Ciph::Toy(b) => Box::new(ToyCipher::new(b, 0x41)),
            Ciph::Anon => Box::new(ToyCipher::anon(0x41)),
            Ciph::Aes(n) => Box::new(Aes::new(&k[..n])),
            Ciph::Des => Box::new(Des::new(&k[..8])),
            Ciph::Tdes => Box::new(Tdes(Des::new(&k[..8]), Des::new(&k[8..16]), Des::new(&k[16..24]))),
            Ciph::Sm4 => Box::new(Sm4::new(&k[..16])),
        }
    }
}
pub const REAL: [Ciph; 6] = [Ciph::Aes(16), Ciph::Aes(24), Ciph::Aes(32), Ciph::Des, Ciph::Tdes, Ciph::Sm4];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode { Ecb, Cbc, Cfb(usize), Ofb }
/// a mode with a padding (true = default padding) over a cipher
#[derive(Clone, Copy, Debug)]
pub struct Cfg { pub c: Ciph, pub m: Mode, pub pad: bool }

/// every mode/padding/segment size for a cipher that SP 800-38A with whole-block padding allows
pub fn configs(c: Ciph) -> Vec<Cfg> {
    let mut v = vec![];
    for pad in [false, true] {
        v.push(Cfg { c, m: Mode::Ecb, pad });
        v.push(Cfg { c, m: Mode::Cbc, pad });
        for s in 1..=c.bs() {
            if !pad || c.bs() % s == 0 { v.push(Cfg { c, m: Mode::Cfb(s), pad }); }
        }
    }
    v.push(Cfg { c, m: Mode::Ofb, pad: false });
    v
}
/// block sizes around the limits of a byte
pub const BIG: [usize; 11] = [48, 64, 100, 128, 200, 254, 255, 256, 257, 300, 512];
/// the configurations with a segment of one byte, half a block, all but a byte or a whole block
pub fn configs_few(c: Ciph) -> Vec<Cfg> {
    let b = c.bs();
    configs(c).into_iter().filter(|g| match g.m { Mode::Cfb(s) => s <= 2 || s == b / 2 || s + 1 >= b, _ => true }).collect()
}
impl Cfg {
    pub fn name(&self) -> String { format!("{:?}/{:?}/{}", self.c, self.m, if self.pad { "default-padding" } else { "no-padding" }) }
    fn padding(&self, c: &BoxC) -> BoxP { if self.pad { BoxP::Default(DefaultPadding::new(c)) } else { BoxP::Empty(EmptyPadding::new()) } }
    pub fn make(&self, iv: QIv) -> Result<Lib, CryptoError> { self.make_with(self.c.lib(), iv) }
    pub fn make_with(&self, c: BoxC, iv: QIv) -> Result<Lib, CryptoError> {
        let p = self.padding(&c);
        Ok(match self.m {
            Mode::Ecb => Lib::Ecb(ECB::new(c, p)),
            Mode::Cbc => Lib::Cbc(CBC::new(c, p, iv)?),
            Mode::Cfb(s) => Lib::Cfb(CFB::new(c, p, iv, 8 * s)?),
            Mode::Ofb => Lib::Ofb(OFB::new(c, iv)?),
        })
    }
    /// bytes that must be filled when nothing pads
    pub fn unit(&self) -> usize { match self.m { Mode::Cfb(s) => s, Mode::Ofb => 1, _ => self.c.bs() } }
    /// ciphertext prescribed for m; None = m must be refused
    pub fn enc(&self, r: &dyn RefCipher, iv: &[u8], m: &[u8]) -> Option<Vec<u8>> {
        let full = self.padded(m)?;
        Some(match self.m {
            Mode::Ecb => rm::ecb_enc(r, &full),
            Mode::Cbc => rm::cbc_enc(r, iv, &full),
            Mode::Cfb(s) => rm::cfb(r, iv, s, &full, false),
            Mode::Ofb => rm::ofb(r, iv, &full),
        })
    }
    pub fn padded(&self, m: &[u8]) -> Option<Vec<u8>> {
        if self.m == Mode::Ofb { return Some(m.to_vec()); }
        if !self.pad { return if m.len() % self.unit() == 0 { Some(m.to_vec()) } else { None }; }
        let mut v = m.to_vec();
        v.push(0x80);
        // CFB pads the incomplete last segment to a whole block, the others the whole message
        let base = match self.m { Mode::Cfb(s) => m.len() / s * s, _ => 0 };
        while (v.len() - base) % self.c.bs() != 0 { v.push(0); }
        Some(v)
    }
    /// raw decryption without removing a padding; None = length must be refused
    pub fn dec_raw(&self, r: &dyn RefCipher, iv: &[u8], c: &[u8]) -> Option<Vec<u8>> {
        if c.len() % self.unit() != 0 { return None; }
        Some(match self.m {
            Mode::Ecb => rm::ecb_dec(r, c),
            Mode::Cbc => rm::cbc_dec(r, iv, c),
            Mode::Cfb(s) => rm::cfb(r, iv, s, c, true),
            Mode::Ofb => rm::ofb(r, iv, c),
        })
    }
    /// plaintext prescribed for a ciphertext
    pub fn dec(&self, r: &dyn RefCipher, iv: &[u8], c: &[u8]) -> Dec {
        let raw = match self.dec_raw(r, iv, c) { Some(x) => x, None => return Dec::Refuse };
        if !self.pad { return Dec::Is(raw); }
        match rm::unpad(&raw, self.c.bs()) {
            Some(m) => Dec::Is(m),
            None => {
                // the marker followed by more than a block of zeros: never produced by the padding
                let mut t = raw;
                while t.last() == Some(&0) { t.pop(); }
                if t.last() == Some(&0x80) { t.pop(); Dec::Maybe(t) } else { Dec::Refuse }
            }
        }
    }
}
#[derive(Debug, PartialEq)]
pub enum Dec { Is(Vec<u8>), Refuse, Maybe(Vec<u8>) }
impl Dec {
    /// whether the observed result is allowed
    pub fn allows(&self, got: &Result<Vec<u8>, String>) -> bool {
        match (self, got) {
            (Dec::Is(m), Ok(g)) | (Dec::Maybe(m), Ok(g)) => m == g,
            (Dec::Refuse, Err(_)) | (Dec::Maybe(_), Err(_)) => true,
            _ => false,
        }
    }
}

#[derive(Clone)]
pub enum Lib { Ecb(ECB<BoxC, BoxP>), Cbc(CBC<BoxC, BoxP, QIv>), Cfb(CFB<BoxC, BoxP, QIv>), Ofb(OFB<BoxC, QIv>) }
macro_rules! each { ($s:expr, $x:ident => $e:expr) => { match $s { Lib::Ecb($x) => $e, Lib::Cbc($x) => $e, Lib::Cfb($x) => $e, Lib::Ofb($x) => $e } }; }
impl Lib {
    /// into a buffer that already holds something
    pub fn enc(&self, m: &[u8]) -> Result<Vec<u8>, String> { self.go(m, true) }
    pub fn dec(&self, m: &[u8]) -> Result<Vec<u8>, String> { self.go(m, false) }
    fn go(&self, m: &[u8], e: bool) -> Result<Vec<u8>, String> {
        let mut o = vec![0xdd; 3];
        let n = each!(self, x => if e { x.encrypt(&mut o, m) } else { x.decrypt(&mut o, m) }).map_err(|e| format!("{}", e))?;
        if n != o.len() { panic!("returned length {} but wrote {} bytes", n, o.len()); }
        Ok(o)
    }
    pub fn cur_iv(&self) -> Option<Vec<u8>> { match self { Lib::Ecb(_) => None, Lib::Cbc(x) => Some(x.cur_iv()), Lib::Cfb(x) => Some(x.cur_iv()), Lib::Ofb(x) => Some(x.cur_iv()) } }
    pub fn set_iv(&mut self, iv: &[u8]) -> Result<(), String> {
        match self { Lib::Ecb(_) => Ok(()), Lib::Cbc(x) => x.set_iv(iv.to_vec()), Lib::Cfb(x) => x.set_iv(iv.to_vec()), Lib::Ofb(x) => x.set_iv(iv.to_vec()) }.map_err(|e| format!("{}", e))
    }
    pub fn update_iv(&mut self) -> Result<Vec<u8>, String> {
        match self { Lib::Ecb(_) => return Ok(vec![]), Lib::Cbc(x) => x.update_iv().map(|v| v.clone()), Lib::Cfb(x) => x.update_iv().map(|v| v.clone()), Lib::Ofb(x) => x.update_iv().map(|v| v.clone()) }.map_err(|e| format!("{}", e))
    }
    pub fn stream(self, e: bool) -> Box<dyn St> {
        if e { each!(self, x => Box::new(x.encrypt_stream())) } else { each!(self, x => Box::new(x.decrypt_stream())) }
    }
}

/// a stream object
pub trait St {
    /// writes, then collects the pending output if `out` is given
    fn w(&mut self, d: &[u8], out: Option<&mut Vec<u8>>) -> Result<(), String>;
    fn f(&mut self, out: Option<&mut Vec<u8>>) -> Result<(), String>;
    fn r(&mut self);
    /// one-shot calls on the stream object
    fn one(&self, e: bool, d: &[u8]) -> Result<Vec<u8>, String>;
}
fn collect(p: Pond, out: Option<&mut Vec<u8>>) {
    if let Some(o) = out {
        let (n, before) = (o.len(), o.clone());
        let k = p.draw_off(o);
        if k != o.len() - n { panic!("draw_off returned {} but appended {} bytes", k, o.len() - n); }
        if o[..n] != before[..] { panic!("draw_off changed what was already in the buffer"); }
    }
}
macro_rules! st {
    ($tr:ident, [$($g:tt)*], $t:ty) => {
        impl $($g)* St for $t {
            fn w(&mut self, d: &[u8], out: Option<&mut Vec<u8>>) -> Result<(), String> { let p = $tr::write(self, d).map_err(|e| format!("{}", e))?; collect(p, out); Ok(()) }
            fn f(&mut self, out: Option<&mut Vec<u8>>) -> Result<(), String> { let p = $tr::finish(self).map_err(|e| format!("{}", e))?; collect(p, out); Ok(()) }
            fn r(&mut self) { self.reset() }
            fn one(&self, e: bool, d: &[u8]) -> Result<Vec<u8>, String> {
                let mut o = vec![0x99];
                (if e { self.encrypt(&mut o, d) } else { self.decrypt(&mut o, d) }).map_err(|e| format!("{}", e))?;
                Ok(o)
            }
        }
    };
}
st!(EncryptStream, [], ECBEncrypt<BoxC, BoxP>);
st!(DecryptStream, [], ECBDecrypt<BoxC, BoxP>);
st!(EncryptStream, [], CBCEncrypt<BoxC, BoxP, QIv>);
st!(DecryptStream, [], CBCDecrypt<BoxC, BoxP, QIv>);
st!(EncryptStream, [], CFBEncrypt<BoxC, BoxP, QIv>);
st!(DecryptStream, [], CFBDecrypt<BoxC, BoxP, QIv>);
st!(EncryptStream, [], OFBEncrypt<BoxC, QIv>);
st!(DecryptStream, [], OFBDecrypt<BoxC, QIv>);
st!(EncryptStream, [<T: Counter>], CTREncrypt<BoxC, T>);
st!(DecryptStream, [<T: Counter>], CTRDecrypt<BoxC, T>);
