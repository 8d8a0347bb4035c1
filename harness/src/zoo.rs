//! The library's hashes behind one interface, paired with their reference functions.
use crate::refs::hash;
use rcrypto::sha::{SHA1, SHA224, SHA256, SHA384, SHA512, SHA512T, SHA512T224, SHA512T256};
use rcrypto::sha3;
use rcrypto::{Digest, MD5, SHA, SHA3, SM3};

pub trait DynD: Digest {
    fn boxed(&self) -> Box<dyn DynD>;
}
impl<T: Digest + Clone + 'static> DynD for T {
    fn boxed(&self) -> Box<dyn DynD> { Box::new(self.clone()) }
}

/// a boxed hash usable wherever the library wants a `Digest + Clone`
pub struct BoxD(pub Box<dyn DynD>);
impl Clone for BoxD { fn clone(&self) -> BoxD { BoxD(self.0.boxed()) } }
impl Digest for BoxD {
    fn block_size(&self) -> Option<usize> { self.0.block_size() }
    fn bits_len(&self) -> usize { self.0.bits_len() }
    fn write(&mut self, data: &[u8]) { self.0.write(data) }
    fn checksum(&mut self, digest: &mut Vec<u8>) { self.0.checksum(digest) }
    fn reset(&mut self) { self.0.reset() }
}

pub struct Spec {
    pub name: &'static str,
    pub make: fn() -> Box<dyn DynD>,
    pub refh: fn(&[u8]) -> Vec<u8>,
    pub bits: usize,
    /// declared block size in bytes (what HMAC uses)
    pub block: Option<usize>,
    /// bytes absorbed at a time (padding granularity)
    pub rate: usize,
}

macro_rules! sp {
    ($n:expr, $mk:expr, $rf:expr, $bits:expr, $blk:expr, $rate:expr) => {
        Spec { name: $n, make: || Box::new($mk), refh: $rf, bits: $bits, block: $blk, rate: $rate }
    };
}

/// MD5, SHA-1, SHA-2 and SM3, through the concrete types and the SHA front end
pub fn md_family() -> Vec<Spec> {
    vec![
        sp!("MD5", MD5::new(), hash::md5, 128, Some(64), 64),
        sp!("SHA1", SHA1::new(), hash::sha1, 160, Some(64), 64),
        sp!("SHA224", SHA224::new(), hash::sha224, 224, Some(64), 64),
        sp!("SHA256", SHA256::new(), hash::sha256, 256, Some(64), 64),
        sp!("SHA384", SHA384::new(), hash::sha384, 384, Some(128), 128),
        sp!("SHA512", SHA512::new(), hash::sha512, 512, Some(128), 128),
        sp!("SHA512T224", SHA512T224::new(), |m| hash::sha512t(224, m), 224, Some(128), 128),
        sp!("SHA512T256", SHA512T256::new(), |m| hash::sha512t(256, m), 256, Some(128), 128),
        sp!("SHA512T(200)", SHA512T::new(200).unwrap(), |m| hash::sha512t(200, m), 200, Some(128), 128),
        sp!("SM3", SM3::new(), hash::sm3, 256, Some(64), 64),
        sp!("SHA::sha1", SHA::sha1(), hash::sha1, 160, Some(64), 64),
        sp!("SHA::sha224", SHA::sha224(), hash::sha224, 224, Some(64), 64),
        sp!("SHA::sha256", SHA::sha256(), hash::sha256, 256, Some(64), 64),
        sp!("SHA::sha384", SHA::sha384(), hash::sha384, 384, Some(128), 128),
        sp!("SHA::sha512", SHA::sha512(), hash::sha512, 512, Some(128), 128),
        sp!("SHA::sha512_224", SHA::sha512_224(), |m| hash::sha512t(224, m), 224, Some(128), 128),
        sp!("SHA::sha512_256", SHA::sha512_256(), |m| hash::sha512t(256, m), 256, Some(128), 128),
        sp!("SHA::sha512t(77)", SHA::sha512t(77).unwrap(), |m| hash::sha512t(77, m), 77, Some(128), 128),
    ]
}
/// SHA-3 and SHAKE
pub fn sha3_family() -> Vec<Spec> {
    vec![
        sp!("sha3::SHA224", sha3::SHA224::new(), |m| hash::sha3(224, m), 224, Some(144), 144),
        sp!("sha3::SHA256", sha3::SHA256::new(), |m| hash::sha3(256, m), 256, Some(136), 136),
        sp!("sha3::SHA384", sha3::SHA384::new(), |m| hash::sha3(384, m), 384, Some(104), 104),
        sp!("sha3::SHA512", sha3::SHA512::new(), |m| hash::sha3(512, m), 512, Some(72), 72),
        sp!("SHA3::sha224", SHA3::sha224(), |m| hash::sha3(224, m), 224, Some(144), 144),
        sp!("SHA3::sha256", SHA3::sha256(), |m| hash::sha3(256, m), 256, Some(136), 136),
        sp!("SHA3::sha384", SHA3::sha384(), |m| hash::sha3(384, m), 384, Some(104), 104),
        sp!("SHA3::sha512", SHA3::sha512(), |m| hash::sha3(512, m), 512, Some(72), 72),
        sp!("Shake128(256)", sha3::Shake128::new(256), |m| hash::shake(128, false, m, 256), 256, None, 168),
        sp!("Shake256(512)", sha3::Shake256::new(512), |m| hash::shake(256, false, m, 512), 512, None, 136),
        sp!("RawShake128(256)", sha3::Shake128::new(256).to_raw_shake(), |m| hash::shake(128, true, m, 256), 256, None, 168),
        sp!("RawShake256(512)", sha3::Shake256::new(512).to_raw_shake(), |m| hash::shake(256, true, m, 512), 512, None, 136),
    ]
}
