//! Reference models: straightforward transcriptions of the standards, written
//! without looking at the structure of the library under test.
pub mod bn;
pub mod cipher;
pub mod ec;
pub mod hash;
pub mod mac;
pub mod modes;
pub mod rsa;
pub mod zuc;
pub mod dsadom;
