//! Shared machinery of the checks.
#![allow(clippy::all)]
pub mod engine;
pub mod enumr;
pub mod refs;
pub mod toy;
pub mod scripted;
pub mod blk;
pub mod modes;
pub mod zoo;
pub mod rsak;
pub mod dsak;
pub mod eck;
