//! Independent reference implementations, written from the standards.
//! They share no code with the library under test.
pub mod big;
pub mod aes;
pub mod des;
pub mod sm4;
pub mod hashes;
pub mod keccak;
pub mod zuc;
pub mod modes;
pub mod ec;
pub mod pk;
