//! Stand-in for the traits of `cipher` that key stores use.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct InvalidLength;
impl std::fmt::Display for InvalidLength {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Invalid Length")
    }
}
impl std::error::Error for InvalidLength {}

pub trait KeyInit: Sized {
    const KEY: usize;
    fn from_key(key: &[u8]) -> Self;
}
pub trait BlockEncrypt {
    fn encrypt_block16(&self, block: &mut [u8; 16]);
}
pub trait KeyIvInit: Sized {
    fn new_from_slices(key: &[u8], iv: &[u8]) -> Result<Self, InvalidLength>;
    fn new(key: &[u8; 16], iv: &[u8; 16]) -> Self {
        Self::new_from_slices(key, iv).unwrap()
    }
}
pub trait StreamCipher {
    fn apply_keystream(&mut self, data: &mut [u8]);
}
