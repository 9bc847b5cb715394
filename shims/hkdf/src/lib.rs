//! Stand-in for `hkdf` (RFC 5869), and the HMAC and PBKDF2 it shares with the stand-in for `scrypt`.
use sha2::{digest::Digest, Sha256};
use std::marker::PhantomData;

pub fn hmac(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&Sha256::digest(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut h = Sha256::new();
    h.update(k.map(|b| b ^ 0x36));
    parts.iter().for_each(|p| h.update(p));
    let inner = h.finalize();
    let mut h = Sha256::new();
    h.update(k.map(|b| b ^ 0x5c));
    h.update(inner);
    h.finalize().into()
}
pub fn pbkdf2(pass: &[u8], salt: &[u8], rounds: u32, out: &mut [u8]) {
    for (i, chunk) in out.chunks_mut(32).enumerate() {
        let mut u = hmac(pass, &[salt, &(i as u32 + 1).to_be_bytes()]);
        let mut t = u;
        for _ in 1..rounds {
            u = hmac(pass, &[&u]);
            t.iter_mut().zip(u).for_each(|(x, y)| *x ^= y);
        }
        chunk.copy_from_slice(&t[..chunk.len()]);
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct InvalidLength;
impl std::fmt::Display for InvalidLength {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("invalid number of blocks, too large output")
    }
}
impl std::error::Error for InvalidLength {}

#[derive(Clone)]
pub struct Hkdf<H> {
    prk: [u8; 32],
    _h: PhantomData<H>,
}
impl Hkdf<Sha256> {
    pub fn new(salt: Option<&[u8]>, ikm: &[u8]) -> Self {
        Self { prk: hmac(salt.unwrap_or(&[0; 32]), &[ikm]), _h: PhantomData }
    }
    pub fn extract(salt: Option<&[u8]>, ikm: &[u8]) -> ([u8; 32], Self) {
        let h = Self::new(salt, ikm);
        (h.prk, h)
    }
    pub fn expand(&self, info: &[u8], okm: &mut [u8]) -> Result<(), InvalidLength> {
        if okm.len() > 255 * 32 {
            return Err(InvalidLength)
        }
        let mut prev: Vec<u8> = vec![];
        for (i, c) in okm.chunks_mut(32).enumerate() {
            prev = hmac(&self.prk, &[&prev, info, &[i as u8 + 1]]).to_vec();
            c.copy_from_slice(&prev[..c.len()]);
        }
        Ok(())
    }
    pub fn expand_multi_info(&self, info: &[&[u8]], okm: &mut [u8]) -> Result<(), InvalidLength> {
        self.expand(&info.concat(), okm)
    }
}
