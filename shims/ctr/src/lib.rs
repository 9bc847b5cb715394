//! Stand-in for `ctr`: counter mode with the counter in the low 32, 64 or 128 bits of the block.
use cipher::*;
pub use cipher;
pub struct Ctr<C, const BITS: u32, const BE: bool> {
    c: C,
    nonce: [u8; 16],
    n: u128,
    buf: [u8; 16],
    pos: usize,
}
pub type Ctr32BE<C> = Ctr<C, 32, true>;
pub type Ctr64BE<C> = Ctr<C, 64, true>;
pub type Ctr128BE<C> = Ctr<C, 128, true>;
pub type Ctr32LE<C> = Ctr<C, 32, false>;
pub type Ctr64LE<C> = Ctr<C, 64, false>;
pub type Ctr128LE<C> = Ctr<C, 128, false>;
impl<C: KeyInit, const BITS: u32, const BE: bool> KeyIvInit for Ctr<C, BITS, BE> {
    fn new_from_slices(key: &[u8], iv: &[u8]) -> Result<Self, InvalidLength> {
        if key.len() != C::KEY || iv.len() != 16 {
            return Err(InvalidLength)
        }
        Ok(Self { c: C::from_key(key), nonce: iv.try_into().unwrap(), n: 0, buf: [0; 16], pos: 16 })
    }
}
impl<C: BlockEncrypt, const BITS: u32, const BE: bool> StreamCipher for Ctr<C, BITS, BE> {
    fn apply_keystream(&mut self, data: &mut [u8]) {
        for d in data {
            if self.pos == 16 {
                let iv = if BE { u128::from_be_bytes(self.nonce) } else { u128::from_le_bytes(self.nonce) };
                let mask = if BITS == 128 { u128::MAX } else { (1u128 << BITS) - 1 };
                // little-endian flavours keep the counter in the first bytes, i.e. also in the low bits here
                let v = (iv & !mask) | (iv.wrapping_add(self.n) & mask);
                self.buf = if BE { v.to_be_bytes() } else { v.to_le_bytes() };
                self.c.encrypt_block16(&mut self.buf);
                self.n += 1;
                self.pos = 0;
            }
            *d ^= self.buf[self.pos];
            self.pos += 1;
        }
    }
}
