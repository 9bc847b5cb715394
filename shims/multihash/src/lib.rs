//! Stand-in for `multihash` 0.16 (the default codes, 64-byte digests; hashes nothing).
use std::fmt;
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Multihash {
    code: u64,
    size: u8,
    digest: [u8; 64],
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Code {
    Sha2_256,
    Sha2_512,
    Sha3_224,
    Sha3_256,
    Sha3_384,
    Sha3_512,
    Keccak224,
    Keccak256,
    Keccak384,
    Keccak512,
    Blake2b256,
    Blake2b512,
    Blake2s128,
    Blake2s256,
    Blake3_256,
    Identity,
}
impl From<Code> for u64 {
    fn from(c: Code) -> u64 {
        (0..0xb261).find(|v| Code::try_from(*v).ok() == Some(c)).unwrap()
    }
}
impl TryFrom<u64> for Code {
    type Error = Error;
    fn try_from(v: u64) -> Result<Self, Error> {
        match v {
            0 => Ok(Code::Identity),
            0x12 => Ok(Code::Sha2_256),
            0x13 => Ok(Code::Sha2_512),
            0x17 => Ok(Code::Sha3_224),
            0x16 => Ok(Code::Sha3_256),
            0x15 => Ok(Code::Sha3_384),
            0x14 => Ok(Code::Sha3_512),
            0x1a => Ok(Code::Keccak224),
            0x1b => Ok(Code::Keccak256),
            0x1c => Ok(Code::Keccak384),
            0x1d => Ok(Code::Keccak512),
            0xb220 => Ok(Code::Blake2b256),
            0xb240 => Ok(Code::Blake2b512),
            0xb250 => Ok(Code::Blake2s128),
            0xb260 => Ok(Code::Blake2s256),
            0x1e => Ok(Code::Blake3_256),
            _ => Err(Error::UnsupportedCode(v)),
        }
    }
}
#[derive(Debug)]
pub enum Error {
    Io(std::io::Error),
    UnsupportedCode(u64),
    InvalidSize(u64),
    Varint,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
fn put(mut v: u64, o: &mut Vec<u8>) {
    while v >= 0x80 {
        o.push(v as u8 | 0x80);
        v >>= 7;
    }
    o.push(v as u8);
}
fn take(b: &[u8]) -> Result<(u64, &[u8]), Error> {
    let mut v = 0u64;
    for (i, x) in b.iter().enumerate() {
        if i > 9 {
            return Err(Error::Varint);
        }
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x & 0x80 == 0 {
            if *x == 0 && i > 0 {
                return Err(Error::Varint);
            }
            return Ok((v, &b[i + 1..]));
        }
    }
    Err(Error::Varint)
}
impl Multihash {
    pub fn wrap(code: u64, d: &[u8]) -> Result<Self, Error> {
        if d.len() > 64 {
            return Err(Error::InvalidSize(d.len() as u64));
        }
        let mut digest = [0; 64];
        digest[..d.len()].copy_from_slice(d);
        Ok(Self { code, size: d.len() as u8, digest })
    }
    pub fn code(&self) -> u64 {
        self.code
    }
    pub fn size(&self) -> u8 {
        self.size
    }
    pub fn digest(&self) -> &[u8] {
        &self.digest[..self.size as usize]
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        put(self.code, &mut o);
        put(self.size as u64, &mut o);
        o.extend_from_slice(self.digest());
        o
    }
    pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
        let (code, b) = take(b)?;
        let (n, b) = take(b)?;
        if n > 64 || n != b.len() as u64 {
            return Err(Error::InvalidSize(n));
        }
        Self::wrap(code, b)
    }
}
