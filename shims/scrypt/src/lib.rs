//! Stand-in for `scrypt` (RFC 7914) with the password-hash interface of the real crate.
use password_hash::{Decimal, Error, Ident, Output, PasswordHash, PasswordHasher, Salt};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Params {
    log_n: u8,
    r: u32,
    p: u32,
    len: usize,
}
pub mod errors {
    #[derive(Debug, Clone, Copy)]
    pub struct InvalidParams;
    #[derive(Debug, Clone, Copy)]
    pub struct InvalidOutputLen;
}
impl Params {
    pub const RECOMMENDED_LOG_N: u8 = 17;
    pub const RECOMMENDED_R: u32 = 8;
    pub const RECOMMENDED_P: u32 = 1;
    pub const RECOMMENDED_LEN: usize = 32;
    pub fn new(log_n: u8, r: u32, p: u32, len: usize) -> Result<Self, errors::InvalidParams> {
        let ok = log_n > 0 && log_n < 64 && r > 0 && p > 0 && (10..=64).contains(&len) && (log_n as u64) < r as u64 * 16;
        if ok { Ok(Self { log_n, r, p, len }) } else { Err(errors::InvalidParams) }
    }
    pub const fn recommended() -> Self {
        Self { log_n: 17, r: 8, p: 1, len: 32 }
    }
    pub fn log_n(&self) -> u8 {
        self.log_n
    }
    pub fn r(&self) -> u32 {
        self.r
    }
    pub fn p(&self) -> u32 {
        self.p
    }
}
impl Default for Params {
    fn default() -> Self {
        Self::recommended()
    }
}

fn salsa8(b: &mut [u32; 16]) {
    let mut x = *b;
    macro_rules! q { ($($d:literal $a:literal $c:literal $n:literal),*) => { $( x[$d] ^= x[$a].wrapping_add(x[$c]).rotate_left($n); )* } }
    for _ in 0..4 {
        q!(4 0 12 7, 8 4 0 9, 12 8 4 13, 0 12 8 18, 9 5 1 7, 13 9 5 9, 1 13 9 13, 5 1 13 18, 14 10 6 7, 2 14 10 9, 6 2 14 13, 10 6 2 18, 3 15 11 7, 7 3 15 9, 11 7 3 13, 15 11 7 18);
        q!(1 0 3 7, 2 1 0 9, 3 2 1 13, 0 3 2 18, 6 5 4 7, 7 6 5 9, 4 7 6 13, 5 4 7 18, 11 10 9 7, 8 11 10 9, 9 8 11 13, 10 9 8 18, 12 15 14 7, 13 12 15 9, 14 13 12 13, 15 14 13 18);
    }
    for i in 0..16 {
        b[i] = b[i].wrapping_add(x[i]);
    }
}
fn blockmix(b: &[u32], y: &mut [u32], r: usize) {
    let mut x: [u32; 16] = b[(2 * r - 1) * 16..].try_into().unwrap();
    for i in 0..2 * r {
        for k in 0..16 {
            x[k] ^= b[i * 16 + k];
        }
        salsa8(&mut x);
        let o = (if i % 2 == 0 { i / 2 } else { r + i / 2 }) * 16;
        y[o..o + 16].copy_from_slice(&x);
    }
}
pub fn scrypt(pass: &[u8], salt: &[u8], params: &Params, out: &mut [u8]) -> Result<(), errors::InvalidOutputLen> {
    if out.is_empty() {
        return Err(errors::InvalidOutputLen)
    }
    let (n, r, p) = (1usize << params.log_n, params.r as usize, params.p as usize);
    let w = 32 * r;
    let mut b = vec![0u8; p * 128 * r];
    hkdf::pbkdf2(pass, salt, 1, &mut b);
    let mut v = vec![0u32; n * w];
    for chunk in b.chunks_mut(128 * r) {
        let mut x: Vec<u32> = chunk.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
        let mut y = vec![0u32; w];
        for i in 0..n {
            v[i * w..(i + 1) * w].copy_from_slice(&x);
            blockmix(&x, &mut y, r);
            std::mem::swap(&mut x, &mut y);
        }
        for _ in 0..n {
            let j = (x[(2 * r - 1) * 16] as usize) & (n - 1);
            for k in 0..w {
                x[k] ^= v[j * w + k];
            }
            blockmix(&x, &mut y, r);
            std::mem::swap(&mut x, &mut y);
        }
        for (c, x) in chunk.chunks_mut(4).zip(&x) {
            c.copy_from_slice(&x.to_le_bytes());
        }
    }
    hkdf::pbkdf2(pass, &b, 1, out);
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Scrypt;
impl PasswordHasher for Scrypt {
    type Params = Params;
    fn hash_password_customized<'a>(
        &self,
        password: &[u8],
        _alg: Option<Ident<'a>>,
        _version: Option<Decimal>,
        params: Params,
        salt: impl Into<Salt<'a>>,
    ) -> password_hash::Result<PasswordHash<'a>> {
        let salt = salt.into();
        let mut buf = [0u8; 64];
        let bytes = salt.decode_b64(&mut buf)?;
        let mut out = vec![0u8; params.len];
        scrypt(password, bytes, &params, &mut out).map_err(|_| Error::OutputSize)?;
        Ok(PasswordHash { salt: Some(salt), hash: Some(Output(out)) })
    }
}

pub mod password_hash {
    pub mod rand_core {
        pub use ::rand_core::*;
    }
    use rand_core::{CryptoRng, RngCore};
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Error {
        B64Encoding,
        SaltInvalid,
        OutputSize,
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = core::result::Result<T, Error>;
    pub type Decimal = u32;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Ident<'a>(pub &'a str);
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Output(pub(crate) Vec<u8>);
    impl Output {
        pub fn as_bytes(&self) -> &[u8] {
            &self.0
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
    }
    impl AsRef<[u8]> for Output {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct PasswordHash<'a> {
        pub salt: Option<Salt<'a>>,
        pub hash: Option<Output>,
    }
    pub trait PasswordHasher {
        type Params: Default;
        fn hash_password_customized<'a>(
            &self,
            password: &[u8],
            alg: Option<Ident<'a>>,
            version: Option<Decimal>,
            params: Self::Params,
            salt: impl Into<Salt<'a>>,
        ) -> Result<PasswordHash<'a>>;
        fn hash_password<'a>(&self, password: &[u8], salt: impl Into<Salt<'a>>) -> Result<PasswordHash<'a>> {
            self.hash_password_customized(password, None, None, Self::Params::default(), salt)
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Salt<'a>(&'a str);
    const ALPHABET: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    impl<'a> Salt<'a> {
        pub const MIN_LENGTH: usize = 4;
        pub const MAX_LENGTH: usize = 64;
        pub const RECOMMENDED_LENGTH: usize = 16;
        pub fn from_b64(s: &'a str) -> Result<Self> {
            if s.len() < Self::MIN_LENGTH || s.len() > Self::MAX_LENGTH {
                return Err(Error::SaltInvalid)
            }
            Ok(Self(s))
        }
        pub fn as_str(&self) -> &'a str {
            self.0
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn decode_b64<'b>(&self, buf: &'b mut [u8]) -> Result<&'b [u8]> {
            let (mut acc, mut n, mut k) = (0u32, 0, 0);
            for c in self.0.bytes() {
                let d = ALPHABET.iter().position(|x| *x == c).ok_or(Error::B64Encoding)?;
                acc = acc << 6 | d as u32;
                n += 6;
                if n >= 8 {
                    n -= 8;
                    *buf.get_mut(k).ok_or(Error::B64Encoding)? = (acc >> n) as u8;
                    acc &= (1 << n) - 1;
                    k += 1;
                }
            }
            if acc != 0 || n == 6 {
                return Err(Error::B64Encoding)
            }
            Ok(&buf[..k])
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct SaltString(String);
    impl SaltString {
        pub fn generate(mut rng: impl CryptoRng + RngCore) -> Self {
            let mut b = [0u8; Salt::RECOMMENDED_LENGTH];
            rng.fill_bytes(&mut b);
            Self::encode_b64(&b).unwrap()
        }
        pub fn encode_b64(b: &[u8]) -> Result<Self> {
            let mut s = String::new();
            for c in b.chunks(3) {
                let x = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
                for i in 0..=c.len() {
                    s.push(ALPHABET[(x >> (18 - 6 * i)) as usize & 63] as char);
                }
            }
            Self::from_b64(&s)
        }
        pub fn from_b64(s: &str) -> Result<Self> {
            Salt::from_b64(s)?;
            Ok(Self(s.to_string()))
        }
        pub fn decode_b64<'a>(&self, buf: &'a mut [u8]) -> Result<&'a [u8]> {
            self.as_salt().decode_b64(buf)
        }
        pub fn as_salt(&self) -> Salt<'_> {
            Salt(&self.0)
        }
        pub fn as_str(&self) -> &str {
            &self.0
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
    }
    impl<'a> From<&'a SaltString> for Salt<'a> {
        fn from(s: &'a SaltString) -> Self {
            s.as_salt()
        }
    }
}
#[cfg(test)]
mod tests {
    #[test]
    fn rfc7914() {
        let mut out = [0u8; 64];
        let p = super::Params { log_n: 10, r: 8, p: 16, len: 64 };
        super::scrypt(b"password", b"NaCl", &p, &mut out).unwrap();
        assert_eq!(out[..8], [0xfd, 0xba, 0xbe, 0x1c, 0x9d, 0x34, 0x72, 0x00]);
    }
}
