//! Ideal stand-in for `c-kzg` (not available offline): a blob is the polynomial whose coefficients are
//! its field elements, and a "commitment" is its value at a fixed secret point, so commitments, openings
//! and verification obey the algebra of KZG exactly, without curve arithmetic.
use scalar::Fr;
use std::{fmt, sync::{Arc, OnceLock}};

pub const BYTES_PER_BLOB: usize = 131072;
pub const BYTES_PER_FIELD_ELEMENT: usize = 32;

#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Error {
    InvalidBytesLength(String),
    InvalidHexFormat(String),
    InvalidKzgProof(String),
    InvalidKzgCommitment(String),
    InvalidTrustedSetup(String),
    MismatchLength(String),
    CError(String),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

fn s() -> Fr {
    Fr::hash(&[b"trusted setup"])
}
fn enc(x: &Fr) -> [u8; 48] {
    let mut o = [0u8; 48];
    if x.is_zero() {
        o[0] = 0xc0;
    } else {
        o[0] = 0x80;
        o[16..].copy_from_slice(&x.to_be());
    }
    o
}
fn dec(b: &[u8; 48]) -> Result<Fr, Error> {
    let bad = || Error::CError("BadArgs".into());
    if b[0] == 0xc0 {
        return if b[1..].iter().all(|x| *x == 0) { Ok(Fr::ZERO) } else { Err(bad()) };
    }
    if b[0] != 0x80 || b[1..16].iter().any(|x| *x != 0) {
        return Err(bad());
    }
    Fr::from_be(&b[16..]).filter(|x| !x.is_zero()).ok_or_else(bad)
}

macro_rules! bytes {
    ($name:ident, $n:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub struct $name([u8; $n]);
        impl $name {
            pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
                Ok(Self(b.try_into().map_err(|_| Error::InvalidBytesLength(format!("expected {}, got {}", $n, b.len())))?))
            }
            pub fn new(b: [u8; $n]) -> Self {
                Self(b)
            }
            pub fn to_bytes(&self) -> Self {
                *self
            }
            pub fn as_slice(&self) -> &[u8] {
                &self.0
            }
        }
        impl std::ops::Deref for $name {
            type Target = [u8; $n];
            fn deref(&self) -> &Self::Target {
                &self.0
            }
        }
    };
}
bytes!(Bytes32, 32);
bytes!(Bytes48, 48);
bytes!(KzgCommitment, 48);
bytes!(KzgProof, 48);
impl KzgCommitment {
    pub fn to_versioned_bytes(&self) -> Bytes48 {
        Bytes48(self.0)
    }
}
#[derive(Clone)]
pub struct Blob(Box<[u8]>);
impl Blob {
    pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
        if b.len() != BYTES_PER_BLOB {
            return Err(Error::InvalidBytesLength(format!("expected {}, got {}", BYTES_PER_BLOB, b.len())));
        }
        Ok(Blob(b.into()))
    }
    fn eval(&self, z: &Fr) -> Result<Fr, Error> {
        let mut r = Fr::ZERO;
        for c in self.0.chunks(32).rev() {
            let c = Fr::from_be(c).ok_or_else(|| Error::CError("BadArgs".into()))?;
            r = r.mul(z).add(&c);
        }
        Ok(r)
    }
    fn challenge(&self, c: &[u8]) -> Fr {
        Fr::hash(&[b"challenge", &self.0, c])
    }
}
pub struct KzgSettings(());
impl fmt::Debug for KzgSettings {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "KzgSettings")
    }
}
pub fn ethereum_kzg_settings_arc(_precompute: u64) -> Arc<KzgSettings> {
    static S: OnceLock<Arc<KzgSettings>> = OnceLock::new();
    S.get_or_init(|| Arc::new(KzgSettings(()))).clone()
}
fn quotient(c: &Fr, y: &Fr, z: &Fr) -> Fr {
    c.sub(y).mul(&s().sub(z).inv())
}
fn opens(c: &Fr, y: &Fr, z: &Fr, p: &Fr) -> bool {
    c.sub(y) == p.mul(&s().sub(z))
}
impl KzgSettings {
    pub fn blob_to_kzg_commitment(&self, b: &Blob) -> Result<KzgCommitment, Error> {
        Ok(KzgCommitment(enc(&b.eval(&s())?)))
    }
    pub fn compute_kzg_proof(&self, b: &Blob, z: &Bytes32) -> Result<(KzgProof, Bytes32), Error> {
        let z = Fr::from_be(&z.0).ok_or_else(|| Error::CError("BadArgs".into()))?;
        let y = b.eval(&z)?;
        Ok((KzgProof(enc(&quotient(&b.eval(&s())?, &y, &z))), Bytes32(y.to_be())))
    }
    pub fn compute_blob_kzg_proof(&self, b: &Blob, c: &Bytes48) -> Result<KzgProof, Error> {
        dec(&c.0)?;
        let z = b.challenge(&c.0);
        let y = b.eval(&z)?;
        Ok(KzgProof(enc(&quotient(&b.eval(&s())?, &y, &z))))
    }
    pub fn verify_kzg_proof(&self, c: &Bytes48, z: &Bytes32, y: &Bytes32, p: &Bytes48) -> Result<bool, Error> {
        let bad = || Error::CError("BadArgs".into());
        let (c, p) = (dec(&c.0)?, dec(&p.0)?);
        let z = Fr::from_be(&z.0).ok_or_else(bad)?;
        let y = Fr::from_be(&y.0).ok_or_else(bad)?;
        Ok(opens(&c, &y, &z, &p))
    }
    pub fn verify_blob_kzg_proof(&self, b: &Blob, c: &Bytes48, p: &Bytes48) -> Result<bool, Error> {
        let z = b.challenge(&c.0);
        let y = b.eval(&z)?;
        Ok(opens(&dec(&c.0)?, &y, &z, &dec(&p.0)?))
    }
    pub fn verify_blob_kzg_proof_batch(&self, b: &[Blob], c: &[Bytes48], p: &[Bytes48]) -> Result<bool, Error> {
        if b.len() != c.len() || b.len() != p.len() {
            return Err(Error::MismatchLength(format!("{} {} {}", b.len(), c.len(), p.len())));
        }
        let mut ok = true;
        for i in 0..b.len() {
            ok &= self.verify_blob_kzg_proof(&b[i], &c[i], &p[i])?;
        }
        Ok(ok)
    }
}
