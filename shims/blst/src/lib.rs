//! Ideal (functionally exact, cryptographically trivial) stand-in for `blst`, which is not available
//! offline: a "curve point" is its discrete logarithm, so signatures, aggregation and verification obey
//! exactly the algebra of BLS (same accept/reject behaviour for honest and mixed-up inputs), while no
//! curve arithmetic is involved. Key derivation (EIP-2333) is the real one.
use scalar::{hkdf_mod_r, Fr};

#[allow(non_camel_case_types)]
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum BLST_ERROR {
    BLST_SUCCESS,
    BLST_BAD_ENCODING,
    BLST_POINT_NOT_ON_CURVE,
    BLST_POINT_NOT_IN_GROUP,
    BLST_AGGR_TYPE_MISMATCH,
    BLST_VERIFY_FAIL,
    BLST_PK_IS_INFINITY,
    BLST_BAD_SCALAR,
}
use BLST_ERROR::*;

pub mod min_pk {
    use super::*;
    /// A point of the whole curve: its part in the prime-order group, and its part of small order
    /// (a group of three), which a pairing does not see and only the subgroup checks find.
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    struct Point(Fr, u8);
    impl Point {
        const ZERO: Point = Point(Fr::ZERO, 0);
        fn is_zero(&self) -> bool {
            self.0.is_zero() && self.1 == 0
        }
        fn add(&self, o: &Point) -> Point {
            Point(self.0.add(&o.0), (self.1 + o.1) % 3)
        }
        fn in_group(&self) -> bool {
            self.1 == 0
        }
    }
    fn enc<const N: usize>(x: &Point) -> [u8; N] {
        let mut o = [0u8; N];
        if x.is_zero() {
            o[0] = 0xc0;
            return o;
        }
        o[0] = 0x80;
        o[1] = x.1;
        o[N - 32..].copy_from_slice(&x.0.to_be());
        o
    }
    fn dec<const N: usize>(b: &[u8]) -> Result<Point, BLST_ERROR> {
        if b.len() != N || b[0] & 0x80 == 0 {
            return Err(BLST_BAD_ENCODING);
        }
        if b[0] & 0x40 != 0 {
            return if b[0] == 0xc0 && b[1..].iter().all(|x| *x == 0) {
                Ok(Point::ZERO)
            } else {
                Err(BLST_BAD_ENCODING)
            };
        }
        if b[0] != 0x80 || b[1] > 2 || b[2..N - 32].iter().any(|x| *x != 0) {
            return Err(BLST_POINT_NOT_ON_CURVE);
        }
        match Fr::from_be(&b[N - 32..]) {
            Some(x) if !x.is_zero() || b[1] != 0 => Ok(Point(x, b[1])),
            _ => Err(BLST_POINT_NOT_ON_CURVE),
        }
    }
    fn h2(msg: &[u8], dst: &[u8], aug: &[u8]) -> Fr {
        Fr::hash(&[dst, aug, msg])
    }
    #[derive(Clone, Default, Debug)]
    pub struct SecretKey(Fr);
    impl SecretKey {
        pub fn key_gen(ikm: &[u8], info: &[u8]) -> Result<Self, BLST_ERROR> {
            if ikm.len() < 32 {
                return Err(BLST_BAD_ENCODING);
            }
            Ok(SecretKey(hkdf_mod_r(ikm, info, false)))
        }
        pub fn derive_master_eip2333(ikm: &[u8]) -> Result<Self, BLST_ERROR> {
            if ikm.len() < 32 {
                return Err(BLST_BAD_ENCODING);
            }
            Ok(SecretKey(hkdf_mod_r(ikm, &[], true)))
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            if b.len() != 32 {
                return Err(BLST_BAD_ENCODING);
            }
            match Fr::from_be(b) {
                Some(x) if !x.is_zero() => Ok(SecretKey(x)),
                _ => Err(BLST_BAD_ENCODING),
            }
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0.to_be()
        }
        pub fn sk_to_pk(&self) -> PublicKey {
            PublicKey(Point(self.0, 0))
        }
        pub fn sign(&self, msg: &[u8], dst: &[u8], aug: &[u8]) -> Signature {
            Signature(Point(self.0.mul(&h2(msg, dst, aug)), 0))
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct PublicKey(Point);
    impl PublicKey {
        pub fn key_validate(b: &[u8]) -> Result<Self, BLST_ERROR> {
            let pk = Self::from_bytes(b)?;
            pk.validate()?;
            Ok(pk)
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Ok(PublicKey(dec::<48>(b)?))
        }
        pub fn validate(&self) -> Result<(), BLST_ERROR> {
            if self.0.is_zero() {
                Err(BLST_PK_IS_INFINITY)
            } else if !self.0.in_group() {
                Err(BLST_POINT_NOT_IN_GROUP)
            } else {
                Ok(())
            }
        }
        pub fn to_bytes(&self) -> [u8; 48] {
            enc(&self.0)
        }
        pub fn compress(&self) -> [u8; 48] {
            enc(&self.0)
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Signature(Point);
    impl Signature {
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Ok(Signature(dec::<96>(b)?))
        }
        pub fn to_bytes(&self) -> [u8; 96] {
            enc(&self.0)
        }
        pub fn validate(&self, infcheck: bool) -> Result<(), BLST_ERROR> {
            if infcheck && self.0.is_zero() {
                Err(BLST_PK_IS_INFINITY)
            } else if !self.0.in_group() {
                Err(BLST_POINT_NOT_IN_GROUP)
            } else {
                Ok(())
            }
        }
        pub fn verify(&self, groupcheck: bool, msg: &[u8], dst: &[u8], aug: &[u8], pk: &PublicKey, pk_validate: bool) -> BLST_ERROR {
            self.check(groupcheck, &[msg], dst, aug, &[pk], pk_validate)
        }
        pub fn aggregate_verify(&self, groupcheck: bool, msgs: &[&[u8]], dst: &[u8], pks: &[&PublicKey], pk_validate: bool) -> BLST_ERROR {
            self.check(groupcheck, msgs, dst, &[], pks, pk_validate)
        }
        fn check(&self, groupcheck: bool, msgs: &[&[u8]], dst: &[u8], aug: &[u8], pks: &[&PublicKey], pk_validate: bool) -> BLST_ERROR {
            if pks.is_empty() || pks.len() != msgs.len() {
                return BLST_VERIFY_FAIL;
            }
            if groupcheck {
                if let Err(e) = self.validate(false) {
                    return e;
                }
            }
            let mut s = Fr::ZERO;
            for (pk, m) in pks.iter().zip(msgs) {
                if pk_validate {
                    if let Err(e) = pk.validate() {
                        return e;
                    }
                }
                // the identity is no key, checked or not
                if pk.0.is_zero() {
                    return BLST_PK_IS_INFINITY;
                }
                s = s.add(&pk.0 .0.mul(&h2(m, dst, aug)));
            }
            if s == self.0 .0 { BLST_SUCCESS } else { BLST_VERIFY_FAIL }
        }
        pub fn fast_aggregate_verify(&self, groupcheck: bool, msg: &[u8], dst: &[u8], pks: &[&PublicKey]) -> BLST_ERROR {
            let agg = match AggregatePublicKey::aggregate(pks, false) {
                Ok(a) => a.to_public_key(),
                Err(e) => return e,
            };
            self.aggregate_verify(groupcheck, &[msg], dst, &[&agg], false)
        }
    }
    pub struct AggregateSignature(Point);
    impl AggregateSignature {
        pub fn aggregate(sigs: &[&Signature], groupcheck: bool) -> Result<Self, BLST_ERROR> {
            if sigs.is_empty() {
                return Err(BLST_AGGR_TYPE_MISMATCH);
            }
            if groupcheck {
                for s in sigs {
                    s.validate(false)?;
                }
            }
            Ok(Self(sigs.iter().fold(Point::ZERO, |a, s| a.add(&s.0))))
        }
        pub fn to_signature(&self) -> Signature {
            Signature(self.0)
        }
    }
    pub struct AggregatePublicKey(Point);
    impl AggregatePublicKey {
        pub fn aggregate(pks: &[&PublicKey], pk_validate: bool) -> Result<Self, BLST_ERROR> {
            if pks.is_empty() {
                return Err(BLST_AGGR_TYPE_MISMATCH);
            }
            if pk_validate {
                for pk in pks {
                    pk.validate()?;
                }
            }
            Ok(Self(pks.iter().fold(Point::ZERO, |a, p| a.add(&p.0))))
        }
        pub fn to_public_key(&self) -> PublicKey {
            PublicKey(self.0)
        }
    }
}
