use crate::{node::*, traits::*};
use std::fmt;

/// 256-bit unsigned integer (little-endian limbs).
#[derive(Clone, Copy, Default, PartialEq, Eq, Hash)]
pub struct U256(pub [u64; 4]);
impl U256 {
    pub const ZERO: U256 = U256([0; 4]);
    pub const MAX: U256 = U256([u64::MAX; 4]);
    pub const fn from_le_bytes<const N: usize>(b: [u8; N]) -> Self {
        let mut l = [0u64; 4];
        let mut i = 0;
        while i < N {
            l[i / 8] |= (b[i] as u64) << (8 * (i % 8));
            i += 1;
        }
        U256(l)
    }
    pub const fn from_be_bytes<const N: usize>(b: [u8; N]) -> Self {
        let mut l = [0u64; 4];
        let mut i = 0;
        while i < N {
            let j = N - 1 - i;
            l[i / 8] |= (b[j] as u64) << (8 * (i % 8));
            i += 1;
        }
        U256(l)
    }
    pub fn try_from_le_slice(b: &[u8]) -> Option<Self> {
        let a: [u8; 32] = b.try_into().ok()?;
        Some(Self::from_le_bytes(a))
    }
    pub fn to_le_bytes<const N: usize>(&self) -> [u8; N] {
        let mut o = [0u8; N];
        for i in 0..N.min(32) {
            o[i] = (self.0[i / 8] >> (8 * (i % 8))) as u8;
        }
        o
    }
    pub fn to_bytes_le(&self) -> Vec<u8> {
        self.to_le_bytes::<32>().to_vec()
    }
    pub fn as_le_slice(&self) -> Vec<u8> {
        self.to_bytes_le()
    }
    fn mul10_add(&mut self, d: u64) -> bool {
        let mut c = d as u128;
        for l in self.0.iter_mut() {
            let t = (*l as u128) * 10 + c;
            *l = t as u64;
            c = t >> 64;
        }
        c != 0
    }
    fn div10(&mut self) -> u64 {
        let mut r = 0u128;
        for l in self.0.iter_mut().rev() {
            let t = (r << 64) | *l as u128;
            *l = (t / 10) as u64;
            r = t % 10;
        }
        r as u64
    }
}
impl Ord for U256 {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.iter().rev().cmp(o.0.iter().rev())
    }
}
impl PartialOrd for U256 {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
macro_rules! from {
    ($($t:ty),*) => {$(impl From<$t> for U256 { fn from(v: $t) -> Self { U256([v as u64, 0, 0, 0]) } })*};
}
from!(u8, u16, u32, u64, usize);
impl From<u128> for U256 {
    fn from(v: u128) -> Self {
        U256([v as u64, (v >> 64) as u64, 0, 0])
    }
}
impl fmt::Display for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut v = *self;
        let mut s = vec![];
        loop {
            s.push(b'0' + v.div10() as u8);
            if v == U256::ZERO {
                break;
            }
        }
        s.reverse();
        f.pad_integral(true, "", std::str::from_utf8(&s).unwrap())
    }
}
impl fmt::Debug for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
#[derive(Debug, PartialEq, Eq)]
pub struct ParseU256Error;
impl fmt::Display for ParseU256Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "invalid 256-bit integer")
    }
}
impl std::error::Error for ParseU256Error {}
impl std::str::FromStr for U256 {
    type Err = ParseU256Error;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        let mut v = U256::ZERO;
        if s.is_empty() {
            return Err(ParseU256Error);
        }
        if let Some(h) = s.strip_prefix("0x") {
            for c in h.chars() {
                let d = c.to_digit(16).ok_or(ParseU256Error)? as u64;
                if v.0[3] >> 60 != 0 {
                    return Err(ParseU256Error);
                }
                for i in (0..4).rev() {
                    v.0[i] = (v.0[i] << 4) | if i > 0 { v.0[i - 1] >> 60 } else { d };
                }
            }
            return Ok(v);
        }
        for c in s.chars() {
            let d = c.to_digit(10).ok_or(ParseU256Error)? as u64;
            if v.mul10_add(d) {
                return Err(ParseU256Error);
            }
        }
        Ok(v)
    }
}
impl serde::Serialize for U256 {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}
impl<'de> serde::Deserialize<'de> for U256 {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map_err(serde::de::Error::custom)
    }
}
impl Serialize for U256 {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        b.extend_from_slice(&self.to_le_bytes::<32>());
        Ok(32)
    }
}
impl Deserialize for U256 {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        crate::prim::exact(e, 32)?;
        Ok(U256::from_le_bytes::<32>(e.try_into().unwrap()))
    }
}
impl Serializable for U256 {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        32
    }
}
impl HashTreeRoot for U256 {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Ok(Node(self.to_le_bytes::<32>()))
    }
    fn is_composite_type() -> bool {
        false
    }
    fn pack_into(&self, b: &mut Vec<u8>) {
        b.extend_from_slice(&self.to_le_bytes::<32>())
    }
}
impl GeneralizedIndexable for U256 {}
impl Prove for U256 {}
impl SimpleSerialize for U256 {}
