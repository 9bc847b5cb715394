use crate::{node::*, proofs::*, traits::*};
use std::{fmt, ops::{Deref, DerefMut}};

/// Bit storage shared by both bit collections; indexing yields `bool` places.
fn to_bytes(bits: &[bool], extra: bool) -> Vec<u8> {
    let n = bits.len() + extra as usize;
    let mut o = vec![0u8; (n + 7) / 8];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            o[i / 8] |= 1 << (i % 8);
        }
    }
    if extra {
        let i = bits.len();
        o[i / 8] |= 1 << (i % 8);
    }
    o
}
/// Handle given out by iteration, mirrors `bitvec`'s proxy references.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct BitRef(bool);
impl Deref for BitRef {
    type Target = bool;
    fn deref(&self) -> &bool {
        &self.0
    }
}

macro_rules! common {
    ($name:ident) => {
        impl<const N: usize> $name<N> {
            pub fn get(&self, i: usize) -> Option<BitRef> {
                self.bits.get(i).map(|b| BitRef(*b))
            }
            pub fn set(&mut self, i: usize, v: bool) {
                self.bits[i] = v
            }
            pub fn len(&self) -> usize {
                self.bits.len()
            }
            pub fn is_empty(&self) -> bool {
                self.bits.is_empty()
            }
            pub fn any(&self) -> bool {
                self.bits.iter().any(|b| *b)
            }
            pub fn all(&self) -> bool {
                self.bits.iter().all(|b| *b)
            }
            pub fn capacity(&self) -> usize {
                self.bits.capacity()
            }
            pub fn not_any(&self) -> bool {
                !self.any()
            }
            pub fn count_ones(&self) -> usize {
                self.bits.iter().filter(|b| **b).count()
            }
            pub fn iter(&self) -> impl ExactSizeIterator<Item = BitRef> + DoubleEndedIterator + Clone + '_ {
                self.bits.iter().map(|b| BitRef(*b))
            }
            pub fn iter_ones(&self) -> impl Iterator<Item = usize> + '_ {
                self.bits.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| i)
            }
            pub fn copy_within<R: std::ops::RangeBounds<usize>>(&mut self, r: R, to: usize) {
                self.bits.copy_within(r, to)
            }
            pub fn fill(&mut self, v: bool) {
                self.bits.fill(v)
            }
            pub fn to_bitvec(&self) -> Vec<bool> {
                self.bits.clone()
            }
        }
        impl<const N: usize> fmt::Debug for $name<N> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, concat!(stringify!($name), "<len={}>[{}]"), self.bits.len(),
                    self.bits.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>())
            }
        }
        impl<const N: usize> std::ops::Index<usize> for $name<N> {
            type Output = bool;
            fn index(&self, i: usize) -> &bool {
                &self.bits[i]
            }
        }
        impl<const N: usize> Deref for $name<N> {
            type Target = BitSlice;
            fn deref(&self) -> &BitSlice {
                BitSlice::new(&self.bits)
            }
        }
        impl<const N: usize> DerefMut for $name<N> {
            fn deref_mut(&mut self) -> &mut BitSlice {
                BitSlice::new_mut(&mut self.bits)
            }
        }
        impl<const N: usize> AsRef<BitSlice> for $name<N> {
            fn as_ref(&self) -> &BitSlice {
                BitSlice::new(&self.bits)
            }
        }
        impl<const N: usize> serde::Serialize for $name<N> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                let mut b = vec![];
                Serialize::serialize(self, &mut b).map_err(serde::ser::Error::custom)?;
                s.serialize_str(&format!("0x{}", hex::encode(b)))
            }
        }
        impl<'de, const N: usize> serde::Deserialize<'de> for $name<N> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                use serde::de::Error;
                let s = String::deserialize(d)?;
                let t = s.strip_prefix("0x").ok_or_else(|| D::Error::custom("missing 0x"))?;
                let b = hex::decode(t).map_err(D::Error::custom)?;
                <Self as Deserialize>::deserialize(&b).map_err(D::Error::custom)
            }
        }
        impl<const N: usize> GeneralizedIndexable for $name<N> {}
        impl<const N: usize> Prove for $name<N> {}
        impl<const N: usize> SimpleSerialize for $name<N> {}
    };
}

/// Borrowed bits: supports ranges and comparison.
#[repr(transparent)]
#[derive(PartialEq, Eq)]
pub struct BitSlice([bool]);
impl BitSlice {
    fn new(b: &[bool]) -> &Self {
        unsafe { &*(b as *const [bool] as *const BitSlice) }
    }
    fn new_mut(b: &mut [bool]) -> &mut Self {
        unsafe { &mut *(b as *mut [bool] as *mut BitSlice) }
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn all(&self) -> bool {
        self.0.iter().all(|b| *b)
    }
    pub fn any(&self) -> bool {
        self.0.iter().any(|b| *b)
    }
    pub fn count_ones(&self) -> usize {
        self.0.iter().filter(|b| **b).count()
    }
    pub fn copy_within<R: std::ops::RangeBounds<usize>>(&mut self, r: R, to: usize) {
        self.0.copy_within(r, to)
    }
    pub fn set(&mut self, i: usize, v: bool) {
        self.0[i] = v
    }
    pub fn iter(&self) -> impl ExactSizeIterator<Item = BitRef> + DoubleEndedIterator + Clone + '_ {
        self.0.iter().map(|b| BitRef(*b))
    }
}
impl std::ops::Index<usize> for BitSlice {
    type Output = bool;
    fn index(&self, i: usize) -> &bool {
        &self.0[i]
    }
}
macro_rules! ranges {
    ($($r:ty),*) => {$(
        impl std::ops::Index<$r> for BitSlice {
            type Output = BitSlice;
            fn index(&self, i: $r) -> &BitSlice { BitSlice::new(&self.0[i]) }
        }
        impl<const N: usize> std::ops::Index<$r> for Bitlist<N> {
            type Output = BitSlice;
            fn index(&self, i: $r) -> &BitSlice { BitSlice::new(&self.bits[i]) }
        }
        impl<const N: usize> std::ops::Index<$r> for Bitvector<N> {
            type Output = BitSlice;
            fn index(&self, i: $r) -> &BitSlice { BitSlice::new(&self.bits[i]) }
        }
    )*};
}
ranges!(
    std::ops::Range<usize>, std::ops::RangeTo<usize>, std::ops::RangeFrom<usize>,
    std::ops::RangeFull, std::ops::RangeInclusive<usize>, std::ops::RangeToInclusive<usize>
);

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Bitlist<const N: usize> {
    bits: Vec<bool>,
}
common!(Bitlist);
impl<const N: usize> Bitlist<N> {
    pub fn with_capacity(n: usize) -> Self {
        Bitlist { bits: Vec::with_capacity(n) }
    }
    pub fn push(&mut self, b: bool) {
        if self.bits.len() == N {
            panic!("bitlist is at capacity {N}");
        }
        self.bits.push(b)
    }
    pub fn pop(&mut self) -> Option<bool> {
        self.bits.pop()
    }
}
impl<const N: usize> TryFrom<&[u8]> for Bitlist<N> {
    type Error = DeserializeError;
    fn try_from(v: &[u8]) -> Result<Self, Self::Error> {
        <Self as Deserialize>::deserialize(v)
    }
}
impl<const N: usize> TryFrom<&[bool]> for Bitlist<N> {
    type Error = InstanceError;
    fn try_from(v: &[bool]) -> Result<Self, Self::Error> {
        if v.len() > N {
            return Err(InstanceError::Bounded { bound: N, provided: v.len() });
        }
        Ok(Bitlist { bits: v.to_vec() })
    }
}
impl<const N: usize> FromIterator<bool> for Bitlist<N> {
    fn from_iter<I: IntoIterator<Item = bool>>(i: I) -> Self {
        let bits: Vec<bool> = i.into_iter().collect();
        assert!(bits.len() <= N);
        Bitlist { bits }
    }
}
impl<const N: usize> Serialize for Bitlist<N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        let o = to_bytes(&self.bits, true);
        b.extend_from_slice(&o);
        Ok(o.len())
    }
}
impl<const N: usize> Deserialize for Bitlist<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let last = *e.last().ok_or(DeserializeError::ExpectedFurtherInput { provided: 0, expected: 1 })?;
        if last == 0 {
            return Err(DeserializeError::InvalidByte(last));
        }
        let n = (e.len() - 1) * 8 + last.ilog2() as usize;
        if n > N {
            return Err(InstanceError::Bounded { bound: N, provided: n }.into());
        }
        Ok(Bitlist { bits: (0..n).map(|i| (e[i / 8] >> (i % 8)) & 1 == 1).collect() })
    }
}
impl<const N: usize> Serializable for Bitlist<N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<const N: usize> HashTreeRoot for Bitlist<N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        let c = pack_bytes(&to_bytes(&self.bits, false));
        Ok(mix_in(&merkleize_chunks(&c, (N + 255) / 256)?, self.bits.len()))
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Bitvector<const N: usize> {
    bits: Vec<bool>,
}
impl<const N: usize> Default for Bitvector<N> {
    fn default() -> Self {
        Bitvector { bits: vec![false; N] }
    }
}
common!(Bitvector);
impl<const N: usize> TryFrom<&[u8]> for Bitvector<N> {
    type Error = DeserializeError;
    fn try_from(v: &[u8]) -> Result<Self, Self::Error> {
        <Self as Deserialize>::deserialize(v)
    }
}
impl<const N: usize> TryFrom<&[bool]> for Bitvector<N> {
    type Error = InstanceError;
    fn try_from(v: &[bool]) -> Result<Self, Self::Error> {
        if v.len() != N {
            return Err(InstanceError::Exact { required: N, provided: v.len() });
        }
        Ok(Bitvector { bits: v.to_vec() })
    }
}
impl<const N: usize> Serialize for Bitvector<N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        let o = to_bytes(&self.bits, false);
        b.extend_from_slice(&o);
        Ok(o.len())
    }
}
impl<const N: usize> Deserialize for Bitvector<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        crate::prim::exact(e, (N + 7) / 8)?;
        if N % 8 != 0 {
            let last = e[e.len() - 1];
            if last >> (N % 8) != 0 {
                return Err(DeserializeError::InvalidByte(last));
            }
        }
        Ok(Bitvector { bits: (0..N).map(|i| (e[i / 8] >> (i % 8)) & 1 == 1).collect() })
    }
}
impl<const N: usize> Serializable for Bitvector<N> {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        (N + 7) / 8
    }
}
impl<const N: usize> HashTreeRoot for Bitvector<N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        let c = pack_bytes(&to_bytes(&self.bits, false));
        merkleize_chunks(&c, (N + 255) / 256)
    }
}
#[allow(unused)]
fn _p(_: Path) {}
