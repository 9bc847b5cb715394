use crate::{node::*, traits::*};

pub fn exact(e: &[u8], n: usize) -> Result<(), DeserializeError> {
    if e.len() < n {
        Err(DeserializeError::ExpectedFurtherInput { provided: e.len(), expected: n })
    } else if e.len() > n {
        Err(DeserializeError::AdditionalInput { provided: e.len(), expected: n })
    } else {
        Ok(())
    }
}
macro_rules! uint {
    ($($t:ty),*) => {$(
        impl Serialize for $t {
            fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
                b.extend_from_slice(&self.to_le_bytes());
                Ok(core::mem::size_of::<$t>())
            }
        }
        impl Deserialize for $t {
            fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
                exact(e, core::mem::size_of::<$t>())?;
                Ok(<$t>::from_le_bytes(e.try_into().unwrap()))
            }
        }
        impl Serializable for $t {
            fn is_variable_size() -> bool { false }
            fn size_hint() -> usize { core::mem::size_of::<$t>() }
        }
        impl HashTreeRoot for $t {
            fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
                let mut n = [0u8; 32];
                n[..core::mem::size_of::<$t>()].copy_from_slice(&self.to_le_bytes());
                Ok(Node(n))
            }
            fn is_composite_type() -> bool { false }
            fn pack_into(&self, b: &mut Vec<u8>) { b.extend_from_slice(&self.to_le_bytes()) }
            fn basic_size() -> usize { core::mem::size_of::<$t>() }
        }
        impl GeneralizedIndexable for $t {}
        impl Prove for $t {}
        impl SimpleSerialize for $t {}
    )*};
}
uint!(u8, u16, u32, u64, u128, usize);
impl Serialize for bool {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        b.push(*self as u8);
        Ok(1)
    }
}
impl Deserialize for bool {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        exact(e, 1)?;
        match e[0] {
            0 => Ok(false),
            1 => Ok(true),
            b => Err(DeserializeError::InvalidByte(b)),
        }
    }
}
impl Serializable for bool {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        1
    }
}
impl HashTreeRoot for bool {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        let mut n = [0u8; 32];
        n[0] = *self as u8;
        Ok(Node(n))
    }
    fn is_composite_type() -> bool {
        false
    }
    fn pack_into(&self, b: &mut Vec<u8>) {
        b.push(*self as u8)
    }
    fn basic_size() -> usize {
        1
    }
}
impl GeneralizedIndexable for bool {}
impl Prove for bool {}
impl SimpleSerialize for bool {}

macro_rules! by_ref {
    ($($t:ty),*) => {$(
        impl<T: HashTreeRoot> HashTreeRoot for $t {
            fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { (**self).hash_tree_root() }
            fn is_composite_type() -> bool { T::is_composite_type() }
            fn pack_into(&self, b: &mut Vec<u8>) { (**self).pack_into(b) }
            fn basic_size() -> usize { T::basic_size() }
        }
    )*};
}
by_ref!(&T, &mut T);
impl<T: Serialize> Serialize for &T {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        (**self).serialize(b)
    }
}
