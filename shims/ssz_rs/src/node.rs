use crate::traits::*;
use sha2::{Digest, Sha256};
use std::{fmt, sync::OnceLock};

#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Node(pub [u8; 32]);
impl Node {
    pub const ZERO: Node = Node([0; 32]);
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
}
impl fmt::Debug for Node {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", hex::encode(self.0))
    }
}
impl fmt::Display for Node {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", hex::encode(self.0))
    }
}
impl std::ops::Deref for Node {
    type Target = [u8; 32];
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl std::ops::DerefMut for Node {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl AsRef<[u8]> for Node {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl AsMut<[u8]> for Node {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl From<[u8; 32]> for Node {
    fn from(v: [u8; 32]) -> Self {
        Node(v)
    }
}
impl TryFrom<&[u8]> for Node {
    type Error = std::array::TryFromSliceError;
    fn try_from(v: &[u8]) -> Result<Self, Self::Error> {
        Ok(Node(v.try_into()?))
    }
}
impl serde::Serialize for Node {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("0x{}", hex::encode(self.0)))
    }
}
impl<'de> serde::Deserialize<'de> for Node {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        use serde::de::Error;
        let s = String::deserialize(d)?;
        let t = s.strip_prefix("0x").ok_or_else(|| D::Error::custom("missing 0x"))?;
        let b = hex::decode(t).map_err(D::Error::custom)?;
        Ok(Node(b.try_into().map_err(|_| D::Error::custom("expected 32 bytes"))?))
    }
}
impl Serialize for Node {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        buffer.extend_from_slice(&self.0);
        Ok(32)
    }
}
impl Deserialize for Node {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        crate::prim::exact(e, 32)?;
        Ok(Node(e.try_into().unwrap()))
    }
}
impl Serializable for Node {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        32
    }
}
impl HashTreeRoot for Node {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Ok(*self)
    }
}
impl GeneralizedIndexable for Node {}
impl Prove for Node {}
impl SimpleSerialize for Node {}

pub fn hash_pair(a: &Node, b: &Node) -> Node {
    let mut h = Sha256::new();
    h.update(a.0);
    h.update(b.0);
    Node(h.finalize().into())
}
/// Root of a subtree of `2^depth` zero chunks.
pub fn zero_hash(depth: usize) -> Node {
    static Z: OnceLock<Vec<Node>> = OnceLock::new();
    Z.get_or_init(|| {
        let mut v = vec![Node::default()];
        for i in 0..64 {
            v.push(hash_pair(&v[i], &v[i]));
        }
        v
    })[depth]
}
pub fn depth_of(leaves: usize) -> usize {
    leaves.max(1).next_power_of_two().trailing_zeros() as usize
}
pub fn merkleize_chunks(chunks: &[Node], limit: usize) -> Result<Node, MerkleizationError> {
    if chunks.len() > limit.max(1) {
        return Err(MerkleizationError::InputExceedsLimit { provided: chunks.len(), limit });
    }
    let depth = depth_of(limit);
    let mut layer = chunks.to_vec();
    for d in 0..depth {
        if layer.is_empty() {
            return Ok(zero_hash(depth));
        }
        if layer.len() % 2 == 1 {
            layer.push(zero_hash(d));
        }
        layer = layer.chunks(2).map(|p| hash_pair(&p[0], &p[1])).collect();
    }
    Ok(layer.first().copied().unwrap_or_default())
}
pub fn pack_bytes(bytes: &[u8]) -> Vec<Node> {
    bytes
        .chunks(32)
        .map(|c| {
            let mut n = [0u8; 32];
            n[..c.len()].copy_from_slice(c);
            Node(n)
        })
        .collect()
}
pub fn mix_in(root: &Node, n: usize) -> Node {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&(n as u64).to_le_bytes());
    hash_pair(root, &Node(b))
}
pub fn mix_in_len(root: Node, n: usize) -> Node {
    mix_in(&root, n)
}
