//! Stand-in for `ssz_rs` (not available offline): SimpleSerialize encoding, merkleization and
//! Merkle proofs, written from the SSZ specification, with the API `ethereum-consensus` uses.
extern crate self as ssz_rs;
mod bits;
mod collections;
mod j;
mod node;
mod prim;
pub mod proofs;
mod traits;
mod uint;

pub use bits::{Bitlist, Bitvector};
pub use j::J;
pub use collections::{List, Vector};
pub use node::{hash_pair, merkleize_chunks, mix_in, mix_in_len, pack_bytes, zero_hash, Node};
pub use proofs::{
    default_generalized_index, is_valid_merkle_branch, GeneralizedIndex, Path, PathElement, Proof,
    ProofAndWitness,
};
pub use traits::*;
pub use uint::U256;
pub use ssz_rs_derive::{HashTreeRoot, Serializable, SimpleSerialize};

pub fn serialize<T: Serialize>(value: &T) -> Result<Vec<u8>, SerializeError> {
    let mut out = vec![];
    value.serialize(&mut out)?;
    Ok(out)
}
pub fn deserialize<T: Deserialize>(encoding: &[u8]) -> Result<T, DeserializeError> {
    T::deserialize(encoding)
}

pub mod prelude {
    pub use crate as ssz_rs;
    pub use crate::{
        deserialize, is_valid_merkle_branch, serialize, Bitlist, Bitvector, Deserialize,
        DeserializeError, GeneralizedIndex, GeneralizedIndexable, HashTreeRoot, InstanceError,
        List, MerkleizationError, Node, Path, PathElement, Prove, Serializable, Serialize,
        SerializeError, SimpleSerialize, SimpleSerializeError, TypeError, Vector, U256,
    };
}

#[doc(hidden)]
pub mod __internal {
    pub use crate::traits::*;
    pub use serde_json::{Map as JMap, Value as JValue};
    pub use crate::node::*;
    pub use crate::proofs::*;
    pub const OFFSET: usize = 4;
    /// Encodes a container/sequence from its already-classified parts.
    pub fn encode_parts(
        parts: Vec<(bool, Vec<u8>)>,
        buffer: &mut Vec<u8>,
    ) -> Result<usize, SerializeError> {
        let fixed: usize = parts.iter().map(|(v, b)| if *v { OFFSET } else { b.len() }).sum();
        let mut var_at = fixed;
        let start = buffer.len();
        for (v, b) in &parts {
            if *v {
                buffer.extend_from_slice(&(var_at as u32).to_le_bytes());
                var_at += b.len();
            } else {
                buffer.extend_from_slice(b);
            }
        }
        for (v, b) in &parts {
            if *v {
                buffer.extend_from_slice(b);
            }
        }
        if buffer.len() - start > u32::MAX as usize {
            return Err(SerializeError::MaximumEncodedLengthExceeded(buffer.len() - start));
        }
        Ok(buffer.len() - start)
    }
    /// Splits a container encoding into the byte ranges of its fields.
    /// `fields[i]` is `Some(size)` for a fixed-size field and `None` for a variable-size one.
    pub fn split_fields<'a>(
        fields: &[Option<usize>],
        enc: &'a [u8],
    ) -> Result<Vec<&'a [u8]>, DeserializeError> {
        let fixed: usize = fields.iter().map(|f| f.unwrap_or(OFFSET)).sum();
        if enc.len() < fixed {
            return Err(DeserializeError::ExpectedFurtherInput { provided: enc.len(), expected: fixed });
        }
        let mut offs = vec![];
        let mut at = 0;
        for f in fields {
            match f {
                Some(n) => at += n,
                None => {
                    let o = u32::from_le_bytes(enc[at..at + 4].try_into().unwrap()) as usize;
                    offs.push(o);
                    at += 4;
                }
            }
        }
        if let Some(first) = offs.first() {
            if *first != fixed {
                return Err(DeserializeError::InvalidOffsetsLength { first_offset: *first, expected: fixed });
            }
        } else if enc.len() != fixed {
            return Err(DeserializeError::AdditionalInput { provided: enc.len(), expected: fixed });
        }
        offs.push(enc.len());
        for w in offs.windows(2) {
            if w[0] > w[1] {
                return Err(DeserializeError::OffsetNotIncreasing { start: w[0], end: w[1] });
            }
        }
        let mut out = vec![];
        let mut at = 0;
        let mut k = 0;
        for f in fields {
            match f {
                Some(n) => {
                    out.push(&enc[at..at + n]);
                    at += n;
                }
                None => {
                    out.push(&enc[offs[k]..offs[k + 1]]);
                    k += 1;
                    at += 4;
                }
            }
        }
        Ok(out)
    }
}
