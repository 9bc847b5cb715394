use crate::{node::Node, proofs::*};
use thiserror::Error;

#[derive(Debug, Error, PartialEq, Eq, Clone)]
pub enum InstanceError {
    #[error("required exactly {required} elements but {provided} were provided")]
    Exact { required: usize, provided: usize },
    #[error("bound {bound} exceeded: {provided} elements were provided")]
    Bounded { bound: usize, provided: usize },
}
#[derive(Debug, Error, PartialEq, Eq, Clone)]
pub enum TypeError {
    #[error("the bound {0} is invalid")]
    InvalidBound(usize),
}
#[derive(Debug, Error, PartialEq, Eq, Clone)]
pub enum SerializeError {
    #[error("encoding too large: {0}")]
    MaximumEncodedLengthExceeded(usize),
    #[error("{0}")]
    InvalidInstance(#[from] InstanceError),
    #[error("{0}")]
    InvalidType(#[from] TypeError),
}
#[derive(Debug, Error, PartialEq, Eq, Clone)]
pub enum DeserializeError {
    #[error("expected at least {expected} bytes but {provided} were provided")]
    ExpectedFurtherInput { provided: usize, expected: usize },
    #[error("{provided} bytes given but only expected {expected}")]
    AdditionalInput { provided: usize, expected: usize },
    #[error("invalid byte {0:x}")]
    InvalidByte(u8),
    #[error("first offset {first_offset}, expected {expected}")]
    InvalidOffsetsLength { first_offset: usize, expected: usize },
    #[error("offset {start} is past {end}")]
    OffsetNotIncreasing { start: usize, end: usize },
    #[error("{0}")]
    InvalidInstance(#[from] InstanceError),
    #[error("{0}")]
    InvalidType(#[from] TypeError),
    #[error("no variant could be deserialized")]
    NoVariant,
    #[error("an I/O error was encountered: {0}")]
    IOError(String),
}
#[derive(Debug, Error, PartialEq, Eq, Clone)]
pub enum MerkleizationError {
    #[error("{0}")]
    SerializationError(#[from] SerializeError),
    #[error("cannot merkleize {provided} chunks in a tree of {limit}")]
    InputExceedsLimit { provided: usize, limit: usize },
    #[error("invalid path element {0:?}")]
    InvalidPathElement(PathElement),
    #[error("invalid path")]
    InvalidPath(Vec<PathElement>),
    #[error("no inner element")]
    NoInnerElement,
    #[error("invalid generalized index")]
    InvalidGeneralizedIndex,
    #[error("invalid default index")]
    InvalidDefaultIndex,
    #[error("the proof is invalid")]
    InvalidProof,
    #[error("not chunkable")]
    NotChunkable,
    #[error("invalid depth")]
    InvalidDepth,
}
#[derive(Debug, Error)]
pub enum SimpleSerializeError {
    #[error("{0}")]
    Serialize(#[from] SerializeError),
    #[error("{0}")]
    Deserialize(#[from] DeserializeError),
    #[error("{0}")]
    Merkleization(#[from] MerkleizationError),
    #[error("{0}")]
    Instance(#[from] InstanceError),
    #[error("{0}")]
    Type(#[from] TypeError),
}

pub trait Serialize {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError>;
}
pub trait Deserialize: core::marker::Sized {
    fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError>;
}
pub trait Serializable: Serialize + Deserialize {
    fn is_variable_size() -> bool;
    fn size_hint() -> usize;
}
pub trait HashTreeRoot {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError>;
    /// `true` for everything which is not a basic type.
    fn is_composite_type() -> bool
    where
        Self: core::marker::Sized,
    {
        true
    }
    /// For basic types: the little-endian bytes to pack into chunks.
    fn pack_into(&self, _buffer: &mut Vec<u8>) {
        unreachable!("only basic types are packed")
    }
    fn basic_size() -> usize
    where
        Self: core::marker::Sized,
    {
        32
    }
}
pub trait GeneralizedIndexable {
    fn generalized_index(path: Path) -> Result<GeneralizedIndex, MerkleizationError>
    where
        Self: core::marker::Sized,
    {
        Self::compute_generalized_index(1, path)
    }
    fn compute_generalized_index(
        parent: GeneralizedIndex,
        path: Path,
    ) -> Result<GeneralizedIndex, MerkleizationError>
    where
        Self: core::marker::Sized,
    {
        if path.is_empty() {
            Ok(parent)
        } else {
            Err(MerkleizationError::InvalidPathElement(path[0].clone()))
        }
    }
}
pub trait Prove: HashTreeRoot + GeneralizedIndexable {
    /// The (virtual) chunk tree of this value.
    fn tree(&self) -> Result<Tree, MerkleizationError> {
        Err(MerkleizationError::NotChunkable)
    }
    /// Chunk which holds the element, and the element when it has a tree of its own.
    fn locate(&self, _path: &PathElement) -> Option<(usize, Option<&dyn Prove>)> {
        None
    }
    fn prove(&self, path: Path) -> Result<ProofAndWitness, MerkleizationError>
    where
        Self: core::marker::Sized,
    {
        prove_dyn(self, path)
    }
}
pub trait SimpleSerialize: crate::J + Serializable + HashTreeRoot + GeneralizedIndexable + Prove {}
