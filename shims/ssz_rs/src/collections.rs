use crate::{__internal::{encode_parts, OFFSET}, node::*, proofs::*, traits::*};
use std::{fmt, ops::{Deref, DerefMut, Index, IndexMut}, slice::SliceIndex};

fn encode_elems<T: Serializable>(data: &[T], b: &mut Vec<u8>) -> Result<usize, SerializeError> {
    let mut parts = Vec::with_capacity(data.len());
    for e in data {
        let mut o = vec![];
        e.serialize(&mut o)?;
        parts.push((T::is_variable_size(), o));
    }
    encode_parts(parts, b)
}
fn decode_elems<T: Serializable>(e: &[u8]) -> Result<Vec<T>, DeserializeError> {
    if !T::is_variable_size() {
        let n = T::size_hint();
        if n == 0 || e.len() % n != 0 {
            return Err(DeserializeError::AdditionalInput { provided: e.len(), expected: e.len() - e.len() % n.max(1) });
        }
        return e.chunks(n).map(T::deserialize).collect();
    }
    if e.is_empty() {
        return Ok(vec![]);
    }
    if e.len() < OFFSET {
        return Err(DeserializeError::ExpectedFurtherInput { provided: e.len(), expected: OFFSET });
    }
    let at = |i: usize| u32::from_le_bytes(e[4 * i..4 * i + 4].try_into().unwrap()) as usize;
    let first = at(0);
    if first % OFFSET != 0 || first == 0 {
        return Err(DeserializeError::InvalidOffsetsLength { first_offset: first, expected: OFFSET });
    }
    if first > e.len() {
        return Err(DeserializeError::ExpectedFurtherInput { provided: e.len(), expected: first });
    }
    let n = first / OFFSET;
    let mut offs: Vec<usize> = (0..n).map(at).collect();
    offs.push(e.len());
    let mut out = vec![];
    for w in offs.windows(2) {
        if w[0] > w[1] {
            return Err(DeserializeError::OffsetNotIncreasing { start: w[0], end: w[1] });
        }
        out.push(T::deserialize(&e[w[0]..w[1]])?);
    }
    Ok(out)
}
fn chunks_of<T: HashTreeRoot>(data: &[T]) -> Result<Vec<Node>, MerkleizationError> {
    if T::is_composite_type() {
        data.iter().map(|x| x.hash_tree_root()).collect()
    } else {
        let mut b = vec![];
        for x in data {
            x.pack_into(&mut b);
        }
        Ok(pack_bytes(&b))
    }
}
fn chunk_limit<T: HashTreeRoot>(n: usize) -> usize {
    if T::is_composite_type() {
        n
    } else {
        // n * size may exceed usize for limits such as 2^40 * 32: use u128
        ((n as u128 * T::basic_size() as u128 + 31) / 32) as usize
    }
}
fn place<T: HashTreeRoot + Prove>(data: &[T], bound: usize, e: &PathElement) -> Option<(usize, bool)> {
    match e {
        PathElement::Index(i) if *i < bound => {
            if T::is_composite_type() {
                Some((*i, *i < data.len()))
            } else {
                Some((*i * T::basic_size() / 32, false))
            }
        }
        _ => None,
    }
}

macro_rules! common {
    ($name:ident, $target:ty) => {
        impl<T, const N: usize> Deref for $name<T, N> {
            type Target = $target;
            fn deref(&self) -> &$target {
                &self.data
            }
        }
        impl<T, const N: usize> DerefMut for $name<T, N> {
            fn deref_mut(&mut self) -> &mut $target {
                &mut self.data
            }
        }
        impl<T, const N: usize> AsRef<[T]> for $name<T, N> {
            fn as_ref(&self) -> &[T] {
                &self.data
            }
        }
        impl<T, I: SliceIndex<[T]>, const N: usize> Index<I> for $name<T, N> {
            type Output = I::Output;
            fn index(&self, i: I) -> &I::Output {
                &self.data[i]
            }
        }
        impl<T, I: SliceIndex<[T]>, const N: usize> IndexMut<I> for $name<T, N> {
            fn index_mut(&mut self, i: I) -> &mut I::Output {
                &mut self.data[i]
            }
        }
        impl<T: fmt::Debug, const N: usize> fmt::Debug for $name<T, N> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_list().entries(self.data.iter()).finish()
            }
        }
        impl<'a, T, const N: usize> IntoIterator for &'a $name<T, N> {
            type Item = &'a T;
            type IntoIter = std::slice::Iter<'a, T>;
            fn into_iter(self) -> Self::IntoIter {
                self.data.iter()
            }
        }
        impl<'a, T, const N: usize> IntoIterator for &'a mut $name<T, N> {
            type Item = &'a mut T;
            type IntoIter = std::slice::IterMut<'a, T>;
            fn into_iter(self) -> Self::IntoIter {
                self.data.iter_mut()
            }
        }
        impl<T, const N: usize> IntoIterator for $name<T, N> {
            type Item = T;
            type IntoIter = std::vec::IntoIter<T>;
            fn into_iter(self) -> Self::IntoIter {
                self.data.into_iter()
            }
        }
        impl<T: serde::Serialize, const N: usize> serde::Serialize for $name<T, N> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.collect_seq(self.data.iter())
            }
        }
        impl<'de, T: serde::Deserialize<'de>, const N: usize> serde::Deserialize<'de> for $name<T, N> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let data = Vec::<T>::deserialize(d)?;
                Self::try_from(data).map_err(|(_, e)| serde::de::Error::custom(e))
            }
        }
        impl<T: Serializable, const N: usize> Serialize for $name<T, N> {
            fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
                encode_elems(&self.data, b)
            }
        }
        impl<T: Serializable, const N: usize> Deserialize for $name<T, N> {
            fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
                if !<Self as Serializable>::is_variable_size() {
                    crate::prim::exact(e, <Self as Serializable>::size_hint())?;
                }
                let data = decode_elems(e)?;
                Self::try_from(data).map_err(|(_, e)| match e { SimpleSerializeError::Instance(e) => e.into(), _ => unreachable!() })
            }
        }
        impl<T: SimpleSerialize, const N: usize> SimpleSerialize for $name<T, N> {}
        impl<T: SimpleSerialize + Clone, const N: usize> TryFrom<&[T]> for $name<T, N> {
            type Error = SimpleSerializeError;
            fn try_from(v: &[T]) -> Result<Self, Self::Error> {
                Self::try_from(v.to_vec()).map_err(|(_, e)| e)
            }
        }
        impl<T, const N: usize> TryFrom<$name<T, N>> for Vec<T> {
            type Error = core::convert::Infallible;
            fn try_from(v: $name<T, N>) -> Result<Self, Self::Error> {
                Ok(v.data)
            }
        }
    };
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct List<T, const N: usize> {
    data: Vec<T>,
}
impl<T, const N: usize> Default for List<T, N> {
    fn default() -> Self {
        List { data: vec![] }
    }
}
impl<T, const N: usize> TryFrom<Vec<T>> for List<T, N> {
    type Error = (Vec<T>, SimpleSerializeError);
    fn try_from(data: Vec<T>) -> Result<Self, Self::Error> {
        if data.len() > N {
            let e = InstanceError::Bounded { bound: N, provided: data.len() };
            Err((data, e.into()))
        } else {
            Ok(List { data })
        }
    }
}
impl<T, const N: usize> List<T, N> {
    pub fn push(&mut self, v: T) {
        if self.data.len() == N {
            panic!("list is at capacity {N}");
        }
        self.data.push(v)
    }
    pub fn pop(&mut self) -> Option<T> {
        self.data.pop()
    }
    pub fn clear(&mut self) {
        self.data.clear()
    }
    pub fn truncate(&mut self, n: usize) {
        self.data.truncate(n)
    }
}
impl<T, const N: usize> FromIterator<T> for List<T, N> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        let mut l = List::default();
        for x in i {
            l.push(x)
        }
        l
    }
}
common!(List, Vec<T>);
impl<T: Serializable, const N: usize> Serializable for List<T, N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<T: HashTreeRoot, const N: usize> HashTreeRoot for List<T, N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        let c = chunks_of(&self.data)?;
        let r = merkleize_chunks(&c, chunk_limit::<T>(N))?;
        Ok(mix_in(&r, self.data.len()))
    }
}
impl<T: HashTreeRoot + GeneralizedIndexable, const N: usize> GeneralizedIndexable for List<T, N> {
    fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
        match path.split_first() {
            None => Ok(parent),
            Some((PathElement::Length, [])) => Ok(parent * 2 + 1),
            Some((PathElement::Index(i), rest)) if *i < N => {
                let c = if T::is_composite_type() { *i } else { i * T::basic_size() / 32 };
                T::compute_generalized_index(chunk_index(parent, chunk_limit::<T>(N), c, true), rest)
            }
            Some((e, _)) => Err(MerkleizationError::InvalidPathElement(e.clone())),
        }
    }
}
impl<T: Prove, const N: usize> Prove for List<T, N> {
    fn tree(&self) -> Result<Tree, MerkleizationError> {
        Ok(Tree { chunks: chunks_of(&self.data)?, limit: chunk_limit::<T>(N), length: Some(self.data.len()) })
    }
    fn locate(&self, e: &PathElement) -> Option<(usize, Option<&dyn Prove>)> {
        let (c, has) = place(&self.data, N, e)?;
        Some((c, if has { Some(&self.data[c] as &dyn Prove) } else { None }))
    }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Vector<T, const N: usize> {
    data: Vec<T>,
}
impl<T: Default, const N: usize> Default for Vector<T, N> {
    fn default() -> Self {
        Vector { data: (0..N).map(|_| T::default()).collect() }
    }
}
impl<T, const N: usize> TryFrom<Vec<T>> for Vector<T, N> {
    type Error = (Vec<T>, SimpleSerializeError);
    fn try_from(data: Vec<T>) -> Result<Self, Self::Error> {
        if data.len() != N {
            let e = InstanceError::Exact { required: N, provided: data.len() };
            Err((data, e.into()))
        } else {
            Ok(Vector { data })
        }
    }
}
common!(Vector, Vec<T>);
impl<T: Serializable, const N: usize> Serializable for Vector<T, N> {
    fn is_variable_size() -> bool {
        T::is_variable_size()
    }
    fn size_hint() -> usize {
        T::size_hint() * N
    }
}
impl<T: HashTreeRoot, const N: usize> HashTreeRoot for Vector<T, N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        let c = chunks_of(&self.data)?;
        merkleize_chunks(&c, chunk_limit::<T>(N))
    }
}
impl<T: HashTreeRoot + GeneralizedIndexable, const N: usize> GeneralizedIndexable for Vector<T, N> {
    fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
        match path.split_first() {
            None => Ok(parent),
            Some((PathElement::Index(i), rest)) if *i < N => {
                let c = if T::is_composite_type() { *i } else { i * T::basic_size() / 32 };
                T::compute_generalized_index(chunk_index(parent, chunk_limit::<T>(N), c, false), rest)
            }
            Some((e, _)) => Err(MerkleizationError::InvalidPathElement(e.clone())),
        }
    }
}
impl<T: Prove, const N: usize> Prove for Vector<T, N> {
    fn tree(&self) -> Result<Tree, MerkleizationError> {
        Ok(Tree { chunks: chunks_of(&self.data)?, limit: chunk_limit::<T>(N), length: None })
    }
    fn locate(&self, e: &PathElement) -> Option<(usize, Option<&dyn Prove>)> {
        let (c, has) = place(&self.data, N, e)?;
        Some((c, if has { Some(&self.data[c] as &dyn Prove) } else { None }))
    }
}

// fixed-size arrays behave like `Vector`
impl<T: Serializable, const N: usize> Serialize for [T; N] {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        encode_elems(self, b)
    }
}
impl<T: Serializable, const N: usize> Deserialize for [T; N] {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let v = decode_elems::<T>(e)?;
        let provided = v.len();
        v.try_into().map_err(|_| InstanceError::Exact { required: N, provided }.into())
    }
}
impl<T: Serializable, const N: usize> Serializable for [T; N] {
    fn is_variable_size() -> bool {
        T::is_variable_size()
    }
    fn size_hint() -> usize {
        T::size_hint() * N
    }
}
impl<T: HashTreeRoot, const N: usize> HashTreeRoot for [T; N] {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        merkleize_chunks(&chunks_of(self)?, chunk_limit::<T>(N))
    }
}
impl<T: HashTreeRoot + GeneralizedIndexable, const N: usize> GeneralizedIndexable for [T; N] {
    fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
        Vector::<T, N>::compute_generalized_index(parent, path)
    }
}
impl<T: Prove, const N: usize> Prove for [T; N] {
    fn tree(&self) -> Result<Tree, MerkleizationError> {
        Ok(Tree { chunks: chunks_of(self)?, limit: chunk_limit::<T>(N), length: None })
    }
}
impl<T: SimpleSerialize, const N: usize> SimpleSerialize for [T; N] {}
