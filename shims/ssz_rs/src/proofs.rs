use crate::{node::*, traits::*};

pub type GeneralizedIndex = usize;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PathElement {
    Field(String),
    Index(usize),
    Length,
}
impl From<&str> for PathElement {
    fn from(v: &str) -> Self {
        if v == "__len__" {
            PathElement::Length
        } else {
            PathElement::Field(v.to_string())
        }
    }
}
impl From<usize> for PathElement {
    fn from(v: usize) -> Self {
        PathElement::Index(v)
    }
}
pub type Path<'a> = &'a [PathElement];

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Proof {
    pub leaf: Node,
    pub branch: Vec<Node>,
    pub index: GeneralizedIndex,
}
pub type ProofAndWitness = (Proof, Node);
impl Proof {
    pub fn verify(&self, root: Node) -> Result<(), MerkleizationError> {
        is_valid_merkle_branch_for_generalized_index(self.leaf, &self.branch, self.index, root)
    }
}
pub struct Tree {
    pub chunks: Vec<Node>,
    pub limit: usize,
    pub length: Option<usize>,
}
pub fn default_generalized_index() -> usize {
    1
}
/// Generalized index of chunk `i` of a value with `limit` chunks below `parent`.
pub fn chunk_index(parent: usize, limit: usize, i: usize, mixed: bool) -> usize {
    parent * (if mixed { 2 } else { 1 }) * limit.max(1).next_power_of_two() + i
}
pub fn log_2(x: usize) -> Option<u32> {
    x.checked_ilog2()
}
pub fn get_depth(i: usize) -> Result<usize, MerkleizationError> {
    log_2(i).map(|v| v as usize).ok_or(MerkleizationError::InvalidGeneralizedIndex)
}
pub fn get_subtree_index(i: GeneralizedIndex) -> Result<usize, MerkleizationError> {
    let d = get_depth(i)?;
    Ok(i - (1 << d))
}
fn node_at(chunks: &[Node], level: usize, mut d: usize) -> Node {
    // root of the subtree of depth `d` starting at chunk level*2^d
    let start = level << d;
    if start >= chunks.len() {
        return zero_hash(d);
    }
    let end = chunks.len().min(start + (1usize << d));
    let mut layer = chunks[start..end].to_vec();
    let mut k = 0;
    while d > 0 {
        if layer.len() % 2 == 1 {
            layer.push(zero_hash(k));
        }
        layer = layer.chunks(2).map(|p| hash_pair(&p[0], &p[1])).collect();
        k += 1;
        d -= 1;
    }
    layer[0]
}
pub fn prove_dyn(v: &dyn Prove, path: Path) -> Result<ProofAndWitness, MerkleizationError> {
    let root = v.hash_tree_root()?;
    let Some((head, rest)) = path.split_first() else {
        return Ok((Proof { leaf: root, branch: vec![], index: 1 }, root));
    };
    let t = v.tree()?;
    let depth = depth_of(t.limit);
    if let (PathElement::Length, Some(n)) = (head, t.length) {
        let leaf = {
            let mut b = [0u8; 32];
            b[..8].copy_from_slice(&(n as u64).to_le_bytes());
            Node(b)
        };
        return Ok((Proof { leaf, branch: vec![node_at(&t.chunks, 0, depth)], index: 3 }, root));
    }
    let (i, inner) =
        v.locate(head).ok_or_else(|| MerkleizationError::InvalidPathElement(head.clone()))?;
    let (leaf, mut branch, inner_index) = match inner {
        Some(x) => {
            let (p, _) = prove_dyn(x, rest)?;
            (p.leaf, p.branch, p.index)
        }
        None if rest.is_empty() => (t.chunks.get(i).copied().unwrap_or_default(), vec![], 1),
        None => return Err(MerkleizationError::InvalidPathElement(rest[0].clone())),
    };
    for d in 0..depth {
        branch.push(node_at(&t.chunks, (i >> d) ^ 1, d));
    }
    let mut index = (1usize << depth) + i;
    if let Some(n) = t.length {
        let mut b = [0u8; 32];
        b[..8].copy_from_slice(&(n as u64).to_le_bytes());
        branch.push(Node(b));
        index += 1 << depth;
    }
    let d = get_depth(inner_index)?;
    let index = (index << d) + (inner_index - (1 << d));
    Ok((Proof { leaf, branch, index }, root))
}

pub fn is_valid_merkle_branch<T: AsRef<[u8]>>(
    leaf: Node,
    branch: &[T],
    depth: usize,
    index: usize,
    root: Node,
) -> Result<(), MerkleizationError> {
    if branch.len() != depth {
        return Err(MerkleizationError::InvalidProof);
    }
    let mut h = leaf;
    for (i, n) in branch.iter().enumerate() {
        let n = Node(n.as_ref().try_into().map_err(|_| MerkleizationError::InvalidProof)?);
        h = if (index >> i) & 1 == 1 { hash_pair(&n, &h) } else { hash_pair(&h, &n) };
    }
    if h == root {
        Ok(())
    } else {
        Err(MerkleizationError::InvalidProof)
    }
}
pub fn is_valid_merkle_branch_for_generalized_index<T: AsRef<[u8]>>(
    leaf: Node,
    branch: &[T],
    index: GeneralizedIndex,
    root: Node,
) -> Result<(), MerkleizationError> {
    is_valid_merkle_branch(leaf, branch, get_depth(index)?, get_subtree_index(index)?, root)
}
