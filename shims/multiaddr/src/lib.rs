//! Opaque stand-in for `multiaddr`.
#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Multiaddr(String);
