//! Opaque stand-in for `enr`.
use std::marker::PhantomData;
pub mod k256 {
    pub mod ecdsa {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct SigningKey;
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Enr<K>(String, PhantomData<K>);
impl<K> serde::Serialize for Enr<K> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0)
    }
}
impl<'de, K> serde::Deserialize<'de> for Enr<K> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Enr(String::deserialize(d)?, PhantomData))
    }
}
