//! Projection of values to the JSON that the specification reads, and back.
//! Numbers are plain; u64::MAX is written 2147483647 and other values the specification's 32-bit
//! integers cannot hold are written as text. Byte strings are hex, bits are lists of 0 and 1.
use crate::{Bitlist, Bitvector, List, Node, Vector, U256};
use serde_json::Value;

pub const FAR: u64 = 2147483647;
pub trait J: Sized {
    fn j(&self) -> Value;
    fn uj(v: &Value) -> Self;
    /// The form inside a single-field wrapper: byte sequences become hex.
    fn j_wrapped(&self) -> Value {
        self.j()
    }
    fn uj_wrapped(v: &Value) -> Self {
        Self::uj(v)
    }
    fn byte(&self) -> Option<u8> {
        None
    }
    fn from_byte(_: u8) -> Option<Self> {
        None
    }
}
fn num(v: &Value) -> u64 {
    match v {
        Value::Number(n) => {
            let n = n.as_u64().unwrap_or_else(|| panic!("harness: number {n}"));
            if n == FAR { u64::MAX } else { n }
        }
        Value::String(s) => s.trim_start_matches("big:").parse().unwrap_or_else(|_| panic!("harness: number {s}")),
        _ => panic!("harness: number {v}"),
    }
}
pub fn jnum(n: u64) -> Value {
    if n == u64::MAX { FAR.into() } else if n >= FAR { format!("big:{n}").into() } else { n.into() }
}
macro_rules! ints { ($($t:ty),*) => {$(
    impl J for $t {
        fn j(&self) -> Value { jnum(*self as u64) }
        fn uj(v: &Value) -> Self { num(v) as $t }
    }
)*}}
ints!(u16, u32, u64, usize);
impl J for u128 {
    fn j(&self) -> Value {
        self.to_string().into()
    }
    fn uj(v: &Value) -> Self {
        v.as_str().expect("harness: u128").parse().expect("harness: u128")
    }
}
impl J for u8 {
    fn j(&self) -> Value {
        (*self).into()
    }
    fn uj(v: &Value) -> Self {
        v.as_u64().expect("harness: u8") as u8
    }
    fn byte(&self) -> Option<u8> {
        Some(*self)
    }
    fn from_byte(b: u8) -> Option<Self> {
        Some(b)
    }
}
impl J for bool {
    fn j(&self) -> Value {
        (*self).into()
    }
    fn uj(v: &Value) -> Self {
        v.as_bool().expect("harness: bool")
    }
}
fn text(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("harness: hex {v}"))
}
fn bytes(v: &Value) -> Vec<u8> {
    hex::decode(text(v)).unwrap_or_else(|_| panic!("harness: hex {v}"))
}
impl J for Node {
    fn j(&self) -> Value {
        hex::encode(self.0).into()
    }
    fn uj(v: &Value) -> Self {
        Node(bytes(v).try_into().expect("harness: 32 bytes"))
    }
}
impl J for U256 {
    fn j(&self) -> Value {
        let b: Vec<u8> = self.0.iter().flat_map(|l| l.to_le_bytes()).collect();
        hex::encode(b).into()
    }
    fn uj(v: &Value) -> Self {
        U256::try_from_le_slice(&bytes(v)).expect("harness: 32 bytes")
    }
}
fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("harness: list {v}"))
}
macro_rules! seqs { ($($n:ident),*) => {$(
    impl<T: J, const N: usize> J for $n<T, N> where $n<T, N>: TryFrom<Vec<T>> {
        fn j(&self) -> Value { self.iter().map(|x| x.j()).collect() }
        fn uj(v: &Value) -> Self {
            arr(v).iter().map(T::uj).collect::<Vec<_>>().try_into().unwrap_or_else(|_| panic!("harness: length {} of {}", N, arr(v).len()))
        }
        fn j_wrapped(&self) -> Value {
            match self.iter().map(|x| x.byte()).collect::<Option<Vec<u8>>>() {
                Some(b) => hex::encode(b).into(),
                None => self.j(),
            }
        }
        fn uj_wrapped(v: &Value) -> Self {
            if T::from_byte(0).is_none() { return Self::uj(v) }
            bytes(v).into_iter().map(|b| T::from_byte(b).unwrap()).collect::<Vec<_>>().try_into().unwrap_or_else(|_| panic!("harness: length {}", N))
        }
    }
)*}}
seqs!(List, Vector);
impl<T: J, const N: usize> J for [T; N] {
    fn j(&self) -> Value {
        hex::encode(self.iter().map(|x| x.byte().expect("harness: byte array")).collect::<Vec<_>>()).into()
    }
    fn uj(v: &Value) -> Self {
        let b: Vec<T> = bytes(v).into_iter().map(|b| T::from_byte(b).expect("harness: byte array")).collect();
        b.try_into().unwrap_or_else(|_| panic!("harness: length {}", N))
    }
}
fn bits(v: &Value) -> Vec<bool> {
    arr(v).iter().map(|x| x.as_u64() == Some(1)).collect()
}
impl<const N: usize> J for Bitlist<N> {
    fn j(&self) -> Value {
        self.iter().map(|b| Value::from(*b as u8)).collect()
    }
    fn uj(v: &Value) -> Self {
        Bitlist::try_from(&bits(v)[..]).unwrap_or_else(|_| panic!("harness: bitlist"))
    }
}
impl<const N: usize> J for Bitvector<N> {
    fn j(&self) -> Value {
        self.iter().map(|b| Value::from(*b as u8)).collect()
    }
    fn uj(v: &Value) -> Self {
        Bitvector::try_from(&bits(v)[..]).unwrap_or_else(|_| panic!("harness: bitvector"))
    }
}
