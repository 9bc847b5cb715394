//! Stand-in for `serde_yaml` 0.8: flat `KEY: scalar` documents (which is what consensus configs are).
use serde::de::{self, value::MapDeserializer, IntoDeserializer, Visitor};
use std::{fmt, io::Read};

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
pub struct Scalar {
    text: String,
    quoted: bool,
}
impl<'de> IntoDeserializer<'de, Error> for Scalar {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}
impl Scalar {
    fn int(&self) -> Option<i128> {
        if self.quoted {
            return None;
        }
        if let Some(h) = self.text.strip_prefix("0x") {
            return u64::from_str_radix(h, 16).ok().map(|v| v as i128);
        }
        self.text.parse().ok()
    }
}
macro_rules! ints {
    ($($f:ident $v:ident $t:ty),*) => {$(
        fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
            match self.int() {
                Some(i) => v.$v(<$t>::try_from(i).map_err(|_| Error("integer out of range".into()))?),
                None => Err(de::Error::invalid_type(de::Unexpected::Str(&self.text), &v)),
            }
        }
    )*};
}
impl<'de> de::Deserializer<'de> for Scalar {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.int() {
            Some(i) if i >= 0 && i <= u64::MAX as i128 => v.visit_u64(i as u64),
            Some(i) if i < 0 => v.visit_i64(i as i64),
            _ if !self.quoted && self.text == "true" => v.visit_bool(true),
            _ if !self.quoted && self.text == "false" => v.visit_bool(false),
            _ => v.visit_string(self.text),
        }
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_string(self.text)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_string(self.text)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_some(self)
    }
    ints!(deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32,
          deserialize_u64 visit_u64 u64, deserialize_i64 visit_i64 i64, deserialize_i32 visit_i32 i32);
    serde::forward_to_deserialize_any! {
        bool i8 i16 f32 f64 char bytes byte_buf unit unit_struct seq tuple tuple_struct map struct enum
        identifier ignored_any
    }
}
pub fn from_str<T: de::DeserializeOwned>(s: &str) -> Result<T, Error> {
    let mut m: Vec<(String, Scalar)> = vec![];
    for l in s.lines() {
        if l.trim().is_empty() || l.trim_start().starts_with('#') || l.trim() == "---" {
            continue;
        }
        let (k, v) = l.split_once(':').ok_or_else(|| Error(format!("not a mapping: {l}")))?;
        let v = v.trim();
        let sc = if let Some(q) = v.chars().next().filter(|c| *c == '\'' || *c == '"') {
            let end = v[1..].find(q).ok_or_else(|| Error("unterminated string".into()))?;
            Scalar { text: v[1..1 + end].to_string(), quoted: true }
        } else {
            Scalar { text: v.split(" #").next().unwrap().trim().to_string(), quoted: false }
        };
        m.push((k.trim().to_string(), sc));
    }
    T::deserialize(MapDeserializer::new(m.into_iter()))
}
pub fn from_reader<R: Read, T: de::DeserializeOwned>(mut r: R) -> Result<T, Error> {
    let mut s = String::new();
    r.read_to_string(&mut s).map_err(|e| Error(e.to_string()))?;
    from_str(&s)
}
