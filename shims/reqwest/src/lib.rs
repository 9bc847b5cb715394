//! Stand-in for `reqwest`: nothing is sent; requests are recorded and answered from a script (both per thread).
use serde::{de::DeserializeOwned, ser, Serialize};
use std::{cell::RefCell, fmt};
pub use http::{header, HeaderMap, Method, StatusCode};
pub use url::Url;

#[derive(Clone, Debug)]
pub struct Sent {
    pub method: Method,
    pub url: Url,
    pub headers: HeaderMap,
    pub body: Option<Vec<u8>>,
}
#[derive(Clone, Debug, Default)]
pub struct Answer {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    /// the connection fails instead
    pub broken: bool,
}
thread_local! {
    static SENT: RefCell<Vec<Sent>> = const { RefCell::new(vec![]) };
    static SCRIPT: RefCell<Vec<Answer>> = const { RefCell::new(vec![]) };
}
pub fn script(a: Vec<Answer>) {
    SCRIPT.with(|s| *s.borrow_mut() = a);
    SENT.with(|s| s.borrow_mut().clear());
}
pub fn sent() -> Vec<Sent> {
    SENT.with(|s| s.borrow().clone())
}
pub fn answer(r: Sent) -> Result<Answer, Error> {
    SENT.with(|s| s.borrow_mut().push(r));
    // the last answer stays for whatever follows
    let a = SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        if s.len() > 1 { Some(s.remove(0)) } else { s.first().cloned() }
    });
    match a {
        Some(a) if !a.broken => Ok(a),
        _ => Err(Error::new("request", "no connection")),
    }
}

pub struct Error(&'static str, String, Option<StatusCode>);
pub type Result<T, E = Error> = std::result::Result<T, E>;
impl Error {
    fn new(k: &'static str, m: impl ToString) -> Self {
        Error(k, m.to_string(), None)
    }
    pub fn is_decode(&self) -> bool {
        self.0 == "decode"
    }
    pub fn is_builder(&self) -> bool {
        self.0 == "builder"
    }
    pub fn is_request(&self) -> bool {
        self.0 == "request"
    }
    pub fn is_connect(&self) -> bool {
        self.0 == "request"
    }
    pub fn is_timeout(&self) -> bool {
        false
    }
    pub fn is_status(&self) -> bool {
        self.0 == "status"
    }
    pub fn status(&self) -> Option<StatusCode> {
        self.2
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{} error: {}", self.0, self.1)
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self}")
    }
}
impl std::error::Error for Error {}

pub trait IntoUrl {
    fn into_url(self) -> Result<Url>;
}
impl IntoUrl for Url {
    fn into_url(self) -> Result<Url> {
        Ok(self)
    }
}
impl IntoUrl for &str {
    fn into_url(self) -> Result<Url> {
        Url::parse(self).map_err(|e| Error::new("builder", e))
    }
}
impl IntoUrl for String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}
impl IntoUrl for &String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Client;
#[derive(Clone, Debug, Default)]
pub struct ClientBuilder;
impl ClientBuilder {
    pub fn new() -> Self {
        Self
    }
    pub fn timeout(self, _: std::time::Duration) -> Self {
        self
    }
    pub fn build(self) -> Result<Client> {
        Ok(Client)
    }
}
impl Client {
    pub fn new() -> Self {
        Self
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder
    }
    pub fn request<U: IntoUrl>(&self, method: Method, url: U) -> RequestBuilder {
        RequestBuilder(url.into_url().map(|url| Sent { method, url, headers: HeaderMap::new(), body: None }))
    }
    pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::GET, url)
    }
    pub fn post<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::POST, url)
    }
    pub fn put<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::PUT, url)
    }
    pub fn delete<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::DELETE, url)
    }
}
#[derive(Debug)]
pub struct RequestBuilder(Result<Sent>);
impl RequestBuilder {
    fn with(self, f: impl FnOnce(&mut Sent) -> Result<()>) -> Self {
        RequestBuilder(self.0.and_then(|mut r| f(&mut r).map(|_| r)))
    }
    pub fn query<T: Serialize + ?Sized>(self, q: &T) -> Self {
        self.with(|r| {
            let pairs = pairs(q)?;
            if !pairs.is_empty() {
                r.url.query_pairs_mut().extend_pairs(pairs);
            }
            Ok(())
        })
    }
    pub fn json<T: Serialize + ?Sized>(self, v: &T) -> Self {
        self.with(|r| {
            r.body = Some(serde_json::to_vec(v).map_err(|e| Error::new("builder", e))?);
            if !r.headers.contains_key(header::CONTENT_TYPE) {
                r.headers.insert(header::CONTENT_TYPE, header::HeaderValue::from_static("application/json"));
            }
            Ok(())
        })
    }
    pub fn header<K, V>(self, k: K, v: V) -> Self
    where
        header::HeaderName: TryFrom<K>,
        <header::HeaderName as TryFrom<K>>::Error: Into<http::Error>,
        header::HeaderValue: TryFrom<V>,
        <header::HeaderValue as TryFrom<V>>::Error: Into<http::Error>,
    {
        self.with(|r| {
            let k = header::HeaderName::try_from(k).map_err(|e| Error::new("builder", e.into()))?;
            let v = header::HeaderValue::try_from(v).map_err(|e| Error::new("builder", e.into()))?;
            r.headers.append(k, v);
            Ok(())
        })
    }
    pub fn headers(self, h: HeaderMap) -> Self {
        self.with(|r| {
            r.headers.extend(h);
            Ok(())
        })
    }
    pub fn body<B: Into<Vec<u8>>>(self, b: B) -> Self {
        self.with(|r| {
            r.body = Some(b.into());
            Ok(())
        })
    }
    pub fn timeout(self, _: std::time::Duration) -> Self {
        self
    }
    pub async fn send(self) -> Result<Response> {
        let r = self.0?;
        let url = r.url.clone();
        answer(r).map(|a| Response(a, url))
    }
}
#[derive(Debug)]
pub struct Response(Answer, Url);
impl Response {
    pub fn status(&self) -> StatusCode {
        StatusCode::from_u16(self.0.status).expect("a status")
    }
    pub fn url(&self) -> &Url {
        &self.1
    }
    pub fn headers(&self) -> HeaderMap {
        self.0.headers.iter().map(|(k, v)| (k.parse::<header::HeaderName>().unwrap(), v.parse::<header::HeaderValue>().unwrap())).collect()
    }
    pub fn error_for_status(self) -> Result<Self> {
        let s = self.status();
        if s.is_client_error() || s.is_server_error() { Err(Error("status", s.to_string(), Some(s))) } else { Ok(self) }
    }
    pub async fn json<T: DeserializeOwned>(self) -> Result<T> {
        serde_json::from_slice(&self.0.body).map_err(|e| Error::new("decode", e))
    }
    pub async fn bytes(self) -> Result<Vec<u8>> {
        Ok(self.0.body)
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.0.body).into_owned())
    }
}

/// What `serde_urlencoded` makes of a sequence (or map) of pairs: values are scalars, `None` leaves its pair out.
fn pairs<T: Serialize + ?Sized>(q: &T) -> Result<Vec<(String, String)>> {
    let v = q.serialize(Top).map_err(|e| Error::new("builder", e.0))?;
    Ok(v)
}
#[derive(Debug)]
struct E(String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}
type Pairs = Vec<(String, String)>;
fn no<T>() -> std::result::Result<T, E> {
    Err(E("unsupported value".into()))
}
macro_rules! refuse { ($ok:ty; $($f:ident: $t:ty),*) => { $(fn $f(self, _: $t) -> std::result::Result<$ok, E> { no() })* } }
/// the sequence of pairs
struct Top;
struct TopSeq(Pairs, Option<String>);
impl ser::Serializer for Top {
    type Ok = Pairs;
    type Error = E;
    type SerializeSeq = TopSeq;
    type SerializeTuple = TopSeq;
    type SerializeTupleStruct = ser::Impossible<Pairs, E>;
    type SerializeTupleVariant = ser::Impossible<Pairs, E>;
    type SerializeMap = TopSeq;
    type SerializeStruct = TopSeq;
    type SerializeStructVariant = ser::Impossible<Pairs, E>;
    refuse!(Pairs; serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_u8: u8,
        serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32, serialize_f64: f64, serialize_char: char,
        serialize_str: &str, serialize_bytes: &[u8]);
    fn serialize_none(self) -> std::result::Result<Pairs, E> {
        Ok(vec![])
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> std::result::Result<Pairs, E> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> std::result::Result<Pairs, E> {
        Ok(vec![])
    }
    fn serialize_unit_struct(self, _: &'static str) -> std::result::Result<Pairs, E> {
        no()
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> std::result::Result<Pairs, E> {
        no()
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> std::result::Result<Pairs, E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> std::result::Result<Pairs, E> {
        no()
    }
    fn serialize_seq(self, _: Option<usize>) -> std::result::Result<TopSeq, E> {
        Ok(TopSeq(vec![], None))
    }
    fn serialize_tuple(self, _: usize) -> std::result::Result<TopSeq, E> {
        Ok(TopSeq(vec![], None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> std::result::Result<Self::SerializeTupleStruct, E> {
        no()
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> std::result::Result<Self::SerializeTupleVariant, E> {
        no()
    }
    fn serialize_map(self, _: Option<usize>) -> std::result::Result<TopSeq, E> {
        Ok(TopSeq(vec![], None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> std::result::Result<TopSeq, E> {
        Ok(TopSeq(vec![], None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> std::result::Result<Self::SerializeStructVariant, E> {
        no()
    }
}
impl TopSeq {
    fn put(&mut self, k: String, v: Option<String>) {
        if let Some(v) = v {
            self.0.push((k, v))
        }
    }
}
impl ser::SerializeSeq for TopSeq {
    type Ok = Pairs;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> std::result::Result<(), E> {
        let mut p = v.serialize(Scalars(vec![]))?;
        if p.len() != 2 {
            return Err(E("this is not a pair".into()));
        }
        let v = p.pop().unwrap();
        let k = p.pop().unwrap().ok_or(E("a key is missing".into()))?;
        self.put(k, v);
        Ok(())
    }
    fn end(self) -> std::result::Result<Pairs, E> {
        Ok(self.0)
    }
}
impl ser::SerializeTuple for TopSeq {
    type Ok = Pairs;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> std::result::Result<(), E> {
        ser::SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> std::result::Result<Pairs, E> {
        Ok(self.0)
    }
}
impl ser::SerializeMap for TopSeq {
    type Ok = Pairs;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> std::result::Result<(), E> {
        self.1 = scalar(k)?;
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> std::result::Result<(), E> {
        let k = self.1.take().ok_or(E("a key is missing".into()))?;
        let v = scalar(v)?;
        self.put(k, v);
        Ok(())
    }
    fn end(self) -> std::result::Result<Pairs, E> {
        Ok(self.0)
    }
}
impl ser::SerializeStruct for TopSeq {
    type Ok = Pairs;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> std::result::Result<(), E> {
        let v = scalar(v)?;
        self.put(k.into(), v);
        Ok(())
    }
    fn end(self) -> std::result::Result<Pairs, E> {
        Ok(self.0)
    }
}
fn scalar<T: Serialize + ?Sized>(v: &T) -> std::result::Result<Option<String>, E> {
    let mut p = (v,).serialize(Scalars(vec![]))?;
    Ok(p.pop().unwrap())
}
/// a tuple of scalars
struct Scalars(Vec<Option<String>>);
macro_rules! shown { ($($f:ident: $t:ty),*) => { $(fn $f(self, v: $t) -> std::result::Result<Self::Ok, E> { Ok(Some(v.to_string())) })* } }
impl ser::Serializer for Scalars {
    type Ok = Vec<Option<String>>;
    type Error = E;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = ser::Impossible<Self::Ok, E>;
    type SerializeMap = ser::Impossible<Self::Ok, E>;
    type SerializeStruct = ser::Impossible<Self::Ok, E>;
    type SerializeStructVariant = ser::Impossible<Self::Ok, E>;
    refuse!(Self::Ok; serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_u8: u8,
        serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32, serialize_f64: f64, serialize_char: char,
        serialize_str: &str, serialize_bytes: &[u8]);
    fn serialize_none(self) -> std::result::Result<Self::Ok, E> {
        no()
    }
    fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> std::result::Result<Self::Ok, E> {
        no()
    }
    fn serialize_unit(self) -> std::result::Result<Self::Ok, E> {
        no()
    }
    fn serialize_unit_struct(self, _: &'static str) -> std::result::Result<Self::Ok, E> {
        no()
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> std::result::Result<Self::Ok, E> {
        no()
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> std::result::Result<Self::Ok, E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> std::result::Result<Self::Ok, E> {
        no()
    }
    fn serialize_seq(self, _: Option<usize>) -> std::result::Result<Self, E> {
        no()
    }
    fn serialize_tuple(self, _: usize) -> std::result::Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> std::result::Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> std::result::Result<Self::SerializeTupleVariant, E> {
        no()
    }
    fn serialize_map(self, _: Option<usize>) -> std::result::Result<Self::SerializeMap, E> {
        no()
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> std::result::Result<Self::SerializeStruct, E> {
        no()
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> std::result::Result<Self::SerializeStructVariant, E> {
        no()
    }
}
macro_rules! elements { ($($t:ident $f:ident),*) => { $(impl ser::$t for Scalars {
    type Ok = Vec<Option<String>>;
    type Error = E;
    fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> std::result::Result<(), E> {
        self.0.push(v.serialize(One)?);
        Ok(())
    }
    fn end(self) -> std::result::Result<Self::Ok, E> {
        Ok(self.0)
    }
})* } }
elements!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field);
/// one scalar
struct One;
impl ser::Serializer for One {
    type Ok = Option<String>;
    type Error = E;
    type SerializeSeq = ser::Impossible<Self::Ok, E>;
    type SerializeTuple = ser::Impossible<Self::Ok, E>;
    type SerializeTupleStruct = ser::Impossible<Self::Ok, E>;
    type SerializeTupleVariant = ser::Impossible<Self::Ok, E>;
    type SerializeMap = ser::Impossible<Self::Ok, E>;
    type SerializeStruct = ser::Impossible<Self::Ok, E>;
    type SerializeStructVariant = ser::Impossible<Self::Ok, E>;
    shown!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_u8: u8,
        serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32, serialize_f64: f64, serialize_char: char,
        serialize_str: &str);
    fn serialize_bytes(self, v: &[u8]) -> std::result::Result<Self::Ok, E> {
        String::from_utf8(v.to_vec()).map(Some).map_err(|e| E(e.to_string()))
    }
    fn serialize_none(self) -> std::result::Result<Self::Ok, E> {
        Ok(None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> std::result::Result<Self::Ok, E> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> std::result::Result<Self::Ok, E> {
        no()
    }
    fn serialize_unit_struct(self, n: &'static str) -> std::result::Result<Self::Ok, E> {
        Ok(Some(n.into()))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> std::result::Result<Self::Ok, E> {
        Ok(Some(v.into()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> std::result::Result<Self::Ok, E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> std::result::Result<Self::Ok, E> {
        no()
    }
    fn serialize_seq(self, _: Option<usize>) -> std::result::Result<Self::SerializeSeq, E> {
        no()
    }
    fn serialize_tuple(self, _: usize) -> std::result::Result<Self::SerializeTuple, E> {
        no()
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> std::result::Result<Self::SerializeTupleStruct, E> {
        no()
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> std::result::Result<Self::SerializeTupleVariant, E> {
        no()
    }
    fn serialize_map(self, _: Option<usize>) -> std::result::Result<Self::SerializeMap, E> {
        no()
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> std::result::Result<Self::SerializeStruct, E> {
        no()
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> std::result::Result<Self::SerializeStructVariant, E> {
        no()
    }
}
