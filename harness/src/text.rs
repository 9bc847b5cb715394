//! JSON text of bytes and integers.
use crate::util::*;
use ethereum_consensus::{
    crypto::{KzgCommitment, KzgProof, PublicKey, Signature},
    primitives::*,
    serde::{try_bytes_from_hex_str, write_bytes_to_lower_hex, write_bytes_to_lower_hex_display},
    ssz::prelude::{ByteList, ByteVector, List},
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::fmt;

macro_rules! wrap { ($($n:ident $t:ty, $with:literal;)*) => {$( #[derive(Serialize, Deserialize)] struct $n(#[serde(with = $with)] $t); )*} }
/// A byte string of any length, for the codec alone.
#[derive(Debug)]
struct Any(Vec<u8>);
impl TryFrom<&[u8]> for Any {
    type Error = String;
    fn try_from(b: &[u8]) -> Result<Self, String> {
        Ok(Any(b.to_vec()))
    }
}
impl AsRef<[u8]> for Any {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
wrap! {
    HexAny Any, "ethereum_consensus::serde::as_hex";
    Hex4 Version, "ethereum_consensus::serde::as_hex";
    Str8 u8, "ethereum_consensus::serde::as_str";
    Str64 u64, "ethereum_consensus::serde::as_str";
    StrSize usize, "ethereum_consensus::serde::as_str";
    Str256 U256, "ethereum_consensus::serde::as_str";
    Seq8 Vec<u8>, "ethereum_consensus::serde::seq_of_str";
    Seq64 Vec<u64>, "ethereum_consensus::serde::seq_of_str";
    SeqList List<u64, 3>, "ethereum_consensus::serde::seq_of_str";
}
struct Show<F: Fn(&mut fmt::Formatter<'_>) -> fmt::Result>(F);
impl<F: Fn(&mut fmt::Formatter<'_>) -> fmt::Result> fmt::Display for Show<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (self.0)(f)
    }
}
/// Writes the text with its first character escaped, which forces readers to copy it.
fn escaped(j: &Value) -> String {
    match j {
        Value::String(s) if !s.is_empty() => {
            let c = s.chars().next().unwrap();
            let rest = serde_json::to_string(&s[c.len_utf8()..]).unwrap();
            if (c as u32) < 0x10000 { format!("\"\\u{:04x}{}", c as u32, &rest[1..]) } else { serde_json::to_string(s).unwrap() }
        }
        Value::Array(v) => format!("[{}]", v.iter().map(escaped).collect::<Vec<_>>().join(" ,")),
        v => v.to_string(),
    }
}
/// The value read from text, from a reader, from a parsed tree and from escaped text.
fn read<T: DeserializeOwned>(j: &Value, show: impl Fn(T) -> Value) -> Value {
    let t = j.to_string();
    let f = |r: Result<T, serde_json::Error>| r.map(&show).unwrap_or_else(|_| "err".into());
    json!([f(serde_json::from_str(&t)), f(serde_json::from_reader(t.as_bytes())), f(serde_json::from_value(j.clone())),
        f(serde_json::from_str(&escaped(j)))])
}
fn write<T: Serialize>(t: &T) -> Value {
    let v = serde_json::to_value(t).unwrap();
    let s: Value = serde_json::from_str(&serde_json::to_string(t).unwrap()).unwrap();
    if v == s { v } else { json!({"value": v, "text": s}) }
}
fn hx(b: impl AsRef<[u8]>) -> Value {
    hex::encode(b).into()
}
fn dec(v: impl ToString) -> Value {
    v.to_string().into()
}
fn decs<T: ToString>(v: impl IntoIterator<Item = T>) -> Value {
    v.into_iter().map(|x| x.to_string()).collect::<Vec<_>>().into()
}
fn nums<T: std::str::FromStr>(v: &Value) -> Vec<T> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().parse().unwrap_or_else(|_| panic!("harness: number"))).collect()
}
fn num<T: std::str::FromStr>(v: &Value) -> T {
    v.as_str().unwrap().parse().unwrap_or_else(|_| panic!("harness: number"))
}
pub fn exec(op: &str, a: &Value) -> Value {
    let v = &a["v"];
    let b = || unhex(v);
    match op {
        "text.enc" => match a["ty"].as_str().unwrap() {
            "hex" => write(&HexAny(Any(b()))),
            "version" => write(&Hex4(b().try_into().unwrap())),
            "bytes1" => write(&ByteVector::<1>::try_from(&b()[..]).unwrap()),
            "address" => write(&ExecutionAddress::try_from(&b()[..]).unwrap()),
            "bytes32" => write(&Bytes32::try_from(&b()[..]).unwrap()),
            "list2" => write(&ByteList::<2>::try_from(&b()[..]).unwrap()),
            "list40" => write(&ByteList::<40>::try_from(&b()[..]).unwrap()),
            "pk" => write(&PublicKey::try_from(&b()[..]).unwrap()),
            "sig" => write(&Signature::try_from(&b()[..]).unwrap()),
            "commitment" => write(&KzgCommitment::try_from(&b()[..]).unwrap()),
            "proof" => write(&KzgProof::try_from(&b()[..]).unwrap()),
            "u8" => write(&Str8(num(v))),
            "u64" => write(&Str64(num(v))),
            "usize" => write(&StrSize(num(v))),
            "u256" => write(&Str256(num(v))),
            "seq8" => write(&Seq8(nums(v))),
            "seq64" => write(&Seq64(nums(v))),
            "seqlist3" => write(&SeqList(List::try_from(nums(v)).unwrap())),
            t => panic!("harness: type {t}"),
        },
        "text.dec" => {
            let j = match a["k"].as_str().unwrap() {
                "str" => a["s"].clone(),
                "list" => a["s"].clone(),
                _ => serde_json::from_str(a["s"].as_str().unwrap()).unwrap(),
            };
            match a["ty"].as_str().unwrap() {
                "hex" => read(&j, |x: HexAny| hx(x.0 .0)),
                "version" => read(&j, |x: Hex4| hx(x.0)),
                "bytes1" => read(&j, |x: ByteVector<1>| hx(x)),
                "address" => read(&j, |x: ExecutionAddress| hx(x)),
                "bytes32" => read(&j, |x: Bytes32| hx(x)),
                "list2" => read(&j, |x: ByteList<2>| hx(x)),
                "list40" => read(&j, |x: ByteList<40>| hx(x)),
                "pk" => read(&j, |x: PublicKey| hx(&x[..])),
                "sig" => read(&j, |x: Signature| hx(&x[..])),
                "commitment" => read(&j, |x: KzgCommitment| hx(&x[..])),
                "proof" => read(&j, |x: KzgProof| hx(&x[..])),
                "u8" => read(&j, |x: Str8| dec(x.0)),
                "u64" => read(&j, |x: Str64| dec(x.0)),
                "usize" => read(&j, |x: StrSize| dec(x.0)),
                "u256" => read(&j, |x: Str256| dec(x.0)),
                "seq8" => read(&j, |x: Seq8| decs(x.0)),
                "seq64" => read(&j, |x: Seq64| decs(x.0)),
                "seqlist3" => read(&j, |x: SeqList| decs(x.0.iter())),
                t => panic!("harness: type {t}"),
            }
        }
        // a location in the block tree, there and back
        "text.coordinate" => {
            let t = json!({"slot": a["slot"], "root": format!("0x{}", a["root"].as_str().unwrap())});
            serde_json::from_value::<Coordinate>(t).map(|c| serde_json::to_value(c).unwrap()).unwrap_or_else(|_| "err".into())
        }
        "text.bytes" => try_bytes_from_hex_str(a["s"].as_str().unwrap()).map(hx).unwrap_or_else(|_| "err".into()),
        "text.show" => {
            let x = b();
            json!({"full": Show(|f| write_bytes_to_lower_hex(f, &x)).to_string(),
                "short": Show(|f| write_bytes_to_lower_hex_display(f, x.iter())).to_string(),
                "debug": format!("{:?}", ByteList::<64>::try_from(&x[..]).unwrap()),
                "display": format!("{}", ByteList::<64>::try_from(&x[..]).unwrap())})
        }
        _ => panic!("harness: unknown op {op}"),
    }
}

const FIXED: [(&str, usize); 8] =
    [("version", 4), ("bytes1", 1), ("address", 20), ("bytes32", 32), ("pk", 48), ("sig", 96), ("commitment", 48), ("proof", 48)];
fn mangle(g: &mut G, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..g.range(1, 2) {
        let i = g.below(c.len() as u64 + 1) as usize;
        match g.below(5) {
            0 if i < c.len() => { c.remove(i); }
            1 => c.insert(i, *g.pick(&['0', 'f', 'F', 'g', 'x', ' ', '-', '+', '_', '.', 'é'])),
            2 if i < c.len() => c[i] = *g.pick(&['0', 'a', 'A', 'G', 'x', ' ', '/', ':', '@', '`']),
            3 if i < c.len() => c[i] = c[i].to_ascii_uppercase(),
            _ => { c.truncate(i) }
        }
    }
    c.into_iter().collect()
}
fn int(g: &mut G, ty: &str) -> String {
    let bits: u32 = match ty { "u8" | "seq8" => 8, "u256" => 256, _ => 64 };
    if bits == 256 {
        return match g.below(4) {
            0 => "115792089237316195423570985008687907853269984665640564039457584007913129639935".into(),
            1 => "115792089237316195423570985008687907853269984665640564039457584007913129639936".into(),
            2 => g.u64().to_string(),
            _ => { let n = g.range(1, 76); let mut s = g.range(1, 9).to_string(); (1..n).for_each(|_| s.push((b'0' + g.below(10) as u8) as char)); s }
        };
    }
    let max = if bits == 64 { u64::MAX as u128 } else { (1u128 << bits) - 1 };
    match g.below(6) {
        0 => max.to_string(),
        1 => (max + 1 + g.below(3) as u128).to_string(),
        2 => g.below(12).to_string(),
        3 => (max - g.below(300).min(max as u64) as u128).to_string(),
        4 => ((g.u64() as u128) << g.below(5)).to_string(),
        _ => (g.u64() as u128 & max).to_string(),
    }
}
fn wrong(g: &mut G, s: String) -> String {
    match g.below(9) {
        0 => mangle(g, &s),
        1 => format!("+{s}"),
        2 => format!("0{s}"),
        3 => format!("-{s}"),
        4 => format!("0x{s}"),
        5 => s + &["", " ", ".0", "e1", "_"][g.below(5) as usize],
        _ => s,
    }
}
pub fn gen(g: &mut G, n: usize) -> Vec<(String, Value)> {
    let mut v: Vec<(String, Value)> = vec![];
    for _ in 0..n {
        let mut add = |op: &str, a: Value| v.push((op.to_string(), a));
        match g.below(10) {
            0 => { let n = *g.pick(&[0usize, 1, 3, 4, 5, 20, 64]); add("text.show", json!({"v": g.hex(n)})) }
            1 => add("text.coordinate", json!({"slot": int(g, "u64"), "root": g.hex(32)})),
            2 => {
                let (ty, n) = *g.pick(&FIXED);
                add("text.enc", json!({"ty": ty, "v": g.hex(n)}))
            }
            3 => { let n = g.below(70) as usize; add("text.enc", json!({"ty": "hex", "v": g.hex(n)})) }
            4 => { let n = g.below(41) as usize; add("text.enc", json!({"ty": "list40", "v": g.hex(n)})) }
            5 => {
                let ty = *g.pick(&["u64", "usize", "u8"]);
                let x = if ty == "u8" { g.below(256) } else { g.u64() >> g.below(64) };
                add("text.enc", json!({"ty": ty, "v": x.to_string()}));
                let m = g.below(4);
                let s: Vec<String> = (0..m).map(|_| g.u64().to_string()).collect();
                add("text.enc", json!({"ty": *g.pick(&["seq64", "seqlist3"]), "v": s}))
            }
            6 | 7 => {
                let mut all = FIXED.to_vec();
                let l = g.below(44) as usize;
                all.extend([("hex", l), ("list40", l), ("list2", l % 5)]);
                let (ty, mut n) = *g.pick(&all);
                if g.chance(1, 4) { n = (n + g.below(3) as usize).saturating_sub(1) }
                let mut s = g.hex(n);
                if g.chance(1, 3) { s = s.to_uppercase() }
                if !g.chance(1, 5) { s = format!("0x{s}") }
                if g.chance(1, 3) { s = mangle(g, &s) }
                if g.chance(1, 4) { add("text.bytes", json!({"s": s})) } else { add("text.dec", json!({"ty": ty, "k": "str", "s": s})) }
            }
            8 => {
                let ty = *g.pick(&["u8", "u64", "usize", "u256"]);
                let s = int(g, ty);
                let s = if ty == "u256" { s } else { wrong(g, s) };
                add("text.dec", json!({"ty": ty, "k": "str", "s": s}))
            }
            _ => {
                let ty = *g.pick(&["seq8", "seq64", "seqlist3"]);
                let m = g.below(5);
                let s: Vec<String> = (0..m).map(|_| { let s = int(g, ty); if g.chance(1, 4) { wrong(g, s) } else { s } }).collect();
                add("text.dec", json!({"ty": ty, "k": "list", "s": s}))
            }
        }
    }
    v
}
