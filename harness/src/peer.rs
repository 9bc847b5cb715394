//! Peer identities.
use crate::util::*;
use bincode::Options;
use ethereum_consensus::networking::PeerId;
use multihash::Multihash;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashSet};
use std::str::FromStr;

fn views(p: PeerId) -> Value {
    let j = serde_json::to_value(p).map(|v| v.as_str().unwrap_or("not a text").to_string()).unwrap_or("err".into());
    let b = bincode::serialize(&p).map(hex::encode).unwrap_or("err".into());
    json!({"bytes": hex::encode(p.to_bytes()), "text": p.to_base58(), "shown": p.to_string(), "json": j, "bin": b})
}
fn or_err<E>(r: Result<PeerId, E>) -> Value {
    r.map(views).unwrap_or("err".into())
}
pub fn exec(op: &str, a: &Value) -> Value {
    let s = |k: &str| a[k].as_str().unwrap();
    match op {
        "peer.bytes" => or_err(PeerId::from_bytes(&unhex(&a["h"]))),
        "peer.bin" => {
            let h = unhex(&a["h"]);
            let mut b = (h.len() as u64).to_le_bytes().to_vec();
            b.extend(h);
            or_err(bincode::options().with_fixint_encoding().deserialize::<PeerId>(&b))
        }
        "peer.text" => or_err(PeerId::from_str(s("text"))),
        "peer.json" => or_err(serde_json::from_str::<PeerId>(&a["text"].to_string())),
        "peer.multi" => {
            let m = Multihash::wrap(u(&a["code"]), &unhex(&a["digest"])).expect("harness: a multihash");
            match PeerId::from_multihash(m) {
                Ok(p) => views(p),
                Err(m) => json!({"code": m.code().to_string(), "digest": hex::encode(m.digest())}),
            }
        }
        "peer.same" => {
            let p = |k: &str| PeerId::from_bytes(&unhex(&a[k])).expect("identity refused");
            let (x, y) = (p("x"), p("y"));
            let h = HashSet::from([x, y]).len() == 1;
            let o = BTreeSet::from([x, y]).len() == 1;
            json!({"eq": x == y, "hash": h, "order": o})
        }
        _ => panic!("harness: unknown op {op}"),
    }
}
const B58: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
fn peer(g: &mut G) -> Vec<u8> {
    let (code, max) = if g.chance(1, 2) { (0x12, 64) } else { (0, 42) };
    let n = if g.chance(1, 2) { *g.pick(&[32, max]) } else { g.below(max as u64 + 1) as usize };
    let mut b = vec![code, n as u8];
    b.extend(g.bytes(n));
    b
}
pub fn gen(g: &mut G, n: usize) -> Vec<(String, Value)> {
    let mut v = vec![];
    for _ in 0..n {
        let mut b = peer(g);
        match g.below(8) {
            0 => {
                let k = g.below(b.len() as u64) as usize;
                b[k] ^= 1 << g.below(8);
            }
            1 => b.push(0),
            2 => {
                b.pop();
            }
            3 => b.insert(0, 0),
            _ => {}
        }
        match g.below(6) {
            0 => v.push(("peer.bytes".into(), json!({"h": hex::encode(&b)}))),
            1 => v.push(("peer.bin".into(), json!({"h": hex::encode(&b)}))),
            2 => {
                let (x, mut y) = (peer(g), peer(g));
                if g.chance(1, 2) {
                    y = x.clone();
                    if y.len() > 2 && g.chance(1, 2) {
                        let k = g.range(2, y.len() as u64 - 1) as usize;
                        y[k] ^= 1 << g.below(8);
                    }
                }
                v.push(("peer.same".into(), json!({"x": hex::encode(x), "y": hex::encode(y)})))
            }
            3 => {
                // any number in base 58
                let k = g.below(60);
                let mut t: String = (0..k).map(|_| *g.pick(B58) as char).collect();
                if g.chance(1, 4) {
                    t.insert(0, '1')
                }
                v.push(("peer.text".into(), json!({"text": t})))
            }
            _ => {
                let mut t = bs58::encode(&b).into_string();
                match g.below(8) {
                    0 => t.insert(g.below(t.len() as u64 + 1) as usize, *g.pick(&['0', 'O', 'I', 'l', ' ', '\n', '1', 'é', 'z'])),
                    1 => {
                        t.pop();
                    }
                    2 => t.insert(0, '1'),
                    3 => t = t.to_lowercase(),
                    _ => {}
                }
                v.push((if g.chance(1, 2) { "peer.text" } else { "peer.json" }.into(), json!({"text": t})))
            }
        }
    }
    v
}
