//! Signatures and polynomial commitments through the crate's wrappers.
use crate::util::*;
use ethereum_consensus::{
    crypto::{bls, bls::*, kzg},
    primitives::Bytes32,
};
use rand::{rngs::StdRng, SeedableRng};
use serde_json::{json, Value};

fn pk(v: &Value) -> PublicKey {
    PublicKey::try_from(unhex(v).as_slice()).expect("key of 48 bytes refused")
}
fn sig(v: &Value) -> Signature {
    Signature::try_from(unhex(v).as_slice()).expect("signature of 96 bytes refused")
}
fn list<T>(v: &Value, f: impl Fn(&Value) -> T) -> Vec<T> {
    v.as_array().unwrap().iter().map(f).collect()
}
fn verdict<E>(r: Result<(), E>) -> Value {
    (if r.is_ok() { "ok" } else { "err" }).into()
}
fn hexed<T: AsRef<[u8]>, E>(r: Result<T, E>) -> Value {
    r.map(|x| hex::encode(x)).unwrap_or("err".into()).into()
}
fn secret<E>(r: Result<SecretKey, E>) -> Value {
    r.map(|k| json!({"pk": hex::encode(&*k.public_key()), "bytes": hex::encode(k.to_bytes())})).unwrap_or("err".into())
}
fn blob(v: &Value) -> Vec<u8> {
    let mut b = unhex(&v["h"]);
    b.resize(v["len"].as_u64().unwrap() as usize, 0);
    b
}
fn b48(v: &Value) -> kzg::KzgCommitment {
    unhex(v).as_slice().try_into().expect("48 bytes refused")
}
fn b32(v: &Value) -> Bytes32 {
    unhex(v).as_slice().try_into().expect("32 bytes refused")
}
pub fn exec(op: &str, a: &Value) -> Value {
    let settings = || kzg::kzg_settings_with_precompute_arc(kzg::PRECOMPUTE);
    match op {
        "bls.hash" => hex::encode(bls::hash(unhex(&a["h"]))).into(),
        "bls.secret" => secret(SecretKey::try_from(unhex(&a["h"]).as_slice())),
        "bls.secret_text" => secret(serde_json::from_str::<SecretKey>(&a["text"].to_string())),
        "bls.master" => secret(SecretKey::from_bytes(&unhex(&a["h"]))),
        "bls.generate" => {
            let mut r = secret(SecretKey::key_gen(&unhex(&a["h"])));
            let again = secret(SecretKey::key_gen(&unhex(&a["h"])));
            if r != "err" {
                r["again"] = (json!({"pk": r["pk"], "bytes": r["bytes"]}) == again).into();
            }
            r
        }
        "bls.random" => {
            // a key made from the generator's next 32 bytes, and another one after it
            let mut rng = StdRng::seed_from_u64(u(&a["seed"]));
            let mut twin = rng.clone();
            let mut r = secret(SecretKey::random(&mut rng));
            let mut ikm = [0; 32];
            rand::Rng::fill(&mut twin, &mut ikm[..]);
            let same = secret(SecretKey::key_gen(&ikm)) == r;
            r["again"] = (same && secret(SecretKey::random(&mut rng)) != r).into();
            r
        }
        "bls.public" => PublicKey::try_from(unhex(&a["h"]).as_slice())
            .map(|k| json!({"bytes": hex::encode(&*k)}))
            .unwrap_or("err".into()),
        "bls.signature" => Signature::try_from(unhex(&a["h"]).as_slice())
            .map(|s| json!({"bytes": hex::encode(&*s), "infinity": s.is_infinity()}))
            .unwrap_or("err".into()),
        "bls.sign" => hex::encode(&*SecretKey::try_from(unhex(&a["sk"]).as_slice()).expect("key refused").sign(&unhex(&a["m"]))).into(),
        "bls.verify" => verdict(verify_signature(&pk(&a["pk"]), &unhex(&a["m"]), &sig(&a["s"]))),
        "bls.verify_many" => {
            let ms = list(&a["ms"], unhex);
            let ms: Vec<&[u8]> = ms.iter().map(|m| m.as_slice()).collect();
            verdict(aggregate_verify(&list(&a["pks"], pk), &ms, &sig(&a["s"])))
        }
        "bls.verify_same" | "bls.verify_sync" => {
            let pks = list(&a["pks"], pk);
            let pks: Vec<&PublicKey> = pks.iter().collect();
            let f = if op == "bls.verify_same" { fast_aggregate_verify } else { eth_fast_aggregate_verify };
            verdict(f(&pks, &unhex(&a["m"]), &sig(&a["s"])))
        }
        "bls.sum" => hexed(aggregate(&list(&a["ss"], sig)).map(|s| s.to_vec())),
        "bls.sum_keys" => hexed(eth_aggregate_public_keys(&list(&a["pks"], pk)).map(|s| s.to_vec())),
        "kzg.commit" => hexed(kzg::blob_to_kzg_commitment(blob(&a["blob"]), &settings())),
        "kzg.open" => kzg::compute_kzg_proof(blob(&a["blob"]), &b32(&a["z"]), &settings())
            .map(|p| json!([hex::encode(&p.proof), hex::encode(&p.evaluation)]))
            .unwrap_or("err".into()),
        "kzg.prove" => hexed(kzg::compute_blob_kzg_proof(blob(&a["blob"]), &b48(&a["c"]), &settings())),
        "kzg.check" => verdict(kzg::verify_kzg_proof(&b48(&a["c"]), &b32(&a["z"]), &b32(&a["y"]), &b48(&a["p"]), &settings())),
        "kzg.check_blob" => verdict(kzg::verify_blob_kzg_proof(blob(&a["blob"]), &b48(&a["c"]), &b48(&a["p"]), &settings())),
        "kzg.check_blobs" => {
            verdict(kzg::verify_blob_kzg_proof_batch(&list(&a["blobs"], blob), &list(&a["cs"], b48), &list(&a["ps"], b48), &settings()))
        }
        _ => panic!("harness: unknown op {op}"),
    }
}

struct Ring(Vec<SecretKey>);
/// the same point plus one of small order: on the curve, but outside the group
fn off_group(g: &mut G, h: &str) -> String {
    format!("{}{}{}", &h[..2], g.pick(&["01", "02"]), &h[4..])
}
fn some_pk(g: &mut G, r: &Ring) -> String {
    match g.below(14) {
        0 => "c0".to_string() + &"00".repeat(47),
        1 => g.hex(48),
        2 => "80".to_string() + &"00".repeat(47),
        3 => { let h = hex::encode(&*g.pick(&r.0).public_key()); off_group(g, &h) }
        _ => hex::encode(&*g.pick(&r.0).public_key()),
    }
}
fn some_sig(g: &mut G, r: &Ring, ms: &[Vec<u8>]) -> String {
    match g.below(12) {
        0 => "c0".to_string() + &"00".repeat(95),
        1 => g.hex(96),
        2 => {
            let mut b = g.pick(&r.0).sign(g.pick::<Vec<u8>>(ms)).to_vec();
            let k = g.below(96) as usize;
            b[k] ^= 1 << g.below(8);
            hex::encode(b)
        }
        3 => { let h = hex::encode(&*g.pick(&r.0).sign(g.pick::<Vec<u8>>(ms))); off_group(g, &h) }
        _ => hex::encode(&*g.pick(&r.0).sign(g.pick::<Vec<u8>>(ms))),
    }
}
fn elem(g: &mut G) -> String {
    // mostly field elements
    let mut b = g.bytes(32);
    if !g.chance(1, 12) {
        b[0] &= 0x3f;
    }
    if g.chance(1, 4) {
        b = vec![0; 32];
        b[31] = g.below(4) as u8;
    }
    hex::encode(b)
}
fn trimmed(mut h: String) -> String {
    while h.ends_with("00") {
        h.truncate(h.len() - 2);
    }
    h
}
pub fn gen(g: &mut G, n: usize) -> Vec<(String, Value)> {
    let order = "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001";
    let ring = Ring((0..6).map(|_| SecretKey::random(&mut g.0).unwrap()).collect());
    let ms: Vec<Vec<u8>> = vec![vec![], b"m".to_vec(), g.bytes(32), g.bytes(32), g.bytes(100)];
    let settings = kzg::kzg_settings_with_precompute_arc(0);
    let mut out = vec![];
    for _ in 0..n {
        let (op, a) = match g.below(22) {
            0 => { let k = g.below(200) as usize; ("bls.hash", json!({"h": g.hex(k)})) }
            1 | 2 => {
                let h = match g.below(8) {
                    0 => { let k = *g.pick(&[0, 1, 31, 33, 64]); g.hex(k) }
                    1 => "00".repeat(32),
                    2 => order.into(),
                    3 => format!("{}00", &order[..62]),
                    4 => format!("{}02", &order[..62]),
                    _ => g.hex(32),
                };
                if g.chance(1, 2) {
                    ("bls.secret", json!({"h": h}))
                } else {
                    let (text, valid) = match g.below(5) {
                        0 => (h.clone(), true),
                        1 => (format!("0x{}", h.to_uppercase()), true),
                        2 => (format!("0x{h}0"), false),
                        3 => (format!("0x{h}zz"), false),
                        _ => (format!("0x{h}"), true),
                    };
                    ("bls.secret_text", json!({"h": h, "text": text, "valid": valid}))
                }
            }
            3 => { let k = *g.pick(&[0, 31, 32, 33, 64, 100]); ("bls.master", json!({"h": g.hex(k)})) }
            4 => { let k = *g.pick(&[0, 31, 32, 33, 64, 100]); ("bls.generate", json!({"h": g.hex(k)})) }
            5 => ("bls.random", json!({"seed": g.below(1 << 30)})),
            6 => { let k = *g.pick(&[0, 47, 48, 48, 49, 96]); ("bls.public", json!({"h": g.hex(k)})) }
            7 => {
                let k = *g.pick(&[0, 95, 96, 96, 97, 48]);
                let h = if g.chance(1, 3) { let mut z = "c0".to_string() + &"00".repeat(95); if g.chance(1, 2) { z.replace_range(190..192, "01") }; z } else { g.hex(k) };
                ("bls.signature", json!({"h": h}))
            }
            8 | 9 => ("bls.sign", json!({"sk": hex::encode(g.pick(&ring.0).clone().to_bytes()), "m": hex::encode(g.pick(&ms))})),
            10 | 11 => {
                let k = g.pick(&ring.0).clone();
                let m = g.pick(&ms).clone();
                let mut s = if g.chance(1, 2) { hex::encode(&*k.sign(&m)) } else { some_sig(g, &ring, &ms) };
                if g.chance(1, 8) {
                    s = off_group(g, &s);
                }
                ("bls.verify", json!({"pk": if g.chance(4, 5) { hex::encode(&*k.public_key()) } else { some_pk(g, &ring) }, "m": hex::encode(m), "s": s}))
            }
            12 | 13 | 14 => {
                // an honest aggregate, then perhaps one thing changed about it
                let n = g.below(6) as usize;
                let same = g.chance(2, 3);
                let m0 = g.pick(&ms).clone();
                let mut ks: Vec<SecretKey> = (0..n).map(|_| g.pick(&ring.0).clone()).collect();
                let mut m: Vec<Vec<u8>> = (0..n).map(|_| if same { m0.clone() } else { g.pick(&ms).clone() }).collect();
                let ss: Vec<Signature> = ks.iter().zip(&m).map(|(k, m)| k.sign(m)).collect();
                let mut s = if n == 0 { "c0".to_string() + &"00".repeat(95) } else { hex::encode(&*aggregate(&ss).unwrap()) };
                let mut m1 = m0;
                match g.below(10) {
                    6 => s = off_group(g, &s),
                    0 => ks.truncate(n.saturating_sub(1)),
                    1 => ks.push(g.pick(&ring.0).clone()),
                    2 => { ks.reverse(); if g.chance(1, 2) { m.reverse() } }
                    3 => { m.pop(); m1 = g.pick(&ms).clone(); }
                    4 => s = some_sig(g, &ring, &ms),
                    5 if n > 0 => { let k = g.below(n as u64) as usize; ks[k] = g.pick(&ring.0).clone(); }
                    _ => {}
                }
                let mut pks: Vec<String> = ks.iter().map(|k| hex::encode(&*k.public_key())).collect();
                if g.chance(1, 10) && n > 0 && !pks.is_empty() {
                    let k = g.below(pks.len() as u64) as usize;
                    pks[k] = some_pk(g, &ring);
                }
                if same {
                    (*g.pick(&["bls.verify_same", "bls.verify_sync"]), json!({"pks": pks, "m": hex::encode(m1), "s": s}))
                } else {
                    ("bls.verify_many", json!({"pks": pks, "ms": m.iter().map(hex::encode).collect::<Vec<_>>(), "s": s}))
                }
            }
            15 => { let k = g.below(5); ("bls.sum", json!({"ss": (0..k).map(|_| some_sig(g, &ring, &ms)).collect::<Vec<_>>()})) }
            16 => { let k = g.below(5); ("bls.sum_keys", json!({"pks": (0..k).map(|_| some_pk(g, &ring)).collect::<Vec<_>>()})) }
            _ => {
                let mk = |g: &mut G| {
                    let k = g.below(4);
                    let len = if g.chance(1, 10) { *g.pick(&[0u64, 131071, 131073, 131040, 262144]) } else { 131072 };
                    let h = trimmed((0..k).map(|_| elem(g)).collect::<String>());
                    if len == 0 { json!({"len": 0, "h": ""}) } else { json!({"len": len, "h": h}) }
                };
                let com = |b: &Value| kzg::blob_to_kzg_commitment(blob(b), &settings).map(|c| hex::encode(c)).unwrap_or("c0".to_string() + &"00".repeat(47));
                let prf = |b: &Value, c: &str| kzg::compute_blob_kzg_proof(blob(b), &b48(&c.into()), &settings).map(|c| hex::encode(c)).unwrap_or("c0".to_string() + &"00".repeat(47));
                let spoil = |g: &mut G, h: String| if g.chance(1, 6) { let mut b = hex::decode(h).unwrap(); let k = g.below(48) as usize; b[k] ^= 1 << g.below(8); hex::encode(b) } else { h };
                let b = mk(g);
                let c = com(&b);
                match g.below(6) {
                    0 => ("kzg.commit", json!({"blob": b})),
                    1 => ("kzg.open", json!({"blob": b, "z": elem(g)})),
                    2 => ("kzg.prove", json!({"blob": b, "c": spoil(g, c)})),
                    3 => {
                        let z = elem(g);
                        let (p, y) = kzg::compute_kzg_proof(blob(&b), &b32(&z.clone().into()), &settings)
                            .map(|o| (hex::encode(&o.proof), hex::encode(&o.evaluation)))
                            .unwrap_or(("c0".to_string() + &"00".repeat(47), "00".repeat(32)));
                        let y = if g.chance(1, 4) { elem(g) } else { y };
                        let z = if g.chance(1, 6) { elem(g) } else { z };
                        ("kzg.check", json!({"c": spoil(g, c), "z": z, "y": y, "p": spoil(g, p)}))
                    }
                    4 => {
                        let p = prf(&b, &c);
                        let b = if g.chance(1, 6) { mk(g) } else { b };
                        ("kzg.check_blob", json!({"blob": b, "c": spoil(g, c), "p": spoil(g, p)}))
                    }
                    _ => {
                        let k = g.below(4);
                        let bs: Vec<Value> = (0..k).map(|_| mk(g)).collect();
                        let mut cs: Vec<String> = bs.iter().map(&com).collect();
                        let mut ps: Vec<String> = bs.iter().zip(&cs).map(|(b, c)| prf(b, c)).collect();
                        match g.below(8) {
                            0 => { cs.pop(); }
                            1 => { ps.pop(); }
                            2 => ps.push("c0".to_string() + &"00".repeat(47)),
                            3 => cs.reverse(),
                            4 if k > 0 => { let j = g.below(k) as usize; ps[j] = spoil(g, ps[j].clone()); }
                            _ => {}
                        }
                        ("kzg.check_blobs", json!({"blobs": bs, "cs": cs, "ps": ps}))
                    }
                }
            }
        };
        out.push((op.to_string(), a));
    }
    out
}
