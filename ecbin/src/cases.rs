#[path = "/verif/harness/src/util.rs"]
mod util;
use crate::validator::{keys, mnemonic};
use ethereum_consensus::serde::as_hex;
use serde_json::{json, Value};
use std::{
    io::{BufRead, BufWriter, Read, Write},
    process::{Command, Stdio},
};
use util::*;

fn text(v: &Value) -> String {
    String::from_utf8(unhex(v)).expect("harness: utf8")
}
fn hx(s: &str) -> Value {
    hex::encode(s).into()
}
/// Runs the command line tool; its standard output, or nothing when it fails.
fn ec(args: &[&str], input: &[u8]) -> Option<Vec<u8>> {
    let exe = std::env::current_exe().unwrap().with_file_name("ec");
    let mut c = Command::new(exe).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("harness: spawn");
    let mut i = c.stdin.take().unwrap();
    let input = input.to_vec();
    let t = std::thread::spawn(move || {
        let _ = i.write_all(&input);
    });
    let mut err = c.stderr.take().unwrap();
    let e = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = err.read_to_string(&mut s);
        s
    });
    let mut out = vec![];
    c.stdout.take().unwrap().read_to_end(&mut out).unwrap();
    t.join().unwrap();
    let e = e.join().unwrap();
    let st = c.wait().unwrap();
    if e.contains("panicked at") {
        panic!("{}", e.lines().take(2).collect::<Vec<_>>().join(" "));
    }
    st.success().then_some(out)
}
fn trimmed(b: &[u8]) -> Value {
    let k = b.iter().rposition(|x| *x != 0).map(|x| x + 1).unwrap_or(0);
    json!({"n": b.len(), "h": hex::encode(&b[..k])})
}
fn whole(v: &Value) -> Vec<u8> {
    let mut b = unhex(&v["h"]);
    b.resize(u(&v["n"]) as usize, 0);
    b
}
fn hexes(v: &Value) -> Vec<Vec<u8>> {
    v.as_array().expect("harness: list").iter().map(|x| hex::decode(x.as_str().unwrap().trim_start_matches("0x")).unwrap()).collect()
}
fn json_blobs(v: &Value) -> Vec<u8> {
    json!(v.as_array().unwrap().iter().map(|b| format!("0x{}", hex::encode(whole(b)))).collect::<Vec<_>>()).to_string().into_bytes()
}
fn err() -> Value {
    "err".into()
}
fn encode(mode: &Value, data: &[u8]) -> Option<Vec<u8>> {
    ec(&["blobs", "encode", mode.as_str().unwrap()], data)
}
fn decode(mode: &Value, blobs: &[u8]) -> Value {
    ec(&["blobs", "decode", mode.as_str().unwrap()], blobs).map(|o| trimmed(&o)).unwrap_or_else(err)
}
fn pair(k: keys::KeyPair) -> Value {
    json!({"sk": hex::encode(k.private_key.to_bytes()), "pk": hex::encode(k.public_key.as_ref()), "path": k.path})
}
/// Empty objects become the text "empty", which the specification's tools can read.
fn plain(v: Value) -> Value {
    match v {
        Value::Object(m) if m.is_empty() => "empty".into(),
        Value::Object(m) => m.into_iter().map(|(k, v)| (k, plain(v))).collect::<serde_json::Map<_, _>>().into(),
        Value::Array(v) => v.into_iter().map(plain).collect::<Vec<_>>().into(),
        v => v,
    }
}
#[cfg(feature = "private")]
fn parts(a: &Value) -> Value {
    use scrypt::password_hash::SaltString;
    let k = &a["kdf"];
    let secret = ethereum_consensus::crypto::SecretKey::try_from(unhex(&a["secret"]).as_slice()).expect("secret refused");
    let salt = SaltString::encode_b64(&unhex(&k["salt"])).expect("harness: salt");
    let n = u(&k["n"]);
    let r = crate::validator::keystores::access::parts(
        &text(&a["pass"]), salt.as_str(), n.trailing_zeros() as u8, u(&k["r"]) as u32, u(&k["p"]) as u32, secret,
        unhex(&a["iv"]).try_into().expect("harness: iv"),
    );
    plain(r)
}
#[cfg(not(feature = "private"))]
fn parts(_: &Value) -> Value {
    "skipped".into()
}

pub fn exec(op: &str, a: &Value) -> Value {
    match op {
        "key.parse" => mnemonic::recover_from_phrase(&text(&a["phrase"])).map(|m| hx(&m.to_string())).unwrap_or_else(|_| err()),
        "key.seed" => match mnemonic::recover_from_phrase(&text(&a["phrase"])) {
            Ok(m) => {
                let p = text(&a["pass"]);
                hex::encode(mnemonic::to_seed(m, a["some"].as_bool().unwrap().then_some(p.as_str()))).into()
            }
            Err(_) => err(),
        },
        "key.derive" => {
            let seed: mnemonic::Seed = unhex(&a["seed"]).try_into().expect("seed refused");
            let (s, w) = keys::generate(&seed, u(&a["start"]) as u32, u(&a["end"]) as u32);
            json!({"signing": s.into_iter().map(pair).collect::<Vec<_>>(), "withdrawal": w.into_iter().map(pair).collect::<Vec<_>>()})
        }
        "key.parts" => parts(a),
        "key.random" => (0..u(&a["n"]))
            .map(|k| {
                if k < 4 {
                    let o = ec(&["validator", "mnemonic"], b"").expect("mnemonic");
                    hx(String::from_utf8(o).unwrap().trim_end_matches('\n'))
                } else {
                    hx(&mnemonic::generate_random_from_system_entropy().unwrap().to_string())
                }
            })
            .collect(),
        "key.bls" => (0..u(&a["n"]))
            .map(|_| {
                let o = String::from_utf8(ec(&["bls"], b"").expect("bls")).unwrap();
                let f: Vec<&str> = o.lines().map(|l| l.split("0x").nth(1).unwrap_or("")).collect();
                json!({"sk": f[0], "pk": f[1]})
            })
            .collect(),
        "key.keystores" => {
            let p = text(&a["phrase"]);
            match ec(&["validator", "generate-lighthouse-keystores", &p, &big(&a["start"]).to_string(), &big(&a["end"]).to_string()], b"") {
                None => err(),
                Some(o) => {
                    let v: Vec<Value> = serde_json::from_slice(&o).unwrap();
                    v.into_iter()
                        .map(|k| {
                            assert_eq!(k.as_object().unwrap().len(), 2);
                            let ks: Value = serde_json::from_str(k["voting_keystore"].as_str().expect("voting_keystore")).unwrap();
                            json!({"keystore": plain(ks), "password": k["voting_keystore_password"].as_str().expect("voting_keystore_password")})
                        })
                        .collect()
                }
            }
        }
        "blob.encode" => match encode(&a["mode"], &unhex(&a["data"])) {
            None => err(),
            Some(o) => {
                let v: Value = serde_json::from_slice(&o).unwrap();
                hexes(&v).iter().map(|b| trimmed(b)).collect()
            }
        },
        "blob.decode" => decode(&a["mode"], &json_blobs(&a["blobs"])),
        "blob.round" => match encode(&a["mode"], &unhex(&a["data"])) {
            None => err(),
            Some(o) => decode(&a["back"], &o),
        },
        "blob.bundle" => match ec(&["blobs", "bundle"], &json_blobs(&a["blobs"])) {
            None => err(),
            Some(o) => {
                let v: Value = serde_json::from_slice(&o).unwrap();
                let show = |f: &str| hexes(&v[f]).iter().map(|b| Value::from(hex::encode(b))).collect::<Value>();
                json!({"blobs": hexes(&v["blobs"]).iter().map(|b| trimmed(b)).collect::<Value>(), "commitments": show("commitments"), "proofs": show("proofs")})
            }
        },
        _ => panic!("harness: unknown op {op}"),
    }
}

fn phrase(g: &mut G) -> String {
    let n = *g.pick(&[16, 20, 24, 28, 32]);
    bip39::Mnemonic::from_entropy(&g.bytes(n)).unwrap().to_string()
}
fn passphrase(g: &mut G) -> String {
    let n = g.below(12) as usize;
    (0..n)
        .map(|_| match g.below(8) {
            0 => *g.pick(&['é', 'ﬁ', '\u{1d531}', '🔑', 'Å', '\u{212b}', 'ｗ', '가', '\u{1e9b}', '½']),
            1 => *g.pick(&[' ', '\t', '\u{0}', '\u{7f}', '\u{85}', '\u{a0}']),
            _ => (g.range(33, 126) as u8) as char,
        })
        .collect()
}
fn gen(family: &str, g: &mut G, n: usize) -> Vec<(String, Value)> {
    let mut v = vec![];
    let mut add = |op: &str, a: Value| v.push((op.to_string(), a));
    if family == "keystores" {
        add("key.random", json!({"n": 48}));
        add("key.bls", json!({"n": 48}));
        for (k, m) in [3u64, 0, 1].into_iter().cycle().take(n).enumerate() {
            let start = if k == 0 { 0 } else { g.below(1 << 32).min((1 << 32) - 5) };
            let mut p = phrase(g);
            if k % 3 == 1 {
                p = p.replacen(' ', " zoo ", 1);
            }
            add("key.keystores", json!({"phrase": hex::encode(p), "start": start.to_string(), "end": (start + m).to_string()}));
        }
        return v
    }
    for k in 0..n {
        if family == "keys" {
            let mut p = phrase(g);
            match g.below(4) {
                0 => add("key.derive", json!({"seed": g.hex(64), "start": (if g.chance(1, 2) { g.below(20) } else { g.below((1 << 32) - 3) }).to_string(), "end": "0"})),
                1 => {
                    let w: Vec<&str> = p.split(' ').collect();
                    let mut w: Vec<String> = w.into_iter().map(|x| x.to_string()).collect();
                    let i = g.below(w.len() as u64) as usize;
                    let j = g.below(w.len() as u64) as usize;
                    match g.below(4) {
                        0 => w.swap(i, j),
                        1 => w[i] = w[j].clone(),
                        2 => {
                            w.remove(i);
                        }
                        _ => w[i] = w[i].to_uppercase(),
                    }
                    p = w.join(" ");
                    add("key.parse", json!({"phrase": hex::encode(p)}))
                }
                2 => add("key.seed", json!({"phrase": hex::encode(p), "some": g.chance(3, 4), "pass": hex::encode(passphrase(g))})),
                _ => {
                    let len = g.range(3, 32) as usize;
                    let iv = if g.chance(1, 3) { format!("{}{}", g.hex(8), "ff".repeat(8)) } else { g.hex(16) };
                    add("key.parts", json!({"pass": hex::encode(passphrase(g)), "kdf": {"dklen": 32, "n": 1 << g.range(1, 7), "r": 1 + g.below(4), "p": 1 + g.below(3), "salt": g.hex(len)},
                        "iv": iv, "secret": format!("00{}", g.hex(31))}))
                }
            }
        } else {
            let len = match g.below(4) {
                0 => g.below(140),
                1 => g.below(3000),
                2 => *g.pick(&[31, 32, 127, 128, 254, 508]) + g.below(2),
                _ => if k % 8 == 0 { 130_048 * (1 + g.below(3)) - 7 + g.below(10) } else { g.below(400) },
            } as usize;
            let mut d = g.bytes(len);
            if g.chance(1, 4) && len > 8 {
                let z = g.below(8) as usize;
                let l = d.len();
                d[l - z..].fill(0);
            }
            let modes = ["raw", "sized"];
            let m = *g.pick(&modes);
            match g.below(5) {
                0 => add("blob.encode", json!({"mode": m, "data": hex::encode(d)})),
                1 => add("blob.round", json!({"mode": m, "back": *g.pick(&modes), "data": hex::encode(d)})),
                2 => {
                    let c = 1 + g.below(2);
                    let b: Vec<Value> = (0..c).map(|_| { let n = g.below(120) as usize; let mut e = g.bytes(n); if !e.is_empty() { e[0] &= 0xc0; } if n > 2 && g.chance(1, 2) { e[1] = 0; e[2] = 0; } trimmed(&{ e.resize(131072, 0); e }) }).collect();
                    add("blob.decode", json!({"mode": m, "blobs": b}))
                }
                3 => {
                    let c = g.below(4);
                    let b: Vec<Value> = (0..c).map(|_| { let mut e: Vec<u8> = (0..g.below(20)).flat_map(|_| { let mut x = g.bytes(32); x[0] &= if g.chance(1, 12) { 0xff } else { 0x3f }; x }).collect(); e.resize(131072, 0); trimmed(&e) }).collect();
                    add("blob.bundle", json!({"blobs": b}))
                }
                _ => add("blob.round", json!({"mode": m, "back": m, "data": hex::encode(d)})),
            }
        }
    }
    for (op, a) in v.iter_mut() {
        if op == "key.derive" {
            let s: u64 = a["start"].as_str().unwrap().parse().unwrap();
            a["end"] = (s + g.below(3)).to_string().into();
        }
    }
    v
}

pub fn main() {
    let _ = as_hex::serialize::<serde_json::value::Serializer, Vec<u8>>;
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *LAST.lock().unwrap() = l.strip_prefix("/repo/").unwrap_or("").to_string();
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let (cases, out): (Vec<Value>, &str) = match a[..] {
        ["exec", i, o] => {
            let f = std::io::BufReader::new(std::fs::File::open(i).unwrap());
            (f.lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect(), o)
        }
        ["gen", family, seed, n, o] => {
            let mut g = G::new(seed.parse().unwrap());
            let v = gen(family, &mut g, n.parse().unwrap());
            (v.into_iter().enumerate().map(|(id, (op, a))| json!({"id": id, "op": op, "a": a})).collect(), o)
        }
        _ => panic!("harness: usage"),
    };
    // the cases are independent of each other: run them side by side, at most four at a time (memory)
    let n = cases.len();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let res: Vec<std::sync::Mutex<Value>> = cases.into_iter().map(std::sync::Mutex::new).collect();
    std::thread::scope(|s| {
        for _ in 0..6 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if k >= n {
                    break
                }
                let mut c = res[k].lock().unwrap();
                let r = catch(|| exec(c["op"].as_str().unwrap(), &c["a"]));
                c["r"] = r;
                if c.get("id").is_none() {
                    c["id"] = Value::from(k);
                }
            });
        }
    });
    let mut w = BufWriter::new(std::fs::File::create(out).unwrap());
    for c in res {
        writeln!(w, "{}", c.into_inner().unwrap()).unwrap();
    }
}
