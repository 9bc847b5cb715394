//! The containers of the real crate: their JSON, serialization and roots, and the fork-polymorphic types over them.
//!   layoutbin exec IN OUT          run the cases of IN (one JSON object per line), add the result `r`
#[path = "../../harness/src/util.rs"]
#[allow(dead_code)]
mod util;
mod containers;
mod poly;
mod proof;

use serde_json::Value;
use std::io::{BufRead, BufWriter, Write};
use util::*;

/// Long sequences are written as {len, fill, at}.
pub fn expand(v: &Value) -> Value {
    match v {
        Value::Object(m) if m.len() == 3 && m.contains_key("fill") => {
            let mut o = vec![expand(&m["fill"]); m["len"].as_u64().unwrap() as usize];
            for p in m["at"].as_array().unwrap() {
                o[p[0].as_u64().unwrap() as usize] = expand(&p[1]);
            }
            Value::Array(o)
        }
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), expand(x))).collect()),
        Value::Array(x) => Value::Array(x.iter().map(expand).collect()),
        _ => v.clone(),
    }
}
fn exec(op: &str, a: &Value) -> Value {
    match op.split('.').next().unwrap() {
        "layout" => containers::exec(op, a),
        "poly" => poly::exec(op, a),
        "proof" | "gindex" => proof::exec(op, a),
        _ => panic!("harness: unknown op {op}"),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if l.starts_with("src/") {
            eprintln!("harness panic at {l}: {i}");
        }
        *util::LAST.lock().unwrap() = l.strip_prefix("/repo/").unwrap_or("").to_string();
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let ["exec", i, o] = a[..] else {
        eprintln!("usage: layoutbin exec IN OUT");
        std::process::exit(2)
    };
    let f = std::io::BufReader::new(std::fs::File::open(i).unwrap());
    let mut w = BufWriter::new(std::fs::File::create(o).unwrap());
    for (n, l) in f.lines().enumerate() {
        let mut c: Value = serde_json::from_str(&l.unwrap()).unwrap();
        let r = catch(|| exec(c["op"].as_str().unwrap(), &c["a"]));
        c["r"] = r;
        if c.get("id").is_none() {
            c["id"] = Value::from(n);
        }
        writeln!(w, "{c}").unwrap();
    }
}
