//! Executes recorded/specified calls against the real crate.
//!   harness exec IN OUT          run the cases of IN (one JSON object per line), add the result `r`
//!   harness scenes IN OUT        run the behaviours {init, steps} of IN, recording sessions
//!   harness gen FAMILY SEED N OUT   make cases from SEED, run them
mod util;
mod clock;
mod consts;
mod crypto;
mod peer;
mod sess;
mod sgen;
mod text;
mod tiny;

use serde_json::Value;
use std::io::{BufRead, BufWriter, Write};
use util::*;

fn exec(op: &str, a: &Value) -> Value {
    let family = op.split('.').next().unwrap();
    match family {
        "clock" => clock::exec(op, a),
        "const" | "fork" | "net" | "domain" => consts::exec(op, a),
        "text" => text::exec(op, a),
        "bls" | "kzg" => crypto::exec(op, a),
        "peer" => peer::exec(op, a),
        _ => panic!("harness: unknown op {op}"),
    }
}
fn gen(family: &str, g: &mut G, n: usize) -> Vec<(String, Value)> {
    match family {
        "clock" => clock::gen(g, n),
        "const" | "fork" | "net" | "domain" => consts::gen(family, g, n),
        "text" => text::gen(g, n),
        "crypto" => crypto::gen(g, n),
        "peer" => peer::gen(g, n),
        _ => panic!("harness: unknown family {family}"),
    }
}
fn main() {
    // panics of the code under test are caught and recorded; the harness's own are reported
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if l.starts_with("src/") {
            eprintln!("harness panic at {l}: {i}");
        }
        *util::LAST.lock().unwrap() = l.strip_prefix("/repo/").unwrap_or("").to_string();
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a[..] {
        ["exec", i, o] => {
            let f = std::io::BufReader::new(std::fs::File::open(i).unwrap());
            let mut w = BufWriter::new(std::fs::File::create(o).unwrap());
            for (n, l) in f.lines().enumerate() {
                let mut c: Value = serde_json::from_str(&l.unwrap()).unwrap();
                let r = catch(|| exec(c["op"].as_str().unwrap(), &c["a"]));
                c["r"] = r;
                if c.get("id").is_none() {
                    c["id"] = Value::from(n);
                }
                writeln!(w, "{c}").unwrap();
            }
        }
        ["scenes", i, o] => {
            let f = std::io::BufReader::new(std::fs::File::open(i).unwrap());
            let mut w = BufWriter::new(std::fs::File::create(o).unwrap());
            for (n, l) in f.lines().enumerate() {
                for l in sess::scene(n, &serde_json::from_str(&l.unwrap()).unwrap()) {
                    writeln!(w, "{l}").unwrap();
                }
            }
        }
        ["sessions", spec, seed, n, o] => {
            let mut g = G::new(seed.parse().unwrap());
            let mut w = BufWriter::new(std::fs::File::create(o).unwrap());
            for l in sgen::sessions(&mut g, spec, n.parse().unwrap()) {
                writeln!(w, "{l}").unwrap();
            }
        }
        ["gen", family, seed, n, o] => {
            let mut g = G::new(seed.parse().unwrap());
            let mut w = BufWriter::new(std::fs::File::create(o).unwrap());
            for (id, (op, a)) in gen(family, &mut g, n.parse().unwrap()).into_iter().enumerate() {
                let r = catch(|| exec(&op, &a));
                writeln!(w, "{}", serde_json::json!({"id": id, "op": op, "a": a, "r": r})).unwrap();
            }
        }
        _ => {
            eprintln!("usage: harness exec IN OUT | gen FAMILY SEED N OUT");
            std::process::exit(2)
        }
    }
}
