//! `genbin exec IN OUT`, `genbin gen FAMILY SEED N OUT`: runs spec-gen on trees of fork modules.
mod forks;
use rand::{rngs::StdRng, SeedableRng};
use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn exec(op: &str, a: &Value) -> Value {
    match op {
        "overlay.forks" => forks::run(a),
        _ => panic!("harness: unknown op {op}"),
    }
}
// adds the results, on all cores
fn run(cases: &mut [Value]) {
    let n = cases.len() / 8 + 1;
    std::thread::scope(|s| {
        for part in cases.chunks_mut(n) {
            s.spawn(|| part.iter_mut().for_each(|c| c["r"] = exec(c["op"].as_str().unwrap(), &c["a"])));
        }
    });
}
fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a[..] {
        ["exec", i, o] => {
            let f = std::io::BufReader::new(std::fs::File::open(i).unwrap());
            let mut w = std::io::BufWriter::new(std::fs::File::create(o).unwrap());
            let mut cases: Vec<Value> = f.lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect();
            run(&mut cases);
            for c in cases {
                writeln!(w, "{c}").unwrap();
            }
        }
        ["gen", family, seed, n, o] => {
            let mut g = StdRng::seed_from_u64(seed.parse().unwrap());
            let mut w = std::io::BufWriter::new(std::fs::File::create(o).unwrap());
            let n: usize = n.parse().unwrap();
            let cases = match family {
                "overlay" => {
                    let mut v: Vec<Value> = (0..n).map(|_| json!({"op": "overlay.forks", "a": forks::random(&mut g)})).collect();
                    run(&mut v);
                    v
                }
                "real" => {
                    let (a, r) = forks::real();
                    vec![json!({"op": "overlay.forks", "a": a, "r": r})]
                }
                _ => panic!("harness: unknown family {family}"),
            };
            for (id, mut c) in cases.into_iter().enumerate() {
                c["id"] = json!(id);
                writeln!(w, "{c}").unwrap();
            }
        }
        _ => {
            eprintln!("usage: genbin exec IN OUT | gen FAMILY SEED N OUT");
            std::process::exit(2)
        }
    }
}
