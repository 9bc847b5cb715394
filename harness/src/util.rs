use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// The seeded source of every random choice.
pub struct G(pub StdRng);
impl G {
    pub fn new(seed: u64) -> Self {
        G(StdRng::seed_from_u64(seed))
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.0.gen_range(0..n) }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        self.0.gen_range(lo..=hi)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.0.gen()).collect()
    }
    pub fn hex(&mut self, n: usize) -> String {
        hex::encode(self.bytes(n))
    }
    pub fn u64(&mut self) -> u64 {
        self.0.gen()
    }
}
/// Where the code under test last panicked.
pub static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub fn located(m: String) -> String {
    format!("{m} @ {}", LAST.lock().unwrap())
}
/// Runs `f`; a panic of the code under test is a result like any other.
pub fn catch(f: impl FnOnce() -> Value) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if m.starts_with("harness:") {
                eprintln!("{m}");
                std::process::exit(2)
            }
            json!({"panic": located(m)})
        }
    }
}
pub fn big(v: &Value) -> u128 {
    match v {
        Value::Number(n) => n.as_u64().expect("harness: number") as u128,
        Value::String(s) => s.parse().unwrap_or_else(|_| panic!("harness: not a number: {s}")),
        _ => panic!("harness: not a number: {v}"),
    }
}
pub fn u(v: &Value) -> u64 {
    big(v).try_into().unwrap_or_else(|_| panic!("harness: out of u64"))
}
pub fn opt<T: ToString>(v: Option<T>) -> Value {
    v.map(|x| Value::from(x.to_string())).unwrap_or_else(|| "none".into())
}
pub fn unhex(v: &Value) -> Vec<u8> {
    hex::decode(v.as_str().expect("harness: hex string")).expect("harness: hex")
}
