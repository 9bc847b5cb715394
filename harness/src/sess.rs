//! Sessions: a beacon state, driven through operations of the real crate. Every step is recorded
//! with its arguments, its outcome and the fields it changed.
use crate::tiny::*;
use ethereum_consensus::state_transition::Context;
use serde_json::{json, Map, Value};
use ssz_rs::J;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Run {
    pub sid: usize,
    pub st: Box<dyn St>,
    pub js: Value,
    pub ctx: Context,
    pub lines: Vec<Value>,
}
pub fn diff(a: &Value, b: &Value) -> Value {
    let (a, b) = (a.as_object().unwrap(), b.as_object().unwrap());
    Value::Object(b.iter().filter(|(k, v)| a.get(*k) != Some(v)).map(|(k, v)| (k.clone(), v.clone())).collect::<Map<_, _>>())
}
fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
    if m.starts_with("harness:") {
        eprintln!("{m}");
        std::process::exit(2)
    }
    crate::util::located(m)
}
thread_local! {
    /// What the execution engine was asked during the last call.
    static ASKED: RefCell<Vec<Value>> = const { RefCell::new(vec![]) };
    static OBSERVED: () = observe();
}
/// Has the requests to the execution engine kept, through the crate's guarded hook.
fn observe() {
    fn seen<T: J>(p: *const ()) -> Value {
        // SAFETY: the hook gives the address of a live value together with the name of its type, which the caller compared.
        unsafe { &*(p as *const T) }.j()
    }
    ethereum_consensus::execution_engine::observe::set(Some(Box::new(|name, p| {
        use std::any::type_name;
        let v = if name == type_name::<BPayload>() {
            json!({"payload": seen::<BPayload>(p)})
        } else if name == type_name::<CPayload>() {
            json!({"payload": seen::<CPayload>(p)})
        } else if name == type_name::<DRequest>() {
            let r = unsafe { &*(p as *const DRequest) };
            json!({"payload": r.execution_payload.j(), "hashes": r.versioned_hashes.iter().map(|h| h.j()).collect::<Vec<_>>(), "parent": r.parent_beacon_block_root.j()})
        } else if name == type_name::<ERequest>() {
            let r = unsafe { &*(p as *const ERequest) };
            json!({"payload": r.execution_payload.j(), "hashes": r.versioned_hashes.iter().map(|h| h.j()).collect::<Vec<_>>(), "parent": r.parent_beacon_block_root.j()})
        } else {
            json!({"unknown": name})
        };
        ASKED.with(|q| q.borrow_mut().push(v));
    })));
}
/// The calls that put a payload before the execution engine.
const ASKING: [&str; 5] = ["payload", "block", "transition", "in_slot", "exec"];
/// The outcome of a call on a state: `r` (ok, err, panic), `v` or `m`, and the state after success.
pub fn call(st: &dyn St, ctx: &Context, op: &str, a: &Value) -> (&'static str, Value, Option<Box<dyn St>>) {
    OBSERVED.with(|_| ());
    ASKED.with(|q| q.borrow_mut().clear());
    let mut c = ctx.clone();
    if let Some(e) = a.get("engine") {
        c.execution_engine = e.as_bool().unwrap();
    }
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(Value, Box<dyn St>), String> {
        match op {
            "upgrade" => st.upgrade(&c).map(|s| (Value::Null, s)),
            "exec" => {
                let any = st.any().unwrap_or_else(|| panic!("harness: no executor for this fork"));
                let (s, r) = execute(any, a, &c);
                r.map(|v| (v, s))
            }
            _ => {
                let mut s = st.boxed();
                let r = s.op(op, a, &c).unwrap_or_else(|| panic!("harness: {} has no operation {op}", st.fork()));
                r.map(|v| (v, s))
            }
        }
    }));
    match r {
        Ok(Ok((v, s))) => ("ok", v, Some(s)),
        Ok(Err(m)) => ("err", m.into(), None),
        Err(e) => ("panic", msg(e).into(), None),
    }
}
impl Run {
    pub fn start(sid: usize, state: Value) -> Run {
        let st = state_of(&state);
        let js = st.json();
        assert!(js == state, "harness: projection is not faithful: {}", diff(&state, &js));
        let lines = vec![json!({"s": sid, "op": "init", "a": {"z": 0}, "r": "ok", "full": true, "d": js.clone()})];
        Run { sid, st, js, ctx: context(), lines }
    }
    pub fn genesis(sid: usize, a: &Value) -> Result<Run, Value> {
        let ctx = context();
        let line = |r: &str, m: Value, d: Value| json!({"s": sid, "op": "genesis", "a": a, "r": r, "m": m, "full": true, "d": d});
        match catch_unwind(AssertUnwindSafe(|| genesis(a, &ctx))) {
            Ok(Ok(st)) => {
                let js = st.json();
                let lines = vec![line("ok", Value::from(""), js.clone())];
                Ok(Run { sid, st, js, ctx, lines })
            }
            Ok(Err(m)) => Err(line("err", m.into(), json!({"fk": a["f"]}))),
            Err(e) => Err(line("panic", msg(e).into(), json!({"fk": a["f"]}))),
        }
    }
    /// Runs and records.
    pub fn step(&mut self, op: &str, a: Value) -> bool {
        if op == "poke" {
            let mut n = self.js.clone();
            for (k, v) in a.as_object().unwrap() {
                n[k] = v.clone();
            }
            self.st = state_of(&n);
            self.js = self.st.json();
            self.lines.push(json!({"s": self.sid, "op": "poke", "a": {"z": 0}, "r": "ok", "full": false, "d": a}));
            return true;
        }
        let (r, v, s) = call(&*self.st, &self.ctx, op, &a);
        let mut l = json!({"s": self.sid, "op": op, "a": if a.as_object().map_or(true, |m| m.is_empty()) { json!({"z": 0}) } else { a }, "r": r, "full": false, "d": {"fk": self.st.fork()}});
        if r == "ok" {
            if !v.is_null() { l["v"] = v; }
            if ASKING.contains(&op) {
                l["q"] = ASKED.with(|q| q.borrow().clone()).into();
            }
            let s = s.unwrap();
            let js = s.json();
            if s.fork() != self.st.fork() {
                l["full"] = true.into();
                l["d"] = js.clone();
            } else {
                let mut d = diff(&self.js, &js);
                d["fk"] = s.fork().into();
                l["d"] = d;
            }
            self.st = s;
            self.js = js;
        } else {
            l["m"] = v;
        }
        self.lines.push(l);
        r == "ok"
    }
    /// Asks without recording.
    pub fn ask(&self, op: &str, a: Value) -> Option<Value> {
        let (r, v, _) = call(&*self.st, &self.ctx, op, &a);
        (r == "ok").then_some(v)
    }
    /// A copy to plan on, without the record.
    pub fn fork_off(&self) -> Run {
        Run { sid: self.sid, st: self.st.boxed(), js: self.js.clone(), ctx: self.ctx.clone(), lines: vec![] }
    }
}
/// Replays a behaviour {init, steps: [{op, a}]} of the specification.
pub fn scene(sid: usize, v: &Value) -> Vec<Value> {
    let mut run = None;
    for c in v["steps"].as_array().unwrap() {
        let (op, a) = (c["op"].as_str().unwrap(), c["a"].clone());
        if op == "genesis" {
            match Run::genesis(sid, &a) {
                Ok(r) => run = Some(r),
                Err(l) => return vec![l],
            }
        } else {
            run.get_or_insert_with(|| Run::start(sid, v["init"].clone())).step(op, a);
        }
    }
    run.unwrap().lines
}
