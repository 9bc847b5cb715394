//! Random beacon states and operations for sessions. Everything is made from the seed and from the
//! projected state; what the code computes is only used to aim (an aim that is off makes the
//! operation invalid, which the specification then says too).
use crate::sess::*;
use crate::tiny::*;
use crate::util::*;
use ethereum_consensus as ec;
use ethereum_consensus::{capella, electra, phase0};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use ssz_rs::{HashTreeRoot, J};
use std::collections::HashMap;

pub const FAR: u64 = 2147483647;
pub fn sha(b: &[u8]) -> Vec<u8> {
    Sha256::digest(b).to_vec()
}
pub fn sk(k: u64) -> ec::crypto::SecretKey {
    let mut b = [0u8; 32];
    b[24..].copy_from_slice(&k.to_be_bytes());
    ec::crypto::SecretKey::try_from(&b[..]).expect("harness: secret key")
}
pub fn pk(k: u64) -> String {
    sk(k).public_key().j().as_str().unwrap().to_string()
}
fn keymap() -> &'static HashMap<String, u64> {
    static M: std::sync::OnceLock<HashMap<String, u64>> = std::sync::OnceLock::new();
    M.get_or_init(|| (1..400).map(|k| (pk(k), k)).collect())
}
pub fn key_of(p: &Value) -> u64 {
    p.as_str().and_then(|p| keymap().get(p)).copied().unwrap_or(399)
}
pub fn sign_root(root: &[u8], keys: &[u64]) -> Value {
    let sigs: Vec<_> = keys.iter().map(|k| sk(*k).sign(root)).collect();
    if sigs.is_empty() {
        return json!(format!("c0{}", "00".repeat(95)));
    }
    ec::crypto::aggregate(&sigs).expect("harness: aggregate").j()
}
pub fn signing_root<T: HashTreeRoot>(x: &T, domain: &str) -> Vec<u8> {
    let mut d = [0u8; 32];
    d.copy_from_slice(&hex::decode(domain).unwrap());
    ec::signing::compute_signing_root(x, d).expect("harness: signing root").to_vec()
}
/// Depth-32 Merkle tree over a few leaves (the deposit contract).
pub struct Tree(pub Vec<Vec<u8>>);
impl Tree {
    pub fn branch(&self, index: usize) -> (Vec<Vec<u8>>, Vec<u8>) {
        let mut level = self.0.clone();
        let (mut zero, mut i, mut out) = (vec![0u8; 32], index, vec![]);
        for _ in 0..32 {
            out.push(level.get(i ^ 1).cloned().unwrap_or_else(|| zero.clone()));
            let n = level.len().div_ceil(2);
            level = (0..n).map(|k| sha(&[level[2 * k].clone(), level.get(2 * k + 1).cloned().unwrap_or_else(|| zero.clone())].concat())).collect();
            zero = sha(&[zero.clone(), zero].concat());
            i /= 2;
        }
        let mut len = (self.0.len() as u64).to_le_bytes().to_vec();
        len.resize(32, 0);
        let root = sha(&[level.first().cloned().unwrap_or(zero), len.clone()].concat());
        out.push(len);
        (out, root)
    }
}
pub fn n(v: &Value) -> u64 {
    v.as_u64().unwrap_or_else(|| panic!("harness: number {v}"))
}
fn z32() -> String {
    "00".repeat(32)
}

/// What a session knows besides the state: the deposit contract's contents.
pub struct World<'a> {
    pub g: &'a mut G,
    pub r: Run,
    pub deposits: Vec<Value>,
    pub leaves: Vec<Vec<u8>>,
}
fn versions(f: &str) -> (Value, Value) {
    let k = fnum(f);
    let v = |i: usize| cfg()[if i == 0 { "genesis_fork_version".to_string() } else { format!("{}_fork_version", FORKS[i]) }].clone();
    (v(k.saturating_sub(1)), v(k))
}
pub fn credentials(g: &mut G, key: u64, fork: &str) -> String {
    let k = fnum(fork);
    let addr = hex::encode(vec![0xa0 + (g.below(3) as u8); 20]);
    match g.below(if k >= 5 { 9 } else if k >= 3 { 6 } else { 4 }) {
        0 | 1 => format!("00{}", &hex::encode(sha(&hex::decode(pk(key)).unwrap()))[2..]),
        2 => if g.chance(1, 3) { format!("00{}", g.hex(31)) } else { format!("01{}{}", "00".repeat(11), addr) },
        3..=5 => format!("01{}{}", "00".repeat(11), addr),
        _ => format!("02{}{}", "00".repeat(11), addr),
    }
}
fn validator(g: &mut G, key: u64, fork: &str, e: u64) -> (Value, u64) {
    let el = fork == "electra";
    let cred = credentials(g, key, fork);
    let cap = if el && cred.starts_with("02") { 128 } else { 32 };
    let eff = match g.below(8) {
        0 => 1000 * g.below(cap + 1),
        1 => 16000 + 1000 * g.below(3),
        2 => 1000 * (cap - 1),
        3 => if el { 32000 } else { 31000 },
        _ => 1000 * cap,
    };
    let bal = match g.below(10) {
        0 => g.below(40000),
        1 => eff + 250 + g.below(3) - 1,
        2 => eff + 1250 + g.below(3) - 1,
        3 => (eff + 1).saturating_sub(250 + g.below(3)),
        4 => eff + 1000 * g.below(4),
        5 => 0,
        _ => eff + g.below(500),
    };
    let past = |g: &mut G| g.below(e + 1);
    let d = c("min_validator_withdrawability_delay");
    let (elig, act, exit, wd, sl) = match g.below(20) {
        0 => (FAR, FAR, FAR, FAR, false),
        1 => (e.saturating_sub(g.below(5)), FAR, FAR, FAR, false),
        2 => (past(g), e + 1 + g.below(4), FAR, FAR, false),
        3 | 4 => { let x = e + 1 + g.below(6); (past(g), past(g), x, x + d, false) }
        5 => { let x = past(g); (0, 0, x, x + d, false) }
        6 => { let x = past(g); (0, 0, x, x + g.below(3), false) }
        7 => { let x = e + g.below(5); (0, 0, x, e + c("epochs_per_slashings_vector") / 2 + g.below(2), true) }
        8 => { let x = e + 3 + g.below(3); (0, 0, x, x.max(e + g.below(8)), true) }
        9 => (past(g), past(g), FAR, FAR, g.chance(1, 4)),
        10 => { let a = past(g); (a.min(e), a, FAR, FAR, false) }
        _ => (0, 0, FAR, FAR, false),
    };
    (json!({"public_key": pk(key), "withdrawal_credentials": cred, "effective_balance": eff, "slashed": sl,
        "activation_eligibility_epoch": elig, "activation_epoch": act, "exit_epoch": exit, "withdrawable_epoch": wd}), bal)
}
fn checkpoint(g: &mut G, epoch: u64, s: &Value) -> Value {
    let sphr = SPHR as u64;
    let slot = n(&s["slot"]);
    let root = if g.chance(2, 3) && epoch * 4 < slot && slot <= epoch * 4 + sphr { s["block_roots"][(epoch * 4 % sphr) as usize].clone() } else { g.hex(32).into() };
    json!({"epoch": epoch, "root": root})
}
pub fn payload_header(g: &mut G, f: &str) -> Value {
    let mut h = default_state(f)["latest_execution_payload_header"].clone();
    for (k, v) in h.as_object_mut().unwrap() {
        match v {
            Value::String(s) => *v = if k == "extra_data" { let m = g.below(9) as usize; g.hex(m).into() } else { let m = s.len() / 2; g.hex(m).into() },
            Value::Number(_) => *v = g.below(100000).into(),
            _ => {}
        }
    }
    h
}
pub fn state(g: &mut G, f: &str, deposit_root: &str, deposit_index: u64, deposit_count: u64) -> Value {
    let k = fnum(f);
    let mut s = default_state(f);
    let e = if g.chance(1, 6) { g.below(3) } else { 2 + g.below(16) };
    let slot = 4 * e + if g.chance(1, 3) { 3 } else { g.below(4) };
    let (pv, cv) = versions(f);
    let put = |s: &mut Value, k: &str, v: Value| { assert!(s.get(k).is_some(), "harness: no field {k}"); s[k] = v };
    put(&mut s, "genesis_time", g.range(1000, 5000).into());
    put(&mut s, "genesis_validators_root", g.hex(32).into());
    put(&mut s, "slot", slot.into());
    let fe = if k == 0 { 0 } else if g.chance(1, 3) { e } else { g.below(e + 1) };
    put(&mut s, "fork", json!({"previous_version": pv, "current_version": cv, "epoch": fe}));
    let hs = if slot == 0 { 0 } else { slot - if g.chance(1, 8) { 0 } else { 1 + g.below(3).min(slot - 1) } };
    put(&mut s, "latest_block_header", json!({"slot": hs, "proposer_index": g.below(8), "parent_root": g.hex(32),
        "state_root": if g.chance(1, 2) { z32() } else { g.hex(32) }, "body_root": g.hex(32)}));
    let pool: Vec<String> = (0..6).map(|_| g.hex(32)).collect();
    for x in ["block_roots", "state_roots"] {
        put(&mut s, x, (0..SPHR).map(|_| Value::from(if g.chance(1, 2) { g.hex(32) } else { g.pick(&pool).clone() })).collect());
    }
    let m = g.below(3);
    put(&mut s, "historical_roots", (0..m).map(|_| Value::from(g.hex(32))).collect());
    put(&mut s, "eth1_data", json!({"deposit_root": deposit_root, "deposit_count": deposit_count, "block_hash": g.hex(32)}));
    let votes: Vec<Value> = (0..3).map(|i| json!({"deposit_root": g.hex(32), "deposit_count": deposit_count + i, "block_hash": g.hex(32)})).collect();
    let m = g.below(VOTES as u64);
    put(&mut s, "eth1_data_votes", (0..m).map(|_| if g.chance(3, 4) { votes[0].clone() } else { g.pick(&votes).clone() }).collect());
    put(&mut s, "eth1_deposit_index", deposit_index.into());
    let nv = 8 + g.below(13);
    let (mut vs, mut bs) = (vec![], vec![]);
    for i in 0..nv {
        let (mut v, b) = validator(g, i + 1, f, e);
        if i < 5 && g.chance(14, 15) {
            v["activation_epoch"] = 0.into();
            v["activation_eligibility_epoch"] = 0.into();
            v["exit_epoch"] = FAR.into();
            v["withdrawable_epoch"] = FAR.into();
            v["slashed"] = false.into();
            v["effective_balance"] = 32000.into();
        }
        vs.push(v);
        bs.push(Value::from(b));
    }
    put(&mut s, "validators", vs.into());
    put(&mut s, "balances", bs.into());
    put(&mut s, "randao_mixes", (0..EPHV).map(|_| Value::from(g.hex(32))).collect());
    put(&mut s, "slashings", (0..EPSV).map(|_| Value::from(if g.chance(1, 4) { 1000 * g.below(70) } else { 0 })).collect());
    if k > 0 {
        for x in ["previous_epoch_participation", "current_epoch_participation"] {
            let style = g.below(4);
            put(&mut s, x, (0..nv).map(|_| Value::from(match style { 0 => 7, 1 => 0, _ => g.below(8) })).collect());
        }
        let style = g.below(3);
        put(&mut s, "inactivity_scores", (0..nv).map(|_| Value::from(match style { 0 => 0, 1 => g.below(6), _ => g.below(60) })).collect());
        for x in ["current_sync_committee", "next_sync_committee"] {
            let keys: Vec<u64> = (0..SYNC).map(|_| 1 + g.below(nv)).collect();
            let pks: Vec<ec::crypto::PublicKey> = keys.iter().map(|k| sk(*k).public_key()).collect();
            let agg = ec::crypto::eth_aggregate_public_keys(&pks).expect("harness: aggregate");
            put(&mut s, x, json!({"public_keys": jv(&pks), "aggregate_public_key": agg.j()}));
        }
    }
    put(&mut s, "justification_bits", (0..4).map(|_| Value::from(g.below(2))).collect());
    let cj = if g.chance(1, 2) { e.saturating_sub(1) } else { e.saturating_sub(1 + g.below(5)) };
    let pj = cj.saturating_sub(g.below(3));
    let fin = if g.chance(1, 2) { pj } else { pj.saturating_sub(g.below(6)) };
    for (x, ep) in [("current_justified_checkpoint", cj), ("previous_justified_checkpoint", pj), ("finalized_checkpoint", fin)] {
        let cp = checkpoint(g, ep, &s);
        put(&mut s, x, cp);
    }
    if k >= 2 && (k > 2 || g.chance(2, 3)) {
        let h = payload_header(g, f);
        put(&mut s, "latest_execution_payload_header", h);
    }
    if k >= 3 {
        put(&mut s, "next_withdrawal_index", g.below(50).into());
        put(&mut s, "next_withdrawal_validator_index", g.below(nv).into());
        let m = g.below(3);
        put(&mut s, "historical_summaries", (0..m).map(|_| json!({"block_summary_root": g.hex(32), "state_summary_root": g.hex(32)})).collect());
    }
    if k >= 5 {
        put(&mut s, "deposit_receipts_start_index", if g.chance(1, 3) { FAR } else { deposit_index + g.below(4) }.into());
        put(&mut s, "deposit_balance_to_consume", (1000 * g.below(50)).into());
        put(&mut s, "exit_balance_to_consume", (1000 * g.below(50)).into());
        put(&mut s, "earliest_exit_epoch", (e + g.below(7)).into());
        put(&mut s, "consolidation_balance_to_consume", (1000 * g.below(50)).into());
        put(&mut s, "earliest_consolidation_epoch", (e + g.below(7)).into());
        let m = g.below(6);
        put(&mut s, "pending_balance_deposits", (0..m).map(|_| json!({"index": g.below(nv), "amount": if g.chance(1, 3) { 32000 } else { 1 + g.below(30000) }})).collect());
        let cap = if g.chance(1, 4) { 9 } else { 4 };
        let m = g.below(cap);
        let mut ppw: Vec<Value> = (0..m).map(|_| json!({"index": g.below(nv), "amount": 1 + g.below(5000), "withdrawable_epoch": (e + 1).saturating_sub(g.below(3)) + g.below(2)})).collect();
        if g.chance(3, 4) {
            ppw.sort_by_key(|x| n(&x["withdrawable_epoch"]));
        }
        put(&mut s, "pending_partial_withdrawals", ppw.into());
        let m = g.below(4);
        put(&mut s, "pending_consolidations", (0..m).map(|_| json!({"source_index": g.below(nv), "target_index": g.below(nv)})).collect());
        // sources of consolidations are exiting validators
        if g.chance(2, 3) {
            for p in s["pending_consolidations"].as_array().unwrap().clone() {
                let i = n(&p["source_index"]) as usize;
                let x = (e + g.below(3)).saturating_sub(5).max(1);
                s["validators"][i]["exit_epoch"] = x.into();
                s["validators"][i]["withdrawable_epoch"] = (x + g.below(6)).into();
            }
        }
    }
    s
}
/// A random change of one leaf of a JSON value.
pub fn mutate(g: &mut G, v: &mut Value) {
    match v {
        Value::Object(m) => {
            let ks: Vec<String> = m.keys().cloned().collect();
            let k = g.pick(&ks).clone();
            mutate(g, &mut m[&k])
        }
        Value::Array(a) => {
            if a.iter().all(|x| x.is_number()) && !a.is_empty() && a.iter().all(|x| n(x) < 2) {
                let i = g.below(a.len() as u64) as usize;
                a[i] = (1 - n(&a[i])).into();
            } else if !a.is_empty() {
                let i = g.below(a.len() as u64) as usize;
                mutate(g, &mut a[i])
            }
        }
        Value::Number(_) => {
            let x = n(v);
            *v = match g.below(6) { 0 => x + 1, 1 => x.saturating_sub(1), 2 => 0, 3 => FAR, _ => g.below(100) }.into()
        }
        Value::String(s) if !s.is_empty() => {
            let mut b = hex::decode(s.as_bytes()).expect("harness: hex");
            let i = g.below(b.len() as u64) as usize;
            b[i] ^= 1 << g.below(8);
            *s = hex::encode(b)
        }
        Value::Bool(b) => *b = !*b,
        _ => {}
    }
}
impl<'a> World<'a> {
    pub fn new(g: &'a mut G, sid: usize, f: &str) -> World<'a> {
        let k0 = g.below(4);
        let count = g.below(5);
        let mut w = World { r: Run::start(sid, default_state(f)), g, deposits: vec![], leaves: vec![] };
        for _ in 0..k0 {
            let x = w.g.bytes(32);
            w.leaves.push(x);
        }
        for _ in 0..count {
            let d = w.deposit_data(f);
            let leaf = phase0::DepositData::uj(&d).hash_tree_root().unwrap().0.to_vec();
            w.leaves.push(leaf);
            w.deposits.push(d);
        }
        let root = hex::encode(Tree(w.leaves.clone()).branch(0).1);
        let cnt = k0 + count;
        let claimed = if w.g.chance(1, 12) { w.g.below(cnt + 2) } else { cnt };
        let s = state(w.g, f, &root, k0, claimed);
        w.r = Run::start(sid, s);
        if f == "phase0" {
            w.fill_pending();
        }
        w
    }
    pub fn s(&self) -> &Value {
        &self.r.js
    }
    pub fn f(&self) -> &'static str {
        self.r.st.fork()
    }
    pub fn nv(&self) -> u64 {
        self.s()["validators"].as_array().unwrap().len() as u64
    }
    pub fn slot(&self) -> u64 {
        n(&self.s()["slot"])
    }
    pub fn epoch(&self) -> u64 {
        self.slot() / 4
    }
    pub fn key(&self, i: u64) -> u64 {
        key_of(&self.s()["validators"][i as usize]["public_key"])
    }
    /// The domain, by the specification's rule.
    pub fn domain(&mut self, d: &str, epoch: u64) -> String {
        let f = &self.s()["fork"];
        let mut ver = if epoch < n(&f["epoch"]) { f["previous_version"].clone() } else { f["current_version"].clone() };
        if self.g.chance(1, 40) {
            ver = if self.g.chance(1, 2) { self.s()["fork"]["previous_version"].clone() } else { cfg()["genesis_fork_version"].clone() };
        }
        let gvr = self.s()["genesis_validators_root"].clone();
        self.domain_of(d, ver.as_str().unwrap(), gvr.as_str().unwrap())
    }
    pub fn domain_of(&self, d: &str, ver: &str, gvr: &str) -> String {
        let mut x = hex::decode(ver).unwrap();
        x.resize(32, 0);
        x.extend(hex::decode(gvr).unwrap());
        format!("{d}{}", &hex::encode(sha(&x))[..56])
    }
    fn wrong(&mut self) -> bool {
        self.g.chance(1, 30)
    }
    /// Signs, sometimes with a wrong set of keys.
    pub fn sign(&mut self, root: &[u8], keys: &[u64]) -> Value {
        let mut ks = keys.to_vec();
        if self.wrong() {
            match self.g.below(3) {
                0 => { ks.pop(); }
                1 => ks.push(1 + self.g.below(20)),
                _ => if let Some(k) = ks.first_mut() { *k += 1 },
            }
        }
        if self.wrong() {
            let mut r = root.to_vec();
            r[0] ^= 1;
            return sign_root(&r, &ks);
        }
        sign_root(root, &ks)
    }
    pub fn deposit_data(&mut self, f: &str) -> Value {
        let key = if self.g.chance(1, 3) { 1 + self.g.below(20) } else { 30 + self.g.below(40) };
        let cred = credentials(self.g, key, f);
        let amount = match self.g.below(4) { 0 => 1000 + self.g.below(40000), 1 => 31999 + self.g.below(3), 2 => 33000 + self.g.below(3000), _ => 32000 };
        let m = json!({"public_key": pk(key), "withdrawal_credentials": cred, "amount": amount});
        let dom = self.domain_of("03000000", cfg()["genesis_fork_version"].as_str().unwrap(), &z32());
        let mut root = signing_root(&phase0::DepositMessage::uj(&m), &dom);
        let bad = self.g.chance(1, 5);
        if bad {
            root[3] ^= 4;
        }
        json!({"public_key": m["public_key"], "withdrawal_credentials": m["withdrawal_credentials"], "amount": amount, "signature": sign_root(&root, &[key])})
    }
    /// The deposit with contract index `i`.
    pub fn deposit_at(&mut self, i: u64) -> Value {
        let k0 = self.leaves.len() - self.deposits.len();
        let j = (i as usize).wrapping_sub(k0).min(self.deposits.len().max(1) - 1);
        let data = if self.deposits.is_empty() { let f = self.f(); self.deposit_data(f) } else { self.deposits[j].clone() };
        let (b, _) = Tree(self.leaves.clone()).branch(k0 + j);
        json!({"proof": b.iter().map(|x| Value::from(hex::encode(x))).collect::<Value>(), "data": data})
    }
    fn root_at(&self, slot: u64) -> Option<Value> {
        (slot < self.slot() && self.slot() <= slot + SPHR as u64).then(|| self.s()["block_roots"][slot as usize % SPHR].clone())
    }
    pub fn att_data(&mut self, for_index: bool) -> Value {
        let (slot, e) = (self.slot(), self.epoch());
        let te = if e > 0 && self.g.chance(1, 2) { e - 1 } else { e };
        let mut aslot = te * 4 + self.g.below(4);
        if te == e && aslot >= slot && !self.g.chance(1, 8) {
            aslot = if slot % 4 == 0 { slot } else { te * 4 + self.g.below(slot % 4) };
        }
        if te < e && slot > aslot + 4 && self.g.chance(1, 2) {
            aslot = (slot - 4).min(te * 4 + 3).max(te * 4);
        }
        let idx = if for_index { self.g.below(2) } else { 0 };
        let cp = |w: &Self, k: &str| w.s()[k].clone();
        let src = if te == e { cp(self, "current_justified_checkpoint") } else { cp(self, "previous_justified_checkpoint") };
        let rnd = |w: &mut Self| Value::from(w.g.hex(32));
        let troot = match self.root_at(te * 4) { Some(r) if self.g.chance(3, 4) => r, _ => rnd(self) };
        let hroot = match self.root_at(aslot) { Some(r) if self.g.chance(3, 4) => r, _ => rnd(self) };
        json!({"slot": aslot, "index": idx, "beacon_block_root": hroot, "source": src, "target": {"epoch": te, "root": troot}})
    }
    fn bits_over(&mut self, len: usize) -> Vec<u8> {
        match self.g.below(3) {
            0 => vec![1; len],
            _ => { let mut b: Vec<u8> = (0..len).map(|_| self.g.below(2) as u8).collect(); if len > 0 && !self.wrong() { let i = self.g.below(len as u64) as usize; b[i] = 1 } b }
        }
    }
    fn committee(&self, slot: u64, i: u64) -> Vec<u64> {
        self.r.ask("q.committee", json!({"slot": slot, "x": i})).map(|v| v.as_array().unwrap().iter().map(n).collect()).unwrap_or_default()
    }
    pub fn attestation(&mut self) -> Value {
        let el = self.f() == "electra";
        let mut d = self.att_data(!el);
        if self.g.chance(1, 12) {
            mutate(self.g, &mut d);
        }
        let slot = n(&d["slot"]);
        let e = slot / 4;
        let mut who = vec![];
        let mut bits: Vec<u8> = vec![];
        let mut cbits = [0u8; MCPS];
        if el {
            let count = self.r.ask("q.committee_count", json!({"e": e})).map(|v| n(&v)).unwrap_or(1);
            let style = self.g.below(3);
            for (i, b) in cbits.iter_mut().enumerate() {
                *b = ((i as u64) < count && (style == 0 || style as usize == i + 1)) as u8;
            }
            if self.wrong() {
                let i = self.g.below(MCPS as u64) as usize;
                cbits[i] ^= 1;
            }
            for i in 0..MCPS {
                if cbits[i] == 1 {
                    let cm = self.committee(slot, i as u64);
                    let b = self.bits_over(cm.len());
                    who.extend(cm.iter().zip(&b).filter(|(_, b)| **b == 1).map(|(v, _)| *v));
                    bits.extend(b);
                }
            }
        } else {
            let cm = self.committee(slot, n(&d["index"]));
            bits = self.bits_over(cm.len());
            who.extend(cm.iter().zip(&bits).filter(|(_, b)| **b == 1).map(|(v, _)| *v));
        }
        if self.wrong() {
            if self.g.chance(1, 2) && bits.len() < MVC { bits.push(self.g.below(2) as u8) } else { bits.pop(); }
        }
        let te = n(&d["target"]["epoch"]);
        let dom = self.domain("01000000", te);
        let root = signing_root(&phase0::AttestationData::uj(&d), &dom);
        let keys: Vec<u64> = who.iter().map(|i| self.key(*i)).collect();
        let sig = self.sign(&root, &keys);
        let mut x = json!({"aggregation_bits": bits, "data": d, "signature": sig});
        if el {
            x["committee_bits"] = json!(cbits);
        }
        x
    }
    /// phase0: pending attestations of both epochs, as block processing would have recorded them.
    pub fn fill_pending(&mut self) {
        let e = self.epoch();
        let (mut prev, mut cur) = (vec![], vec![]);
        let m = self.g.below(9);
        for _ in 0..m {
            let d = self.att_data(true);
            let slot = n(&d["slot"]);
            if slot >= self.slot() {
                continue;
            }
            let count = self.r.ask("q.committee_count", json!({"e": slot / 4})).map(|v| n(&v)).unwrap_or(0);
            if n(&d["index"]) >= count {
                continue;
            }
            let cm = self.committee(slot, n(&d["index"]));
            if cm.is_empty() {
                continue;
            }
            let mut bits = self.bits_over(cm.len());
            if bits.iter().all(|b| *b == 0) {
                bits[0] = 1;
            }
            let pa = json!({"aggregation_bits": bits, "data": d, "inclusion_delay": 1 + self.g.below((self.slot() - slot).clamp(1, 4)), "proposer_index": self.g.below(self.nv())});
            if n(&d["target"]["epoch"]) == e { cur.push(pa) } else { prev.push(pa) }
        }
        let mut s = self.s().clone();
        s["previous_epoch_attestations"] = prev.into();
        s["current_epoch_attestations"] = cur.into();
        self.r = Run::start(self.r.sid, s);
    }
    pub fn exit(&mut self) -> Value {
        let i = self.pick_validator();
        let e = self.epoch();
        let mut m = json!({"epoch": if self.g.chance(1, 8) { e + 1 } else { e - self.g.below(3).min(e) }, "validator_index": i});
        if self.wrong() {
            mutate(self.g, &mut m);
        }
        let ep = n(&m["epoch"]);
        let dom = if fnum(self.f()) >= 4 {
            let (v, gvr) = (cfg()["capella_fork_version"].clone(), self.s()["genesis_validators_root"].clone());
            self.domain_of("04000000", v.as_str().unwrap(), gvr.as_str().unwrap())
        } else { self.domain("04000000", ep) };
        let root = signing_root(&phase0::VoluntaryExit::uj(&m), &dom);
        let k = self.key(i);
        json!({"message": m, "signature": self.sign(&root, &[k])})
    }
    /// Any validator, more often one that is active and not leaving; sometimes nobody.
    pub fn pick_validator(&mut self) -> u64 {
        let nv = self.nv();
        if self.g.chance(1, 40) {
            return nv + self.g.below(2);
        }
        for _ in 0..4 {
            let i = self.g.below(nv);
            let v = &self.s()["validators"][i as usize];
            if n(&v["exit_epoch"]) == FAR && n(&v["activation_epoch"]) <= self.epoch() && v["slashed"] == json!(false) {
                return i;
            }
        }
        self.g.below(nv)
    }
    fn header_of(&mut self, i: u64, slot: u64) -> Value {
        json!({"slot": slot, "proposer_index": i, "parent_root": self.g.hex(32), "state_root": self.g.hex(32), "body_root": self.g.hex(32)})
    }
    pub fn proposer_slashing(&mut self) -> Value {
        let i = self.pick_validator();
        let slot = (self.slot() + 2).saturating_sub(self.g.below(12));
        let h1 = self.header_of(i, slot);
        let mut h2 = if self.g.chance(1, 2) { self.header_of(i, slot) } else { h1.clone() };
        if h1 == h2 && !self.wrong() || self.g.chance(1, 12) {
            mutate(self.g, &mut h2);
        }
        let mut out = json!({});
        for (k, h) in [("signed_header_1", h1), ("signed_header_2", h2)] {
            let dom = self.domain("00000000", n(&h["slot"]) / 4);
            let root = signing_root(&phase0::BeaconBlockHeader::uj(&h), &dom);
            let key = self.key(i.min(self.nv() - 1));
            let sig = self.sign(&root, &[key]);
            out[k] = json!({"message": h, "signature": sig});
        }
        out
    }
    pub fn attester_slashing(&mut self) -> Value {
        let e = self.epoch();
        let d1 = self.att_data(true);
        let mut d2 = d1.clone();
        let mut d1 = d1;
        match self.g.below(5) {
            0 => d2["beacon_block_root"] = self.g.hex(32).into(),
            1 => d2["target"]["root"] = self.g.hex(32).into(),
            2 | 3 => {
                // surround (or nearly)
                let s = self.g.below(e + 1);
                let t = s + self.g.below(4);
                d1["source"]["epoch"] = s.into();
                d1["target"]["epoch"] = (t + 1 + self.g.below(2)).into();
                d2["source"]["epoch"] = (s + self.g.below(2)).into();
                d2["target"]["epoch"] = (t + self.g.below(2)).into();
                if self.g.chance(1, 4) { std::mem::swap(&mut d1, &mut d2) }
            }
            _ => {}
        }
        let nv = self.nv();
        let mut out = json!({});
        let common: Vec<u64> = { let m = 1 + self.g.below(3); (0..m).map(|_| self.pick_validator()).collect() };
        for (k, d) in [("attestation_1", d1), ("attestation_2", d2)] {
            let mut ix = common.clone();
            for _ in 0..self.g.below(3) {
                ix.push(self.g.below(nv));
            }
            if !self.wrong() { ix.sort(); ix.dedup(); }
            if self.wrong() { ix.reverse() }
            let dom = self.domain("01000000", n(&d["target"]["epoch"]));
            let root = signing_root(&phase0::AttestationData::uj(&d), &dom);
            let keys: Vec<u64> = ix.iter().map(|i| self.key((*i).min(nv - 1))).collect();
            let sig = self.sign(&root, &keys);
            out[k] = json!({"attesting_indices": ix, "data": d, "signature": sig});
        }
        out
    }
    pub fn bls_change(&mut self) -> Value {
        let nv = self.nv();
        let mut i = self.pick_validator();
        for _ in 0..6 {
            if i < nv && self.s()["validators"][i as usize]["withdrawal_credentials"].as_str().unwrap().starts_with("00") { break }
            i = self.pick_validator();
        }
        let key = self.key(i.min(nv - 1));
        let key = if self.wrong() { key + 1 } else { key };
        let mut m = json!({"validator_index": i, "from_bls_public_key": pk(key), "to_execution_address": hex::encode(self.g.bytes(20))});
        if self.wrong() { mutate(self.g, &mut m) }
        let ver = if self.g.chance(1, 12) { "capella_fork_version" } else { "genesis_fork_version" };
        let gvr = self.s()["genesis_validators_root"].clone();
        let dom = self.domain_of("0a000000", cfg()[ver].as_str().unwrap(), gvr.as_str().unwrap());
        let root = signing_root(&capella::BlsToExecutionChange::uj(&m), &dom);
        json!({"message": m, "signature": self.sign(&root, &[key])})
    }
    pub fn sync(&mut self) -> Value {
        let bits = match self.g.below(4) { 0 => vec![1u8; SYNC], 1 => vec![0; SYNC], _ => (0..SYNC).map(|_| self.g.below(2) as u8).collect() };
        let ps = self.slot().max(1) - 1;
        let root: Vec<u8> = hex::decode(self.s()["block_roots"][ps as usize % SPHR].as_str().unwrap()).unwrap();
        let dom = self.domain("07000000", ps / 4);
        let mut nd = [0u8; 32];
        nd.copy_from_slice(&root);
        let sr = signing_root(&ssz_rs::Node(nd), &dom);
        let keys: Vec<u64> = (0..SYNC).filter(|k| bits[*k] == 1).map(|k| key_of(&self.s()["current_sync_committee"]["public_keys"][k])).collect();
        let sig = self.sign(&sr, &keys);
        json!({"sync_committee_bits": bits, "sync_committee_signature": sig})
    }
    pub fn withdrawals(&mut self) -> Value {
        self.r.ask("q.withdrawals", json!({})).unwrap_or(json!([]))
    }
    fn request(&mut self) -> Value {
        let mut i = self.pick_validator().min(self.nv() - 1);
        for _ in 0..3 {
            if !self.s()["validators"][i as usize]["withdrawal_credentials"].as_str().unwrap().starts_with("00") { break }
            i = self.pick_validator().min(self.nv() - 1);
        }
        let v = self.s()["validators"][i as usize].clone();
        let addr = if self.g.chance(1, 12) { self.g.hex(20) } else { v["withdrawal_credentials"].as_str().unwrap()[24..].to_string() };
        let p = if self.g.chance(1, 20) { pk(350) } else { v["public_key"].as_str().unwrap().into() };
        json!({"source_address": addr, "validator_public_key": p, "amount": if self.g.chance(1, 2) { 0 } else { 1 + self.g.below(9000) }})
    }
    fn receipt(&mut self) -> Value {
        let mut d = self.deposit_data("electra");
        d["index"] = self.g.below(100).into();
        d
    }
    fn consolidation(&mut self) -> Value {
        let a = self.pick_validator();
        let mut b = self.pick_validator();
        if a == b && !self.wrong() { b = (b + 1) % self.nv() }
        let e = self.epoch();
        let nv = self.nv();
        // usually the same execution address
        let ca = self.s()["validators"][a.min(nv - 1) as usize]["withdrawal_credentials"].as_str().unwrap().to_string();
        for j in 0..nv {
            if j != a && self.s()["validators"][j as usize]["withdrawal_credentials"].as_str().unwrap()[24..] == ca[24..] && self.g.chance(1, 2) { b = j; break }
        }
        let mut m = json!({"source_index": a, "target_index": b, "epoch": if self.g.chance(1, 8) { e + 1 } else { e - self.g.below(3).min(e) }});
        if self.wrong() { mutate(self.g, &mut m) }
        let gvr = self.s()["genesis_validators_root"].clone();
        let dom = self.domain_of("0b000000", cfg()["genesis_fork_version"].as_str().unwrap(), gvr.as_str().unwrap());
        let root = signing_root(&electra::Consolidation::uj(&m), &dom);
        let keys = [self.key(a.min(nv - 1)), self.key(b.min(nv - 1))];
        json!({"message": m, "signature": self.sign(&root, &keys)})
    }
    pub fn payload(&mut self) -> Value {
        let f = self.f();
        let mut p = default_signed(f)["message"]["body"]["execution_payload"].clone();
        for (k, v) in p.as_object_mut().unwrap() {
            match v {
                Value::String(s) => *v = if k == "extra_data" { let m = self.g.below(9) as usize; self.g.hex(m).into() } else { let m = s.len() / 2; self.g.hex(m).into() },
                Value::Number(_) => *v = self.g.below(100000).into(),
                _ => {}
            }
        }
        p["parent_hash"] = self.s()["latest_execution_payload_header"]["block_hash"].clone();
        p["prev_randao"] = self.s()["randao_mixes"][self.epoch() as usize % EPHV].clone();
        p["timestamp"] = (n(&self.s()["genesis_time"]) + self.slot() * c("seconds_per_slot")).into();
        let m = self.g.below(4);
        p["transactions"] = (0..m).map(|_| { let l = self.g.below(65) as usize; Value::from(self.g.hex(l)) }).collect();
        if fnum(f) >= 3 {
            p["withdrawals"] = self.withdrawals();
        }
        if f == "electra" {
            let m = self.g.below(3);
            p["withdrawal_requests"] = (0..m).map(|_| self.request()).collect();
            let m = self.g.below(3);
            p["deposit_receipts"] = (0..m).map(|_| self.receipt()).collect();
        }
        if self.g.chance(1, 10) {
            let ks = ["parent_hash", "prev_randao", "timestamp"];
            let k = *self.g.pick(&ks);
            mutate(self.g, &mut p[k]);
        }
        p
    }
    fn randao(&mut self) -> Value {
        let e = self.epoch();
        let p = self.r.ask("q.proposer", json!({})).map(|v| n(&v)).unwrap_or(0);
        let dom = self.domain("02000000", e);
        let root = signing_root(&e, &dom);
        let k = self.key(p);
        self.sign(&root, &[k])
    }
    /// A block body for the state's slot. `ops`: how eagerly operations are included.
    pub fn body(&mut self, ops: u64) -> Value {
        let f = self.f();
        let k = fnum(f);
        let mut b = default_signed(f)["message"]["body"].clone();
        b["randao_reveal"] = self.randao();
        b["graffiti"] = self.g.hex(32).into();
        let votes = self.s()["eth1_data_votes"].as_array().unwrap().clone();
        b["eth1_data"] = if !votes.is_empty() && self.g.chance(3, 4) { self.g.pick(&votes).clone() } else { json!({"deposit_root": self.g.hex(32), "deposit_count": self.g.below(9), "block_hash": self.g.hex(32)}) };
        if !votes.is_empty() && self.g.chance(1, 4) {
            // a candidate that differs in one part
            match self.g.below(3) {
                0 => b["eth1_data"]["deposit_root"] = self.g.hex(32).into(),
                1 => b["eth1_data"]["deposit_count"] = self.g.below(9).into(),
                _ => b["eth1_data"]["block_hash"] = self.g.hex(32).into(),
            }
        }
        let di = n(&self.s()["eth1_deposit_index"]);
        let dc = n(&self.s()["eth1_data"]["deposit_count"]);
        let lim = if k >= 5 { dc.min(n(&self.s()["deposit_receipts_start_index"])) } else { dc };
        let mut want = lim.saturating_sub(di).min(DEPS as u64);
        if self.g.chance(1, 12) { want = self.g.below(DEPS as u64) }
        b["deposits"] = (0..want).map(|j| self.deposit_at(di + j)).collect();
        let lot = |w: &mut Self, max: usize| if w.g.chance(ops, 10) { 1 + w.g.below(max as u64) } else { 0 };
        let m = lot(self, 1); b["proposer_slashings"] = (0..m).map(|_| self.proposer_slashing()).collect();
        let m = lot(self, 1); b["attester_slashings"] = (0..m).map(|_| self.attester_slashing()).collect();
        let m = lot(self, if k >= 5 { ATTSE } else { 3 }); b["attestations"] = (0..m).map(|_| self.attestation()).collect();
        let m = lot(self, 2); b["voluntary_exits"] = (0..m).map(|_| self.exit()).collect();
        if k >= 1 { b["sync_aggregate"] = self.sync() }
        if k >= 2 { if k > 2 || self.g.chance(3, 4) { b["execution_payload"] = self.payload() } }
        if k >= 3 { let m = lot(self, 2); b["bls_to_execution_changes"] = (0..m).map(|_| self.bls_change()).collect() }
        if k >= 4 { let m = if self.wrong() { 3 } else { self.g.below(3) }; let same = self.g.chance(1, 3).then(|| self.g.hex(48)); b["blob_kzg_commitments"] = (0..m).map(|_| Value::from(same.clone().unwrap_or_else(|| self.g.hex(48)))).collect() }
        if k >= 5 { let m = lot(self, 1); b["consolidations"] = (0..m).map(|_| self.consolidation()).collect() }
        b
    }
    /// An unsigned block for the state's slot, in a signed wrapper.
    pub fn block(&mut self, ops: u64) -> Value {
        let f = self.f();
        let mut sb = default_signed(f);
        let body = self.body(ops);
        let m = &mut sb["message"];
        m["slot"] = self.r.js["slot"].clone();
        m["proposer_index"] = self.r.ask("q.proposer", json!({})).unwrap_or(0.into());
        let h = phase0::BeaconBlockHeader::uj(&self.r.js["latest_block_header"]);
        m["parent_root"] = h.hash_tree_root().unwrap().j();
        m["state_root"] = self.g.hex(32).into();
        m["body"] = body;
        sb
    }
    /// A signed block for `slot`, built on a copy that was advanced to it.
    pub fn signed(&mut self, slot: u64, ops: u64) -> Option<Value> {
        let mut plan = self.r.fork_off();
        if slot > self.slot() && !plan.step("slots", json!({"to": slot})) { return None }
        let keep = std::mem::replace(&mut self.r, plan);
        let mut sb = self.block(ops);
        let out = {
            let mut post = self.r.fork_off();
            if post.step("block", json!({"x": sb})) || self.g.chance(1, 2) {
                sb["message"]["state_root"] = post.st.root().into();
                if self.g.chance(1, 15) { mutate(self.g, &mut sb["message"]["state_root"]) }
                self.sign_block(&mut sb);
                Some(sb)
            } else { None }
        };
        self.r = keep;
        out
    }
    pub fn sign_block(&mut self, sb: &mut Value) {
        let e = self.epoch();
        let dom = self.domain("00000000", e);
        let f = self.f();
        macro_rules! r { ($($n:literal => $t:ty),*) => { match f { $( $n => signing_root(&<$t>::uj(sb).message, &dom), )* _ => unreachable!() } } }
        let root = r!("phase0" => PSigned, "altair" => ASigned, "bellatrix" => BSigned, "capella" => CSigned, "deneb" => DSigned, "electra" => ESigned);
        let i = n(&sb["message"]["proposer_index"]).min(self.nv() - 1);
        let k = self.key(i);
        sb["signature"] = self.sign(&root, &[k]);
    }
    fn maybe_mutate(&mut self, x: &mut Value) {
        if self.g.chance(1, 12) { mutate(self.g, x) }
    }
    /// Does one operation of the given name on the session, if the fork has it.
    pub fn act(&mut self, op: &str) {
        let k = fnum(self.f());
        let e = self.epoch();
        let min_fork = |op: &str| match op {
            "sync" | "ep.inactivity" | "ep.sync" | "q.next_sync" | "q.next_sync_indices" | "q.flag_deltas" | "q.flags" | "q.base_reward" | "q.unslashed" => 1,
            "payload" | "q.execution_enabled" => 2,
            "withdrawals" | "bls_change" | "q.withdrawals" => 3,
            "q.activation_churn" => 4,
            "withdrawal_request" | "deposit_receipt" | "consolidation" | "switch" | "queue_excess" | "take_exit" | "take_consolidation" | "ep.pending_deposits"
            | "ep.pending_consolidations" | "q.balance_churn" | "q.exit_churn" | "q.consolidation_churn" | "q.pending_to_withdraw" | "q.active_balance" => 5,
            _ => 0,
        };
        if k < min_fork(op) { return }
        match op {
            "q.source_deltas" | "q.target_deltas" | "q.head_deltas" | "q.inclusion_deltas" if k > 0 => return,
            "q.execution_enabled" if k > 2 => return,
            "q.activation_churn" if k > 4 => return,
            "upgrade" if k > 4 => return,
            "exec" if k > 4 => return,
            "epoch" | "ep.justification" if self.slot() % 4 == 0 => return,
            "eth1" if self.s()["eth1_data_votes"].as_array().unwrap().len() >= VOTES => return,
            "take_consolidation" if self.r.ask("q.consolidation_churn", json!({})) == Some(0.into()) => return,
            _ => {}
        }
        if matches!(op, "block" | "transition" | "in_slot" | "verify_block" | "exec") && self.s()["eth1_data_votes"].as_array().unwrap().len() >= VOTES {
            self.r.step("poke", json!({"eth1_data_votes": []}));
        }
        let nv = self.nv();
        let near = |w: &mut Self| (e + 2).saturating_sub(w.g.below(5));
        let domains = ["00000000", "01000000", "02000000", "04000000", "05000000", "06000000", "07000000", "08000000", "09000000"];
        let a = match op {
            "slot" | "epoch" | "q.proposer" | "q.total_active" | "q.churn" | "q.activation_churn" | "q.epochs" | "q.eligible" | "q.valid_genesis" | "q.genesis_block"
            | "q.next_sync" | "q.next_sync_indices" | "q.inactivity_deltas" | "q.withdrawals" | "q.source_deltas" | "q.target_deltas" | "q.head_deltas"
            | "q.inclusion_deltas" | "q.balance_churn" | "q.exit_churn" | "q.consolidation_churn" | "upgrade" => json!({}),
            x if x.starts_with("ep.") => json!({}),
            "slots" => { let s = self.slot(); json!({"to": if self.wrong() { s } else { s + 1 + self.g.below(6) }}) }
            "header" => { let mut b = self.block(0); let m = self.g.chance(1, 3); if m { let ks = ["slot", "proposer_index", "parent_root"]; let k = *self.g.pick(&ks); mutate(self.g, &mut b["message"][k]) } json!({"x": b}) }
            "randao" => { let mut b = self.body(0); if self.g.chance(1, 6) { mutate(self.g, &mut b["randao_reveal"]) } json!({"x": b}) }
            "eth1" => { let b = self.body(0); json!({"x": b}) }
            "operations" => { let b = self.body(4); json!({"x": b}) }
            "block" => { let mut b = self.block(2); if self.wrong() { mutate(self.g, &mut b["message"]) } let en = !self.wrong(); json!({"x": b, "engine": en}) }
            "transition" | "in_slot" | "verify_block" => {
                let d = if op == "transition" { if self.wrong() { 0 } else { 1 + self.g.below(3) } } else { 0 };
                let to = self.slot() + d;
                let Some(mut b) = self.signed(to, 1) else { return };
                if self.wrong() { mutate(self.g, &mut b) }
                // a block far ahead would take the implementation through every slot up to it
                let far = n(&b["message"]["slot"]);
                if far > self.slot() + 12 { b["message"]["slot"] = (self.slot() + far % 12).into() }
                let (val, en) = (!self.g.chance(1, 5), !self.wrong());
                json!({"x": b, "validate": val, "engine": en})
            }
            "exec" => return self.exec(),
            "attestation" => { let mut x = self.attestation(); self.maybe_mutate(&mut x); json!({"x": x}) }
            "proposer_slashing" => { let mut x = self.proposer_slashing(); self.maybe_mutate(&mut x); json!({"x": x}) }
            "attester_slashing" => { let mut x = self.attester_slashing(); self.maybe_mutate(&mut x); json!({"x": x}) }
            "deposit" => { let i = n(&self.s()["eth1_deposit_index"]); let i = if self.wrong() { i + 1 } else { i }; let mut x = self.deposit_at(i); self.maybe_mutate(&mut x); json!({"x": x}) }
            "exit" => { let mut x = self.exit(); self.maybe_mutate(&mut x); json!({"x": x}) }
            "bls_change" => { let mut x = self.bls_change(); self.maybe_mutate(&mut x); json!({"x": x}) }
            "sync" => { let mut x = self.sync(); self.maybe_mutate(&mut x); json!({"x": x}) }
            "payload" => { let mut b = self.body(0); if self.wrong() { mutate(self.g, &mut b["execution_payload"]) } let en = !self.g.chance(1, 8); json!({"x": b, "engine": en}) }
            "withdrawals" => {
                let mut p = self.payload();
                if self.g.chance(1, 6) {
                    let w = &mut p["withdrawals"];
                    let full = w.as_array().unwrap().len();
                    match self.g.below(3) { 0 if full > 0 => { w.as_array_mut().unwrap().pop(); } 1 if full > 0 => mutate(self.g, w), _ if full < WDS => w.as_array_mut().unwrap().push(json!({"index": 3, "validator_index": 1, "address": "a0".repeat(20), "amount": 5})), _ => {} }
                }
                json!({"x": p})
            }
            "withdrawal_request" => { let mut x = self.request(); if self.wrong() { mutate(self.g, &mut x) } json!({"x": x}) }
            "deposit_receipt" => { let x = self.receipt(); json!({"x": x}) }
            "consolidation" => { let mut x = self.consolidation(); self.maybe_mutate(&mut x); json!({"x": x}) }
            "slash" => { let i = self.g.below(nv); if self.g.chance(1, 3) { json!({"i": i, "w": self.g.below(nv)}) } else { json!({"i": i}) } }
            "initiate_exit" | "switch" | "queue_excess" | "q.pending_to_withdraw" | "q.active_balance" | "q.base_reward" => json!({"i": self.g.below(nv)}),
            "take_exit" | "take_consolidation" => { let cap = if self.g.chance(1, 2) { 40000 } else { 200000 }; json!({"amount": 1 + self.g.below(cap)}) }
            "q.committee" => { let ep = near(self); let cc = self.r.ask("q.committee_count", json!({"e": ep})).map(|v| n(&v)).unwrap_or(1); json!({"slot": ep * 4 + self.g.below(4), "x": self.g.below(cc)}) }
            "q.committee_count" | "q.active" | "q.mix" => json!({"e": near(self)}),
            "q.seed" => { let ep = near(self); json!({"e": ep, "d": *self.g.pick(&domains)}) }
            "q.domain" => { let d = *self.g.pick(&domains); if self.g.chance(1, 4) { json!({"d": d}) } else { json!({"d": d, "e": near(self)}) } }
            "q.block_root" => { let s = self.slot(); json!({"slot": (s + 2).saturating_sub(self.g.below(13))}) }
            "q.epoch_root" => json!({"e": near(self)}),
            "q.shuffled" => { let m = 1 + self.g.below(40); json!({"i": if self.wrong() { m } else { self.g.below(m) }, "n": m, "seed": self.g.hex(32)}) }
            "q.shuffle_list" => { let m = self.g.below(40); json!({"x": (0..m).map(|i| 3 * i + self.g.below(3)).collect::<Vec<_>>(), "seed": self.g.hex(32)}) }
            "q.attesting" => {
                // block processing only asks about bitfields of the right length, slots of the last epochs and committees there are
                let x = self.attestation();
                let slot = n(&x["data"]["slot"]);
                if slot > 1 << 20 { return }
                let count = self.r.ask("q.committee_count", json!({"e": slot / 4})).map(|v| n(&v)).unwrap_or(1);
                if n(&x["data"]["index"]) >= count { return }
                if k == 5 {
                    let on: Vec<u64> = x["committee_bits"].as_array().unwrap().iter().enumerate().filter(|(_, b)| n(b) == 1).map(|(i, _)| i as u64).collect();
                    let m: Option<usize> = on.iter().map(|i| self.r.ask("q.committee", json!({"slot": x["data"]["slot"], "x": i})).map(|v| v.as_array().unwrap().len())).sum();
                    if m != Some(x["aggregation_bits"].as_array().unwrap().len()) { return }
                }
                json!({"x": x})
            }
            "q.flag_deltas" => json!({"k": self.g.below(3)}),
            "q.unslashed" => json!({"k": self.g.below(3), "e": (e + 1).saturating_sub(self.g.below(4))}),
            "q.flags" => { let d = self.att_data(true); let delay = self.slot().saturating_sub(n(&d["slot"])).max(1) + self.g.below(2); json!({"x": d, "delay": delay}) }
            "q.execution_enabled" => { let b = self.body(0); json!({"x": b}) }
            "poke" => { let s2 = state(self.g, FORKS[k], &z32(), 0, 0); let ks = ["slashings", "randao_mixes", "justification_bits"]; let key = *self.g.pick(&ks); json!({key: s2[key]}) }
            _ => panic!("harness: generator: {op}"),
        };
        self.r.step(op, a);
        if op == "epoch" || op == "ep.participation" {
            let slot = self.slot();
            self.r.step("poke", json!({"slot": slot + 4}));
        }
    }
    /// A block of this fork or a later one, through the executor.
    fn exec(&mut self) {
        let from = fnum(self.f());
        let to = if self.g.chance(1, 3) { from } else { (from + *self.g.pick(&[1, 1, 2, 3])).min(4) };
        let fe = |k: usize| c(&format!("{}_fork_epoch", FORKS[k]));
        // plan: climb on a copy
        let mut plan = self.r.fork_off();
        for k in from + 1..=to {
            let slot = fe(k) * 4;
            if n(&plan.js["slot"]) >= slot || !plan.step("slots", json!({"to": slot})) || !plan.step("upgrade", json!({})) {
                // not climbable: hand over some block of the target fork anyway
                let x = default_signed(FORKS[to]);
                let mut x = x;
                x["message"]["slot"] = (self.slot() + 1 + self.g.below(8)).into();
                self.r.step("exec", json!({"f": FORKS[to], "x": x, "validate": true}));
                return;
            }
        }
        let keep = std::mem::replace(&mut self.r, plan);
        // sometimes whole epochs are skipped, the fork's first one included
        let reach = if self.g.chance(1, 2) { 7 } else { 3 };
        let slot = self.slot() + if from == to || self.g.chance(1, 2) { 1 + self.g.below(reach) } else { 0 };
        let b = self.signed(slot, 1);
        self.r = keep;
        if let Some(b) = b {
            let (val, en) = (!self.g.chance(1, 6), !self.wrong());
            self.r.step("exec", json!({"f": FORKS[to], "x": b, "validate": val, "engine": en}));
            if self.g.chance(1, 6) && from > 0 {
                let mut x = default_signed(FORKS[from - 1]);
                x["message"]["slot"] = (self.slot() + 1).into();
                self.r.step("exec", json!({"f": FORKS[from - 1], "x": x, "validate": true}));
            }
        }
    }
}
/// A state that the executor can climb from: shortly before its next fork.
fn before_fork(s: &mut Value, g: &mut G) {
    let k = fnum(s["fk"].as_str().unwrap());
    if k >= 4 { return }
    let fe = c(&format!("{}_fork_epoch", FORKS[k + 1]));
    let slot = 4 * fe - 1 - g.below(5);
    let (old_e, e) = (n(&s["slot"]) / 4, slot / 4);
    s["slot"] = slot.into();
    s["latest_block_header"]["slot"] = (slot - 1).into();
    s["fork"]["epoch"] = if k == 0 { 0 } else { c(&format!("{}_fork_epoch", FORKS[k])).min(e) }.into();
    for x in ["current_justified_checkpoint", "previous_justified_checkpoint", "finalized_checkpoint"] {
        let ep = n(&s[x]["epoch"]);
        s[x]["epoch"] = (ep + e).saturating_sub(old_e).min(e.saturating_sub(1)).into();
    }
    if k == 0 {
        s["previous_epoch_attestations"] = json!([]);
        s["current_epoch_attestations"] = json!([]);
    }
}
pub fn genesis_args(w: &mut World, f: &str) -> Value {
    let m = 3 + w.g.below(7);
    let mut datas: Vec<Value> = vec![];
    for i in 0..m {
        let mut d = w.deposit_data(f);
        if w.g.chance(4, 5) {
            let key = 1 + i;
            let amount = if w.g.chance(3, 4) { 32000 } else { 20000 + w.g.below(14000) };
            let msg = json!({"public_key": pk(key), "withdrawal_credentials": credentials(w.g, key, f), "amount": amount});
            let dom = w.domain_of("03000000", cfg()["genesis_fork_version"].as_str().unwrap(), &z32());
            let root = signing_root(&phase0::DepositMessage::uj(&msg), &dom);
            d = msg;
            d["signature"] = sign_root(&root, &[key]);
        }
        datas.push(d);
    }
    let mut leaves: Vec<Vec<u8>> = vec![];
    let mut deposits = vec![];
    for d in &datas {
        leaves.push(phase0::DepositData::uj(d).hash_tree_root().unwrap().0.to_vec());
        let (b, _) = Tree(leaves.clone()).branch(leaves.len() - 1);
        deposits.push(json!({"proof": b.iter().map(|x| Value::from(hex::encode(x))).collect::<Value>(), "data": d}));
    }
    if w.g.chance(1, 8) {
        let i = w.g.below(m) as usize;
        mutate(w.g, &mut deposits[i]);
    }
    let mut a = json!({"f": f, "hash": w.g.hex(32), "time": 930 + w.g.below(30), "deposits": deposits});
    if fnum(f) >= 2 && w.g.chance(1, 2) {
        a["header"] = payload_header(w.g, f);
    }
    a
}
/// spec: "forks|ops|len" (comma-separated lists); `count` sessions.
pub fn sessions(g: &mut G, spec: &str, count: usize) -> Vec<Value> {
    let p: Vec<&str> = spec.split('|').collect();
    let forks: Vec<&str> = if p[0] == "all" { FORKS.to_vec() } else { p[0].split(',').collect() };
    let ops: Vec<&str> = p[1].split(',').collect();
    let len: u64 = p[2].parse().expect("harness: session length");
    let mut out = vec![];
    for sid in 0..count {
        let f = forks[sid % forks.len()];
        let mut w = World::new(g, sid, f);
        if ops.contains(&"genesis") {
            let a = genesis_args(&mut w, f);
            match Run::genesis(sid, &a) {
                Ok(r) => w.r = r,
                Err(l) => {
                    out.push(l);
                    continue;
                }
            }
        }
        if ops.contains(&"exec") || ops.contains(&"upgrade") && w.g.chance(1, 2) {
            let mut s = w.s().clone();
            before_fork(&mut s, w.g);
            w.r = Run::start(sid, s);
        }
        for _ in 0..len {
            let op = *w.g.pick(&ops);
            if op != "genesis" {
                w.act(op);
            }
        }
        out.append(&mut w.r.lines);
    }
    out
}
