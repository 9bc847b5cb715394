//! The Beacon API client over a recording transport: what it asks for, and what it makes of scripted replies.
//!   clientbin exec IN OUT          run the cases of IN (one JSON object per line), add the result `r`
#[path = "../../harness/src/util.rs"]
#[allow(dead_code)]
mod util;

use beacon_api_client::*;
use ethereum_consensus::networking::PeerId;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::{
    io::{BufRead, BufWriter, Write},
    str::FromStr,
};
use url::Url;
use util::*;

/// Long sequences are written as {len, fill, at}.
pub fn expand(v: &Value) -> Value {
    match v {
        Value::Object(m) if m.len() == 3 && m.contains_key("fill") => {
            let mut o = vec![expand(&m["fill"]); m["len"].as_u64().unwrap() as usize];
            for p in m["at"].as_array().unwrap() {
                o[p[0].as_u64().unwrap() as usize] = expand(&p[1]);
            }
            Value::Array(o)
        }
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), expand(x))).collect()),
        Value::Array(x) => Value::Array(x.iter().map(expand).collect()),
        _ => v.clone(),
    }
}
fn given<T: DeserializeOwned>(v: &Value) -> T {
    serde_json::from_str(&v.to_string()).unwrap_or_else(|e| panic!("harness: argument {}: {e}", v.to_string().chars().take(200).collect::<String>()))
}
fn text(v: &Value) -> &str {
    v.as_str().expect("harness: text")
}
fn state(v: &Value) -> StateId {
    match text(v) {
        "head" => StateId::Head,
        "genesis" => StateId::Genesis,
        "finalized" => StateId::Finalized,
        "justified" => StateId::Justified,
        s if s.starts_with("0x") => StateId::Root(given(v)),
        _ => StateId::Slot(u(v)),
    }
}
fn block(v: &Value) -> BlockId {
    match text(v) {
        "head" => BlockId::Head,
        "genesis" => BlockId::Genesis,
        "finalized" => BlockId::Finalized,
        s if s.starts_with("0x") => BlockId::Root(given(v)),
        _ => BlockId::Slot(u(v)),
    }
}
fn validator(v: &Value) -> PublicKeyOrIndex {
    if text(v).starts_with("0x") { PublicKeyOrIndex::from(given::<ethereum_consensus::primitives::BlsPublicKey>(v)) } else { PublicKeyOrIndex::from(u(v) as usize) }
}
fn list<T>(v: &Value, f: impl Fn(&Value) -> T) -> Vec<T> {
    v.as_array().expect("harness: list").iter().map(f).collect()
}
fn maybe(a: &Value, k: &str) -> Option<u64> {
    a.get(k).map(u)
}
fn error(e: Error, reply: &Value) -> Value {
    match e {
        Error::Api(e) => {
            let mut told = expand(&reply["body"]);
            if let Some(m) = told.as_object_mut() {
                m.remove("stacktraces");
            }
            let e = serde_json::to_value(e).unwrap();
            if e == told { "refused as told".into() } else { json!({"refused": e}) }
        }
        _ => "err".into(),
    }
}
/// Where in the reply the result is.
fn place<T: Serialize>(r: Result<T, Error>, reply: &Value, pointer: &str) -> Value {
    match r {
        Err(e) => error(e, reply),
        Ok(t) => {
            let t = serde_json::to_value(t).unwrap();
            let body = expand(&reply["body"]);
            for p in [pointer, "/data", "/data/root", "/data/0"] {
                if body.pointer(p) == Some(&t) {
                    return p.into();
                }
            }
            json!({"elsewhere": t})
        }
    }
}
fn each<T: Serialize>(r: Result<Vec<T>, Error>, reply: &Value) -> Value {
    match r {
        Err(e) => error(e, reply),
        Ok(t) => {
            let t = serde_json::to_value(t).unwrap();
            let body: Vec<Value> = expand(&reply["body"]).as_array().map(|v| v.iter().map(|x| x["data"].clone()).collect()).unwrap_or_default();
            if t == Value::Array(body) { "each /data".into() } else { json!({"elsewhere": t}) }
        }
    }
}
fn done(r: Result<(), Error>, reply: &Value) -> Value {
    match r {
        Ok(()) => "ok".into(),
        Err(e) => error(e, reply),
    }
}
fn record(base: &str, given: &Value) -> Value {
    let rs: Vec<Value> = reqwest::sent()
        .iter()
        .map(|s| {
            let mut url = s.url.clone();
            // repeated keys and lists with commas ask for the same
            let mut q = serde_json::Map::new();
            for (k, v) in url.query_pairs() {
                let e = q.entry(k.to_string()).or_insert(Value::String(String::new()));
                *e = if e == "" { v.to_string().into() } else { format!("{},{v}", e.as_str().unwrap()).into() };
            }
            url.set_query(None);
            let header = |k: &str| {
                let v: Vec<_> = s.headers.get_all(k).iter().map(|v| v.to_str().unwrap_or("?")).collect();
                if v.is_empty() { "none".to_string() } else { v.join("|") }
            };
            let body = match &s.body {
                None => "none".into(),
                Some(b) => match serde_json::from_slice::<Value>(b) {
                    Ok(b) if &b == given => "as given".into(),
                    Ok(b) => b,
                    Err(_) => "not json".into(),
                },
            };
            json!({"method": s.method.as_str(), "at": url.as_str(), "query": {"pairs": q}, "body": body, "type": header("content-type"),
                   "version": header("eth-consensus-version")})
        })
        .collect();
    let _ = base;
    Value::Array(rs)
}

macro_rules! calls {
    ($name:ident, $C:ty) => {
        async fn $name(c: &Client<$C>, op: &str, a: &Value) -> Value {
            let r = &a["reply"];
            let b = expand(&a["body"]);
            let n = |k: &str| u(&a[k]);
            macro_rules! p { ($e:expr) => { place($e, r, "/data") }; ($e:expr, $at:literal) => { place($e, r, concat!("/data/", $at)) } }
            macro_rules! d { ($e:expr) => { done($e, r) } }
            let validation = || a.get("validation").map(given::<BroadcastValidation>);
            match op {
                "get_genesis_details" => p!(c.get_genesis_details().await),
                "get_state_root" => p!(c.get_state_root(state(&a["state_id"])).await, "root"),
                "get_fork" => p!(c.get_fork(state(&a["state_id"])).await),
                "get_finality_checkpoints" => p!(c.get_finality_checkpoints(state(&a["state_id"])).await),
                "get_validators" => p!(c.get_validators(state(&a["state_id"]), &list(&a["ids"], validator), &list(&a["statuses"], given::<ValidatorStatus>)).await),
                "get_validator" => p!(c.get_validator(state(&a["state_id"]), validator(&a["id"])).await),
                "get_balances" => p!(c.get_balances(state(&a["state_id"]), &list(&a["ids"], validator)).await),
                "get_all_committees" => p!(c.get_all_committees(state(&a["state_id"])).await),
                "get_committees" => p!(c.get_committees(state(&a["state_id"]), CommitteeFilter { epoch: maybe(a, "epoch"), index: maybe(a, "index").map(|x| x as usize), slot: maybe(a, "slot") }).await),
                "get_sync_committees" => p!(c.get_sync_committees(state(&a["state_id"]), maybe(a, "epoch")).await),
                "get_randao" => p!(c.get_randao(state(&a["state_id"]), maybe(a, "epoch")).await, "randao"),
                "get_beacon_header_at_head" => p!(c.get_beacon_header_at_head().await),
                "get_beacon_header_for_slot" => p!(c.get_beacon_header_for_slot(n("slot")).await),
                "get_beacon_header_for_parent_root" => p!(c.get_beacon_header_for_parent_root(given(&a["root"])).await),
                "get_beacon_header" => p!(c.get_beacon_header(block(&a["block_id"])).await),
                "post_signed_blinded_beacon_block" => d!(c.post_signed_blinded_beacon_block(&given(&b)).await),
                "post_signed_blinded_beacon_block_v2" => d!(c.post_signed_blinded_beacon_block_v2(&given(&b), given(&a["fork"]), validation()).await),
                "post_signed_beacon_block" => d!(c.post_signed_beacon_block(&given(&b)).await),
                "post_signed_beacon_block_v2" => {
                    let block = given(&b["signed_block"]);
                    let proofs: Vec<ethereum_consensus::crypto::KzgProof> = given(&b["kzg_proofs"]);
                    let blobs: Vec<<$C as ClientTypes>::Blob> = given(&b["blobs"]);
                    let s = SubmitSignedBeaconBlock { signed_block: &block, kzg_proofs: Some(&proofs), blobs: Some(&blobs) };
                    d!(c.post_signed_beacon_block_v2(s, given(&a["fork"]), validation()).await)
                }
                "get_beacon_block" => p!(c.get_beacon_block(block(&a["block_id"])).await),
                "get_beacon_block_root" => p!(c.get_beacon_block_root(block(&a["block_id"])).await, "root"),
                "get_attestations_from_beacon_block" => p!(c.get_attestations_from_beacon_block(block(&a["block_id"])).await),
                "get_blob_sidecars" => p!(c.get_blob_sidecars(block(&a["block_id"]), &list(&a["indices"], |v| u(v) as usize)).await),
                "get_deposit_snapshot" => p!(c.get_deposit_snapshot().await),
                "get_blinded_block" => p!(c.get_blinded_block(block(&a["block_id"])).await),
                "get_light_client_bootstrap" => p!(c.get_light_client_bootstrap(given(&a["root"])).await),
                "get_light_client_updates" => each(c.get_light_client_updates(n("start"), n("count")).await, r),
                "get_light_client_finality_update" => p!(c.get_light_client_finality_update().await),
                "get_light_client_optimistic_update" => p!(c.get_light_client_optimistic_update().await),
                "get_attestations_from_pool" => p!(c.get_attestations_from_pool(maybe(a, "slot"), maybe(a, "index").map(|x| x as usize)).await),
                "post_attestations" => d!(c.post_attestations(&given::<Vec<_>>(&b)).await),
                "get_attester_slashings_from_pool" => p!(c.get_attester_slashings_from_pool().await),
                "post_attester_slashing" => d!(c.post_attester_slashing(&given(&b)).await),
                "get_proposer_slashings_from_pool" => p!(c.get_proposer_slashings_from_pool().await),
                "post_proposer_slashing" => d!(c.post_proposer_slashing(&given(&b)).await),
                "post_sync_committee_messages" => d!(c.post_sync_committee_messages(&given::<Vec<_>>(&b)).await),
                "get_voluntary_exits_from_pool" => p!(c.get_voluntary_exits_from_pool().await),
                "post_signed_voluntary_exit" => d!(c.post_signed_voluntary_exit(&given(&b)).await),
                "get_bls_to_execution_changes" => p!(c.get_bls_to_execution_changes().await),
                "post_bls_to_execution_changes" => d!(c.post_bls_to_execution_changes(&given::<Vec<_>>(&b)).await),
                "get_expected_withdrawals" => p!(c.get_expected_withdrawals(state(&a["state_id"]), maybe(a, "slot")).await),
                "get_fork_schedule" => p!(c.get_fork_schedule().await),
                "get_spec" => p!(c.get_spec().await),
                "get_deposit_contract_address" => p!(c.get_deposit_contract_address().await),
                "get_state" => p!(c.get_state(state(&a["state_id"])).await),
                "get_heads" => p!(c.get_heads().await),
                "get_events" => match c.get_events::<PayloadAttributesTopic>().await {
                    Err(e) => error(e, r),
                    Ok(mut s) => {
                        use tokio_stream::StreamExt;
                        let mut seen = vec![];
                        let all = expand(&r["body"]);
                        while let Some(e) = s.next().await {
                            let want = &all[seen.len()];
                            seen.push(match e {
                                Err(_) => json!("err"),
                                Ok(e) => {
                                    let e = serde_json::to_value(e).unwrap();
                                    if &e == want { json!("same") } else { e }
                                }
                            });
                        }
                        Value::Array(seen)
                    }
                },
                "get_node_identity" => p!(c.get_node_identity().await),
                "get_node_peers" => p!(c.get_node_peers(&list(&a["states"], given::<PeerState>), &list(&a["directions"], given::<ConnectionOrientation>)).await),
                "get_peer" => p!(c.get_peer(PeerId::from_str(text(&a["peer"])).expect("identity refused")).await),
                "get_peer_summary" => p!(c.get_peer_summary().await),
                "get_node_version" => p!(c.get_node_version().await, "version"),
                "get_sync_status" => p!(c.get_sync_status().await),
                "get_health" => match c.get_health().await {
                    Ok(h) => serde_json::to_value(h).unwrap(),
                    Err(e) => error(e, r),
                },
                "get_attester_duties" => duties(c.get_attester_duties(n("epoch"), &list(&b, |v| u(v) as usize)).await, r),
                "get_proposer_duties" => duties(c.get_proposer_duties(n("epoch")).await, r),
                "get_sync_committee_duties" => p!(c.get_sync_committee_duties(n("epoch"), &list(&b, |v| u(v) as usize)).await),
                "get_block_proposal" => p!(c.get_block_proposal(n("slot"), given(&a["randao"]), a.get("graffiti").map(given)).await),
                "get_blinded_block_proposal" => p!(c.get_blinded_block_proposal(n("slot"), given(&a["randao"]), a.get("graffiti").map(given)).await),
                "get_attestation_data" => p!(c.get_attestation_data(n("slot"), n("index") as usize).await),
                "get_attestation_aggregate" => p!(c.get_attestation_aggregate(given(&a["root"]), n("slot")).await),
                "post_aggregates_with_proofs" => d!(c.post_aggregates_with_proofs(&given::<Vec<Aggregate>>(&b)).await),
                "subscribe_subnets_for_attestation_committees" => d!(c.subscribe_subnets_for_attestation_committees(&given::<Vec<_>>(&b)).await),
                "subscribe_subnets_for_sync_committees" => d!(c.subscribe_subnets_for_sync_committees(&given::<Vec<_>>(&b)).await),
                "get_sync_committee_contribution" => p!(c.get_sync_committee_contribution(n("slot"), n("index") as usize, given(&a["root"])).await),
                "post_sync_committee_contributions_with_proofs" => d!(c.post_sync_committee_contributions_with_proofs(&given::<Vec<Contribution>>(&b)).await),
                "prepare_proposers" => d!(c.prepare_proposers(&given::<Vec<_>>(&b)).await),
                "register_validators_with_builders" => d!(c.register_validators_with_builders(&given::<Vec<_>>(&b)).await),
                "post_liveness" => p!(c.post_liveness(n("epoch"), &list(&b, |v| u(v) as usize)).await),
                _ => panic!("harness: unknown call {op}"),
            }
        }
    };
}
fn duties<R: Serialize, T: Serialize>(r: Result<(R, Vec<T>), Error>, reply: &Value) -> Value {
    match r {
        Err(e) => error(e, reply),
        Ok((root, ds)) => {
            let (root, ds) = (serde_json::to_value(root).unwrap(), serde_json::to_value(ds).unwrap());
            let body = expand(&reply["body"]);
            if root == body["dependent_root"] && ds == body["data"] { "/data and its root".into() } else { json!({"root": root, "elsewhere": ds}) }
        }
    }
}
mod minimal {
    use super::*;
    type Aggregate = ethereum_consensus::phase0::minimal::SignedAggregateAndProof;
    type Contribution = ethereum_consensus::altair::minimal::SignedContributionAndProof;
    calls!(run, beacon_api_client::minimal::MinimalClientTypes);
    pub async fn call(base: &str, op: &str, a: &Value) -> Value {
        run(&beacon_api_client::minimal::Client::new(Url::parse(base).unwrap()), op, a).await
    }
}
mod mainnet {
    use super::*;
    type Aggregate = ethereum_consensus::phase0::mainnet::SignedAggregateAndProof;
    type Contribution = ethereum_consensus::altair::mainnet::SignedContributionAndProof;
    calls!(run, beacon_api_client::mainnet::MainnetClientTypes);
    pub async fn call(base: &str, op: &str, a: &Value) -> Value {
        let c = reqwest::Client::new();
        run(&beacon_api_client::mainnet::Client::new_with_client(c, Url::parse(base).unwrap()), op, a).await
    }
}
fn exec(op: &str, a: &Value) -> Value {
    let op = op.strip_prefix("api.").expect("harness: api");
    if op == "state_name" {
        return StateId::from_str(text(&a["text"])).map(|s| s.to_string()).unwrap_or("err".into()).into();
    }
    if op == "secret_debug" {
        // does what the key prints of itself contain any four bytes of it in a row?
        let bytes = hex::decode(text(&a["h"])).unwrap();
        let key = ethereum_consensus::crypto::SecretKey::try_from(bytes.as_slice()).unwrap();
        let shown = format!("{key:?} {key:#?} {:?}", Some(&key)).to_lowercase();
        let squeezed: String = shown.chars().filter(|c| c.is_ascii_alphanumeric() || *c == ',').collect();
        let shows = bytes.windows(4).any(|w| {
            let list = w.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(",");
            let hexes = w.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(",");
            [hex::encode(w), list, hexes].iter().any(|n| squeezed.contains(n.as_str()))
        });
        return json!({"shows": shows});
    }
    let reply = &a["reply"];
    let body = expand(&reply["body"]);
    let bytes = match text(&reply["kind"]) {
        "junk" | "broken" => b"<html>".to_vec(),
        _ if op == "get_events" => body.as_array().unwrap().iter().map(|e| format!("{e}\n")).collect::<String>().into_bytes(),
        _ => body.to_string().into_bytes(),
    };
    reqwest::script(vec![reqwest::Answer { status: u(&reply["status"]) as u16, headers: vec![], body: bytes, broken: reply["kind"] == "broken" }]);
    let base = text(&a["base"]);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let result = rt.block_on(async { if a["preset"] == "minimal" { minimal::call(base, op, a).await } else { mainnet::call(base, op, a).await } });
    json!({"sent": record(base, &expand(&a["body"])), "result": result})
}
fn main() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if l.starts_with("src/") {
            eprintln!("harness panic at {l}: {i}");
        }
        *util::LAST.lock().unwrap() = l.strip_prefix("/repo/").unwrap_or("").to_string();
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a[..] {
        ["exec", i, o] => {
            let f = std::io::BufReader::new(std::fs::File::open(i).unwrap());
            let mut w = BufWriter::new(std::fs::File::create(o).unwrap());
            for (n, l) in f.lines().enumerate() {
                let mut c: Value = serde_json::from_str(&l.unwrap()).unwrap();
                let r = catch(|| exec(c["op"].as_str().unwrap(), &c["a"]));
                c["r"] = r;
                if c.get("id").is_none() {
                    c["id"] = Value::from(n);
                }
                writeln!(w, "{c}").unwrap();
            }
        }
        _ => {
            eprintln!("usage: clientbin exec IN OUT");
            std::process::exit(2)
        }
    }
}
