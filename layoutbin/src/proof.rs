//! Inclusion proofs of blob sidecars, and the positions light clients prove against.
use crate::util::unhex as bytes;
use ethereum_consensus::{
    altair, capella, deneb,
    deneb::blob_sidecar::{verify_blob_sidecar_inclusion_proof, BlobSidecar},

    ssz::prelude::SimpleSerialize,
};
use serde_json::{json, Value};
use std::marker::PhantomData;

fn check<const D: usize, const B: usize, T: SimpleSerialize>(s: &BlobSidecar<B, D>, _: PhantomData<T>) -> Result<(), ethereum_consensus::Error> {
    verify_blob_sidecar_inclusion_proof::<D, B, T>(s)
}
macro_rules! verify {
    ($preset:ident, $a:expr) => {{
        let mut s = deneb::$preset::BlobSidecar::default();
        let a = $a;
        let index: u64 = a["index"].as_str().unwrap().parse().unwrap();
        s.index = index as usize;
        s.kzg_commitment = bytes(&a["commitment"]).as_slice().try_into().unwrap();
        for (k, b) in a["branch"].as_array().unwrap().iter().enumerate() {
            s.kzg_commitment_inclusion_proof[k] = bytes(b).as_slice().try_into().unwrap();
        }
        s.signed_block_header.message.body_root = bytes(&a["root"]).as_slice().try_into().unwrap();
        let r = match a["fork"].as_str().unwrap() {
            "deneb" => check(&s, PhantomData::<deneb::$preset::BeaconBlockBody>),
            "electra" => check(&s, PhantomData::<crate::containers::$preset::electra::BeaconBlockBody>),
            "capella" => check(&s, PhantomData::<capella::$preset::BeaconBlockBody>),
            f => panic!("harness: fork {f}"),
        };
        Value::from(if r.is_ok() { "ok" } else { "err" })
    }};
}
pub fn exec(op: &str, a: &Value) -> Value {
    match op {
        "proof.mainnet" => verify!(mainnet, a),
        "proof.minimal" => verify!(minimal, a),
        "gindex" => {
            use altair::light_client as lc;
            let (i, d) = match a["what"].as_str().unwrap() {
                "finalized_root" => (lc::FINALIZED_ROOT_INDEX, lc::FINALIZED_ROOT_INDEX_FLOOR_LOG_2),
                "current_sync_committee" => (lc::CURRENT_SYNC_COMMITTEE_INDEX, lc::CURRENT_SYNC_COMMITTEE_INDEX_FLOOR_LOG_2),
                "next_sync_committee" => (lc::NEXT_SYNC_COMMITTEE_INDEX, lc::NEXT_SYNC_COMMITTEE_INDEX_FLOOR_LOG_2),
                _ => (capella::light_client::EXECUTION_PAYLOAD_INDEX, capella::light_client::EXECUTION_PAYLOAD_INDEX_FLOOR_LOG_2),
            };
            json!([i, d])
        }
        _ => panic!("harness: unknown op {op}"),
    }
}
