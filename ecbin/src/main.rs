//! Runs the key, keystore and blob tools of `ec` on cases: `ecbin exec IN OUT`, `ecbin gen FAMILY SEED N OUT`.
#![allow(dead_code)]
#[path = "/repo/ethereum-consensus/src/bin/ec/bls.rs"]
mod bls;
mod validator {
    #[path = "/repo/ethereum-consensus/src/bin/ec/validator/keys.rs"]
    pub mod keys;
    #[path = "/repo/ethereum-consensus/src/bin/ec/validator/mnemonic.rs"]
    pub mod mnemonic;
    pub mod keystores {
        include!(concat!(env!("OUT_DIR"), "/keystores.rs"));
    }
}
mod cases;
fn main() {
    cases::main()
}
