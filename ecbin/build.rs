//! Copies keystores.rs and gives the copy a way to call its private constructors.
use std::{env, fs, path::Path};
fn main() {
    let dir = "/repo/ethereum-consensus/src/bin/ec/validator";
    println!("cargo:rerun-if-changed={dir}");
    println!("cargo:rerun-if-changed=build.rs");
    let mut s = fs::read_to_string(format!("{dir}/keystores.rs")).unwrap();
    if env::var("CARGO_FEATURE_PRIVATE").is_ok() {
        s.push_str(
            r#"
pub mod access {
    use super::*;
    pub fn parts(passphrase: &str, salt: &str, log_n: u8, r: u32, p: u32, secret: BlsSecretKey, iv: [u8; 16]) -> serde_json::Value {
        let salt = SaltString::from_b64(salt).unwrap();
        let params = ScryptParams::new(log_n, r, p, 32).unwrap();
        let kdf = Kdf::new_with_salt_and_params(&passphrase.to_string(), salt, params);
        let cipher = Cipher::new_with_iv(secret, kdf.encryption_key(), iv);
        let checksum = Checksum::new(cipher.cipher_text(), kdf.checksum_salt());
        serde_json::to_value(Crypto { kdf, checksum, cipher }).unwrap()
    }
}
"#,
        );
    }
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("keystores.rs"), s).unwrap();
}
