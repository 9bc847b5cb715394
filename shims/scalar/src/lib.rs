//! Arithmetic in the scalar field of BLS12-381 plus HKDF, used by the `blst` and `c-kzg` stand-ins.
use sha2::{Digest, Sha256};

#[derive(Clone, Copy, Default, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct Fr([u64; 4]); // little-endian limbs, always < R
pub const R: [u64; 4] =
    [0xffffffff00000001, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48];

fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut o = [0; 4];
    let mut br = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (y, b2) = x.overflowing_sub(br as u64);
        o[i] = y;
        br = b1 | b2;
    }
    o
}
fn add_raw(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut o = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        let t = a[i] as u128 + b[i] as u128 + c;
        o[i] = t as u64;
        c = t >> 64;
    }
    o
}
impl Fr {
    pub const ZERO: Fr = Fr([0; 4]);
    pub const ONE: Fr = Fr([1, 0, 0, 0]);
    pub fn is_zero(&self) -> bool {
        *self == Self::ZERO
    }
    pub fn add(&self, o: &Fr) -> Fr {
        let s = add_raw(&self.0, &o.0); // < 2R < 2^256
        Fr(if geq(&s, &R) { sub(&s, &R) } else { s })
    }
    pub fn neg(&self) -> Fr {
        if self.is_zero() { *self } else { Fr(sub(&R, &self.0)) }
    }
    pub fn sub(&self, o: &Fr) -> Fr {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Fr) -> Fr {
        // Montgomery: mont(mont(a, b), R2)
        Fr(mont(&mont(&self.0, &o.0), &R2))
    }
    pub fn pow(&self, e: &[u64; 4]) -> Fr {
        let mut r = Fr::ONE;
        for i in (0..256).rev() {
            r = r.mul(&r);
            if (e[i / 64] >> (i % 64)) & 1 == 1 {
                r = r.mul(self);
            }
        }
        r
    }
    pub fn inv(&self) -> Fr {
        self.pow(&sub(&R, &[2, 0, 0, 0]))
    }
    /// Big-endian bytes; `None` when not reduced.
    pub fn from_be(b: &[u8]) -> Option<Fr> {
        if b.len() != 32 {
            return None;
        }
        let mut l = [0u64; 4];
        for (i, c) in b.chunks(8).enumerate() {
            l[3 - i] = u64::from_be_bytes(c.try_into().unwrap());
        }
        if geq(&l, &R) { None } else { Some(Fr(l)) }
    }
    pub fn to_be(&self) -> [u8; 32] {
        let mut o = [0; 32];
        for i in 0..4 {
            o[8 * i..8 * i + 8].copy_from_slice(&self.0[3 - i].to_be_bytes());
        }
        o
    }
    /// Reduces an arbitrary big-endian string mod R.
    pub fn reduce_be(b: &[u8]) -> Fr {
        let mut r = Fr::ZERO;
        let k = Fr([256, 0, 0, 0]);
        for x in b {
            r = r.mul(&k).add(&Fr([*x as u64, 0, 0, 0]));
        }
        r
    }
    pub fn hash(parts: &[&[u8]]) -> Fr {
        let mut h = Sha256::new();
        for p in parts {
            h.update((p.len() as u64).to_le_bytes());
            h.update(p);
        }
        let d: [u8; 32] = h.finalize().into();
        Fr::reduce_be(&d)
    }
}
const NINV: u64 = 0xfffffffeffffffff;
const R2: [u64; 4] =
    [0xc999e990f3f29c6d, 0x2b6cedcb87925c23, 0x05d314967254398f, 0x0748d9d99f59ff11];
fn mont(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut t = [0u64; 6];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            let v = t[j] as u128 + a[j] as u128 * b[i] as u128 + c;
            t[j] = v as u64;
            c = v >> 64;
        }
        let v = t[4] as u128 + c;
        t[4] = v as u64;
        t[5] = (v >> 64) as u64;
        let m = t[0].wrapping_mul(NINV);
        let mut c = (t[0] as u128 + m as u128 * R[0] as u128) >> 64;
        for j in 1..4 {
            let v = t[j] as u128 + m as u128 * R[j] as u128 + c;
            t[j - 1] = v as u64;
            c = v >> 64;
        }
        let v = t[4] as u128 + c;
        t[3] = v as u64;
        t[4] = t[5] + (v >> 64) as u64;
    }
    let o = [t[0], t[1], t[2], t[3]];
    if t[4] != 0 || geq(&o, &R) { sub(&o, &R) } else { o }
}

fn hmac(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&Sha256::digest(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut h = Sha256::new();
    h.update(k.map(|b| b ^ 0x36));
    for p in parts {
        h.update(p);
    }
    let inner = h.finalize();
    let mut h = Sha256::new();
    h.update(k.map(|b| b ^ 0x5c));
    h.update(inner);
    h.finalize().into()
}
pub fn hkdf_extract(salt: &[u8], ikm: &[&[u8]]) -> [u8; 32] {
    hmac(salt, ikm)
}
pub fn hkdf_expand(prk: &[u8], info: &[&[u8]], len: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 1u8;
    while out.len() < len {
        let n = [i];
        let mut parts: Vec<&[u8]> = vec![&t];
        parts.extend_from_slice(info);
        parts.push(&n);
        let d = hmac(prk, &parts).to_vec();
        drop(parts);
        t = d;
        out.extend_from_slice(&t);
        i += 1;
    }
    out.truncate(len);
    out
}
/// `hkdf_mod_r` of EIP-2333 / KeyGen of the BLS draft.
pub fn hkdf_mod_r(ikm: &[u8], key_info: &[u8], hash_salt_first: bool) -> Fr {
    let mut salt: Vec<u8> = b"BLS-SIG-KEYGEN-SALT-".to_vec();
    let mut first = true;
    loop {
        if hash_salt_first || !first {
            salt = Sha256::digest(&salt).to_vec();
        }
        first = false;
        let prk = hkdf_extract(&salt, &[ikm, &[0]]);
        let okm = hkdf_expand(&prk, &[key_info, &[0, 48]], 48);
        let sk = Fr::reduce_be(&okm);
        if !sk.is_zero() {
            return sk;
        }
    }
}
#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn field() {
        let a = Fr::hash(&[b"a"]);
        let b = Fr::hash(&[b"b"]);
        assert_eq!(a.mul(&a.inv()), Fr::ONE);
        assert_eq!(a.add(&b).mul(&a), a.mul(&a).add(&b.mul(&a)));
        assert_eq!(Fr::from_be(&a.to_be()).unwrap(), a);
        assert_eq!(Fr::reduce_be(&[1, 0]), Fr([256, 0, 0, 0]));
        assert_eq!(a.mul(&Fr([3, 0, 0, 0])), a.add(&a).add(&a));
        assert_eq!(a.sub(&a), Fr::ZERO);
    }
    #[test]
    fn eip2333_master() {
        // EIP-2333 test case 0
        let seed = (0..64).map(|i| u8::from_str_radix(&"c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04"[2*i..2*i+2],16).unwrap()).collect::<Vec<_>>();
        let sk = hkdf_mod_r(&seed, &[], true);
        let dec = "6083874454709270928345386274498605044986640685124978867557563392430687146096";
        let mut v = Fr::ZERO;
        for c in dec.bytes() {
            v = v.mul(&Fr([10, 0, 0, 0])).add(&Fr([(c - b'0') as u64, 0, 0, 0]));
        }
        assert_eq!(sk, v);
    }
}
