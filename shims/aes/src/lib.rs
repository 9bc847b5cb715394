//! Stand-in for `aes`: textbook AES (FIPS 197).
pub use cipher;
use cipher::*;
fn xt(a: u8) -> u8 {
    a << 1 ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
fn mul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a
        }
        a = xt(a);
        b >>= 1;
    }
    r
}
fn sbox(x: u8) -> u8 {
    let mut inv = 0u8;
    if x != 0 {
        inv = 1;
        for _ in 0..254 {
            inv = mul(inv, x)
        }
    }
    inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63
}
pub struct Aes<const NK: usize>(Vec<[u8; 16]>);
pub type Aes128 = Aes<4>;
pub type Aes192 = Aes<6>;
pub type Aes256 = Aes<8>;
impl<const NK: usize> KeyInit for Aes<NK> {
    const KEY: usize = NK * 4;
    fn from_key(key: &[u8]) -> Self {
        let rounds = NK + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rcon = 1u8;
        for i in NK..4 * (rounds + 1) {
            let mut t = w[i - 1];
            if i % NK == 0 {
                t = [sbox(t[1]) ^ rcon, sbox(t[2]), sbox(t[3]), sbox(t[0])];
                rcon = xt(rcon);
            } else if NK > 6 && i % NK == 4 {
                t = t.map(sbox);
            }
            let p = w[i - NK];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        Aes(w.chunks(4).map(|c| c.concat().try_into().unwrap()).collect())
    }
}
impl<const NK: usize> BlockEncrypt for Aes<NK> {
    fn encrypt_block16(&self, b: &mut [u8; 16]) {
        let n = self.0.len() - 1;
        let add = |b: &mut [u8; 16], k: &[u8; 16]| b.iter_mut().zip(k).for_each(|(x, y)| *x ^= y);
        add(b, &self.0[0]);
        for r in 1..=n {
            let s = b.map(sbox);
            let mut t = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    t[4 * c + row] = s[4 * ((c + row) % 4) + row];
                }
            }
            if r < n {
                for c in 0..4 {
                    let a: [u8; 4] = t[4 * c..4 * c + 4].try_into().unwrap();
                    for row in 0..4 {
                        t[4 * c + row] = xt(a[row]) ^ xt(a[(row + 1) % 4]) ^ a[(row + 1) % 4] ^ a[(row + 2) % 4] ^ a[(row + 3) % 4];
                    }
                }
            }
            add(&mut t, &self.0[r]);
            *b = t;
        }
    }
}
#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn fips197() {
        let key: Vec<u8> = (0..16).collect();
        let mut b: [u8; 16] = std::array::from_fn(|i| (i * 17) as u8);
        Aes128::from_key(&key).encrypt_block16(&mut b);
        assert_eq!(b, [0x69, 0xc4, 0xe0, 0xd8, 0x6a, 0x7b, 0x04, 0x30, 0xd8, 0xcd, 0xb7, 0x80, 0x70, 0xb4, 0xc5, 0x5a]);
    }
}
