//! Stand-in for `bs58`: Bitcoin-alphabet base 58.
const A: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
pub struct Enc(Vec<u8>);
pub fn encode<T: AsRef<[u8]>>(b: T) -> Enc {
    Enc(b.as_ref().to_vec())
}
impl Enc {
    pub fn into_string(self) -> String {
        let mut d: Vec<u8> = vec![];
        for b in &self.0 {
            let mut c = *b as u32;
            for x in d.iter_mut() {
                c += (*x as u32) << 8;
                *x = (c % 58) as u8;
                c /= 58;
            }
            while c > 0 {
                d.push((c % 58) as u8);
                c /= 58;
            }
        }
        let z = self.0.iter().take_while(|b| **b == 0).count();
        std::iter::repeat('1').take(z).chain(d.iter().rev().map(|i| A[*i as usize] as char)).collect()
    }
}
pub struct Dec(String);
pub fn decode<T: AsRef<[u8]>>(s: T) -> Dec {
    Dec(String::from_utf8_lossy(s.as_ref()).into_owned())
}
pub mod decode {
    #[derive(Debug, PartialEq, Eq, Clone)]
    pub enum Error {
        InvalidCharacter { character: char, index: usize },
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}
}
impl Dec {
    pub fn into_vec(self) -> Result<Vec<u8>, decode::Error> {
        let mut o: Vec<u8> = vec![];
        for (index, ch) in self.0.chars().enumerate() {
            let mut c = A
                .iter()
                .position(|a| *a as char == ch)
                .ok_or(decode::Error::InvalidCharacter { character: ch, index })? as u32;
            for x in o.iter_mut() {
                c += *x as u32 * 58;
                *x = c as u8;
                c >>= 8;
            }
            while c > 0 {
                o.push(c as u8);
                c >>= 8;
            }
        }
        let z = self.0.chars().take_while(|c| *c == '1').count();
        Ok(std::iter::repeat(0).take(z).chain(o.into_iter().rev()).collect())
    }
}
