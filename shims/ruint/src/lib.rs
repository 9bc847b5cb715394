//! Stand-in for `ruint`: fixed-width unsigned integers with schoolbook arithmetic.
use std::{cmp::Ordering, fmt, ops::*};

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Uint<const BITS: usize, const LIMBS: usize> {
    limbs: [u64; LIMBS],
}

pub mod aliases {
    pub type U64 = super::Uint<64, 1>;
    pub type U128 = super::Uint<128, 2>;
    pub type U256 = super::Uint<256, 4>;
    pub type U384 = super::Uint<384, 6>;
    pub type U512 = super::Uint<512, 8>;
}

#[macro_export]
macro_rules! uint {
    ($($t:tt)*) => { $crate::literal(stringify!($($t)*)) };
}

/// `123_U256` / `0x12_U256`, read at compile time.
pub const fn literal<const B: usize, const L: usize>(s: &str) -> Uint<B, L> {
    let b = s.as_bytes();
    let mut end = b.len();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'U' {
            end = i;
        }
        i += 1;
    }
    let hex = b.len() > 2 && b[0] == b'0' && b[1] == b'x';
    let base: u128 = if hex { 16 } else { 10 };
    let mut limbs = [0u64; L];
    let mut i = if hex { 2 } else { 0 };
    while i < end {
        let c = b[i];
        i += 1;
        if c == b'_' || c == b' ' {
            continue;
        }
        let d = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            b'A'..=b'F' => c - b'A' + 10,
            _ => panic!("bad digit"),
        } as u128;
        let mut carry = d;
        let mut k = 0;
        while k < L {
            let x = limbs[k] as u128 * base + carry;
            limbs[k] = x as u64;
            carry = x >> 64;
            k += 1;
        }
        assert!(carry == 0);
    }
    Uint { limbs }
}

impl<const B: usize, const L: usize> Default for Uint<B, L> {
    fn default() -> Self {
        Self::ZERO
    }
}

impl<const B: usize, const L: usize> Uint<B, L> {
    pub const BITS: usize = B;
    pub const BYTES: usize = B / 8;
    pub const ZERO: Self = Self { limbs: [0; L] };
    pub const MIN: Self = Self::ZERO;
    pub const MAX: Self = Self { limbs: [u64::MAX; L] };

    pub const fn from_limbs(limbs: [u64; L]) -> Self {
        Self { limbs }
    }
    pub const fn as_limbs(&self) -> &[u64; L] {
        &self.limbs
    }
    pub const fn into_limbs(self) -> [u64; L] {
        self.limbs
    }
    pub fn try_from_le_slice(b: &[u8]) -> Option<Self> {
        let mut r = Self::ZERO;
        for (i, x) in b.iter().enumerate() {
            if i / 8 < L {
                r.limbs[i / 8] |= (*x as u64) << (8 * (i % 8));
            } else if *x != 0 {
                return None
            }
        }
        Some(r)
    }
    pub fn try_from_be_slice(b: &[u8]) -> Option<Self> {
        let v: Vec<u8> = b.iter().rev().copied().collect();
        Self::try_from_le_slice(&v)
    }
    pub fn from_be_slice(b: &[u8]) -> Self {
        Self::try_from_be_slice(b).expect("Value too large for Uint")
    }
    pub fn from_le_slice(b: &[u8]) -> Self {
        Self::try_from_le_slice(b).expect("Value too large for Uint")
    }
    pub fn from_be_bytes<const N: usize>(b: [u8; N]) -> Self {
        assert_eq!(N, Self::BYTES);
        Self::from_be_slice(&b)
    }
    pub fn from_le_bytes<const N: usize>(b: [u8; N]) -> Self {
        assert_eq!(N, Self::BYTES);
        Self::from_le_slice(&b)
    }
    pub fn to_le_bytes<const N: usize>(&self) -> [u8; N] {
        assert_eq!(N, Self::BYTES);
        let mut r = [0; N];
        for (i, x) in r.iter_mut().enumerate() {
            *x = (self.limbs[i / 8] >> (8 * (i % 8))) as u8;
        }
        r
    }
    pub fn to_be_bytes<const N: usize>(&self) -> [u8; N] {
        let mut r: [u8; N] = self.to_le_bytes();
        r.reverse();
        r
    }
    pub fn to_le_bytes_vec(&self) -> Vec<u8> {
        self.limbs.iter().flat_map(|l| l.to_le_bytes()).collect()
    }
    pub fn to_be_bytes_vec(&self) -> Vec<u8> {
        let mut v = self.to_le_bytes_vec();
        v.reverse();
        v
    }
    pub fn bit(&self, i: usize) -> bool {
        i < B && self.limbs[i / 64] >> (i % 64) & 1 == 1
    }
    pub fn set_bit(&mut self, i: usize, v: bool) {
        if v {
            self.limbs[i / 64] |= 1 << (i % 64)
        } else {
            self.limbs[i / 64] &= !(1 << (i % 64))
        }
    }
    pub fn is_zero(&self) -> bool {
        self.limbs.iter().all(|x| *x == 0)
    }
    pub fn bit_len(&self) -> usize {
        (0..B).rev().find(|i| self.bit(*i)).map(|i| i + 1).unwrap_or(0)
    }
    pub fn leading_zeros(&self) -> usize {
        B - self.bit_len()
    }
    pub fn overflowing_add(mut self, o: Self) -> (Self, bool) {
        let mut c = 0u128;
        for i in 0..L {
            let x = self.limbs[i] as u128 + o.limbs[i] as u128 + c;
            self.limbs[i] = x as u64;
            c = x >> 64;
        }
        (self, c != 0)
    }
    pub fn overflowing_sub(mut self, o: Self) -> (Self, bool) {
        let mut borrow = false;
        for i in 0..L {
            let (x, b1) = self.limbs[i].overflowing_sub(o.limbs[i]);
            let (x, b2) = x.overflowing_sub(borrow as u64);
            self.limbs[i] = x;
            borrow = b1 || b2;
        }
        (self, borrow)
    }
    pub fn wrapping_add(self, o: Self) -> Self {
        self.overflowing_add(o).0
    }
    pub fn wrapping_sub(self, o: Self) -> Self {
        self.overflowing_sub(o).0
    }
    pub fn checked_add(self, o: Self) -> Option<Self> {
        match self.overflowing_add(o) {
            (x, false) => Some(x),
            _ => None,
        }
    }
    pub fn checked_sub(self, o: Self) -> Option<Self> {
        match self.overflowing_sub(o) {
            (x, false) => Some(x),
            _ => None,
        }
    }
    pub fn wrapping_mul(self, o: Self) -> Self {
        let mut r = Self::ZERO;
        for i in 0..L {
            let mut c = 0u128;
            for j in 0..L - i {
                let x = self.limbs[i] as u128 * o.limbs[j] as u128 + r.limbs[i + j] as u128 + c;
                r.limbs[i + j] = x as u64;
                c = x >> 64;
            }
        }
        r
    }
    pub fn div_rem(self, d: Self) -> (Self, Self) {
        assert!(!d.is_zero(), "Division by zero");
        let (mut q, mut r) = (Self::ZERO, Self::ZERO);
        for i in (0..B).rev() {
            let top = r.bit(B - 1);
            r = r.wrapping_add(r);
            if self.bit(i) {
                r.limbs[0] |= 1;
            }
            if top || r >= d {
                r = r.wrapping_sub(d);
                q.set_bit(i, true);
            }
        }
        (q, r)
    }
    pub fn reduce_mod(self, m: Self) -> Self {
        if m.is_zero() { m } else { self.div_rem(m).1 }
    }
}

impl<const B: usize, const L: usize> Ord for Uint<B, L> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.limbs.iter().rev().cmp(o.limbs.iter().rev())
    }
}
impl<const B: usize, const L: usize> PartialOrd for Uint<B, L> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
macro_rules! ops { ($($tr:ident $f:ident $tra:ident $fa:ident $e:expr;)*) => { $(
    impl<const B: usize, const L: usize> $tr for Uint<B, L> { type Output = Self; fn $f(self, o: Self) -> Self { let g: fn(Self, Self) -> Self = $e; g(self, o) } }
    impl<'a, const B: usize, const L: usize> $tr<&'a Self> for Uint<B, L> { type Output = Self; fn $f(self, o: &'a Self) -> Self { $tr::$f(self, *o) } }
    impl<const B: usize, const L: usize> $tra for Uint<B, L> { fn $fa(&mut self, o: Self) { *self = $tr::$f(*self, o) } }
)* } }
ops! {
    Add add AddAssign add_assign |a, b| a.wrapping_add(b);
    Sub sub SubAssign sub_assign |a, b| a.wrapping_sub(b);
    Mul mul MulAssign mul_assign |a, b| a.wrapping_mul(b);
    Div div DivAssign div_assign |a, b| a.div_rem(b).0;
    Rem rem RemAssign rem_assign |a, b| a.div_rem(b).1;
    BitAnd bitand BitAndAssign bitand_assign |mut a, b| { for i in 0..L { a.limbs[i] &= b.limbs[i] } a };
    BitOr bitor BitOrAssign bitor_assign |mut a, b| { for i in 0..L { a.limbs[i] |= b.limbs[i] } a };
    BitXor bitxor BitXorAssign bitxor_assign |mut a, b| { for i in 0..L { a.limbs[i] ^= b.limbs[i] } a };
}
impl<const B: usize, const L: usize> Not for Uint<B, L> {
    type Output = Self;
    fn not(mut self) -> Self {
        self.limbs.iter_mut().for_each(|x| *x = !*x);
        self
    }
}
impl<const B: usize, const L: usize> Shl<usize> for Uint<B, L> {
    type Output = Self;
    fn shl(self, n: usize) -> Self {
        let mut r = Self::ZERO;
        for i in n..B {
            r.set_bit(i, self.bit(i - n));
        }
        r
    }
}
impl<const B: usize, const L: usize> Shr<usize> for Uint<B, L> {
    type Output = Self;
    fn shr(self, n: usize) -> Self {
        let mut r = Self::ZERO;
        for i in 0..B.saturating_sub(n) {
            r.set_bit(i, self.bit(i + n));
        }
        r
    }
}
macro_rules! from { ($($t:ty)*) => { $( impl<const B: usize, const L: usize> From<$t> for Uint<B, L> {
    fn from(x: $t) -> Self { Self::from_le_slice(&(x as u128).to_le_bytes()) } } )* } }
from!(u8 u16 u32 u64 u128 usize i32);
impl From<Uint<256, 4>> for Uint<384, 6> {
    fn from(x: Uint<256, 4>) -> Self {
        Self::from_le_slice(&x.to_le_bytes_vec())
    }
}
impl From<Uint<384, 6>> for Uint<256, 4> {
    fn from(x: Uint<384, 6>) -> Self {
        Self::from_le_slice(&x.to_le_bytes_vec())
    }
}
impl<const B: usize, const L: usize> fmt::Display for Uint<B, L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let (mut s, mut x, ten) = (vec![], *self, Self::from(10u8));
        while !x.is_zero() {
            let (q, r) = x.div_rem(ten);
            s.push(b'0' + r.limbs[0] as u8);
            x = q;
        }
        s.reverse();
        f.write_str(if s.is_empty() { "0" } else { std::str::from_utf8(&s).unwrap() })
    }
}
impl<const B: usize, const L: usize> fmt::Debug for Uint<B, L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self}_U{B}")
    }
}
