//! Stand-in for `integer-sqrt`: floor of the square root.
pub trait IntegerSquareRoot: Sized {
    fn integer_sqrt(&self) -> Self;
    fn integer_sqrt_checked(&self) -> Option<Self>;
}
macro_rules! imp {
    ($($t:ty),*) => {$(
        impl IntegerSquareRoot for $t {
            fn integer_sqrt(&self) -> Self {
                let n = *self as u128;
                if n == 0 { return 0 }
                let mut x = 1u128 << ((128 - n.leading_zeros() + 1) / 2);
                loop {
                    let y = (x + n / x) / 2;
                    if y >= x { return x as $t }
                    x = y;
                }
            }
            fn integer_sqrt_checked(&self) -> Option<Self> { Some(self.integer_sqrt()) }
        }
    )*};
}
imp!(u8, u16, u32, u64, usize);
#[cfg(test)]
#[test]
fn t() {
    for n in (0..100000u64).chain([u64::MAX, u64::MAX - 1, 1 << 62]) {
        let r = n.integer_sqrt() as u128;
        assert!(r * r <= n as u128 && (r + 1) * (r + 1) > n as u128);
    }
}
