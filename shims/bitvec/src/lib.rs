//! Stand-in for the part of `bitvec` that views byte slices as bits. A `&BitSlice` is a fat pointer whose
//! address part is eight times the byte address plus the bit number, and whose length counts bits.
use std::{fmt, marker::PhantomData, ops::*};

pub mod order {
    pub struct Msb0;
    pub struct Lsb0;
    pub trait BitOrder: 'static {
        const MSB: bool;
    }
    impl BitOrder for Msb0 {
        const MSB: bool = true;
    }
    impl BitOrder for Lsb0 {
        const MSB: bool = false;
    }
}
pub mod slice {
    pub use super::{BitSlice, ChunksExact};
}
pub mod view {
    pub use super::BitView;
}
pub mod prelude {
    pub use super::{order::*, BitSlice, BitView};
}
use order::BitOrder;

#[repr(transparent)]
pub struct BitSlice<T = usize, O = order::Lsb0> {
    _p: PhantomData<(T, O)>,
    mem: [()],
}

fn make<'a, T, O>(addr: usize, len: usize) -> &'a BitSlice<T, O> {
    unsafe { &*(std::ptr::slice_from_raw_parts(addr as *const (), len) as *const BitSlice<T, O>) }
}
fn make_mut<'a, T, O>(addr: usize, len: usize) -> &'a mut BitSlice<T, O> {
    unsafe { &mut *(std::ptr::slice_from_raw_parts_mut(addr as *mut (), len) as *mut BitSlice<T, O>) }
}

pub trait BitView {
    fn view_bits<O: BitOrder>(&self) -> &BitSlice<u8, O>;
    fn view_bits_mut<O: BitOrder>(&mut self) -> &mut BitSlice<u8, O>;
}
impl BitView for [u8] {
    fn view_bits<O: BitOrder>(&self) -> &BitSlice<u8, O> {
        make(self.as_ptr() as usize * 8, self.len() * 8)
    }
    fn view_bits_mut<O: BitOrder>(&mut self) -> &mut BitSlice<u8, O> {
        make_mut(self.as_mut_ptr() as usize * 8, self.len() * 8)
    }
}
impl<const N: usize> BitView for [u8; N] {
    fn view_bits<O: BitOrder>(&self) -> &BitSlice<u8, O> {
        self.as_slice().view_bits()
    }
    fn view_bits_mut<O: BitOrder>(&mut self) -> &mut BitSlice<u8, O> {
        self.as_mut_slice().view_bits_mut()
    }
}

impl<O: BitOrder> BitSlice<u8, O> {
    pub fn from_slice(s: &[u8]) -> &Self {
        s.view_bits()
    }
    pub fn from_slice_mut(s: &mut [u8]) -> &mut Self {
        s.view_bits_mut()
    }
    fn addr(&self) -> usize {
        self.mem.as_ptr() as usize
    }
    pub fn len(&self) -> usize {
        self.mem.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn mask(a: usize) -> u8 {
        if O::MSB { 0x80 >> (a & 7) } else { 1 << (a & 7) }
    }
    fn bit(&self, i: usize) -> bool {
        assert!(i < self.len(), "index {i} out of bounds: {}", self.len());
        let a = self.addr() + i;
        unsafe { std::ptr::read_volatile((a >> 3) as *const u8) & Self::mask(a) != 0 }
    }
    pub fn get(&self, i: usize) -> Option<bool> {
        (i < self.len()).then(|| self.bit(i))
    }
    pub fn set(&mut self, i: usize, v: bool) {
        assert!(i < self.len(), "index {i} out of bounds: {}", self.len());
        let a = self.addr() + i;
        let p = (a >> 3) as *mut u8;
        unsafe {
            let b = std::ptr::read_volatile(p);
            std::ptr::write_volatile(p, if v { b | Self::mask(a) } else { b & !Self::mask(a) })
        }
    }
    pub fn copy_from_bitslice(&mut self, o: &Self) {
        assert_eq!(self.len(), o.len(), "copying between bit-slices requires equal lengths");
        for i in 0..o.len() {
            self.set(i, o.bit(i))
        }
    }
    pub fn clone_from_bitslice<P: BitOrder>(&mut self, o: &BitSlice<u8, P>) {
        assert_eq!(self.len(), o.len(), "cloning between bit-slices requires equal lengths");
        for i in 0..o.len() {
            self.set(i, o.bit(i))
        }
    }
    pub fn fill(&mut self, v: bool) {
        for i in 0..self.len() {
            self.set(i, v)
        }
    }
    pub fn iter(&self) -> impl Iterator<Item = bool> + '_ {
        (0..self.len()).map(|i| self.bit(i))
    }
    pub fn not_any(&self) -> bool {
        !self.any()
    }
    pub fn any(&self) -> bool {
        self.iter().any(|x| x)
    }
    pub fn all(&self) -> bool {
        self.iter().all(|x| x)
    }
    pub fn count_ones(&self) -> usize {
        self.iter().filter(|x| *x).count()
    }
    pub fn split_at(&self, n: usize) -> (&Self, &Self) {
        (&self[..n], &self[n..])
    }
    pub fn chunks_exact(&self, n: usize) -> ChunksExact<'_, O> {
        assert!(n != 0);
        ChunksExact { rest: self, n }
    }
    pub fn chunks(&self, n: usize) -> impl Iterator<Item = &Self> + '_ {
        assert!(n != 0);
        (0..self.len()).step_by(n).map(move |i| &self[i..(i + n).min(self.len())])
    }
}

pub struct ChunksExact<'a, O> {
    rest: &'a BitSlice<u8, O>,
    n: usize,
}
impl<'a, O: BitOrder> Iterator for ChunksExact<'a, O> {
    type Item = &'a BitSlice<u8, O>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.rest.len() < self.n {
            return None
        }
        let (a, b) = self.rest.split_at(self.n);
        self.rest = b;
        Some(a)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let k = self.rest.len() / self.n;
        (k, Some(k))
    }
}
impl<O: BitOrder> ExactSizeIterator for ChunksExact<'_, O> {}
impl<'a, O: BitOrder> ChunksExact<'a, O> {
    pub fn remainder(&self) -> &'a BitSlice<u8, O> {
        let k = self.rest.len() / self.n * self.n;
        &self.rest[k..]
    }
}

fn bounds(r: impl RangeBounds<usize>, len: usize) -> (usize, usize) {
    let s = match r.start_bound() {
        Bound::Included(x) => *x,
        Bound::Excluded(x) => *x + 1,
        Bound::Unbounded => 0,
    };
    let e = match r.end_bound() {
        Bound::Included(x) => *x + 1,
        Bound::Excluded(x) => *x,
        Bound::Unbounded => len,
    };
    assert!(s <= e && e <= len, "range {s}..{e} out of bounds: {len}");
    (s, e)
}
macro_rules! idx { ($($t:ty)*) => { $(
    impl<O: BitOrder> Index<$t> for BitSlice<u8, O> { type Output = Self;
        fn index(&self, r: $t) -> &Self { let (s, e) = bounds(r, self.len()); make(self.addr() + s, e - s) } }
    impl<O: BitOrder> IndexMut<$t> for BitSlice<u8, O> {
        fn index_mut(&mut self, r: $t) -> &mut Self { let (s, e) = bounds(r, self.len()); make_mut(self.addr() + s, e - s) } }
)* } }
idx!(Range<usize> RangeFrom<usize> RangeTo<usize> RangeFull RangeInclusive<usize> RangeToInclusive<usize>);
impl<O: BitOrder> Index<usize> for BitSlice<u8, O> {
    type Output = bool;
    fn index(&self, i: usize) -> &bool {
        if self.bit(i) { &true } else { &false }
    }
}
impl<O: BitOrder, P: BitOrder> PartialEq<BitSlice<u8, P>> for BitSlice<u8, O> {
    fn eq(&self, o: &BitSlice<u8, P>) -> bool {
        self.iter().eq(o.iter())
    }
}
impl<O: BitOrder> fmt::Debug for BitSlice<u8, O> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(self.iter().map(|b| b as u8)).finish()
    }
}
