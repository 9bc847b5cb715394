//! Stand-in for `rayon`: the same calls, run in order on one thread.
pub mod prelude {
    pub trait IntoParallelIterator: IntoIterator + Sized {
        fn into_par_iter(self) -> Self::IntoIter {
            self.into_iter()
        }
    }
    impl<T: IntoIterator> IntoParallelIterator for T {}
    pub trait IntoParallelRefIterator<'a> {
        type Iter;
        fn par_iter(&'a self) -> Self::Iter;
    }
    impl<'a, T: 'a + ?Sized> IntoParallelRefIterator<'a> for T
    where
        &'a T: IntoIterator,
    {
        type Iter = <&'a T as IntoIterator>::IntoIter;
        fn par_iter(&'a self) -> Self::Iter {
            self.into_iter()
        }
    }
    pub trait ParallelIterator: Iterator {}
    impl<T: Iterator> ParallelIterator for T {}
    pub trait IndexedParallelIterator: Iterator {}
    impl<T: Iterator> IndexedParallelIterator for T {}
}
