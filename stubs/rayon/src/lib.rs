//! Stand-in: the parallel iterators run on the calling thread, so a simulated node owns every thread it uses.
pub mod iter {
    pub trait IntoParallelRefIterator<'a> {
        type Iter: Iterator;
        fn par_iter(&'a self) -> Self::Iter;
    }
    impl<'a, T: 'a> IntoParallelRefIterator<'a> for Vec<T> {
        type Iter = std::slice::Iter<'a, T>;
        fn par_iter(&'a self) -> Self::Iter {
            self.iter()
        }
    }
    pub trait ParallelIterator: Iterator {}
    impl<I: Iterator> ParallelIterator for I {}
}
pub mod prelude {
    pub use crate::iter::*;
}
