//! The part of `frame-support` (polkadot-v1.0) that the pallets under test use, written from its documented behaviour:
//! storage layout and hashing, transactional layers, traits and macros. It runs on the real sp-io/sp-state-machine.
pub extern crate codec;
pub extern crate scale_info;
pub extern crate sp_runtime;
pub use log;
pub use paste;
pub use serde;
pub use sp_core;
pub use sp_io;
pub use sp_io::hashing::{blake2_128, blake2_256, twox_128, twox_64};
pub use sp_runtime::print;
pub use sp_runtime::RuntimeDebug;
pub use sp_state_machine::BasicExternalities;
pub use sp_std;
extern crate self as frame_support;

pub use frame_support_procedural::{
    construct_runtime, pallet, require_transactional, storage_alias, transactional, CloneNoBound, DebugNoBound, DefaultNoBound,
    EqNoBound, PartialEqNoBound, RuntimeDebugNoBound,
};

pub mod dispatch;
pub mod hash;
pub mod migration;
pub mod storage;
pub mod traits;
pub mod unsigned {
    pub use sp_runtime::traits::ValidateUnsigned;
    pub use sp_runtime::transaction_validity::*;
}
pub mod weights {
    pub use sp_weights::*;
    pub mod constants {
        pub use sp_weights::constants::*;
        pub struct RocksDbWeight;
        impl crate::traits::Get<sp_weights::RuntimeDbWeight> for RocksDbWeight {
            fn get() -> sp_weights::RuntimeDbWeight {
                sp_weights::RuntimeDbWeight { read: 25_000_000, write: 100_000_000 }
            }
        }
        pub const BlockExecutionWeight: sp_weights::Weight = sp_weights::Weight::from_parts(0, 0);
        pub const ExtrinsicBaseWeight: sp_weights::Weight = sp_weights::Weight::from_parts(0, 0);
    }
}
pub use bounded_collections::{self, bounded_btree_map, bounded_vec};
pub use storage::{
    bounded_btree_map::BoundedBTreeMap,
    bounded_btree_set::BoundedBTreeSet,
    bounded_vec::{BoundedSlice, BoundedVec},
    weak_bounded_vec::WeakBoundedVec,
};
pub use hash::{Blake2_128, Blake2_128Concat, Blake2_256, Hashable, Identity, ReversibleStorageHasher, StorageHasher, Twox128, Twox256, Twox64Concat};

/// An uninhabited type.
#[derive(codec::Encode, codec::Decode, Clone, PartialEq, Eq, Debug, scale_info::TypeInfo, codec::MaxEncodedLen)]
pub enum Never {}

#[derive(Clone, Copy, Eq, PartialEq, codec::Encode, codec::Decode, RuntimeDebug, codec::MaxEncodedLen, scale_info::TypeInfo, serde::Serialize, serde::Deserialize)]
pub struct PalletId(pub [u8; 8]);
impl sp_runtime::TypeId for PalletId {
    const TYPE_ID: [u8; 4] = *b"modl";
}

pub mod instances {
    macro_rules! i { ($($n:ident)*) => { $(
        #[derive(Clone, Copy, PartialEq, Eq, crate::RuntimeDebug, codec::Encode, codec::Decode, scale_info::TypeInfo)]
        pub struct $n;
    )* } }
    i!(Instance1 Instance2 Instance3 Instance4 Instance5 Instance6 Instance7 Instance8);
}
pub mod error {
    pub use sp_runtime::traits::{BadOrigin, LookupError};
}
pub type ConsensusEngineId = [u8; 4];

#[macro_export]
macro_rules! ensure {
    ($x:expr, $y:expr $(,)?) => {{
        if !$x {
            return Err(($y).into());
        }
    }};
}
#[macro_export]
macro_rules! fail {
    ($y:expr) => {{
        return Err(($y).into());
    }};
}
#[macro_export]
macro_rules! runtime_print {
    ($($arg:tt)+) => {{ $crate::log::trace!($($arg)+); }};
}
#[macro_export]
macro_rules! assert_ok {
    ($x:expr $(,)?) => {{
        let is = $x;
        match is {
            Ok(_) => (),
            _ => assert!(false, "Expected Ok(_). Got {:#?}", is),
        }
    }};
    ($x:expr, $y:expr $(,)?) => {{ assert_eq!($x, Ok($y)); }};
}
#[macro_export]
macro_rules! assert_err {
    ($x:expr, $y:expr $(,)?) => {{ assert_eq!($x, Err($y.into())); }};
}
#[macro_export]
macro_rules! assert_err_ignore_postinfo {
    ($x:expr, $y:expr $(,)?) => {{ $crate::assert_err!($x.map(|_| ()).map_err(|e| e.error), $y); }};
}
#[macro_export]
macro_rules! assert_noop {
    ($x:expr, $y:expr $(,)?) => {{
        let h = $crate::sp_io::storage::root($crate::sp_runtime::StateVersion::V1);
        $crate::assert_err!($x, $y);
        assert_eq!(h, $crate::sp_io::storage::root($crate::sp_runtime::StateVersion::V1), "storage has been mutated");
    }};
}
#[macro_export]
macro_rules! assert_storage_noop {
    ($x:expr) => {{
        let h = $crate::sp_io::storage::root($crate::sp_runtime::StateVersion::V1);
        $x;
        assert_eq!(h, $crate::sp_io::storage::root($crate::sp_runtime::StateVersion::V1));
    }};
}

#[macro_export]
macro_rules! parameter_types {
    ($( #[ $attr:meta ] )* $vis:vis const $name:ident: $type:ty = $value:expr; $( $rest:tt )*) => {
        $( #[ $attr ] )* $vis struct $name;
        impl $name { pub const fn get() -> $type { $value } }
        impl<I: From<$type>> $crate::traits::Get<I> for $name { fn get() -> I { I::from(Self::get()) } }
        impl $crate::traits::TypedGet for $name { type Type = $type; fn get() -> $type { Self::get() } }
        $crate::parameter_types!($( $rest )*);
    };
    ($( #[ $attr:meta ] )* $vis:vis storage $name:ident: $type:ty = $value:expr; $( $rest:tt )*) => {
        $( #[ $attr ] )* $vis struct $name;
        impl $name {
            pub fn key() -> [u8; 16] { $crate::twox_128(concat!(":", stringify!($name), ":").as_bytes()) }
            pub fn set(value: &$type) { $crate::storage::unhashed::put(&Self::key(), value); }
            pub fn get() -> $type { $crate::storage::unhashed::get(&Self::key()).unwrap_or_else(|| $value) }
        }
        impl<I: From<$type>> $crate::traits::Get<I> for $name { fn get() -> I { I::from(Self::get()) } }
        $crate::parameter_types!($( $rest )*);
    };
    ($( #[ $attr:meta ] )* $vis:vis static $name:ident: $type:ty = $value:expr; $( $rest:tt )*) => {
        $crate::paste::paste! {
            std::thread_local! { static [<__ST_ $name:snake:upper>]: std::cell::RefCell<$type> = std::cell::RefCell::new($value); }
            $( #[ $attr ] )* $vis struct $name;
            impl $name {
                pub fn get() -> $type { [<__ST_ $name:snake:upper>].with(|v| v.borrow().clone()) }
                pub fn set(t: $type) { [<__ST_ $name:snake:upper>].with(|v| *v.borrow_mut() = t); }
                pub fn mutate<R, F: FnOnce(&mut $type) -> R>(f: F) -> R { let mut c = Self::get(); let r = f(&mut c); Self::set(c); r }
                pub fn take() -> $type where $type: Default { let c = Self::get(); Self::set(Default::default()); c }
            }
            impl<I: From<$type>> $crate::traits::Get<I> for $name { fn get() -> I { I::from(Self::get()) } }
        }
        $crate::parameter_types!($( $rest )*);
    };
    ($( #[ $attr:meta ] )* $vis:vis $name:ident: $type:ty = $value:expr; $( $rest:tt )*) => {
        $( #[ $attr ] )* $vis struct $name;
        impl $name { pub fn get() -> $type { $value } }
        impl<I: From<$type>> $crate::traits::Get<I> for $name { fn get() -> I { I::from(Self::get()) } }
        $crate::parameter_types!($( $rest )*);
    };
    () => {};
}
#[macro_export]
macro_rules! ord_parameter_types {
    ($( $( #[ $attr:meta ] )* $vis:vis const $name:ident: $type:ty = $value:expr; )*) => {
        $(
            $crate::parameter_types! { $( #[ $attr ] )* $vis const $name: $type = $value; }
            impl $crate::traits::SortedMembers<$type> for $name {
                fn contains(t: &$type) -> bool { &$value == t }
                fn sorted_members() -> Vec<$type> { vec![$value] }
            }
        )*
    };
}

pub mod pallet_prelude {
    pub use crate::{
        dispatch::{DispatchClass, DispatchError, DispatchResult, DispatchResultWithPostInfo, Parameter, Pays},
        ensure,
        storage::types::{CountedStorageMap, Key as NMapKey, OptionQuery, StorageDoubleMap, StorageMap, StorageNMap, StorageValue, ValueQuery},
        storage::{bounded_vec::BoundedVec, StorageList},
        traits::{BuildGenesisConfig, ConstU32, EnsureOrigin, Get, GetDefault, GetStorageVersion, Hooks, IsType, PalletInfoAccess, StorageInfoTrait, StorageVersion, TypedGet},
        weights::Weight,
        Blake2_128, Blake2_128Concat, Blake2_256, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, Identity, PartialEqNoBound, RuntimeDebugNoBound,
        RuntimeDebug, Twox128, Twox256, Twox64Concat,
    };
    pub use codec::{Decode, Encode, MaxEncodedLen};
    pub use scale_info::TypeInfo;
    pub use sp_runtime::{
        traits::{MaybeSerializeDeserialize, Member, ValidateUnsigned},
        transaction_validity::{
            InvalidTransaction, TransactionLongevity, TransactionPriority, TransactionSource, TransactionTag, TransactionValidity,
            TransactionValidityError, UnknownTransaction, ValidTransaction,
        },
        MAX_MODULE_ERROR_ENCODED_SIZE,
    };
    pub use sp_std::marker::PhantomData;
}
