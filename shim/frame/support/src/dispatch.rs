pub use codec::{Codec, Decode, Encode, EncodeLike, MaxEncodedLen};
pub use scale_info::TypeInfo;
pub use sp_runtime::traits::Dispatchable;
pub use sp_runtime::DispatchError;
use sp_runtime::RuntimeDebug;
use sp_weights::Weight;
use std::fmt;

pub type DispatchResult = Result<(), DispatchError>;
pub type DispatchResultWithPostInfo = sp_runtime::DispatchResultWithInfo<PostDispatchInfo>;
pub type DispatchErrorWithPostInfo = sp_runtime::DispatchErrorWithPostInfo<PostDispatchInfo>;
pub type CallableCallFor<A, R> = <A as Callable<R>>::RuntimeCall;

pub trait Callable<T> {
    type RuntimeCall: crate::traits::UnfilteredDispatchable + Codec + Clone + PartialEq + Eq;
}

pub trait Parameter: Codec + EncodeLike + Clone + Eq + fmt::Debug + TypeInfo {}
impl<T> Parameter for T where T: Codec + EncodeLike + Clone + Eq + fmt::Debug + TypeInfo {}

#[derive(PartialEq, Eq, Clone, RuntimeDebug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum RawOrigin<AccountId> {
    Root,
    Signed(AccountId),
    None,
}
impl<A> From<Option<A>> for RawOrigin<A> {
    fn from(s: Option<A>) -> Self {
        match s {
            Some(w) => RawOrigin::Signed(w),
            None => RawOrigin::None,
        }
    }
}
impl<A> RawOrigin<A> {
    pub fn as_signed(&self) -> Option<&A> {
        match self {
            RawOrigin::Signed(x) => Some(x),
            _ => None,
        }
    }
}

#[derive(Clone, Copy, Eq, PartialEq, RuntimeDebug, Encode, Decode, TypeInfo)]
pub enum Pays {
    Yes,
    No,
}
impl Default for Pays {
    fn default() -> Self {
        Self::Yes
    }
}
impl From<Pays> for PostDispatchInfo {
    fn from(p: Pays) -> Self {
        PostDispatchInfo { actual_weight: None, pays_fee: p }
    }
}
#[derive(PartialEq, Eq, Clone, Copy, Encode, Decode, RuntimeDebug, TypeInfo)]
pub enum DispatchClass {
    Normal,
    Operational,
    Mandatory,
}
impl Default for DispatchClass {
    fn default() -> Self {
        Self::Normal
    }
}
#[derive(Clone, Copy, Eq, PartialEq, Default, RuntimeDebug, Encode, Decode, TypeInfo)]
pub struct DispatchInfo {
    pub weight: Weight,
    pub class: DispatchClass,
    pub pays_fee: Pays,
}
#[derive(Clone, Copy, Eq, PartialEq, Default, RuntimeDebug, Encode, Decode, TypeInfo)]
pub struct PostDispatchInfo {
    pub actual_weight: Option<Weight>,
    pub pays_fee: Pays,
}
impl PostDispatchInfo {
    pub fn calc_actual_weight(&self, info: &DispatchInfo) -> Weight {
        self.actual_weight.unwrap_or(info.weight).min(info.weight)
    }
}
impl From<()> for PostDispatchInfo {
    fn from(_: ()) -> Self {
        Default::default()
    }
}
impl From<Option<Weight>> for PostDispatchInfo {
    fn from(w: Option<Weight>) -> Self {
        PostDispatchInfo { actual_weight: w, pays_fee: Default::default() }
    }
}
impl From<(Option<Weight>, Pays)> for PostDispatchInfo {
    fn from((w, p): (Option<Weight>, Pays)) -> Self {
        PostDispatchInfo { actual_weight: w, pays_fee: p }
    }
}
impl sp_runtime::traits::Printable for PostDispatchInfo {
    fn print(&self) {}
}
pub trait GetDispatchInfo {
    fn get_dispatch_info(&self) -> DispatchInfo;
}
impl<A: Encode, C: GetDispatchInfo + Encode> GetDispatchInfo for sp_runtime::testing::TestXt<C, A> {
    fn get_dispatch_info(&self) -> DispatchInfo {
        self.call.get_dispatch_info()
    }
}

