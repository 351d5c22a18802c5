use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::{ArithmeticError, DispatchError, RuntimeDebug, TokenError};

#[derive(Copy, Clone, RuntimeDebug, Eq, PartialEq)]
pub enum Preservation {
    Expendable,
    Protect,
    Preserve,
}
#[derive(Copy, Clone, RuntimeDebug, Eq, PartialEq)]
pub enum Fortitude {
    Polite,
    Force,
}
#[derive(Copy, Clone, RuntimeDebug, Eq, PartialEq)]
pub enum Precision {
    Exact,
    BestEffort,
}
#[derive(Copy, Clone, RuntimeDebug, Eq, PartialEq)]
pub enum Provenance {
    Minted,
    Extant,
}
#[derive(Copy, Clone, RuntimeDebug, Eq, PartialEq)]
pub enum WithdrawConsequence<Balance> {
    BalanceLow,
    WouldDie,
    UnknownAsset,
    Underflow,
    Overflow,
    Frozen,
    ReducedToZero(Balance),
    Success,
}
impl<Balance: sp_runtime::traits::Zero> WithdrawConsequence<Balance> {
    pub fn into_result(self, keep_nonzero: bool) -> Result<Balance, DispatchError> {
        use WithdrawConsequence::*;
        match self {
            BalanceLow => Err(TokenError::FundsUnavailable.into()),
            WouldDie => Err(TokenError::OnlyProvider.into()),
            UnknownAsset => Err(TokenError::UnknownAsset.into()),
            Underflow => Err(ArithmeticError::Underflow.into()),
            Overflow => Err(ArithmeticError::Overflow.into()),
            Frozen => Err(TokenError::Frozen.into()),
            ReducedToZero(_) if keep_nonzero => Err(TokenError::NotExpendable.into()),
            ReducedToZero(r) => Ok(r),
            Success => Ok(Balance::zero()),
        }
    }
}
#[derive(Copy, Clone, RuntimeDebug, Eq, PartialEq)]
pub enum DepositConsequence {
    BelowMinimum,
    CannotCreate,
    UnknownAsset,
    Overflow,
    Success,
    Blocked,
}
impl DepositConsequence {
    pub fn into_result(self) -> Result<(), DispatchError> {
        use DepositConsequence::*;
        Err(match self {
            BelowMinimum => TokenError::BelowMinimum.into(),
            CannotCreate => TokenError::CannotCreate.into(),
            UnknownAsset => TokenError::UnknownAsset.into(),
            Overflow => ArithmeticError::Overflow.into(),
            Blocked => TokenError::Blocked.into(),
            Success => return Ok(()),
        })
    }
}
#[derive(Copy, Clone, RuntimeDebug, Eq, PartialEq)]
pub enum ExistenceRequirement {
    KeepAlive,
    AllowDeath,
}
#[derive(PartialEq, Eq, Clone, Copy, Encode, Decode, RuntimeDebug, TypeInfo, MaxEncodedLen)]
pub enum BalanceStatus {
    Free,
    Reserved,
}
#[derive(PartialEq, Eq, Clone, Copy, RuntimeDebug)]
pub struct WithdrawReasons(u8);
impl WithdrawReasons {
    pub const TRANSACTION_PAYMENT: Self = WithdrawReasons(1);
    pub const TRANSFER: Self = WithdrawReasons(2);
    pub const RESERVE: Self = WithdrawReasons(4);
    pub const FEE: Self = WithdrawReasons(8);
    pub const TIP: Self = WithdrawReasons(16);
    pub fn all() -> Self {
        WithdrawReasons(31)
    }
    pub fn empty() -> Self {
        WithdrawReasons(0)
    }
    pub fn except(one: Self) -> Self {
        WithdrawReasons(31 & !one.0)
    }
    pub fn intersects(&self, o: Self) -> bool {
        self.0 & o.0 != 0
    }
    pub fn contains(&self, o: Self) -> bool {
        self.0 & o.0 == o.0
    }
}
impl core::ops::BitOr for WithdrawReasons {
    type Output = Self;
    fn bitor(self, o: Self) -> Self {
        WithdrawReasons(self.0 | o.0)
    }
}
pub trait Balance: sp_runtime::traits::AtLeast32BitUnsigned + codec::FullCodec + Copy + Default + core::fmt::Debug + TypeInfo + MaxEncodedLen + Send + Sync + 'static {}
impl<T: sp_runtime::traits::AtLeast32BitUnsigned + codec::FullCodec + Copy + Default + core::fmt::Debug + TypeInfo + MaxEncodedLen + Send + Sync + 'static> Balance for T {}

pub mod fungibles {
    use super::*;
    pub trait Inspect<AccountId> {
        type AssetId: crate::dispatch::Parameter;
        type Balance: super::Balance;
        fn total_issuance(asset: Self::AssetId) -> Self::Balance;
        fn minimum_balance(asset: Self::AssetId) -> Self::Balance;
        fn total_balance(asset: Self::AssetId, who: &AccountId) -> Self::Balance;
        fn balance(asset: Self::AssetId, who: &AccountId) -> Self::Balance;
        fn reducible_balance(asset: Self::AssetId, who: &AccountId, preservation: Preservation, force: Fortitude) -> Self::Balance;
        fn can_deposit(asset: Self::AssetId, who: &AccountId, amount: Self::Balance, provenance: Provenance) -> DepositConsequence;
        fn can_withdraw(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
        fn asset_exists(asset: Self::AssetId) -> bool;
    }
}
