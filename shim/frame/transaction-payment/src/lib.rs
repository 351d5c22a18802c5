//! How a transaction's fee is taken and given back.
use frame_support::{
    dispatch::{DispatchInfo, PostDispatchInfo},
    traits::{Currency, ExistenceRequirement, Imbalance, OnUnbalanced, WithdrawReasons},
};
pub use pallet::*;
use sp_runtime::{
    traits::{DispatchInfoOf, PostDispatchInfoOf, Saturating, Zero},
    transaction_validity::{InvalidTransaction, TransactionValidityError},
};
use std::marker::PhantomData;

#[frame_support::pallet]
pub mod pallet {
    use super::*;
    use frame_support::pallet_prelude::*;
    #[pallet::config]
    pub trait Config: frame_system::Config {
        type OnChargeTransaction: OnChargeTransaction<Self>;
    }
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::call]
    impl<T: Config> Pallet<T> {}
}

type NegativeImbalanceOf<C, T> = <C as Currency<<T as frame_system::Config>::AccountId>>::NegativeImbalance;

pub trait OnChargeTransaction<T: Config> {
    type Balance: sp_runtime::traits::AtLeast32BitUnsigned + codec::FullCodec + Copy + sp_runtime::traits::MaybeSerializeDeserialize + core::fmt::Debug + Default + scale_info::TypeInfo;
    type LiquidityInfo: Default;
    fn withdraw_fee(who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, fee: Self::Balance, tip: Self::Balance) -> Result<Self::LiquidityInfo, TransactionValidityError>;
    fn correct_and_deposit_fee(
        who: &T::AccountId,
        info: &DispatchInfoOf<T::RuntimeCall>,
        post: &PostDispatchInfoOf<T::RuntimeCall>,
        corrected_fee: Self::Balance,
        tip: Self::Balance,
        already_withdrawn: Self::LiquidityInfo,
    ) -> Result<(), TransactionValidityError>;
}
pub struct CurrencyAdapter<C, OU>(PhantomData<(C, OU)>);
impl<T, C, OU> OnChargeTransaction<T> for CurrencyAdapter<C, OU>
where
    T: Config,
    C: Currency<<T as frame_system::Config>::AccountId>,
    OU: OnUnbalanced<NegativeImbalanceOf<C, T>>,
{
    type LiquidityInfo = Option<NegativeImbalanceOf<C, T>>;
    type Balance = <C as Currency<<T as frame_system::Config>::AccountId>>::Balance;
    fn withdraw_fee(who: &T::AccountId, _call: &T::RuntimeCall, _info: &DispatchInfoOf<T::RuntimeCall>, fee: Self::Balance, tip: Self::Balance) -> Result<Self::LiquidityInfo, TransactionValidityError> {
        if fee.is_zero() {
            return Ok(None);
        }
        let reason = if tip.is_zero() { WithdrawReasons::TRANSACTION_PAYMENT } else { WithdrawReasons::TRANSACTION_PAYMENT | WithdrawReasons::TIP };
        C::withdraw(who, fee, reason, ExistenceRequirement::KeepAlive).map(Some).map_err(|_| InvalidTransaction::Payment.into())
    }
    fn correct_and_deposit_fee(
        who: &T::AccountId,
        _info: &DispatchInfoOf<T::RuntimeCall>,
        _post: &PostDispatchInfoOf<T::RuntimeCall>,
        corrected_fee: Self::Balance,
        tip: Self::Balance,
        already_withdrawn: Self::LiquidityInfo,
    ) -> Result<(), TransactionValidityError> {
        if let Some(paid) = already_withdrawn {
            let refund_amount = paid.peek().saturating_sub(corrected_fee);
            let refund = C::deposit_into_existing(who, refund_amount).unwrap_or_else(|_| C::PositiveImbalance::zero());
            let adjusted = paid.offset(refund).same().map_err(|_| TransactionValidityError::Invalid(InvalidTransaction::Payment))?;
            let (tip, fee) = adjusted.split(tip);
            OU::on_unbalanceds(Some(fee).into_iter().chain(Some(tip)));
        }
        Ok(())
    }
}
