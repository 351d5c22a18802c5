//! Multi-currency balances: free, reserved and frozen parts per account and currency, with mutation hooks.
use codec::{Decode, Encode, MaxEncodedLen};
use frame_support::traits::{
    tokens::{fungibles, DepositConsequence, Fortitude, Preservation, Provenance, WithdrawConsequence},
    BalanceStatus, Contains, Currency as PalletCurrency, ExistenceRequirement, Imbalance, LockIdentifier, LockableCurrency as PalletLockableCurrency,
    ReservableCurrency as PalletReservableCurrency, SameOrOther, SignedImbalance, TryDrop, WithdrawReasons,
};
use frame_support::{ensure, pallet_prelude::*};
use frame_system::{ensure_root, ensure_signed, pallet_prelude::*};
use orml_traits::{
    currency::{MutationHooks, OnDeposit, OnDust, OnSlash, OnTransfer},
    GetByKey, Happened, MultiCurrency, MultiLockableCurrency, MultiReservableCurrency,
};
use scale_info::TypeInfo;
use sp_runtime::{
    traits::{AtLeast32BitUnsigned, Bounded, CheckedAdd, CheckedSub, MaybeSerializeDeserialize, Member, Saturating, StaticLookup, Zero},
    ArithmeticError, DispatchError, DispatchResult, FixedPointOperand, RuntimeDebug,
};
use std::marker::PhantomData;

pub struct TransferDust<T, GetAccountId>(PhantomData<(T, GetAccountId)>);
impl<T: Config, GetAccountId: Get<T::AccountId>> OnDust<T::AccountId, T::CurrencyId, T::Balance> for TransferDust<T, GetAccountId> {
    fn on_dust(who: &T::AccountId, currency_id: T::CurrencyId, amount: T::Balance) {
        let _ = <Pallet<T> as MultiCurrency<T::AccountId>>::transfer(currency_id, who, &GetAccountId::get(), amount);
    }
}

#[derive(Encode, Decode, Clone, PartialEq, Eq, MaxEncodedLen, RuntimeDebug, TypeInfo)]
pub struct BalanceLock<Balance> {
    pub id: LockIdentifier,
    pub amount: Balance,
}

#[derive(Encode, Decode, Clone, PartialEq, Eq, Default, MaxEncodedLen, RuntimeDebug, TypeInfo)]
pub struct AccountData<Balance> {
    pub free: Balance,
    pub reserved: Balance,
    pub frozen: Balance,
}
impl<Balance: Saturating + Copy + Ord> AccountData<Balance> {
    pub fn frozen(&self) -> Balance {
        self.frozen
    }
    pub fn total(&self) -> Balance {
        self.free.saturating_add(self.reserved)
    }
}
pub trait WeightInfo {}
impl WeightInfo for () {}

pub use module::*;

#[frame_support::pallet]
pub mod module {
    use super::*;

    #[pallet::config]
    pub trait Config: frame_system::Config {
        type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type Balance: Parameter + Member + AtLeast32BitUnsigned + Default + Copy + MaybeSerializeDeserialize + MaxEncodedLen + TypeInfo + FixedPointOperand;
        type Amount: Parameter + Member + Default + Copy + MaybeSerializeDeserialize + TryInto<Self::Balance> + TryFrom<Self::Balance>;
        type CurrencyId: Parameter + Member + Copy + MaybeSerializeDeserialize + Ord + TypeInfo + MaxEncodedLen;
        type WeightInfo: WeightInfo;
        type ExistentialDeposits: GetByKey<Self::CurrencyId, Self::Balance>;
        type CurrencyHooks: MutationHooks<Self::AccountId, Self::CurrencyId, Self::Balance>;
        #[pallet::constant]
        type MaxLocks: Get<u32>;
        #[pallet::constant]
        type MaxReserves: Get<u32>;
        type ReserveIdentifier: Parameter + Member + MaxEncodedLen + Ord + Copy;
        type DustRemovalWhitelist: Contains<Self::AccountId>;
    }

    #[pallet::error]
    pub enum Error<T> {
        BalanceTooLow,
        AmountIntoBalanceFailed,
        LiquidityRestrictions,
        MaxLocksExceeded,
        KeepAlive,
        ExistentialDeposit,
        DeadAccount,
        TooManyReserves,
    }

    #[pallet::event]
    #[pallet::generate_deposit(pub(crate) fn deposit_event)]
    pub enum Event<T: Config> {
        Endowed { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        DustLost { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        Transfer { currency_id: T::CurrencyId, from: T::AccountId, to: T::AccountId, amount: T::Balance },
        Reserved { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        Unreserved { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        ReserveRepatriated { currency_id: T::CurrencyId, from: T::AccountId, to: T::AccountId, amount: T::Balance, status: BalanceStatus },
        BalanceSet { currency_id: T::CurrencyId, who: T::AccountId, free: T::Balance, reserved: T::Balance },
        TotalIssuanceSet { currency_id: T::CurrencyId, amount: T::Balance },
        Withdrawn { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        Slashed { currency_id: T::CurrencyId, who: T::AccountId, free_amount: T::Balance, reserved_amount: T::Balance },
        Deposited { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        LockSet { lock_id: LockIdentifier, currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        LockRemoved { lock_id: LockIdentifier, currency_id: T::CurrencyId, who: T::AccountId },
    }

    #[pallet::storage]
    #[pallet::getter(fn total_issuance)]
    pub type TotalIssuance<T: Config> = StorageMap<_, Twox64Concat, T::CurrencyId, T::Balance, ValueQuery>;

    #[pallet::storage]
    #[pallet::getter(fn locks)]
    pub type Locks<T: Config> =
        StorageDoubleMap<_, Blake2_128Concat, T::AccountId, Twox64Concat, T::CurrencyId, BoundedVec<BalanceLock<T::Balance>, T::MaxLocks>, ValueQuery>;

    #[pallet::storage]
    #[pallet::getter(fn accounts)]
    pub type Accounts<T: Config> =
        StorageDoubleMap<_, Blake2_128Concat, T::AccountId, Twox64Concat, T::CurrencyId, AccountData<T::Balance>, ValueQuery>;

    #[pallet::genesis_config]
    #[derive(frame_support::DefaultNoBound)]
    pub struct GenesisConfig<T: Config> {
        pub balances: Vec<(T::AccountId, T::CurrencyId, T::Balance)>,
    }
    #[pallet::genesis_build]
    impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
        fn build(&self) {
            self.balances.iter().for_each(|(who, currency_id, initial)| {
                Pallet::<T>::mutate_account(*currency_id, who, |a| a.free = *initial);
                TotalIssuance::<T>::mutate(currency_id, |t| *t = t.saturating_add(*initial));
            });
        }
    }

    #[pallet::pallet]
    pub struct Pallet<T>(_);

    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(Weight::zero())]
        pub fn transfer(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, #[pallet::compact] amount: T::Balance) -> DispatchResult {
            let from = ensure_signed(origin)?;
            let to = T::Lookup::lookup(dest)?;
            Self::do_transfer(currency_id, &from, &to, amount, ExistenceRequirement::AllowDeath)
        }
        #[pallet::call_index(1)]
        #[pallet::weight(Weight::zero())]
        pub fn transfer_all(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, keep_alive: bool) -> DispatchResult {
            let from = ensure_signed(origin)?;
            let to = T::Lookup::lookup(dest)?;
            let p = if keep_alive { Preservation::Protect } else { Preservation::Expendable };
            let b = <Self as fungibles::Inspect<T::AccountId>>::reducible_balance(currency_id, &from, p, Fortitude::Polite);
            Self::do_transfer(currency_id, &from, &to, b, ExistenceRequirement::AllowDeath)
        }
        #[pallet::call_index(2)]
        #[pallet::weight(Weight::zero())]
        pub fn transfer_keep_alive(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, #[pallet::compact] amount: T::Balance) -> DispatchResult {
            let from = ensure_signed(origin)?;
            let to = T::Lookup::lookup(dest)?;
            Self::do_transfer(currency_id, &from, &to, amount, ExistenceRequirement::KeepAlive)
        }
        #[pallet::call_index(3)]
        #[pallet::weight(Weight::zero())]
        pub fn force_transfer(origin: OriginFor<T>, source: <T::Lookup as StaticLookup>::Source, dest: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, #[pallet::compact] amount: T::Balance) -> DispatchResult {
            ensure_root(origin)?;
            let from = T::Lookup::lookup(source)?;
            let to = T::Lookup::lookup(dest)?;
            Self::do_transfer(currency_id, &from, &to, amount, ExistenceRequirement::AllowDeath)
        }
        #[pallet::call_index(4)]
        #[pallet::weight(Weight::zero())]
        pub fn set_balance(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, #[pallet::compact] new_free: T::Balance, #[pallet::compact] new_reserved: T::Balance) -> DispatchResult {
            ensure_root(origin)?;
            let who = T::Lookup::lookup(who)?;
            Self::try_mutate_account(currency_id, &who, |account, _| -> DispatchResult {
                let mut new_total = new_free.checked_add(&new_reserved).ok_or(ArithmeticError::Overflow)?;
                let (new_free, new_reserved) = if new_total < T::ExistentialDeposits::get(&currency_id) {
                    new_total = Zero::zero();
                    (Zero::zero(), Zero::zero())
                } else {
                    (new_free, new_reserved)
                };
                let old_total = account.total();
                account.free = new_free;
                account.reserved = new_reserved;
                if new_total > old_total {
                    TotalIssuance::<T>::try_mutate(currency_id, |t| -> DispatchResult {
                        *t = t.checked_add(&(new_total - old_total)).ok_or(ArithmeticError::Overflow)?;
                        Ok(())
                    })?;
                } else if new_total < old_total {
                    TotalIssuance::<T>::try_mutate(currency_id, |t| -> DispatchResult {
                        *t = t.checked_sub(&(old_total - new_total)).ok_or(ArithmeticError::Underflow)?;
                        Ok(())
                    })?;
                }
                Self::deposit_event(Event::BalanceSet { currency_id, who: who.clone(), free: new_free, reserved: new_reserved });
                Ok(())
            })
        }
    }
}

type Hk<T> = <T as Config>::CurrencyHooks;
impl<T: Config> Pallet<T> {
    pub(crate) fn try_mutate_account<R, E>(
        currency_id: T::CurrencyId,
        who: &T::AccountId,
        f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>,
    ) -> Result<R, E> {
        let mut existed = false;
        let mut exists = false;
        let mut endowed = None;
        let mut dust = None;
        let r = Accounts::<T>::try_mutate_exists(who, currency_id, |m| -> Result<R, E> {
            existed = m.is_some();
            let mut account = m.take().unwrap_or_default();
            let r = f(&mut account, existed)?;
            if !existed {
                endowed = Some(account.free);
            }
            let total = account.total();
            *m = if total < T::ExistentialDeposits::get(&currency_id) {
                if total.is_zero() {
                    None
                } else {
                    if !T::DustRemovalWhitelist::contains(who) {
                        dust = Some(total);
                    }
                    Some(account)
                }
            } else {
                Some(account)
            };
            exists = m.is_some();
            Ok(r)
        })?;
        if existed && !exists {
            let _ = frame_system::Pallet::<T>::dec_providers(who);
            <Hk<T> as MutationHooks<_, _, _>>::OnKilledTokenAccount::happened(&(who.clone(), currency_id));
        } else if !existed && exists {
            frame_system::Pallet::<T>::inc_providers(who);
            <Hk<T> as MutationHooks<_, _, _>>::OnNewTokenAccount::happened(&(who.clone(), currency_id));
        }
        if let Some(amount) = endowed {
            Self::deposit_event(Event::Endowed { currency_id, who: who.clone(), amount });
        }
        if let Some(amount) = dust {
            <Hk<T> as MutationHooks<_, _, _>>::OnDust::on_dust(who, currency_id, amount);
            Self::deposit_event(Event::DustLost { currency_id, who: who.clone(), amount });
        }
        Ok(r)
    }
    pub(crate) fn mutate_account<R>(currency_id: T::CurrencyId, who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>) -> R) -> R {
        Self::try_mutate_account(currency_id, who, |a, _| Ok::<R, ()>(f(a))).expect("infallible")
    }
    fn would_be_dead(currency_id: T::CurrencyId, who: &T::AccountId, a: &AccountData<T::Balance>) -> bool {
        if a.total() < T::ExistentialDeposits::get(&currency_id) {
            a.total().is_zero() || !T::DustRemovalWhitelist::contains(who)
        } else {
            false
        }
    }
    pub fn do_transfer(currency_id: T::CurrencyId, from: &T::AccountId, to: &T::AccountId, amount: T::Balance, er: ExistenceRequirement) -> DispatchResult {
        if amount.is_zero() || from == to {
            return Ok(());
        }
        <Hk<T> as MutationHooks<_, _, _>>::PreTransfer::on_transfer(currency_id, from, to, amount)?;
        Self::try_mutate_account(currency_id, to, |to_account, _| -> DispatchResult {
            Self::try_mutate_account(currency_id, from, |from_account, _| -> DispatchResult {
                from_account.free = from_account.free.checked_sub(&amount).ok_or(Error::<T>::BalanceTooLow)?;
                to_account.free = to_account.free.checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
                let ed = T::ExistentialDeposits::get(&currency_id);
                ensure!(to_account.total() >= ed || T::DustRemovalWhitelist::contains(to), Error::<T>::ExistentialDeposit);
                Self::ensure_can_withdraw(currency_id, from, amount)?;
                let allow_death = er == ExistenceRequirement::AllowDeath && frame_system::Pallet::<T>::can_dec_provider(from);
                ensure!(allow_death || !Self::would_be_dead(currency_id, from, from_account), Error::<T>::KeepAlive);
                Ok(())
            })
        })?;
        <Hk<T> as MutationHooks<_, _, _>>::PostTransfer::on_transfer(currency_id, from, to, amount)?;
        Self::deposit_event(Event::Transfer { currency_id, from: from.clone(), to: to.clone(), amount });
        Ok(())
    }
    pub fn do_withdraw(currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance, er: ExistenceRequirement, change_total: bool) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        Self::ensure_can_withdraw(currency_id, who, amount)?;
        Self::try_mutate_account(currency_id, who, |account, _| -> DispatchResult {
            account.free = account.free.checked_sub(&amount).ok_or(Error::<T>::BalanceTooLow)?;
            let allow_death = er == ExistenceRequirement::AllowDeath && frame_system::Pallet::<T>::can_dec_provider(who);
            ensure!(allow_death || !Self::would_be_dead(currency_id, who, account), Error::<T>::KeepAlive);
            if change_total {
                TotalIssuance::<T>::mutate(currency_id, |t| *t = t.saturating_sub(amount));
            }
            Self::deposit_event(Event::Withdrawn { currency_id, who: who.clone(), amount });
            Ok(())
        })
    }
    pub fn do_deposit(currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance, require_existed: bool, change_total: bool) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        <Hk<T> as MutationHooks<_, _, _>>::PreDeposit::on_deposit(currency_id, who, amount)?;
        Self::try_mutate_account(currency_id, who, |account, existed| -> DispatchResult {
            if require_existed {
                ensure!(existed, Error::<T>::DeadAccount);
            } else {
                ensure!(amount >= T::ExistentialDeposits::get(&currency_id) || existed, Error::<T>::ExistentialDeposit);
            }
            let new_total = Self::total_issuance(currency_id).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
            if change_total {
                TotalIssuance::<T>::mutate(currency_id, |t| *t = new_total);
            }
            account.free = account.free.saturating_add(amount);
            Self::deposit_event(Event::Deposited { currency_id, who: who.clone(), amount });
            Ok(())
        })?;
        <Hk<T> as MutationHooks<_, _, _>>::PostDeposit::on_deposit(currency_id, who, amount)
    }
    fn update_locks(currency_id: T::CurrencyId, who: &T::AccountId, locks: Vec<BalanceLock<T::Balance>>) -> DispatchResult {
        let bounded: BoundedVec<BalanceLock<T::Balance>, T::MaxLocks> = locks.clone().try_into().map_err(|_| Error::<T>::MaxLocksExceeded)?;
        let frozen = locks.iter().map(|l| l.amount).max().unwrap_or_else(Zero::zero);
        Self::mutate_account(currency_id, who, |a| a.frozen = frozen);
        let existed = Locks::<T>::contains_key(who, currency_id);
        if bounded.is_empty() {
            Locks::<T>::remove(who, currency_id);
            if existed {
                frame_system::Pallet::<T>::dec_consumers(who);
            }
        } else {
            Locks::<T>::insert(who, currency_id, bounded);
            if !existed {
                let _ = frame_system::Pallet::<T>::inc_consumers(who);
            }
        }
        Ok(())
    }
}

impl<T: Config> MultiCurrency<T::AccountId> for Pallet<T> {
    type CurrencyId = T::CurrencyId;
    type Balance = T::Balance;
    fn minimum_balance(currency_id: T::CurrencyId) -> T::Balance {
        T::ExistentialDeposits::get(&currency_id)
    }
    fn total_issuance(currency_id: T::CurrencyId) -> T::Balance {
        TotalIssuance::<T>::get(currency_id)
    }
    fn total_balance(currency_id: T::CurrencyId, who: &T::AccountId) -> T::Balance {
        Self::accounts(who, currency_id).total()
    }
    fn free_balance(currency_id: T::CurrencyId, who: &T::AccountId) -> T::Balance {
        Self::accounts(who, currency_id).free
    }
    fn ensure_can_withdraw(currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        let a = Self::accounts(who, currency_id);
        let left = a.free.checked_sub(&amount).ok_or(Error::<T>::BalanceTooLow)?;
        ensure!(left >= a.frozen, Error::<T>::LiquidityRestrictions);
        Ok(())
    }
    fn transfer(currency_id: T::CurrencyId, from: &T::AccountId, to: &T::AccountId, amount: T::Balance) -> DispatchResult {
        Self::do_transfer(currency_id, from, to, amount, ExistenceRequirement::AllowDeath)
    }
    fn deposit(currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        Self::do_deposit(currency_id, who, amount, false, true)
    }
    fn withdraw(currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        Self::do_withdraw(currency_id, who, amount, ExistenceRequirement::AllowDeath, true)
    }
    fn can_slash(currency_id: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> bool {
        Self::free_balance(currency_id, who) >= value
    }
    fn slash(currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> T::Balance {
        if amount.is_zero() {
            return amount;
        }
        <Hk<T> as MutationHooks<_, _, _>>::OnSlash::on_slash(currency_id, who, amount);
        let (mut f, mut r) = (T::Balance::zero(), T::Balance::zero());
        Self::mutate_account(currency_id, who, |a| {
            f = a.free.min(amount);
            a.free = a.free - f;
            r = a.reserved.min(amount - f);
            a.reserved = a.reserved - r;
        });
        TotalIssuance::<T>::mutate(currency_id, |t| *t = t.saturating_sub(f + r));
        Self::deposit_event(Event::Slashed { currency_id, who: who.clone(), free_amount: f, reserved_amount: r });
        amount - f - r
    }
}
impl<T: Config> MultiLockableCurrency<T::AccountId> for Pallet<T> {
    type Moment = BlockNumberFor<T>;
    fn set_lock(id: LockIdentifier, currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        let mut locks = Self::locks(who, currency_id).into_inner();
        match locks.iter_mut().find(|l| l.id == id) {
            Some(l) => l.amount = amount,
            None => locks.push(BalanceLock { id, amount }),
        }
        Self::update_locks(currency_id, who, locks)?;
        Self::deposit_event(Event::LockSet { lock_id: id, currency_id, who: who.clone(), amount });
        Ok(())
    }
    fn extend_lock(id: LockIdentifier, currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        let mut locks = Self::locks(who, currency_id).into_inner();
        match locks.iter_mut().find(|l| l.id == id) {
            Some(l) => l.amount = l.amount.max(amount),
            None => locks.push(BalanceLock { id, amount }),
        }
        Self::update_locks(currency_id, who, locks)
    }
    fn remove_lock(id: LockIdentifier, currency_id: T::CurrencyId, who: &T::AccountId) -> DispatchResult {
        let mut locks = Self::locks(who, currency_id).into_inner();
        locks.retain(|l| l.id != id);
        Self::update_locks(currency_id, who, locks)?;
        Self::deposit_event(Event::LockRemoved { lock_id: id, currency_id, who: who.clone() });
        Ok(())
    }
}
impl<T: Config> MultiReservableCurrency<T::AccountId> for Pallet<T> {
    fn can_reserve(currency_id: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> bool {
        value.is_zero() || Self::ensure_can_withdraw(currency_id, who, value).is_ok()
    }
    fn slash_reserved(currency_id: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> T::Balance {
        if value.is_zero() {
            return value;
        }
        <Hk<T> as MutationHooks<_, _, _>>::OnSlash::on_slash(currency_id, who, value);
        let actual = Self::reserved_balance(currency_id, who).min(value);
        Self::mutate_account(currency_id, who, |a| a.reserved = a.reserved.saturating_sub(actual));
        TotalIssuance::<T>::mutate(currency_id, |t| *t = t.saturating_sub(actual));
        Self::deposit_event(Event::Slashed { currency_id, who: who.clone(), free_amount: Zero::zero(), reserved_amount: actual });
        value - actual
    }
    fn reserved_balance(currency_id: T::CurrencyId, who: &T::AccountId) -> T::Balance {
        Self::accounts(who, currency_id).reserved
    }
    fn reserve(currency_id: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> DispatchResult {
        if value.is_zero() {
            return Ok(());
        }
        Self::ensure_can_withdraw(currency_id, who, value)?;
        Self::mutate_account(currency_id, who, |a| {
            a.free = a.free.saturating_sub(value);
            a.reserved = a.reserved.saturating_add(value);
        });
        Self::deposit_event(Event::Reserved { currency_id, who: who.clone(), amount: value });
        Ok(())
    }
    fn unreserve(currency_id: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> T::Balance {
        if value.is_zero() {
            return value;
        }
        let actual = Self::reserved_balance(currency_id, who).min(value);
        Self::mutate_account(currency_id, who, |a| {
            a.reserved = a.reserved.saturating_sub(actual);
            a.free = a.free.saturating_add(actual);
        });
        Self::deposit_event(Event::Unreserved { currency_id, who: who.clone(), amount: actual });
        value - actual
    }
    fn repatriate_reserved(currency_id: T::CurrencyId, slashed: &T::AccountId, beneficiary: &T::AccountId, value: T::Balance, status: BalanceStatus) -> Result<T::Balance, DispatchError> {
        if value.is_zero() {
            return Ok(value);
        }
        if slashed == beneficiary {
            return match status {
                BalanceStatus::Free => Ok(Self::unreserve(currency_id, slashed, value)),
                BalanceStatus::Reserved => Ok(value.saturating_sub(Self::reserved_balance(currency_id, slashed))),
            };
        }
        let actual = Self::reserved_balance(currency_id, slashed).min(value);
        Self::mutate_account(currency_id, beneficiary, |a| match status {
            BalanceStatus::Free => a.free = a.free.saturating_add(actual),
            BalanceStatus::Reserved => a.reserved = a.reserved.saturating_add(actual),
        });
        Self::mutate_account(currency_id, slashed, |a| a.reserved = a.reserved.saturating_sub(actual));
        Self::deposit_event(Event::ReserveRepatriated { currency_id, from: slashed.clone(), to: beneficiary.clone(), amount: actual, status });
        Ok(value - actual)
    }
}
impl<T: Config> fungibles::Inspect<T::AccountId> for Pallet<T> {
    type AssetId = T::CurrencyId;
    type Balance = T::Balance;
    fn total_issuance(asset: T::CurrencyId) -> T::Balance {
        TotalIssuance::<T>::get(asset)
    }
    fn minimum_balance(asset: T::CurrencyId) -> T::Balance {
        T::ExistentialDeposits::get(&asset)
    }
    fn total_balance(asset: T::CurrencyId, who: &T::AccountId) -> T::Balance {
        Self::accounts(who, asset).total()
    }
    fn balance(asset: T::CurrencyId, who: &T::AccountId) -> T::Balance {
        Self::accounts(who, asset).free
    }
    fn reducible_balance(asset: T::CurrencyId, who: &T::AccountId, preservation: Preservation, _force: Fortitude) -> T::Balance {
        let a = Self::accounts(who, asset);
        let liquid = a.free.saturating_sub(a.frozen);
        let can_die = frame_system::Pallet::<T>::can_dec_provider(who) && !matches!(preservation, Preservation::Protect | Preservation::Preserve);
        if can_die {
            liquid
        } else {
            let must_remain = T::ExistentialDeposits::get(&asset).saturating_sub(a.total() - liquid);
            liquid.saturating_sub(must_remain)
        }
    }
    fn can_deposit(asset: T::CurrencyId, who: &T::AccountId, amount: T::Balance, _p: Provenance) -> DepositConsequence {
        if amount.is_zero() {
            return DepositConsequence::Success;
        }
        if TotalIssuance::<T>::get(asset).checked_add(&amount).is_none() {
            return DepositConsequence::Overflow;
        }
        match Self::accounts(who, asset).total().checked_add(&amount) {
            Some(x) if x < T::ExistentialDeposits::get(&asset) => DepositConsequence::BelowMinimum,
            Some(_) => DepositConsequence::Success,
            None => DepositConsequence::Overflow,
        }
    }
    fn can_withdraw(asset: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
        match Self::ensure_can_withdraw(asset, who, amount) {
            Ok(()) => WithdrawConsequence::Success,
            Err(_) => WithdrawConsequence::BalanceLow,
        }
    }
    fn asset_exists(asset: T::CurrencyId) -> bool {
        TotalIssuance::<T>::contains_key(asset)
    }
}

/// A single currency of the pallet as a `Currency`.
pub struct CurrencyAdapter<T, G>(PhantomData<(T, G)>);
macro_rules! imbalance {
    ($a:ident, $b:ident, $drop:ident) => {
        pub struct $a<T: Config, G: Get<T::CurrencyId>>(T::Balance, PhantomData<G>);
        impl<T: Config, G: Get<T::CurrencyId>> $a<T, G> {
            pub fn new(b: T::Balance) -> Self {
                $a(b, PhantomData)
            }
        }
        impl<T: Config, G: Get<T::CurrencyId>> Default for $a<T, G> {
            fn default() -> Self {
                Self::new(Zero::zero())
            }
        }
        impl<T: Config, G: Get<T::CurrencyId>> TryDrop for $a<T, G> {
            fn try_drop(self) -> Result<(), Self> {
                self.drop_zero()
            }
        }
        impl<T: Config, G: Get<T::CurrencyId>> Imbalance<T::Balance> for $a<T, G> {
            type Opposite = $b<T, G>;
            fn zero() -> Self {
                Self::new(Zero::zero())
            }
            fn drop_zero(self) -> Result<(), Self> {
                if self.0.is_zero() {
                    Ok(())
                } else {
                    Err(self)
                }
            }
            fn split(self, amount: T::Balance) -> (Self, Self) {
                let first = self.0.min(amount);
                let second = self.0 - first;
                std::mem::forget(self);
                (Self::new(first), Self::new(second))
            }
            fn merge(mut self, other: Self) -> Self {
                self.0 = self.0.saturating_add(other.0);
                std::mem::forget(other);
                self
            }
            fn subsume(&mut self, other: Self) {
                self.0 = self.0.saturating_add(other.0);
                std::mem::forget(other);
            }
            fn offset(self, other: $b<T, G>) -> SameOrOther<Self, $b<T, G>> {
                let (a, b) = (self.0, other.0);
                std::mem::forget((self, other));
                if a > b {
                    SameOrOther::Same(Self::new(a - b))
                } else if b > a {
                    SameOrOther::Other($b::new(b - a))
                } else {
                    SameOrOther::None
                }
            }
            fn peek(&self) -> T::Balance {
                self.0
            }
        }
        impl<T: Config, G: Get<T::CurrencyId>> Drop for $a<T, G> {
            fn drop(&mut self) {
                TotalIssuance::<T>::mutate(G::get(), |v| *v = v.$drop(self.0));
            }
        }
    };
}
imbalance!(PositiveImbalance, NegativeImbalance, saturating_add);
imbalance!(NegativeImbalance, PositiveImbalance, saturating_sub);

impl<T: Config, G: Get<T::CurrencyId>> PalletCurrency<T::AccountId> for CurrencyAdapter<T, G> {
    type Balance = T::Balance;
    type PositiveImbalance = PositiveImbalance<T, G>;
    type NegativeImbalance = NegativeImbalance<T, G>;
    fn total_balance(who: &T::AccountId) -> T::Balance {
        <Pallet<T> as MultiCurrency<_>>::total_balance(G::get(), who)
    }
    fn can_slash(who: &T::AccountId, value: T::Balance) -> bool {
        <Pallet<T> as MultiCurrency<_>>::can_slash(G::get(), who, value)
    }
    fn total_issuance() -> T::Balance {
        TotalIssuance::<T>::get(G::get())
    }
    fn minimum_balance() -> T::Balance {
        T::ExistentialDeposits::get(&G::get())
    }
    fn burn(mut amount: T::Balance) -> Self::PositiveImbalance {
        TotalIssuance::<T>::mutate(G::get(), |i| {
            amount = amount.min(*i);
            *i = *i - amount;
        });
        PositiveImbalance::new(amount)
    }
    fn issue(mut amount: T::Balance) -> Self::NegativeImbalance {
        TotalIssuance::<T>::mutate(G::get(), |i| {
            let n = i.checked_add(&amount).unwrap_or_else(T::Balance::max_value);
            amount = n - *i;
            *i = n;
        });
        NegativeImbalance::new(amount)
    }
    fn free_balance(who: &T::AccountId) -> T::Balance {
        <Pallet<T> as MultiCurrency<_>>::free_balance(G::get(), who)
    }
    fn ensure_can_withdraw(who: &T::AccountId, amount: T::Balance, _r: WithdrawReasons, _n: T::Balance) -> DispatchResult {
        <Pallet<T> as MultiCurrency<_>>::ensure_can_withdraw(G::get(), who, amount)
    }
    fn transfer(source: &T::AccountId, dest: &T::AccountId, value: T::Balance, er: ExistenceRequirement) -> DispatchResult {
        Pallet::<T>::do_transfer(G::get(), source, dest, value, er)
    }
    fn slash(who: &T::AccountId, value: T::Balance) -> (Self::NegativeImbalance, T::Balance) {
        if value.is_zero() {
            return (Self::NegativeImbalance::zero(), value);
        }
        let cid = G::get();
        let (mut f, mut r) = (T::Balance::zero(), T::Balance::zero());
        Pallet::<T>::mutate_account(cid, who, |a| {
            f = a.free.min(value);
            a.free = a.free - f;
            r = a.reserved.min(value - f);
            a.reserved = a.reserved - r;
        });
        (NegativeImbalance::new(f + r), value - f - r)
    }
    fn deposit_into_existing(who: &T::AccountId, value: T::Balance) -> Result<Self::PositiveImbalance, DispatchError> {
        if value.is_zero() {
            return Ok(Self::PositiveImbalance::zero());
        }
        Pallet::<T>::do_deposit(G::get(), who, value, true, false).map(|_| PositiveImbalance::new(value))
    }
    fn deposit_creating(who: &T::AccountId, value: T::Balance) -> Self::PositiveImbalance {
        if value.is_zero() {
            return Self::PositiveImbalance::zero();
        }
        Pallet::<T>::do_deposit(G::get(), who, value, false, false).map_or_else(|_| Self::PositiveImbalance::zero(), |_| PositiveImbalance::new(value))
    }
    fn withdraw(who: &T::AccountId, value: T::Balance, _r: WithdrawReasons, liveness: ExistenceRequirement) -> Result<Self::NegativeImbalance, DispatchError> {
        if value.is_zero() {
            return Ok(Self::NegativeImbalance::zero());
        }
        Pallet::<T>::do_withdraw(G::get(), who, value, liveness, false).map(|_| NegativeImbalance::new(value))
    }
    fn make_free_balance_be(who: &T::AccountId, value: T::Balance) -> SignedImbalance<T::Balance, Self::PositiveImbalance> {
        let cid = G::get();
        let ed = T::ExistentialDeposits::get(&cid);
        Pallet::<T>::try_mutate_account(cid, who, |a, existed| -> Result<_, ()> {
            if value.saturating_add(a.reserved) < ed && !existed {
                return Err(());
            }
            let imb = if a.free <= value {
                SignedImbalance::Positive(PositiveImbalance::new(value - a.free))
            } else {
                SignedImbalance::Negative(NegativeImbalance::new(a.free - value))
            };
            a.free = value;
            Ok(imb)
        })
        .unwrap_or_else(|_| SignedImbalance::Positive(Self::PositiveImbalance::zero()))
    }
}
impl<T: Config, G: Get<T::CurrencyId>> PalletReservableCurrency<T::AccountId> for CurrencyAdapter<T, G> {
    fn can_reserve(who: &T::AccountId, value: T::Balance) -> bool {
        <Pallet<T> as MultiReservableCurrency<_>>::can_reserve(G::get(), who, value)
    }
    fn slash_reserved(who: &T::AccountId, value: T::Balance) -> (Self::NegativeImbalance, T::Balance) {
        let actual = Self::reserved_balance(who).min(value);
        Pallet::<T>::mutate_account(G::get(), who, |a| a.reserved = a.reserved - actual);
        (NegativeImbalance::new(actual), value - actual)
    }
    fn reserved_balance(who: &T::AccountId) -> T::Balance {
        <Pallet<T> as MultiReservableCurrency<_>>::reserved_balance(G::get(), who)
    }
    fn reserve(who: &T::AccountId, value: T::Balance) -> DispatchResult {
        <Pallet<T> as MultiReservableCurrency<_>>::reserve(G::get(), who, value)
    }
    fn unreserve(who: &T::AccountId, value: T::Balance) -> T::Balance {
        <Pallet<T> as MultiReservableCurrency<_>>::unreserve(G::get(), who, value)
    }
    fn repatriate_reserved(slashed: &T::AccountId, beneficiary: &T::AccountId, value: T::Balance, status: BalanceStatus) -> Result<T::Balance, DispatchError> {
        <Pallet<T> as MultiReservableCurrency<_>>::repatriate_reserved(G::get(), slashed, beneficiary, value, status)
    }
}
impl<T: Config, G: Get<T::CurrencyId>> PalletLockableCurrency<T::AccountId> for CurrencyAdapter<T, G> {
    type Moment = BlockNumberFor<T>;
    type MaxLocks = T::MaxLocks;
    fn set_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, _r: WithdrawReasons) {
        let _ = <Pallet<T> as MultiLockableCurrency<_>>::set_lock(id, G::get(), who, amount);
    }
    fn extend_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, _r: WithdrawReasons) {
        let _ = <Pallet<T> as MultiLockableCurrency<_>>::extend_lock(id, G::get(), who, amount);
    }
    fn remove_lock(id: LockIdentifier, who: &T::AccountId) {
        let _ = <Pallet<T> as MultiLockableCurrency<_>>::remove_lock(id, G::get(), who);
    }
}
