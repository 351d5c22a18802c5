//! Single-currency balances kept in the system account, with locks and reserves.
use codec::{Decode, Encode, MaxEncodedLen};
use frame_support::traits::{
    BalanceStatus, Currency, ExistenceRequirement, Imbalance, LockIdentifier, LockableCurrency, ReservableCurrency, SameOrOther, SignedImbalance,
    StoredMap, TryDrop, WithdrawReasons,
};
use frame_support::{ensure, pallet_prelude::*};
use frame_system::{ensure_root, ensure_signed, pallet_prelude::*};
pub use pallet::*;
use scale_info::TypeInfo;
use sp_runtime::{
    traits::{AtLeast32BitUnsigned, CheckedAdd, CheckedSub, MaybeSerializeDeserialize, Member, Saturating, StaticLookup, Zero},
    ArithmeticError, DispatchError, DispatchResult, FixedPointOperand, RuntimeDebug, TokenError,
};

#[derive(Encode, Decode, Clone, PartialEq, Eq, Default, RuntimeDebug, MaxEncodedLen, TypeInfo)]
pub struct AccountData<Balance> {
    pub free: Balance,
    pub reserved: Balance,
    pub frozen: Balance,
    pub flags: u128,
}
impl<B: Saturating + Copy> AccountData<B> {
    pub fn total(&self) -> B {
        self.free.saturating_add(self.reserved)
    }
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, RuntimeDebug, MaxEncodedLen, TypeInfo)]
pub struct BalanceLock<Balance> {
    pub id: LockIdentifier,
    pub amount: Balance,
}

#[frame_support::pallet]
pub mod pallet {
    use super::*;

    #[pallet::config]
    pub trait Config<I: 'static = ()>: frame_system::Config {
        type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type Balance: Parameter + Member + AtLeast32BitUnsigned + Default + Copy + MaybeSerializeDeserialize + MaxEncodedLen + TypeInfo + FixedPointOperand;
        type DustRemoval;
        #[pallet::constant]
        type ExistentialDeposit: Get<Self::Balance>;
        type AccountStore: StoredMap<Self::AccountId, AccountData<Self::Balance>>;
        type WeightInfo;
        type MaxLocks;
        type MaxReserves;
        type ReserveIdentifier;
        type RuntimeHoldReason;
        type FreezeIdentifier;
        type MaxFreezes;
        type MaxHolds;
    }
    #[pallet::pallet]
    pub struct Pallet<T, I = ()>(PhantomData<(T, I)>);

    #[pallet::event]
    #[pallet::generate_deposit(pub(crate) fn deposit_event)]
    pub enum Event<T: Config<I>, I: 'static = ()> {
        Endowed { account: T::AccountId, free_balance: T::Balance },
        Transfer { from: T::AccountId, to: T::AccountId, amount: T::Balance },
        BalanceSet { who: T::AccountId, free: T::Balance },
        Reserved { who: T::AccountId, amount: T::Balance },
        Unreserved { who: T::AccountId, amount: T::Balance },
        Deposit { who: T::AccountId, amount: T::Balance },
        Withdraw { who: T::AccountId, amount: T::Balance },
        Slashed { who: T::AccountId, amount: T::Balance },
    }
    #[pallet::error]
    pub enum Error<T, I = ()> {
        VestingBalance,
        LiquidityRestrictions,
        InsufficientBalance,
        ExistentialDeposit,
        Expendability,
        ExistingVestingSchedule,
        DeadAccount,
    }
    #[pallet::storage]
    #[pallet::getter(fn total_issuance)]
    pub type TotalIssuance<T: Config<I>, I: 'static = ()> = StorageValue<_, T::Balance, ValueQuery>;
    #[pallet::storage]
    pub type Locks<T: Config<I>, I: 'static = ()> = StorageMap<_, Blake2_128Concat, T::AccountId, Vec<BalanceLock<T::Balance>>, ValueQuery>;

    #[pallet::genesis_config]
    #[derive(frame_support::DefaultNoBound)]
    pub struct GenesisConfig<T: Config<I>, I: 'static = ()> {
        pub balances: Vec<(T::AccountId, T::Balance)>,
    }
    #[pallet::genesis_build]
    impl<T: Config<I>, I: 'static> BuildGenesisConfig for GenesisConfig<T, I> {
        fn build(&self) {
            let total = self.balances.iter().fold(T::Balance::zero(), |a, x| a + x.1);
            TotalIssuance::<T, I>::put(total);
            for (who, free) in self.balances.iter() {
                frame_system::Pallet::<T>::inc_providers(who);
                let _ = T::AccountStore::insert(who, AccountData { free: *free, ..Default::default() });
            }
        }
    }
    #[pallet::call]
    impl<T: Config<I>, I: 'static> Pallet<T, I> {
        #[pallet::call_index(0)]
        #[pallet::weight(Weight::zero())]
        pub fn transfer_allow_death(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
            let from = ensure_signed(origin)?;
            let to = T::Lookup::lookup(dest)?;
            <Self as Currency<_>>::transfer(&from, &to, value, ExistenceRequirement::AllowDeath)
        }
        #[pallet::call_index(3)]
        #[pallet::weight(Weight::zero())]
        pub fn transfer_keep_alive(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
            let from = ensure_signed(origin)?;
            let to = T::Lookup::lookup(dest)?;
            <Self as Currency<_>>::transfer(&from, &to, value, ExistenceRequirement::KeepAlive)
        }
        #[pallet::call_index(7)]
        #[pallet::weight(Weight::zero())]
        pub fn transfer(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
            let from = ensure_signed(origin)?;
            let to = T::Lookup::lookup(dest)?;
            <Self as Currency<_>>::transfer(&from, &to, value, ExistenceRequirement::AllowDeath)
        }
        #[pallet::call_index(5)]
        #[pallet::weight(Weight::zero())]
        pub fn force_unreserve(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, amount: T::Balance) -> DispatchResult {
            ensure_root(origin)?;
            let who = T::Lookup::lookup(who)?;
            let _ = <Self as ReservableCurrency<_>>::unreserve(&who, amount);
            Ok(())
        }
        #[pallet::call_index(8)]
        #[pallet::weight(Weight::zero())]
        pub fn force_set_balance(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, #[pallet::compact] new_free: T::Balance) -> DispatchResult {
            ensure_root(origin)?;
            let who = T::Lookup::lookup(who)?;
            let new_free = if new_free < T::ExistentialDeposit::get() { Zero::zero() } else { new_free };
            let old = Self::mutate(&who, |a| {
                let old = a.free;
                a.free = new_free;
                Ok(old)
            })?;
            if new_free > old {
                TotalIssuance::<T, I>::mutate(|t| *t = t.saturating_add(new_free - old));
            } else {
                TotalIssuance::<T, I>::mutate(|t| *t = t.saturating_sub(old - new_free));
            }
            Self::deposit_event(Event::BalanceSet { who, free: new_free });
            Ok(())
        }
    }
}

impl<T: Config<I>, I: 'static> Pallet<T, I> {
    pub fn account(who: &T::AccountId) -> AccountData<T::Balance> {
        T::AccountStore::get(who)
    }
    fn mutate<R>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>) -> Result<R, DispatchError>) -> Result<R, DispatchError> {
        let before = Self::account(who);
        let mut after = before.clone();
        let r = f(&mut after)?;
        let (was, is) = (!before.total().is_zero(), !after.total().is_zero());
        if !was && is {
            frame_system::Pallet::<T>::inc_providers(who);
            Self::deposit_event(Event::Endowed { account: who.clone(), free_balance: after.free });
        }
        T::AccountStore::insert(who, after)?;
        if was && !is {
            frame_system::Pallet::<T>::dec_providers(who)?;
        }
        Ok(r)
    }
    pub fn free_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
        Self::account(who.borrow()).free
    }
    pub fn reserved_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
        Self::account(who.borrow()).reserved
    }
    pub fn usable_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
        let a = Self::account(who.borrow());
        a.free.saturating_sub(a.frozen)
    }
    fn update_locks(who: &T::AccountId, locks: Vec<BalanceLock<T::Balance>>) {
        let frozen = locks.iter().map(|l| l.amount).max().unwrap_or_else(Zero::zero);
        let _ = T::AccountStore::mutate(who, |a| a.frozen = frozen);
        if locks.is_empty() {
            if Locks::<T, I>::take(who).len() > 0 {
                frame_system::Pallet::<T>::dec_consumers(who);
            }
        } else {
            if Locks::<T, I>::get(who).is_empty() {
                let _ = frame_system::Pallet::<T>::inc_consumers(who);
            }
            Locks::<T, I>::insert(who, locks);
        }
    }
}

macro_rules! imbalance {
    ($a:ident, $b:ident, $drop:ident) => {
        pub struct $a<T: Config<I>, I: 'static = ()>(T::Balance, PhantomData<I>);
        impl<T: Config<I>, I: 'static> $a<T, I> {
            pub fn new(b: T::Balance) -> Self {
                $a(b, PhantomData)
            }
        }
        impl<T: Config<I>, I: 'static> Default for $a<T, I> {
            fn default() -> Self {
                Self::new(Zero::zero())
            }
        }
        impl<T: Config<I>, I: 'static> TryDrop for $a<T, I> {
            fn try_drop(self) -> Result<(), Self> {
                self.drop_zero()
            }
        }
        impl<T: Config<I>, I: 'static> Imbalance<T::Balance> for $a<T, I> {
            type Opposite = $b<T, I>;
            fn zero() -> Self {
                Self::new(Zero::zero())
            }
            fn drop_zero(self) -> Result<(), Self> {
                if self.0.is_zero() {
                    Ok(())
                } else {
                    Err(self)
                }
            }
            fn split(self, amount: T::Balance) -> (Self, Self) {
                let first = self.0.min(amount);
                let second = self.0 - first;
                std::mem::forget(self);
                (Self::new(first), Self::new(second))
            }
            fn merge(mut self, other: Self) -> Self {
                self.0 = self.0.saturating_add(other.0);
                std::mem::forget(other);
                self
            }
            fn subsume(&mut self, other: Self) {
                self.0 = self.0.saturating_add(other.0);
                std::mem::forget(other);
            }
            fn offset(self, other: $b<T, I>) -> SameOrOther<Self, $b<T, I>> {
                let (a, b) = (self.0, other.0);
                std::mem::forget((self, other));
                if a > b {
                    SameOrOther::Same(Self::new(a - b))
                } else if b > a {
                    SameOrOther::Other($b::new(b - a))
                } else {
                    SameOrOther::None
                }
            }
            fn peek(&self) -> T::Balance {
                self.0
            }
        }
        impl<T: Config<I>, I: 'static> Drop for $a<T, I> {
            fn drop(&mut self) {
                TotalIssuance::<T, I>::mutate(|v| *v = v.$drop(self.0));
            }
        }
    };
}
imbalance!(PositiveImbalance, NegativeImbalance, saturating_add);
imbalance!(NegativeImbalance, PositiveImbalance, saturating_sub);

impl<T: Config<I>, I: 'static> Currency<T::AccountId> for Pallet<T, I> {
    type Balance = T::Balance;
    type PositiveImbalance = PositiveImbalance<T, I>;
    type NegativeImbalance = NegativeImbalance<T, I>;
    fn total_balance(who: &T::AccountId) -> T::Balance {
        Self::account(who).total()
    }
    fn can_slash(who: &T::AccountId, value: T::Balance) -> bool {
        value.is_zero() || Self::free_balance(who) >= value
    }
    fn total_issuance() -> T::Balance {
        TotalIssuance::<T, I>::get()
    }
    fn minimum_balance() -> T::Balance {
        T::ExistentialDeposit::get()
    }
    fn burn(amount: T::Balance) -> PositiveImbalance<T, I> {
        let amount = amount.min(TotalIssuance::<T, I>::get());
        TotalIssuance::<T, I>::mutate(|t| *t = *t - amount);
        PositiveImbalance::new(amount)
    }
    fn issue(amount: T::Balance) -> NegativeImbalance<T, I> {
        TotalIssuance::<T, I>::mutate(|t| *t = t.saturating_add(amount));
        NegativeImbalance::new(amount)
    }
    fn free_balance(who: &T::AccountId) -> T::Balance {
        Self::account(who).free
    }
    fn ensure_can_withdraw(who: &T::AccountId, amount: T::Balance, _r: WithdrawReasons, new_balance: T::Balance) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        ensure!(new_balance >= Self::account(who).frozen, Error::<T, I>::LiquidityRestrictions);
        Ok(())
    }
    fn transfer(source: &T::AccountId, dest: &T::AccountId, value: T::Balance, er: ExistenceRequirement) -> DispatchResult {
        if value.is_zero() || source == dest {
            return Ok(());
        }
        let a = Self::account(source);
        let left = a.free.checked_sub(&value).ok_or(TokenError::FundsUnavailable)?;
        ensure!(left >= a.frozen, TokenError::Frozen);
        let rest = left.saturating_add(a.reserved);
        ensure!(rest >= T::ExistentialDeposit::get() || er == ExistenceRequirement::AllowDeath, TokenError::NotExpendable);
        let d = Self::account(dest);
        let new_d = d.free.checked_add(&value).ok_or(ArithmeticError::Overflow)?;
        ensure!(new_d.saturating_add(d.reserved) >= T::ExistentialDeposit::get(), TokenError::BelowMinimum);
        Self::mutate(dest, |x| {
            x.free = new_d;
            Ok(())
        })?;
        Self::mutate(source, |x| {
            x.free = left;
            Ok(())
        })?;
        Self::deposit_event(Event::Transfer { from: source.clone(), to: dest.clone(), amount: value });
        Ok(())
    }
    fn slash(who: &T::AccountId, value: T::Balance) -> (NegativeImbalance<T, I>, T::Balance) {
        let a = Self::account(who);
        let f = a.free.min(value);
        let r = a.reserved.min(value - f);
        let _ = Self::mutate(who, |x| {
            x.free = x.free - f;
            x.reserved = x.reserved - r;
            Ok(())
        });
        (NegativeImbalance::new(f + r), value - f - r)
    }
    fn deposit_into_existing(who: &T::AccountId, value: T::Balance) -> Result<PositiveImbalance<T, I>, DispatchError> {
        if value.is_zero() {
            return Ok(PositiveImbalance::zero());
        }
        ensure!(!Self::account(who).total().is_zero(), Error::<T, I>::DeadAccount);
        Self::mutate(who, |a| {
            a.free = a.free.checked_add(&value).ok_or(ArithmeticError::Overflow)?;
            Ok(())
        })?;
        Self::deposit_event(Event::Deposit { who: who.clone(), amount: value });
        Ok(PositiveImbalance::new(value))
    }
    fn deposit_creating(who: &T::AccountId, value: T::Balance) -> PositiveImbalance<T, I> {
        if value.is_zero() || (Self::account(who).total().is_zero() && value < T::ExistentialDeposit::get()) {
            return PositiveImbalance::zero();
        }
        Self::mutate(who, |a| {
            a.free = a.free.checked_add(&value).ok_or(ArithmeticError::Overflow)?;
            Ok(())
        })
        .map_or_else(|_| PositiveImbalance::zero(), |_| PositiveImbalance::new(value))
    }
    fn withdraw(who: &T::AccountId, value: T::Balance, _r: WithdrawReasons, liveness: ExistenceRequirement) -> Result<NegativeImbalance<T, I>, DispatchError> {
        if value.is_zero() {
            return Ok(NegativeImbalance::zero());
        }
        let a = Self::account(who);
        let left = a.free.checked_sub(&value).ok_or(Error::<T, I>::InsufficientBalance)?;
        let dies = left < T::ExistentialDeposit::get() && a.free >= T::ExistentialDeposit::get();
        ensure!(!(dies && liveness == ExistenceRequirement::KeepAlive), Error::<T, I>::Expendability);
        ensure!(left >= a.frozen, Error::<T, I>::LiquidityRestrictions);
        Self::mutate(who, |x| {
            x.free = left;
            Ok(())
        })?;
        Self::deposit_event(Event::Withdraw { who: who.clone(), amount: value });
        Ok(NegativeImbalance::new(value))
    }
    fn make_free_balance_be(who: &T::AccountId, value: T::Balance) -> SignedImbalance<T::Balance, PositiveImbalance<T, I>> {
        let a = Self::account(who);
        if value.saturating_add(a.reserved) < T::ExistentialDeposit::get() && a.total().is_zero() {
            return SignedImbalance::Positive(PositiveImbalance::zero());
        }
        let _ = Self::mutate(who, |x| {
            x.free = value;
            Ok(())
        });
        if a.free <= value {
            SignedImbalance::Positive(PositiveImbalance::new(value - a.free))
        } else {
            SignedImbalance::Negative(NegativeImbalance::new(a.free - value))
        }
    }
}
impl<T: Config<I>, I: 'static> ReservableCurrency<T::AccountId> for Pallet<T, I> {
    fn can_reserve(who: &T::AccountId, value: T::Balance) -> bool {
        value.is_zero() || Self::free_balance(who).checked_sub(&value).map_or(false, |n| n >= Self::account(who).frozen)
    }
    fn slash_reserved(who: &T::AccountId, value: T::Balance) -> (NegativeImbalance<T, I>, T::Balance) {
        let actual = Self::account(who).reserved.min(value);
        let _ = Self::mutate(who, |a| {
            a.reserved = a.reserved - actual;
            Ok(())
        });
        (NegativeImbalance::new(actual), value - actual)
    }
    fn reserved_balance(who: &T::AccountId) -> T::Balance {
        Self::account(who).reserved
    }
    fn reserve(who: &T::AccountId, value: T::Balance) -> DispatchResult {
        if value.is_zero() {
            return Ok(());
        }
        Self::mutate(who, |a| {
            a.free = a.free.checked_sub(&value).ok_or(Error::<T, I>::InsufficientBalance)?;
            ensure!(a.free >= a.frozen, Error::<T, I>::LiquidityRestrictions);
            a.reserved = a.reserved.checked_add(&value).ok_or(ArithmeticError::Overflow)?;
            Ok(())
        })?;
        Self::deposit_event(Event::Reserved { who: who.clone(), amount: value });
        Ok(())
    }
    fn unreserve(who: &T::AccountId, value: T::Balance) -> T::Balance {
        if value.is_zero() {
            return value;
        }
        let actual = Self::account(who).reserved.min(value);
        let _ = Self::mutate(who, |a| {
            a.reserved = a.reserved - actual;
            a.free = a.free.saturating_add(actual);
            Ok(())
        });
        Self::deposit_event(Event::Unreserved { who: who.clone(), amount: actual });
        value - actual
    }
    fn repatriate_reserved(slashed: &T::AccountId, beneficiary: &T::AccountId, value: T::Balance, status: BalanceStatus) -> Result<T::Balance, DispatchError> {
        if slashed == beneficiary {
            return match status {
                BalanceStatus::Free => Ok(Self::unreserve(slashed, value)),
                BalanceStatus::Reserved => Ok(value.saturating_sub(Self::account(slashed).reserved)),
            };
        }
        let actual = Self::account(slashed).reserved.min(value);
        Self::mutate(beneficiary, |a| {
            match status {
                BalanceStatus::Free => a.free = a.free.saturating_add(actual),
                BalanceStatus::Reserved => a.reserved = a.reserved.saturating_add(actual),
            }
            Ok(())
        })?;
        Self::mutate(slashed, |a| {
            a.reserved = a.reserved - actual;
            Ok(())
        })?;
        Ok(value - actual)
    }
}
impl<T: Config<I>, I: 'static> LockableCurrency<T::AccountId> for Pallet<T, I> {
    type Moment = BlockNumberFor<T>;
    type MaxLocks = ConstU32<50>;
    fn set_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, reasons: WithdrawReasons) {
        if reasons == WithdrawReasons::empty() || amount.is_zero() {
            Self::remove_lock(id, who);
            return;
        }
        let mut locks = Locks::<T, I>::get(who);
        match locks.iter_mut().find(|l| l.id == id) {
            Some(l) => l.amount = amount,
            None => locks.push(BalanceLock { id, amount }),
        }
        Self::update_locks(who, locks);
    }
    fn extend_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, reasons: WithdrawReasons) {
        if reasons == WithdrawReasons::empty() || amount.is_zero() {
            return;
        }
        let mut locks = Locks::<T, I>::get(who);
        match locks.iter_mut().find(|l| l.id == id) {
            Some(l) => l.amount = l.amount.max(amount),
            None => locks.push(BalanceLock { id, amount }),
        }
        Self::update_locks(who, locks);
    }
    fn remove_lock(id: LockIdentifier, who: &T::AccountId) {
        let mut locks = Locks::<T, I>::get(who);
        locks.retain(|l| l.id != id);
        Self::update_locks(who, locks);
    }
}
