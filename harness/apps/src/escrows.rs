//! Behaviours of specs/apps/escrow.qnt.
use crate::dispatch;
use codec::{Decode, Encode};
use frame_support::{
    parameter_types,
    traits::{ConstU128, ConstU32, ConstU64, Currency as _, ExistenceRequirement, Hooks, ReservableCurrency},
    PalletId,
};
use itf::{agree, guarded, Report, Trace, V};
use primitives::{CurrencyId, CurrencyId::Token, TokenSymbol::*};
use reward::RewardsApi;
use sp_arithmetic::{FixedI128, FixedU128};
use sp_runtime::{traits::Convert, BuildStorage, DispatchError, DispatchResult};

type Block = frame_system::mocking::MockBlock<Test>;
frame_support::construct_runtime!(
    pub enum Test
    {
        System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
        Balances: pallet_balances::{Pallet, Call, Storage, Config<T>, Event<T>},
        Rewards: reward::{Pallet, Call, Storage, Event<T>},
        Escrow: escrow::{Pallet, Call, Storage, Event<T>},
        Annuity: annuity::{Pallet, Call, Storage, Event<T>},
        Supply: supply::{Pallet, Call, Storage, Config<T>, Event<T>},
    }
);
crate::system!(Test, pallet_balances::AccountData<u128>);
parameter_types! {
    pub const AnnuityId: PalletId = PalletId(*b"esc/annu");
    pub const SupplyId: PalletId = PalletId(*b"mod/supl");
    pub storage Wrapped: u128 = 500;
}
pub struct Plain;
impl Convert<u64, u128> for Plain {
    fn convert(n: u64) -> u128 {
        n as u128
    }
}
impl pallet_balances::Config for Test {
    type Balance = u128;
    type DustRemoval = ();
    type RuntimeEvent = RuntimeEvent;
    type ExistentialDeposit = ConstU128<1>;
    type AccountStore = System;
    type WeightInfo = ();
    type MaxLocks = ();
    type MaxReserves = ();
    type ReserveIdentifier = [u8; 8];
    type RuntimeHoldReason = ();
    type FreezeIdentifier = ();
    type MaxFreezes = ();
    type MaxHolds = ();
}
impl reward::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type SignedFixedPoint = FixedI128;
    type PoolId = ();
    type StakeId = u64;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<1>;
}
impl escrow::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type BlockNumberToBalance = Plain;
    type Currency = Balances;
    type Span = ConstU64<10>;
    type MaxPeriod = ConstU64<100>;
    type EscrowRewards = Rewards;
    type WeightInfo = ();
}
/// As in the runtime.
pub struct Provider;
impl annuity::BlockRewardProvider<u64> for Provider {
    type Currency = Balances;
    fn distribute_block_reward(_from: &u64, amount: u128) -> DispatchResult {
        <Rewards as RewardsApi<(), u64, u128>>::distribute_reward(&(), Token(INTR), amount)
    }
    fn withdraw_reward(who: &u64) -> Result<u128, DispatchError> {
        <Rewards as RewardsApi<(), u64, u128>>::withdraw_reward(&(), who, Token(INTR))
    }
}
impl annuity::Config for Test {
    type AnnuityPalletId = AnnuityId;
    type RuntimeEvent = RuntimeEvent;
    type Currency = Balances;
    type BlockRewardProvider = Provider;
    type BlockNumberToBalance = Plain;
    type EmissionPeriod = ConstU64<40>;
    type TotalWrapped = Wrapped;
    type WeightInfo = ();
}
pub struct Inflated;
impl supply::OnInflation<u64> for Inflated {
    type Currency = Balances;
    fn on_inflation(from: &u64, amount: u128) {
        let part = amount * 375 / 1000;
        let _ = <Balances as frame_support::traits::Currency<u64>>::transfer(from, &Annuity::account_id(), part, ExistenceRequirement::KeepAlive);
        Annuity::update_reward_per_block();
    }
}
impl supply::Config for Test {
    type SupplyPalletId = SupplyId;
    type RuntimeEvent = RuntimeEvent;
    type UnsignedFixedPoint = FixedU128;
    type Currency = Balances;
    type InflationPeriod = ConstU64<60>;
    type OnInflation = Inflated;
    type WeightInfo = ();
}

fn who(a: u64) -> u64 {
    match a {
        8 => Annuity::account_id(),
        9 => Supply::account_id(),
        a => a,
    }
}
fn ext(st: &V) -> sp_io::TestExternalities {
    let s = st.get("w");
    let g = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    let mut e: sp_io::TestExternalities = g.into();
    e.execute_with(|| {
        System::set_block_number(s.get("h").u());
        for (a, x) in s.get("bal").map() {
            Balances::deposit_creating(&who(a.u()), x.u128());
        }
        if !s.get("start").is_neg() {
            Supply::set_start_height_and_inflation(RuntimeOrigin::root(), s.get("start").u(), FixedU128::from_inner(s.get("inflation").u128())).unwrap();
        }
    });
    e
}
fn perform(op: &V) -> Result<u128, DispatchError> {
    let a = op.get("who").u();
    let by = RuntimeOrigin::signed(a);
    let root = if op.get("root").b() { RuntimeOrigin::root() } else { RuntimeOrigin::signed(1) };
    let (x, y) = (op.get("x"), op.get("y"));
    let had = Balances::free_balance(a);
    dispatch(|| {
        match op.get("what").s() {
            "create" => Escrow::create_lock(by, x.u128(), y.u())?,
            "add" => Escrow::increase_amount(by, x.u128())?,
            "extend" => Escrow::increase_unlock_height(by, y.u())?,
            "unlock" => Escrow::withdraw(by)?,
            "refresh" => Escrow::update_user_stake(by, op.get("to").u())?,
            "reserve" => <Escrow as ReservableCurrency<u64>>::reserve(&a, x.u128())?,
            "release" => return Ok(<Escrow as ReservableCurrency<u64>>::unreserve(&a, x.u128())),
            "send" => Balances::transfer_allow_death(by, op.get("to").u(), x.u128())?,
            "wrapped" => Wrapped::set(&x.u128()),
            "limit" => drop(Escrow::set_account_limit(root, a, x.u(), y.u()).map_err(|e| e.error)?),
            "bar" => drop(Escrow::set_account_block(root, a).map_err(|e| e.error)?),
            "renew" => drop(Annuity::update_rewards(root).map_err(|e| e.error)?),
            "per wrapped" => drop(Annuity::set_reward_per_wrapped(root, x.u128()).map_err(|e| e.error)?),
            "inflate" => drop(Supply::set_start_height_and_inflation(root, y.u(), FixedU128::from_inner(x.u128())).map_err(|e| e.error)?),
            "claim" => {
                Annuity::withdraw_rewards(by).map_err(|e| e.error)?;
                return Ok(Balances::free_balance(a) - had);
            }
            "blocks" => {
                for _ in 0..x.u() {
                    let n = System::block_number() + 1;
                    System::set_block_number(n);
                    Supply::on_initialize(n);
                    Escrow::on_initialize(n);
                    Annuity::on_initialize(n);
                }
            }
            other => itf::tool_error(&format!("unknown operation {}", other)),
        }
        Ok(0)
    })
}
fn compare(op: &V, st: &V) -> Result<u64, String> {
    let w = st.get("w");
    let seen = st.get("seen");
    let mut n = 0;
    let mut same = |m: &dyn Fn() -> String, spec: u128, code: u128| {
        n += 1;
        agree(format!("after {:?}: {}", op, m()), spec, code)
    };
    let h = System::block_number();
    same(&|| "height".into(), w.get("h").u128(), h as u128)?;
    let ahead = [0u64, 1, 10, 37, 60, 99, 100];
    for (a, k) in w.get("locks").map() {
        let (i, a) = (a, a.u());
        let (amount, end) = <(u128, u64)>::decode(&mut &escrow::Locked::<Test>::get(a).encode()[..]).unwrap();
        same(&|| format!("locked by {}", a), k.get("amount").u128(), amount)?;
        same(&|| format!("end of the lock of {}", a), k.get("end").u128(), end as u128)?;
        let powers = seen.get("power").of(i);
        for (d, p) in ahead.iter().zip(powers.list()) {
            same(&|| format!("power of {} in {} blocks", a, d), p.u128(), Escrow::balance_at(&a, Some(h + d)))?;
        }
        same(&|| format!("power of {}", a), powers.at(0).u128(), <Escrow as frame_support::traits::Currency<u64>>::total_balance(&a))?;
        same(&|| format!("free power of {}", a), seen.get("free").of(i).u128(), <Escrow as frame_support::traits::Currency<u64>>::free_balance(&a))?;
        same(&|| format!("what {} could still lock", a), seen.get("room").of(i).u128(), Escrow::free_stakable(&a))?;
        same(&|| format!("reserved of {}", a), w.get("reserved").of(i).u128(), <Escrow as ReservableCurrency<u64>>::reserved_balance(&a))?;
        let claim = seen.get("claims").of(i);
        let real = <Rewards as RewardsApi<(), u64, u128>>::compute_reward(&(), &a, Token(INTR)).ok();
        agree(format!("after {:?}: rewards of {}", op, a), if claim.is_neg() { None } else { Some(claim.u128()) }, real)?;
    }
    for (k, x) in w.get("pool").get("stake").map() {
        let a = k.at(1).u();
        same(&|| format!("stake of {}", a), x.u128(), Rewards::stake(&(), &a).into_inner() as u128)?;
    }
    for (d, p) in ahead.iter().zip(seen.get("total").list()) {
        same(&|| format!("power of all in {} blocks", d), p.u128(), Escrow::total_supply(Some(h + d)))?;
    }
    same(&|| "power of all".into(), seen.get("total").at(0).u128(), <Escrow as frame_support::traits::Currency<u64>>::total_issuance())?;
    for (a, x) in w.get("bal").map() {
        same(&|| format!("balance of {}", a.u()), x.u128(), Balances::free_balance(who(a.u())))?;
    }
    same(&|| "reward per block".into(), w.get("rpb").u128(), Annuity::reward_per_block())?;
    same(&|| "reward of this block".into(), seen.get("pays").u128(), Annuity::min_reward_per_block())?;
    let start = w.get("start");
    agree(format!("after {:?}: next inflation", op), if start.is_neg() { None } else { Some(start.u()) }, Supply::start_height())?;
    same(&|| "last inflation".into(), w.get("last").u128(), Supply::last_emission())?;
    Ok(n)
}
pub fn trace(rep: &mut Report, t: &Trace) -> Result<(), (usize, String)> {
    let mut e = ext(&t.states[0]);
    for (i, st) in t.states.iter().enumerate() {
        rep.steps += 1;
        let op = st.get("op");
        let r: Result<u64, String> = e.execute_with(|| {
            let what = op.get("what").s();
            if what != "init" {
                let got = guarded(|| perform(op)).map_err(|p| format!("panic in {:?}: {}", op, p))?;
                rep.kind(&format!("{}:{}", what, if op.get("ok").b() { "ok" } else { "refused" }));
                agree(format!("{:?}: accepted ({:?})", op, got), op.get("ok").b(), got.is_ok())?;
                if let Ok(x) = got {
                    agree(format!("{:?}: gives", op), op.get("out").u128(), x)?;
                }
            }
            compare(op, st).map(|n| n + 1)
        });
        rep.comparisons += r.map_err(|m| (i, m))?;
    }
    Ok(())
}
