//! Behaviours of specs/apps/dex.qnt.
use crate::dispatch;
use dex_general::PairStatus;
use frame_support::{
    parameter_types,
    traits::{ConstU32, Everything},
    PalletId,
};
use itf::{agree, guarded, Report, Trace, V};
use orml_traits::MultiCurrency;
use primitives::{CurrencyId, CurrencyId::*, TokenSymbol::*};
use sp_core::crypto::AccountId32;
use sp_runtime::{traits::AccountIdConversion, BuildStorage, DispatchError};

type Block = frame_system::mocking::MockBlock<Test>;
frame_support::construct_runtime!(
    pub enum Test
    {
        System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
        Tokens: orml_tokens::{Pallet, Call, Storage, Config<T>, Event<T>},
        Dex: dex_general::{Pallet, Call, Storage, Event<T>},
    }
);
crate::system!(Test, (), AccountId32);
parameter_types! {
    pub const Id: PalletId = PalletId(*b"dex/genr");
}
orml_traits::parameter_type_with_key! {
    pub ExistentialDeposits: |_c: CurrencyId| -> u128 { 0 };
}
impl orml_tokens::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type Balance = u128;
    type Amount = i128;
    type CurrencyId = CurrencyId;
    type WeightInfo = ();
    type ExistentialDeposits = ExistentialDeposits;
    type CurrencyHooks = ();
    type MaxLocks = ConstU32<50>;
    type MaxReserves = ConstU32<0>;
    type ReserveIdentifier = ();
    type DustRemovalWhitelist = Everything;
}
/// As in the runtime.
pub struct Lp;
impl dex_general::GenerateLpAssetId<CurrencyId> for Lp {
    fn generate_lp_asset_id(a: CurrencyId, b: CurrencyId) -> Option<CurrencyId> {
        CurrencyId::join_lp_token(a, b)
    }
}
pub struct Pairs;
impl dex_general::ValidateAsset<CurrencyId> for Pairs {
    fn validate_asset(c: &CurrencyId) -> bool {
        c.is_lp_token()
    }
}
impl dex_general::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type MultiCurrency = Tokens;
    type PalletId = Id;
    type AssetId = CurrencyId;
    type EnsurePairAsset = Pairs;
    type LpGenerate = Lp;
    type WeightInfo = ();
    type MaxBootstrapRewards = ConstU32<1000>;
    type MaxBootstrapLimits = ConstU32<1000>;
}

fn cur(t: u64) -> CurrencyId {
    match t {
        1 => Token(DOT),
        2 => ForeignAsset(1),
        3 => StableLpToken(0),
        p => Dex::lp_asset_id(&cur(p / 10), &cur(p % 10)).unwrap(),
    }
}
fn pair(p: u64) -> (CurrencyId, CurrencyId) {
    (cur(p / 10), cur(p % 10))
}
fn who(a: u64) -> AccountId32 {
    match a {
        99 => Id::get().into_sub_account_truncating("boot"),
        a if a > 100 => Dex::pair_account_id(cur((a - 100) / 10), cur(a % 10)),
        a => AccountId32::new([a as u8; 32]),
    }
}
fn maybe(x: &V) -> Option<AccountId32> {
    if x.is_neg() {
        None
    } else {
        Some(who(x.u()))
    }
}
fn path(l: &V) -> Vec<CurrencyId> {
    l.list().iter().map(|t| cur(t.u())).collect()
}
fn amounts(l: &V) -> Vec<(CurrencyId, u128)> {
    l.map().iter().map(|(t, x)| (cur(t.u()), x.u128())).collect()
}
fn ext(st: &V) -> sp_io::TestExternalities {
    let (s, op) = (st.get("w"), st.get("op"));
    let mut g = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    dex_general::GenesisConfig::<Test> { fee_receiver: maybe(s.get("taker")), fee_point: s.get("point").u() as u8 }.assimilate_storage(&mut g).unwrap();
    let mut e: sp_io::TestExternalities = g.into();
    e.execute_with(|| {
        System::set_block_number(s.get("h").u());
        for a in 1..=4 {
            for t in 1..=3 {
                Tokens::deposit(cur(t), &who(a), 1_000_000_000_000_000).unwrap();
            }
        }
        for (p, rate) in op.get("list").map() {
            let (a, b) = pair(p.u());
            Dex::create_pair(RuntimeOrigin::root(), a, b, rate.u128()).unwrap();
            Dex::add_liquidity(RuntimeOrigin::signed(who(1)), a, b, op.get("x").u128(), op.get("y").u128(), 0, 0, s.get("h").u() + 1).unwrap();
        }
    });
    e
}
fn perform(op: &V) -> Result<(), DispatchError> {
    let by = RuntimeOrigin::signed(who(op.get("who").u()));
    let root = if op.get("root").b() { RuntimeOrigin::root() } else { RuntimeOrigin::signed(who(1)) };
    let n = |k: &str| op.get(k).u128();
    let (a, b) = (cur(op.get("a").u()), cur(op.get("b").u()));
    let to = || who(op.get("to").u());
    let till = op.get("till").u();
    dispatch(|| match op.get("what").s() {
        "wait" => {
            System::set_block_number(System::block_number() + n("x") as u64);
            Ok(())
        }
        "send" => <Tokens as MultiCurrency<_>>::transfer(a, &who(op.get("who").u()), &to(), n("x")),
        "sell" => Dex::swap_exact_assets_for_assets(by, n("x"), n("y"), path(op.get("path")), to(), till),
        "buy" => Dex::swap_assets_for_exact_assets(by, n("x"), n("y"), path(op.get("path")), to(), till),
        "add" => Dex::add_liquidity(by, a, b, n("x"), n("y"), n("lx"), n("ly"), till),
        "remove" => Dex::remove_liquidity(by, a, b, n("x"), n("lx"), n("ly"), to(), till),
        "create" => Dex::create_pair(root, a, b, n("x")),
        "rate" => Dex::set_exchange_fee(root, a, b, n("x")),
        "taker" => Dex::set_fee_receiver(root, maybe(op.get("to"))),
        "point" => Dex::set_fee_point(root, n("x") as u8),
        "start" => Dex::bootstrap_create(root, a, b, n("x"), n("y"), n("lx"), n("ly"), till, path(op.get("path")), amounts(op.get("list"))),
        "amend" => Dex::bootstrap_update(root, a, b, n("x"), n("y"), n("lx"), n("ly"), till, path(op.get("path")), amounts(op.get("list"))),
        "contribute" => Dex::bootstrap_contribute(by, a, b, n("x"), n("y"), till),
        "open" => Dex::bootstrap_end(by, a, b),
        "claim" => Dex::bootstrap_claim(by, to(), a, b, till),
        "refund" => Dex::bootstrap_refund(by, a, b),
        "charge" => Dex::bootstrap_charge_reward(by, a, b, amounts(op.get("list"))),
        "take back" => Dex::bootstrap_withdraw_reward(root, a, b, to()),
        other => itf::tool_error(&format!("unknown operation {}", other)),
    })
}
type Status = (String, u128, u128, [u128; 6], u64);
fn status(s: PairStatus<u128, u64, AccountId32>) -> Status {
    match s {
        PairStatus::Disable => ("nothing".into(), 0, 0, [0; 6], 0),
        PairStatus::Trading(m) => ("open".into(), m.total_supply, m.fee_rate, [0; 6], 0),
        PairStatus::Bootstrap(b) => {
            let (t, c, g) = (b.target_supply, b.capacity_supply, b.accumulated_supply);
            ("filling".into(), 0, 0, [t.0, t.1, c.0, c.1, g.0, g.1], b.end_block_number)
        }
    }
}
fn expected(q: &V) -> Status {
    let b = q.get("boot");
    let two = |k: &str| [b.get(k).at(0).u128(), b.get(k).at(1).u128()];
    let (t, c, g) = (two("target"), two("most"), two("got"));
    (q.get("kind").s().into(), q.get("supply").u128(), q.get("rate").u128(), [t[0], t[1], c[0], c[1], g[0], g[1]], b.get("end").u())
}
fn compare(op: &V, st: &V) -> Result<u64, String> {
    let w = st.get("w");
    let mut n = 0;
    let msg = |m: String| format!("after {:?}: {}", op, m);
    for (k, x) in w.get("bal").map() {
        let (t, a) = (k.at(0).u(), k.at(1).u());
        n += 1;
        agree(msg(format!("{} has of {}", a, t)), x.u128(), Tokens::free_balance(cur(t), &who(a)))?;
    }
    for (p, q) in w.get("pairs").map() {
        let id = pair(p.u());
        agree(msg(format!("pair {}", p.u())), expected(q), status(Dex::pair_status(id)))?;
        agree(msg(format!("what pair {} was", p.u())), expected(w.get("past").of(p)), status(Dex::bootstrap_end_status(id)))?;
        let last = primitive(Dex::k_last(id));
        agree(msg(format!("last product of {}", p.u())), w.get("last").of(p).int().to_string(), last)?;
        agree(msg(format!("shares of {}", p.u())), q.get("supply").u128(), Tokens::total_issuance(cur(p.u())))?;
        let rewards: Vec<(CurrencyId, u128)> = Dex::get_bootstrap_rewards(id).into_iter().collect();
        let mut spec = amounts(w.get("prizes").of(p));
        spec.sort();
        agree(msg(format!("rewards of {}", p.u())), spec, rewards)?;
        let limits: Vec<(CurrencyId, u128)> = Dex::get_bootstrap_limits(id).into_iter().collect();
        let mut spec = amounts(w.get("needs").of(p));
        spec.sort();
        agree(msg(format!("limits of {}", p.u())), spec, limits)?;
        n += 6;
    }
    for (k, g) in w.get("given").map() {
        n += 1;
        agree(msg(format!("contribution {:?}", k)), (g.at(0).u128(), g.at(1).u128()), Dex::bootstrap_personal_supply((pair(k.at(0).u()), who(k.at(1).u()))))?;
    }
    let asked: [&[u64]; 6] = [&[1, 2], &[2, 1], &[2, 3], &[3, 1], &[1, 2, 3], &[3, 2, 1]];
    for (i, p) in asked.iter().enumerate() {
        let p: Vec<CurrencyId> = p.iter().map(|t| cur(*t)).collect();
        n += 2;
        agree(msg(format!("1000 sold over {:?}", p)), st.get("seen").get("sells").at(i).u128(), Dex::supply_out_amount(1000, p.clone()))?;
        agree(msg(format!("1000 bought over {:?}", p)), st.get("seen").get("buys").at(i).u128(), Dex::desired_in_amount(1000, p))?;
    }
    agree(msg("protocol fee".into()), (maybe(w.get("taker")), w.get("point").u() as u8), Dex::fee_meta())?;
    Ok(n + 1)
}
fn primitive(x: sp_core::U256) -> String {
    x.to_string()
}
pub fn trace(rep: &mut Report, t: &Trace) -> Result<(), (usize, String)> {
    let mut e = ext(&t.states[0]);
    for (i, st) in t.states.iter().enumerate() {
        rep.steps += 1;
        let op = st.get("op");
        let r: Result<u64, String> = e.execute_with(|| {
            let what = op.get("what").s();
            if what != "init" {
                let got = guarded(|| perform(op)).map_err(|p| format!("panic in {:?}: {}", op, p))?;
                rep.kind(&format!("{}:{}", what, if op.get("ok").b() { "ok" } else { "refused" }));
                agree(format!("{:?}: accepted ({:?})", op, got), op.get("ok").b(), got.is_ok())?;
            }
            compare(op, st).map(|n| n + 1)
        });
        rep.comparisons += r.map_err(|m| (i, m))?;
    }
    Ok(())
}
