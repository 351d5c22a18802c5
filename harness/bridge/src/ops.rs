//! What each step of a history does to the pallets.
use crate::{rt::*, see};
use bitcoin::{
    merkle::{MerkleProof, PartialTransactionProof},
    types::{BlockHeader, FullTransactionProof, H256Le, LockTime, Transaction, TransactionInput, TransactionInputSource, TransactionOutput, U256},
    Address, PublicKey, Script,
};
use frame_support::traits::Hooks;
use itf::{agree, guarded, Report, Trace, V};
use orml_traits::MultiCurrency;
use reward::RewardsApi;
use sp_core::{H160, H256};
use sp_runtime::DispatchError;

/// The requests so far, in the order they were made.
#[derive(Default, Clone)]
pub struct Ids {
    pub issues: Vec<H256>,
    pub redeems: Vec<H256>,
    pub replaces: Vec<H256>,
    tip: Option<(H256Le, u32)>,
}
fn added(known: &mut Vec<H256>, all: impl Iterator<Item = H256>) {
    let mut new: Vec<H256> = all.filter(|i| !known.contains(i)).collect();
    new.sort();
    new.dedup();
    known.extend(new);
}
impl Ids {
    pub fn update(&mut self) {
        added(&mut self.issues, (1..=5).flat_map(Issue::get_issue_requests_for_account));
        added(&mut self.redeems, (1..=5).flat_map(Redeem::get_redeem_requests_for_account));
        added(&mut self.replaces, (1..=5).flat_map(Replace::get_replace_requests_for_old_vault));
    }
}
fn at(l: &[H256], i: &V) -> H256 {
    l.get(i.us()).copied().unwrap_or_else(H256::zero)
}

// bitcoin: what has to be there for a payment is decided elsewhere; here it is taken as included
pub fn payee(who: u64) -> Address {
    Address::P2WPKHv0(H160::repeat_byte(0x40 + who as u8))
}
fn pay(outputs: Vec<(Option<Address>, i64, Option<H256>)>) -> FullTransactionProof {
    let transaction = Transaction {
        version: 2,
        inputs: vec![TransactionInput {
            source: TransactionInputSource::FromOutput(H256Le::from_bytes_le(&[7; 32]), 1),
            script: vec![],
            sequence: 0xffffffff,
            witness: vec![],
        }],
        outputs: outputs
            .into_iter()
            .map(|(a, value, data)| {
                let script = match (a, data) {
                    (Some(a), _) => a.to_script_pub_key(),
                    (None, Some(d)) => {
                        let mut s = vec![0x6a, 32];
                        s.extend(d.as_bytes());
                        Script::from(s)
                    }
                    _ => Script::from(vec![0x51]),
                };
                TransactionOutput { value, script }
            })
            .collect(),
        lock_at: LockTime::BlockHeight(0),
    };
    let p = PartialTransactionProof {
        tx_encoded_len: transaction.size_no_witness() as u32,
        transaction,
        merkle_proof: MerkleProof { block_header: Default::default(), flag_bits: vec![], transactions_count: 0, hashes: vec![] },
    };
    FullTransactionProof { user_tx_proof: p.clone(), coinbase_proof: p }
}
/// The payment a redeem or a replace asks for: 0, or with what is wrong about it.
fn settle(to: Address, amount: i64, id: H256, wrong: u64) -> FullTransactionProof {
    let to = if wrong == 1 { payee(60) } else { to };
    let data = if wrong == 2 { H256::repeat_byte(0x77) } else { id };
    let amount = if wrong == 3 { (amount - 1).max(0) } else { amount };
    let mut out = vec![(Some(to), amount, None), (None, 0, Some(data))];
    if wrong == 4 {
        out.pop();
    }
    pay(out)
}
fn mine(ids: &mut Ids) {
    let (prev, n) = ids.tip.unwrap_or((H256Le::zero(), 0));
    let mut h = BlockHeader {
        version: 4,
        hash_prev_block: prev,
        merkle_root: H256Le::from_bytes_le(&[n as u8; 32]),
        target: U256::from(0x7fffff) << 232,
        timestamp: 1_600_000_000 + n,
        nonce: 0,
        ..Default::default()
    };
    let hash = loop {
        let hash = h.hash().expect("header");
        if hash.as_u256() <= h.target {
            break hash;
        }
        h.nonce += 1;
    };
    if n == 0 {
        BTCRelay::initialize(RuntimeOrigin::signed(1), h, 100).expect("relay");
    } else {
        BTCRelay::store_block_header(RuntimeOrigin::signed(2), h, 1000).expect("header");
    }
    ids.tip = Some((hash, n + 1));
}
fn price(c: u64, x: i128) {
    if x < 0 {
        Oracle::expire_price(cur(c));
    } else {
        Oracle::_set_exchange_rate(cur(c), FixedU128::from_inner(x as u128)).expect("price");
    }
}

fn start(w: &V, ids: &mut Ids) {
    System::set_block_number(1);
    Security::set_active_block_number(w.get("now").u());
    mine(ids);
    Oracle::feed_values(RuntimeOrigin::signed(4), vec![(primitives::oracle::Key::FeeEstimation, FixedU128::from(1))]).expect("oracle");
    Oracle::begin_block(0);
    for (c, x) in w.get("rate").map() {
        price(c.u(), x.i128());
    }
    for a in 1..=3u64 {
        let mut key = [0x50 + a as u8; 33];
        key[0] = 2;
        // the abscissae of points on the curve
        key[1..].copy_from_slice(&KEYS[a as usize - 1]);
        VaultRegistry::register_public_key(RuntimeOrigin::signed(a), PublicKey(key)).expect("key");
    }
    for (v, x) in w.get("vaults").map() {
        if x.get("status").u() != 0 {
            let back = see::backing(w, v.u());
            dispatch(|| {
                VaultRegistry::register_vault(RuntimeOrigin::signed(vid(v.u()).account_id), vid(v.u()).currencies, back).map_err(|e| e.error)
            })
            .expect("vault");
        }
    }
}
const KEYS: [[u8; 32]; 3] = [
    [0x79, 0xbe, 0x66, 0x7e, 0xf9, 0xdc, 0xbb, 0xac, 0x55, 0xa0, 0x62, 0x95, 0xce, 0x87, 0x0b, 0x07, 0x02, 0x9b, 0xfc, 0xdb, 0x2d, 0xce, 0x28, 0xd9, 0x59, 0xf2, 0x81, 0x5b, 0x16, 0xf8, 0x17, 0x98],
    [0xc6, 0x04, 0x7f, 0x94, 0x41, 0xed, 0x7d, 0x6d, 0x30, 0x45, 0x40, 0x6e, 0x95, 0xc0, 0x7c, 0xd8, 0x5c, 0x77, 0x8e, 0x4b, 0x8c, 0xef, 0x3c, 0xa7, 0xab, 0xac, 0x09, 0xb9, 0x5c, 0x70, 0x9e, 0xe5],
    [0xf9, 0x30, 0x8a, 0x01, 0x92, 0x58, 0xc3, 0x10, 0x49, 0x34, 0x4f, 0x85, 0xf8, 0x9d, 0x52, 0x29, 0xb5, 0x31, 0xc8, 0x45, 0x83, 0x6f, 0x99, 0xb0, 0x86, 0x01, 0xf1, 0x13, 0xbc, 0xe0, 0x36, 0xf9],
];

type Res = Result<(), DispatchError>;
fn ok(r: frame_support::dispatch::DispatchResultWithPostInfo) -> Res {
    r.map(|_| ()).map_err(|e| e.error)
}
fn issue_pay(id: H256, x: i64, wrong: bool) -> FullTransactionProof {
    let to = Issue::issue_requests(id).map_or(payee(0), |r| r.btc_address);
    pay(vec![(None, 5, None), (Some(if wrong { payee(61) } else { to }), x, None)])
}

fn apply(op: &V, before: &V, ids: &mut Ids) -> Res {
    let s = |f: &str| op.get(f);
    let (v, who) = (vid(s("v").u()), s("who").u());
    let me = RuntimeOrigin::signed(who);
    let operator = RuntimeOrigin::signed(v.account_id);
    let root = RuntimeOrigin::root();
    let x = || s("x").u128();
    let rq = |f: &str| before.get("w").get(f).map().iter().find(|(k, _)| k == s("id")).map(|(_, r)| r.clone());
    match s("what").s() {
        "register" => ok(VaultRegistry::register_vault(operator, v.currencies, x())),
        "accept" => ok(VaultRegistry::accept_new_issues(operator, v.currencies, x() == 1)),
        "customize" => {
            let t = if x() == 0 { None } else { Some(fixed(s("x"))) };
            ok(VaultRegistry::set_custom_secure_threshold(operator, v.currencies, t))
        }
        "report" => ok(VaultRegistry::report_undercollateralized_vault(RuntimeOrigin::signed(5), v)),
        "recover" => VaultRegistry::recover_vault_id(operator, v.currencies),
        "price" => {
            price(s("c").u(), s("x").i128());
            Ok(())
        }
        "tick" => {
            for _ in 0..s("x").u() {
                let n = System::block_number() + 1;
                System::set_block_number(n);
                <Security as Hooks<u64>>::on_initialize(n);
            }
            for _ in 0..s("y").u() {
                mine(ids);
            }
            Ok(())
        }
        "root" => {
            let c = s("c").u();
            match s("id").u() {
                0 => VaultRegistry::set_secure_collateral_threshold(root, pair(c), fixed(s("x"))),
                1 => VaultRegistry::set_premium_redeem_threshold(root, pair(c), fixed(s("x"))),
                2 => VaultRegistry::set_liquidation_collateral_threshold(root, pair(c), fixed(s("x"))),
                3 => VaultRegistry::set_minimum_collateral(root, cur(c), x()),
                4 => VaultRegistry::set_system_collateral_ceiling(root, pair(c), x()),
                5 => ok(Issue::set_issue_period(root, s("x").u())),
                6 => ok(Redeem::set_redeem_period(root, s("x").u())),
                7 => ok(Replace::set_replace_period(root, s("x").u())),
                _ => ok(Nomination::set_nomination_enabled(root, x() == 1)),
            }
        }
        "deposit" => ok(Nomination::deposit_collateral(me, v, x())),
        "withdraw" => {
            let amount = if s("x").i128() < 0 { None } else { Some(x()) };
            ok(Nomination::withdraw_collateral(me, v, amount, Some(s("id").u())))
        }
        "opt in" => ok(Nomination::opt_in_to_nomination(operator, v.currencies)),
        "opt out" => ok(Nomination::opt_out_of_nomination(operator, v.currencies)),
        "limit" => ok(Nomination::set_nomination_limit(operator, v.currencies, x())),
        "commission" => ok(Fee::set_commission(operator, v.currencies, fixed(s("x")))),
        "collect" => {
            let index = if s("x").i128() < 0 { None } else { Some(s("x").u()) };
            ok(Fee::withdraw_rewards(me, v, index))
        }
        "reward" => {
            Tokens::deposit(Token(INTR), &Fee::fee_pool_account_id(), x())?;
            <CapacityRewards as RewardsApi<(), CurrencyId, Balance>>::distribute_reward(&(), Token(INTR), x())
        }
        "issue" => ok(Issue::request_issue(me, x(), v, cur(s("c").u()))),
        "execute issue" => {
            let id = at(&ids.issues, s("id"));
            ok(Issue::execute_issue(me, id, issue_pay(id, s("x").i64(), s("y").u() != 0)))
        }
        "cancel issue" => ok(Issue::cancel_issue(me, at(&ids.issues, s("id")))),
        "mint" => {
            ok(Issue::request_issue(me.clone(), x(), v, Token(INTR)))?;
            let mut now = ids.clone();
            now.update();
            let id = *now.issues.last().expect("the request");
            ok(Issue::execute_issue(me, id, issue_pay(id, s("x").i64(), false)))
        }
        "redeem" => ok(Redeem::request_redeem(me, x(), payee(who), v)),
        "execute redeem" => {
            let id = at(&ids.redeems, s("id"));
            let r = rq("redeems");
            let (to, amount) = r.map_or((payee(0), 0), |r| (payee(r.get("who").u()), r.get("amount").i64()));
            ok(Redeem::execute_redeem(RuntimeOrigin::signed(5), id, settle(to, amount, id, s("y").u())))
        }
        "cancel redeem" => ok(Redeem::cancel_redeem(me, at(&ids.redeems, s("id")), s("y").u() == 1)),
        "mint reimbursed" => ok(Redeem::mint_tokens_for_reimbursed_redeem(operator, v.currencies, at(&ids.redeems, s("id")))),
        "self redeem" => ok(Redeem::self_redeem(operator, v.currencies, x())),
        "liquidation redeem" => ok(Redeem::liquidation_redeem(me, pair(s("c").u()), x())),
        "replace" => ok(Replace::request_replace(operator, v.currencies, x())),
        "withdraw replace" => ok(Replace::withdraw_replace(operator, v.currencies, x())),
        "accept replace" => {
            let new = vid(s("v2").u());
            ok(Replace::accept_replace(RuntimeOrigin::signed(new.account_id), new.currencies, v, x(), s("y").u128(), payee(20 + s("v2").u())))
        }
        "execute replace" => {
            let id = at(&ids.replaces, s("id"));
            let r = rq("replaces");
            let (to, amount) = r.map_or((payee(0), 0), |r| (payee(20 + r.get("new").u()), r.get("amount").i64()));
            ok(Replace::execute_replace(RuntimeOrigin::signed(5), id, settle(to, amount, id, s("y").u())))
        }
        "cancel replace" => ok(Replace::cancel_replace(RuntimeOrigin::signed(5), at(&ids.replaces, s("id")))),
        o => panic!("{}", o),
    }
}

pub fn trace(rep: &mut Report, t: &Trace) -> Result<(), (usize, String)> {
    let mut e = ext(t.states[0].get("w"));
    let mut ids = Ids::default();
    for (i, st) in t.states.iter().enumerate() {
        rep.steps += 1;
        let op = st.get("op");
        let r: Result<u64, String> = e.execute_with(|| {
            if i == 0 {
                start(st.get("w"), &mut ids);
            } else {
                let before = &t.states[i - 1];
                let got = guarded(|| dispatch(|| apply(op, before, &mut ids))).map_err(|p| format!("panic: {}", p))?;
                rep.kind(&format!("{}:{}", op.get("what").s(), if op.get("ok").b() { "ok" } else { "refused" }));
                agree("accepted", op.get("ok").b(), got.is_ok()).map_err(|m| format!("{} ({:?})", m, got))?;
                ids.update();
            }
            see::compare(st, &ids)
        });
        match r {
            Ok(n) => rep.comparisons += n,
            Err(m) => return Err((i, format!("after {:?}: {}", op, m))),
        }
        if i > 0 && op.get("ok").b() {
            rep.sample(format!("{:?}", op));
        }
    }
    Ok(())
}
