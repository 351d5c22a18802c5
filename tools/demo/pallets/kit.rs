//! A small chain to tell stories on: vaults 1 (account 1, DOT), 2 (account 2, DOT), 3 (account 3, INTR), users 4 and 5.
#![allow(dead_code)]
use crate::rt::*;
use bitcoin::{
    merkle::{MerkleProof, PartialTransactionProof},
    types::{BlockHeader, FullTransactionProof, H256Le, LockTime, Transaction, TransactionInput, TransactionInputSource, TransactionOutput, U256},
    Address, PublicKey, Script,
};
use frame_support::traits::Hooks;
use sp_arithmetic::{FixedPointNumber, FixedU128};
use sp_core::{H160, H256};
use sp_runtime::{BuildStorage, DispatchError};

pub struct Par {
    pub issue_fee: f64, pub issue_griefing: f64, pub redeem_fee: f64, pub premium_fee: f64, pub punishment: f64, pub replace_griefing: f64,
    pub minimum: u128, pub ceiling: u128, pub secure: f64, pub premium: f64, pub liquidation: f64, pub delay: u64,
    pub issue_dust: u128, pub redeem_dust: u128, pub replace_dust: u128, pub transfer: u32, pub period: u64, pub collateral: [u128; 4], pub nomination: bool, pub per_block: u64, pub confirmations: u32,
}
impl Default for Par {
    fn default() -> Self {
        Par { issue_fee: 0.0, issue_griefing: 0.0, redeem_fee: 0.0, premium_fee: 0.05, punishment: 0.1, replace_griefing: 0.1,
            minimum: 100, ceiling: 1_000_000, secure: 1.5, premium: 1.35, liquidation: 1.1, delay: 5,
            issue_dust: 2, redeem_dust: 2, replace_dust: 2, transfer: 0, period: 10, collateral: [20_000, 20_000, 20_000, 0], nomination: true, per_block: 100, confirmations: 0 }
    }
}
pub fn f(x: f64) -> FixedU128 {
    FixedU128::from_inner((x * 1e6).round() as u128 * 1_000_000_000_000)
}
pub fn call<T>(g: impl FnOnce() -> Result<T, sp_runtime::DispatchErrorWithPostInfo<frame_support::dispatch::PostDispatchInfo>>) -> Result<T, DispatchError> {
    frame_support::storage::with_storage_layer(|| g().map_err(|e| e.error))
}
pub fn payee(who: u64) -> Address {
    Address::P2WPKHv0(H160::repeat_byte(0x40 + who as u8))
}
pub fn pay(outputs: Vec<(Option<Address>, i64, Option<H256>)>) -> FullTransactionProof {
    let outputs = outputs
        .into_iter()
        .map(|(a, value, data)| {
            let script = match (a, data) {
                (Some(a), _) => a.to_script_pub_key(),
                (None, Some(d)) => Script::from([vec![0x6a, 32], d.as_bytes().to_vec()].concat()),
                _ => Script::from(vec![0x51]),
            };
            TransactionOutput { value, script }
        })
        .collect();
    let transaction = Transaction {
        version: 2,
        inputs: vec![TransactionInput { source: TransactionInputSource::FromOutput(H256Le::from_bytes_le(&[7; 32]), 1), script: vec![], sequence: 0xffffffff, witness: vec![] }],
        outputs,
        lock_at: LockTime::BlockHeight(0),
    };
    let p = PartialTransactionProof {
        tx_encoded_len: transaction.size_no_witness() as u32,
        transaction,
        merkle_proof: MerkleProof { block_header: Default::default(), flag_bits: vec![], transactions_count: 0, hashes: vec![] },
    };
    FullTransactionProof { user_tx_proof: p.clone(), coinbase_proof: p }
}
pub fn paid(id: H256, x: i64) -> FullTransactionProof {
    pay(vec![(Some(Issue::issue_requests(id).unwrap().btc_address), x, None)])
}
pub fn settled(to: u64, x: i64, id: H256) -> FullTransactionProof {
    pay(vec![(Some(payee(to)), x, None), (None, 0, Some(id))])
}
thread_local! { static TIP: std::cell::RefCell<(H256Le, u32)> = std::cell::RefCell::new((H256Le::zero(), 0)); }
pub fn header(prev: H256Le, mark: u32) -> (BlockHeader, H256Le) {
    let mut h = BlockHeader { version: 4, hash_prev_block: prev, merkle_root: H256Le::from_bytes_le(&[mark as u8; 32]), target: U256::from(0x7fffff) << 232, timestamp: 1_600_000_000 + mark, nonce: 0, ..Default::default() };
    let hash = loop {
        let hash = h.hash().unwrap();
        if hash.as_u256() <= h.target { break hash; }
        h.nonce += 1;
    };
    (h, hash)
}
/// Stores a block on top of another, whichever branch that is on.
pub fn mine_on(prev: H256Le, mark: u32) -> H256Le {
    let (h, hash) = header(prev, mark);
    BTCRelay::store_block_header(RuntimeOrigin::signed(2), h, 1000).unwrap();
    hash
}
pub fn tip() -> H256Le { TIP.with(|t| t.borrow().0) }
pub fn mine() {
    let (prev, n) = TIP.with(|t| *t.borrow());
    let (h, hash) = header(prev, n);
    if n == 0 { BTCRelay::initialize(RuntimeOrigin::signed(1), h, 100).unwrap(); } else { BTCRelay::store_block_header(RuntimeOrigin::signed(2), h, 1000).unwrap(); }
    TIP.with(|t| *t.borrow_mut() = (hash, n + 1));
}
pub fn tick(blocks: u64, headers: u64) {
    for _ in 0..blocks {
        let n = System::block_number() + 1;
        System::set_block_number(n);
        <Security as Hooks<u64>>::on_initialize(n);
    }
    for _ in 0..headers { mine(); }
}
/// A block so late that what was asked for before has run out.
pub fn late() { tick(200, 40); }
pub fn price(c: u64, x: f64) { Oracle::_set_exchange_rate(cur(c), f(x)).unwrap(); }
pub fn on_chain(p: Par, story: impl FnOnce()) {
    PerBlock::set(p.per_block);
    let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    orml_tokens::GenesisConfig::<Test> { balances: (1..=5).flat_map(|a| [(a, Token(DOT), 100_000), (a, Token(INTR), 100_000)]).collect() }.assimilate_storage(&mut st).unwrap();
    fee::GenesisConfig::<Test> { issue_fee: f(p.issue_fee), issue_griefing_collateral: f(p.issue_griefing), redeem_fee: f(p.redeem_fee), premium_redeem_fee: f(p.premium_fee), punishment_fee: f(p.punishment), replace_griefing_collateral: f(p.replace_griefing) }.assimilate_storage(&mut st).unwrap();
    vault_registry::GenesisConfig::<Test> {
        minimum_collateral_vault: vec![(cur(0), p.minimum), (cur(1), p.minimum)],
        punishment_delay: p.delay,
        system_collateral_ceiling: vec![(pair(0), p.ceiling), (pair(1), p.ceiling)],
        secure_collateral_threshold: vec![(pair(0), f(p.secure)), (pair(1), f(p.secure))],
        premium_redeem_threshold: vec![(pair(0), f(p.premium)), (pair(1), f(p.premium))],
        liquidation_collateral_threshold: vec![(pair(0), f(p.liquidation)), (pair(1), f(p.liquidation))],
    }.assimilate_storage(&mut st).unwrap();
    issue::GenesisConfig::<Test> { issue_period: p.period, issue_btc_dust_value: p.issue_dust }.assimilate_storage(&mut st).unwrap();
    redeem::GenesisConfig::<Test> { redeem_transaction_size: p.transfer, redeem_period: p.period, redeem_btc_dust_value: p.redeem_dust }.assimilate_storage(&mut st).unwrap();
    replace::GenesisConfig::<Test> { replace_period: p.period, replace_btc_dust_value: p.replace_dust }.assimilate_storage(&mut st).unwrap();
    oracle::GenesisConfig::<Test> { authorized_oracles: vec![(4, Default::default())], max_delay: 4_000_000_000 }.assimilate_storage(&mut st).unwrap();
    loans::GenesisConfig::<Test> { max_exchange_rate: Rate::from_inner(1_000_000_000_000_000_000), min_exchange_rate: Rate::from_inner(20_000_000_000_000_000), _marker: Default::default() }.assimilate_storage(&mut st).unwrap();
    nomination::GenesisConfig::<Test> { is_nomination_enabled: p.nomination, _marker: Default::default() }.assimilate_storage(&mut st).unwrap();
    btc_relay::GenesisConfig::<Test> { bitcoin_confirmations: p.confirmations, parachain_confirmations: 0, disable_difficulty_check: true, disable_inclusion_check: true }.assimilate_storage(&mut st).unwrap();
    TIP.with(|t| *t.borrow_mut() = (H256Le::zero(), 0));
    sp_io::TestExternalities::from(st).execute_with(|| {
        System::set_block_number(1);
        Security::set_active_block_number(1);
        mine();
        Oracle::feed_values(RuntimeOrigin::signed(4), vec![(primitives::oracle::Key::FeeEstimation, FixedU128::from(1))]).unwrap();
        Oracle::begin_block(0);
        price(0, 1.0);
        price(1, 1.0);
        for a in 1..=3u64 {
            let mut key = [0; 33];
            key[0] = 2;
            key[1..].copy_from_slice(&KEYS[a as usize - 1]);
            VaultRegistry::register_public_key(RuntimeOrigin::signed(a), PublicKey(key)).unwrap();
        }
        for v in 1..=4u64 {
            let x = p.collateral[v as usize - 1];
            if x > 0 { VaultRegistry::register_vault(RuntimeOrigin::signed(vid(v).account_id), vid(v).currencies, x).unwrap(); }
        }
        story()
    })
}
const KEYS: [[u8; 32]; 3] = [
    [0x79, 0xbe, 0x66, 0x7e, 0xf9, 0xdc, 0xbb, 0xac, 0x55, 0xa0, 0x62, 0x95, 0xce, 0x87, 0x0b, 0x07, 0x02, 0x9b, 0xfc, 0xdb, 0x2d, 0xce, 0x28, 0xd9, 0x59, 0xf2, 0x81, 0x5b, 0x16, 0xf8, 0x17, 0x98],
    [0xc6, 0x04, 0x7f, 0x94, 0x41, 0xed, 0x7d, 0x6d, 0x30, 0x45, 0x40, 0x6e, 0x95, 0xc0, 0x7c, 0xd8, 0x5c, 0x77, 0x8e, 0x4b, 0x8c, 0xef, 0x3c, 0xa7, 0xab, 0xac, 0x09, 0xb9, 0x5c, 0x70, 0x9e, 0xe5],
    [0xf9, 0x30, 0x8a, 0x01, 0x92, 0x58, 0xc3, 0x10, 0x49, 0x34, 0x4f, 0x85, 0xf8, 0x9d, 0x52, 0x29, 0xb5, 0x31, 0xc8, 0x45, 0x83, 0x6f, 0x99, 0xb0, 0x86, 0x01, 0xf1, 0x13, 0xbc, 0xe0, 0x36, 0xf9],
];
fn newest(all: Vec<H256>, before: Vec<H256>) -> H256 {
    all.into_iter().find(|i| !before.contains(i)).expect("a new request")
}
pub fn ask_issue(who: u64, v: u64, x: u128) -> H256 {
    let b = Issue::get_issue_requests_for_account(who);
    call(|| Issue::request_issue(RuntimeOrigin::signed(who), x, vid(v), cur(1))).unwrap();
    newest(Issue::get_issue_requests_for_account(who), b)
}
pub fn mint(who: u64, v: u64, x: u128) {
    let id = ask_issue(who, v, x);
    call(|| Issue::execute_issue(RuntimeOrigin::signed(who), id, paid(id, x as i64))).unwrap();
}
pub fn ask_redeem(who: u64, v: u64, x: u128) -> H256 {
    let b = Redeem::get_redeem_requests_for_account(who);
    call(|| Redeem::request_redeem(RuntimeOrigin::signed(who), x, payee(who), vid(v))).unwrap();
    newest(Redeem::get_redeem_requests_for_account(who), b)
}
pub fn accept(old: u64, new: u64, x: u128, extra: u128) -> H256 {
    let o = vid(old).account_id;
    let b = Replace::get_replace_requests_for_old_vault(o);
    call(|| Replace::accept_replace(RuntimeOrigin::signed(vid(new).account_id), vid(new).currencies, vid(old), x, extra, payee(20 + new))).unwrap();
    newest(Replace::get_replace_requests_for_old_vault(o), b)
}
pub fn free(a: u64, c: u64) -> u128 { use orml_traits::MultiCurrency; Tokens::free_balance(cur(c), &a) }
pub fn reserved(a: u64, c: u64) -> u128 { use orml_traits::MultiReservableCurrency; Tokens::reserved_balance(cur(c), &a) }
pub fn supply() -> u128 { use orml_traits::MultiCurrency; Tokens::total_issuance(cur(2)) }
pub fn vault(v: u64) -> vault_registry::DefaultVault<Test> { VaultRegistry::get_vault_from_id(&vid(v)).unwrap() }
pub fn heir(c: u64) -> vault_registry::SystemVault<u128, CurrencyId> { VaultRegistry::get_liquidation_vault(&pair(c)) }
pub fn backing(v: u64) -> u128 { VaultRegistry::get_backing_collateral(&vid(v)).unwrap().amount() }
pub fn locked_exactly(c: u64, x: u128) -> bool {
    let takes = |y| frame_support::storage::with_storage_layer(|| { VaultRegistry::decrease_total_backing_collateral(&pair(c), &currency::Amount::new(y, cur(c)))?; Err::<(), _>(DispatchError::Other("undone")) }) == Err(DispatchError::Other("undone"));
    takes(x) && !takes(x + 1)
}
pub fn check(what: &str, ok: bool) {
    if !ok { eprintln!("FAILED: {}", what); std::process::exit(1); }
}
