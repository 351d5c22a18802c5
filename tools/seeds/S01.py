PROPERTY = "C09"
KIND = "contract"
EDITS = [('contracts/btc_swap/lib.rs', 'assert!(transferred_sats >= order.min_satoshis);', 'assert!((transferred_sats.wrapping_sub(order.min_satoshis) as i64) >= 0);')]
NEEDS = 'an order asking for more than 2^63 satoshis more than the payment proves'
BREAKS = 'an order is paid out against a payment far below what it asks for'
DEMO = r'''
use bitcoin::{types::*, merkle::*, Address};
use btc_swap::{BtcSwap, CustomEnvironment as E};
use ink_env::test;
use scale::{Decode, Encode};
type Id = <E as ink_env::Environment>::AccountId;
fn acc(i: u8) -> Id { Id::from([i; 32]) }
fn addr(i: u8) -> Address { Address::P2PKH(H160::from([i; 20])) }
// pays `sats` to `a`
fn proof(sats: u64, a: &Address) -> FullTransactionProof {
    let part = |t: Transaction| PartialTransactionProof {
        transaction: t, tx_encoded_len: 0,
        merkle_proof: MerkleProof { block_header: BlockHeader::default(), transactions_count: 1, flag_bits: vec![true], hashes: vec![H256Le::zero()] },
    };
    let mut t = Transaction::default();
    t.outputs = vec![TransactionOutput::payment(sats as i64, a)];
    FullTransactionProof { user_tx_proof: part(t), coinbase_proof: part(Transaction::default()) }
}
struct Relay;
impl ink_engine::ChainExtension for Relay {
    fn func_id(&self) -> u32 { 1101 }
    fn call(&mut self, input: &[u8], output: &mut Vec<u8>) -> u32 {
        let inner = Vec::<u8>::decode(&mut &input[..]).unwrap();
        let (p, a) = <(FullTransactionProof, Vec<u8>)>::decode(&mut &inner[..]).unwrap();
        let r: Option<u64> = p.user_tx_proof.transaction.outputs.iter()
            .find(|o| o.extract_address().map(|x| x.encode() == a).unwrap_or(false)).map(|o| o.value as u64);
        r.encode_to(output);
        0
    }
}
fn create(c: &mut BtcSwap, who: u8, a: u8, min: u64, value: u128) {
    test::set_caller::<E>(acc(who));
    test::transfer_in::<E>(value);
    c.create_trade(addr(a), min);
}
fn execute(c: &mut BtcSwap, who: u8, maker: u8, p: FullTransactionProof) -> bool {
    test::set_caller::<E>(acc(who));
    test::set_value_transferred::<E>(0);
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.execute_trade(acc(maker), p))).is_ok()
}
fn with(f: impl FnOnce(&mut BtcSwap)) {
    test::run_test::<E, _>(|_| {
        for i in 1..5 { test::set_account_balance::<E>(acc(i), 1 << 100); }
        test::set_account_balance::<E>(acc(0xc0), 0);
        test::set_callee::<E>(acc(0xc0));
        test::register_chain_extension(Relay);
        let mut c = BtcSwap::new();
        f(&mut c);
        Ok(())
    }).unwrap();
}
fn main() { with(|c| { create(c, 1, 7, u64::MAX - 5, 1000); assert!(!execute(c, 2, 1, proof(3, &addr(7)))); create(c, 1, 7, 500, 1000); assert!(!execute(c, 2, 1, proof(499, &addr(7)))); assert!(execute(c, 2, 1, proof(500, &addr(7)))); }) }
'''
