//! Replays behaviours of specs/contract on the real contract, in ink's off-chain environment.
//! usage: ct <kind> <trace.itf.json>...
use bitcoin::{
    merkle::{MerkleProof, PartialTransactionProof},
    types::{FullTransactionProof, Transaction, TransactionOutput, H160, H256, H256Le, BlockHeader},
    Address,
};
use btc_swap::{BtcSwap, CustomEnvironment};
use ink_env::{test, Environment};
use itf::{guarded, quiet_panics, tool_error, Report, V};
use scale::{Decode, Encode};
use std::{cell::RefCell, collections::HashMap, rc::Rc};

type E = CustomEnvironment;
type AccountId = <E as Environment>::AccountId;

fn account(i: u64) -> AccountId {
    AccountId::from([i as u8; 32])
}
fn contract() -> AccountId {
    AccountId::from([0xc0; 32])
}
fn address(a: u64) -> Address {
    let h20 = H160::from([0x11u8; 20]);
    match a {
        0 => Address::P2PKH(h20),
        1 => Address::P2SH(h20),
        2 => Address::P2WPKHv0(h20),
        3 => Address::P2WSHv0(H256::from([0x11; 32])),
        4 => Address::P2PKH(H160::from([0x12; 20])),
        _ => Address::P2WPKHv0(H160::from([0x12; 20])),
    }
}
fn proof(id: u64, p: &V) -> FullTransactionProof {
    let part = |t: Transaction| PartialTransactionProof {
        transaction: t,
        tx_encoded_len: 0,
        merkle_proof: MerkleProof { block_header: BlockHeader::default(), transactions_count: 1, flag_bits: vec![true], hashes: vec![H256Le::zero()] },
    };
    let mut t = Transaction::default();
    t.version = id as i32;
    t.outputs = vec![TransactionOutput::payment(p.get("sats").u() as i64, &address(p.get("addr").u()))];
    FullTransactionProof { user_tx_proof: part(t), coinbase_proof: part(Transaction::default()) }
}

/// The chain extension: knows the proofs of the behaviour so far; notes what it was asked.
struct Relay {
    known: Rc<RefCell<HashMap<Vec<u8>, (String, u64, u64)>>>,
}
impl ink_engine::ChainExtension for Relay {
    fn func_id(&self) -> u32 {
        1101
    }
    fn call(&mut self, input: &[u8], output: &mut Vec<u8>) -> u32 {
        // ink wraps the encoded arguments in a byte vector
        let inner = match Vec::<u8>::decode(&mut &input[..]) {
            Ok(x) => x,
            Err(_) => return 1,
        };
        let (p, a) = match <(FullTransactionProof, Vec<u8>)>::decode(&mut &inner[..]) {
            Ok(x) => x,
            Err(_) => return 1,
        };
        let known = self.known.borrow();
        let (what, addr, sats) = match known.get(&p.encode()) {
            Some(k) => k,
            None => return 1,
        };
        if what == "rejected" {
            return 1;
        }
        let r: Option<u64> = if what == "paid" && a == address(*addr).encode() { Some(*sats) } else { None };
        r.encode_to(output);
        0
    }
}

fn call(c: &mut BtcSwap, op: &V) {
    let caller = account(op.get("caller").u());
    test::set_caller::<E>(caller);
    match op.get("what").s() {
        "create" => {
            test::transfer_in::<E>(op.get("value").u128());
            c.create_trade(address(op.get("addr").u()), op.get("min").u());
        }
        _ => {
            test::set_value_transferred::<E>(0);
            c.execute_trade(account(op.get("maker").u()), proof(op.get("proof").u(), op.get("known")));
        }
    }
}

/// A fresh chain on which the calls that succeeded so far have been made: what is left after a reverted call.
fn world(funds: u128, done: &[V], known: &Rc<RefCell<HashMap<Vec<u8>, (String, u64, u64)>>>) -> BtcSwap {
    let mut c = None;
    test::run_test::<E, _>(|_| {
        for i in 1..=4 {
            test::set_account_balance::<E>(account(i), funds);
        }
        test::set_account_balance::<E>(contract(), 0);
        test::set_callee::<E>(contract());
        test::register_chain_extension(Relay { known: known.clone() });
        let mut k = BtcSwap::new();
        for op in done {
            call(&mut k, op);
        }
        c = Some(k);
        Ok(())
    })
    .unwrap_or_else(|e| tool_error(&format!("{:?}", e)));
    c.unwrap()
}

fn swap(rep: &mut Report, t: &itf::Trace) -> Result<(), (usize, String)> {
    let known = Rc::new(RefCell::new(HashMap::new()));
    let funds = t.states[0].get("balance").map()[0].1.u128();
    let mut done: Vec<V> = vec![];
    let mut c = world(funds, &done, &known);
    for (i, st) in t.states.iter().enumerate() {
        rep.steps += 1;
        let op = st.get("op");
        if op.get("what").s() == "none" {
            continue;
        }
        if op.get("what").s() == "execute" {
            let p = op.get("known");
            known.borrow_mut().insert(proof(op.get("proof").u(), p).encode(), (p.get("what").s().into(), p.get("addr").u(), p.get("sats").u()));
        }
        let r = guarded(|| call(&mut c, op));
        let ok = op.get("ok").b();
        rep.kind(&format!("{}:{}", op.get("what").s(), if ok { "ok" } else { "refused" }));
        if r.is_ok() != ok {
            return Err((i, format!("{:?}: the specification says {}, the contract {:?}", op, if ok { "accepted" } else { "refused" }, r.err())));
        }
        if ok {
            done.push(op.clone());
        } else {
            c = world(funds, &done, &known);
        }
        let held = test::get_account_balance::<E>(contract()).unwrap_or(0);
        if held != st.get("held").u128() {
            return Err((i, format!("{:?}: the contract should hold {}, it holds {}", op, st.get("held").u128(), held)));
        }
        for (a, b) in st.get("balance").map() {
            let got = test::get_account_balance::<E>(account(a.u())).unwrap_or(0);
            if got != b.u128() {
                return Err((i, format!("{:?}: account {} should hold {}, it holds {}", op, a.u(), b.u128(), got)));
            }
        }
        rep.comparisons += 6;
        rep.sample(format!("{:?} -> {:?}", op, ok));
    }
    Ok(())
}

fn main() {
    quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 || args[1] != "swap" {
        tool_error("usage: ct swap <trace>...");
    }
    let mut rep = Report::default();
    for t in itf::traces(&args[2..]) {
        let path = &t.path;
        rep.traces += 1;
        match guarded(|| swap(&mut rep, &t)) {
            Ok(Ok(())) => {}
            Ok(Err((i, m))) => {
                rep.violate(path, i, m);
                break;
            }
            Err(p) => {
                rep.violate(path, 0, format!("panic outside a guarded call: {}", p));
                break;
            }
        }
    }
    rep.finish()
}
