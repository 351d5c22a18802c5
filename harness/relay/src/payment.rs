use crate::rt::*;
use bitcoin::{
    merkle::{MerkleProof, PartialTransactionProof},
    types::{Block, BlockHeader, FullTransactionProof, H256Le, LockTime, Transaction, TransactionInput, TransactionInputSource, TransactionOutput, U256},
    Address, Script,
};
use frame_support::traits::Hooks;
use itf::{agree, guarded, Report, Trace, V};
use sp_core::{H160, H256};
use sp_runtime::DispatchError;
use std::collections::BTreeMap;

fn address(a: u64) -> Address {
    let h = H160::repeat_byte(1 + (a / 4) as u8);
    match a % 4 {
        0 => Address::P2PKH(h),
        1 => Address::P2SH(h),
        2 => Address::P2WPKHv0(h),
        _ => Address::P2WSHv0(H256::repeat_byte(1 + (a / 4) as u8)),
    }
}
fn number(d: u64) -> H256 {
    H256::repeat_byte(0xa0 + d as u8)
}
fn push(script: &mut Vec<u8>, code: u8, data: &[u8]) {
    script.push(code);
    script.extend(data);
}
fn output(o: &V) -> TransactionOutput {
    let a = o.get("addr").u();
    let mut s = vec![];
    match o.get("kind").s() {
        "pay" => match address(a) {
            Address::P2PKH(h) => {
                push(&mut s, 0x76, &[0xa9, 20]);
                s.extend(h.as_bytes());
                push(&mut s, 0x88, &[0xac]);
            }
            Address::P2SH(h) => {
                push(&mut s, 0xa9, &[20]);
                s.extend(h.as_bytes());
                s.push(0x87);
            }
            Address::P2WPKHv0(h) => {
                push(&mut s, 0, &[20]);
                s.extend(h.as_bytes());
            }
            Address::P2WSHv0(h) => {
                push(&mut s, 0, &[32]);
                s.extend(h.as_bytes());
            }
        },
        "ret" => {
            push(&mut s, 0x6a, &[o.get("len").u() as u8]);
            let mut data = number(a).as_bytes().to_vec();
            data.resize(o.get("len").us(), 0xa0 + a as u8);
            s.extend(data);
        }
        _ if a == 0 => s.extend([0x51]),
        _ => push(&mut s, 0x76, &[0xa9, 20, 1, 2, 3]),
    }
    TransactionOutput { value: o.get("value").i64(), script: Script::from(s) }
}
fn tx(t: &V) -> Transaction {
    let salt = t.get("salt").u32();
    let spend = |k: u8| TransactionInput {
        source: TransactionInputSource::FromOutput(H256Le::from_bytes_le(&[k; 32]), salt),
        script: vec![k; 3],
        sequence: 0xffffffff,
        witness: vec![],
    };
    let mut inputs = vec![];
    if t.get("coin").b() {
        inputs.push(TransactionInput {
            source: TransactionInputSource::Coinbase(Some(700_000)),
            script: vec![9; 4],
            sequence: 0xffffffff,
            witness: vec![],
        });
    }
    while inputs.len() < t.get("ins").us() {
        inputs.push(spend(inputs.len() as u8 + 1));
    }
    Transaction {
        version: 2,
        inputs,
        outputs: t.get("outs").list().iter().map(output).collect(),
        lock_at: LockTime::BlockHeight(salt),
    }
}
fn txs(v: &V) -> Vec<Transaction> {
    v.get("txs").list().iter().map(tx).collect()
}
fn root(t: &[Transaction]) -> H256Le {
    let mut level: Vec<H256Le> = t.iter().map(|t| t.tx_id()).collect();
    while level.len() > 1 {
        level = level
            .chunks(2)
            .map(|c| {
                let mut b = c[0].to_bytes_le().to_vec();
                b.extend(c[c.len() - 1].to_bytes_le());
                sha(&b)
            })
            .collect();
    }
    level[0]
}
fn sha(b: &[u8]) -> H256Le {
    H256Le::from_bytes_le(&sp_io::hashing::sha2_256(&sp_io::hashing::sha2_256(b)))
}
/// A mined header over these transactions.
fn mine(prev: H256Le, id: u32, t: &[Transaction]) -> BlockHeader {
    let mut h = BlockHeader {
        version: 4,
        hash_prev_block: prev,
        merkle_root: root(t),
        target: easiest(),
        timestamp: 1_600_000_000 + id,
        nonce: 0,
        ..Default::default()
    };
    loop {
        let hash = h.hash().expect("header");
        if hash.as_u256() <= h.target {
            return h;
        }
        h.nonce += 1;
    }
}
fn easiest() -> U256 {
    U256::from(0x7fffff) << 232
}
fn proof(p: &V, blocks: &BTreeMap<i64, H256Le>) -> PartialTransactionProof {
    let t = txs(p);
    let pos = p.get("pos").us();
    let block = Block { header: BlockHeader { merkle_root: root(&t), ..Default::default() }, transactions: t.clone() };
    let mut m: MerkleProof = block.merkle_proof(&[t[pos].tx_id()]).expect("proof");
    m.block_header.hash = blocks.get(&p.get("block").i64()).copied().unwrap_or(H256Le::from_bytes_le(&[0xee; 32]));
    let claimed = tx(p.get("tx"));
    PartialTransactionProof {
        tx_encoded_len: (claimed.size_no_witness() as i64 + p.get("slack").i64()) as u32,
        transaction: claimed,
        merkle_proof: m,
    }
}

fn apply(op: &V, blocks: &mut BTreeMap<i64, H256Le>) -> Result<u128, DispatchError> {
    let full = || FullTransactionProof { user_tx_proof: proof(op.get("user"), blocks), coinbase_proof: proof(op.get("coin"), blocks) };
    let to = address(op.get("who").i64().max(0) as u64);
    match op.get("what").s() {
        "mine" => {
            let id = op.get("id").i64();
            let prev = blocks.get(&op.get("parent").i64()).copied().unwrap_or(H256Le::zero());
            let h = mine(prev, id as u32, &txs(op));
            let hash = h.hash().expect("header");
            // what the submitter says the hash is does not count
            let h = BlockHeader { hash: H256Le::from_bytes_le(&[3; 32]), ..h };
            if blocks.is_empty() {
                Relay::initialize(RuntimeOrigin::signed(1), h, 100).map_err(|e| e.error)?;
            } else {
                Relay::store_block_header(RuntimeOrigin::signed(2), h, 1000).map_err(|e| e.error)?;
            }
            blocks.insert(id, hash);
            Ok(0)
        }
        "tick" => {
            for _ in 0..op.get("span").u() {
                let n = System::block_number() + 1;
                System::set_block_number(n);
                <Security as Hooks<u64>>::on_initialize(n);
            }
            Ok(0)
        }
        "included" => {
            let conf = op.get("conf").i64();
            let f = full();
            let want = f.user_tx_proof.transaction.clone();
            let got = Relay::_verify_transaction_inclusion(f, if conf < 0 { None } else { Some(conf as u32) })?;
            assert!(got == want, "another transaction is given back");
            Ok(0)
        }
        "issue" => Relay::get_and_verify_issue_payment::<u128>(full(), to),
        "settle" => Relay::verify_and_validate_op_return_transaction::<u128>(full(), to, op.get("amount").u128(), number(op.get("data").u())).map(|_| 0),
        w => panic!("{}", w),
    }
}

pub fn trace(rep: &mut Report, t: &Trace) -> Result<(), (usize, String)> {
    let s0 = &t.states[0];
    let mut e = ext2(s0.get("confs").u32(), s0.get("paraConfs").u(), true, s0.get("trusting").b());
    let mut blocks = BTreeMap::new();
    for (i, st) in t.states.iter().enumerate() {
        rep.steps += 1;
        let op = st.get("op");
        let r: Result<u64, String> = e.execute_with(|| {
            if op.get("what").s() != "none" {
                let got = guarded(|| apply(op, &mut blocks)).map_err(|p| format!("panic: {}", p))?;
                rep.kind(&format!("{}:{}", op.get("what").s(), if op.get("ok").b() { "ok" } else { "refused" }));
                agree("accepted", op.get("ok").b(), got.is_ok()).map_err(|m| format!("{} ({:?})", m, got))?;
                agree("answer", op.get("out").u128(), got.unwrap_or(0))?;
            }
            let best = st.get("tree").get("best").i64();
            if best >= 0 {
                agree("best block", blocks[&best], Relay::get_best_block())?;
            }
            Ok(3)
        });
        match r {
            Ok(n) => rep.comparisons += n,
            Err(m) => return Err((i, format!("after {:?}: {}", op, m))),
        }
        if op.get("what").s() != "mine" {
            rep.sample(format!("{:?}", op));
        }
    }
    Ok(())
}
