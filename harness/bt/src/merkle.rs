use crate::{bytes_diff, diff, dsha, hexs};
use bitcoin::{
    formatter::TryFormat,
    merkle::{MerkleProof, MerkleTree, PartialTransactionProof},
    types::{Block, BlockBuilder, BlockHeader, H256Le, LockTime, Transaction, TransactionInput, TransactionInputSource, U256},
};
use itf::{guarded, Report, V};
use num_traits::ToPrimitive;

/// Transaction #k: differs from every other one.
fn tx(k: u64) -> Transaction {
    Transaction {
        version: 2,
        inputs: vec![TransactionInput {
            source: TransactionInputSource::FromOutput(H256Le::from_bytes_le(&[7; 32]), 1),
            script: vec![1; (k % 5) as usize],
            sequence: 0,
            witness: vec![],
        }],
        outputs: vec![],
        lock_at: LockTime::BlockHeight(k as u32),
    }
}
/// The id of transaction #k, from its wire image.
fn leaf(k: u64) -> [u8; 32] {
    let mut b = vec![2, 0, 0, 0, 1];
    b.extend([7; 32]);
    b.extend([1, 0, 0, 0]);
    b.push((k % 5) as u8);
    b.extend(vec![1; (k % 5) as usize]);
    b.extend([0, 0, 0, 0, 0]);
    b.extend((k as u32).to_le_bytes());
    dsha(&b)
}
fn join(l: &[u8; 32], r: &[u8; 32]) -> [u8; 32] {
    let mut b = l.to_vec();
    b.extend(r);
    dsha(&b)
}
/// A hash of the specification is its construction in postfix form.
fn hash(v: &V) -> [u8; 32] {
    let mut st: Vec<[u8; 32]> = vec![];
    for x in v.list() {
        match x.int().to_i64().unwrap() {
            -1 => {
                let r = st.pop().unwrap();
                let l = st.pop().unwrap();
                st.push(join(&l, &r));
            }
            -2 => {
                let l = st.pop().unwrap();
                st.push(join(&l, &l));
            }
            k => st.push(leaf(k as u64)),
        }
    }
    st.pop().unwrap()
}
fn le(h: [u8; 32]) -> H256Le {
    H256Le::from_bytes_le(&h)
}

pub fn step(rep: &mut Report, st: &V) -> Result<u64, String> {
    let ids: Vec<u64> = st.get("txs").list().iter().map(|x| x.u()).collect();
    let p = st.get("proof");
    let header = BlockHeader { version: 4, hash: le([5; 32]), target: U256::from(1), ..Default::default() };
    let bits: Vec<bool> = p.get("bits").list().iter().map(|b| b.b()).collect();
    let hashes: Vec<[u8; 32]> = p.get("hashes").list().iter().map(hash).collect();
    let proof = MerkleProof {
        block_header: header,
        flag_bits: bits.clone(),
        transactions_count: p.get("count").u32(),
        hashes: hashes.iter().map(|h| le(*h)).collect(),
    };
    let claim = st.get("claim").u();
    let t = tx(claim);
    let root = hash(st.get("blockRoot"));
    let mut n = 0;

    // the block's own root and proof
    if ids.len() <= 40 {
        let block = Block { header, transactions: ids.iter().map(|k| tx(*k)).collect() };
        let tx_ids: Vec<H256Le> = ids.iter().map(|k| le(leaf(*k))).collect();
        let r = guarded(|| MerkleTree::compute_root(0, MerkleTree::compute_height(ids.len() as u32), ids.len() as u32, &tx_ids))
            .map_err(|e| format!("compute_root panicked: {}", e))?;
        diff("merkle root", Some(root), r.ok().map(|h| h.to_bytes_le()))?;
        n += 1;
        let wanted: Vec<u64> = st.get("wanted").list().iter().map(|x| x.u()).collect();
        if !wanted.is_empty() {
            let include: Vec<H256Le> = wanted.iter().map(|k| le(leaf(*k))).collect();
            let built = guarded(|| block.merkle_proof(&include))
                .map_err(|e| format!("building a proof panicked: {}", e))?
                .map_err(|e| format!("building a proof failed: {:?}", e))?;
            diff(&format!("proof for {:?} of {:?}", wanted, ids), &proof, &built)?;
            n += 1;
        }
        if st.get("shape").s() == "single" {
            let mut b = BlockBuilder::new();
            for k in &ids {
                b.add_transaction(tx(*k));
            }
            let mined = guarded(|| b.mine(U256::max_value()))
                .map_err(|e| format!("mine panicked: {}", e))?
                .map_err(|e| format!("mine: {:?}", e))?;
            bytes_diff("root of a mined block", &root, &mined.header.merkle_root.to_bytes_le())?;
            n += 1;
        }
    }

    // the wire form
    let mut wire = vec![];
    wire.extend(4i32.to_le_bytes());
    wire.extend([0; 64]);
    wire.extend([0; 4]);
    wire.extend(0x01010000u32.to_le_bytes()); // compact form of target 1
    wire.extend([0; 4]);
    wire.extend(p.get("count").u32().to_le_bytes());
    wire.push(hashes.len() as u8);
    for h in &hashes {
        wire.extend(h);
    }
    let packed = st.get("flagBytes").bytes();
    wire.push(packed.len() as u8);
    wire.extend(&packed);
    let mut w: Vec<u8> = vec![];
    guarded(|| proof.try_format(&mut w))
        .map_err(|e| format!("formatting a proof panicked: {}", e))?
        .map_err(|e| format!("formatting a proof: {:?}", e))?;
    bytes_diff("proof on the wire", &wire, &w)?;
    let mut padded = bits.clone();
    padded.resize(packed.len() * 8, false);
    let back = guarded(|| MerkleProof::parse(&wire))
        .map_err(|e| format!("parsing a proof panicked: {} on {}", e, hexs(&wire)))?
        .map_err(|e| format!("parsing a proof failed: {:?} on {}", e, hexs(&wire)))?;
    let mut want = proof.clone();
    want.flag_bits = padded;
    want.block_header.hash = le(dsha(&wire[..80]));
    diff("proof read from the wire", &want, &back)?;
    for cut in [0usize, 40, 79, 80, 83, 84, 85, 100, wire.len() - 1 - packed.len(), wire.len() - 1] {
        if cut < wire.len() {
            let r = guarded(|| MerkleProof::parse(&wire[..cut]))
                .map_err(|e| format!("parsing a truncated proof panicked: {} on {}", e, hexs(&wire[..cut])))?;
            if r.is_ok() {
                return Err(format!("a truncated proof is read: {}", hexs(&wire[..cut])));
            }
            n += 1;
        }
    }

    // the verifier
    let v = st.get("verdict");
    let real_len = t.size_no_witness() as i64;
    let declared = real_len + st.get("spare").i64();
    if declared >= 0 {
        let partial = PartialTransactionProof { transaction: t.clone(), tx_encoded_len: declared as u32, merkle_proof: proof.clone() };
        let r = guarded(|| partial.verify_proof()).map_err(|e| format!("verification panicked: {} on {:?}", e, st))?;
        let ok = v.get("ok").b();
        rep.kind(&format!("{}:{}", st.get("shape").s(), if ok { "accepted" } else { "refused" }));
        match (ok, r) {
            (true, Ok(res)) => {
                bytes_diff("root extracted from a proof", &hash(v.get("root")), &res.extracted_root.to_bytes_le())?;
                bytes_diff("transaction hash", &leaf(claim), &res.transaction_hash.to_bytes_le())?;
                diff("transaction position", v.get("position").u32(), res.transaction_position)?;
                diff("transaction count", p.get("count").u32(), res.tx_count)?;
                diff("block hash", &header.hash, &res.block_hash)?;
                diff("transaction", &t, &res.transaction)?;
                n += 6;
            }
            (false, Err(_)) => n += 1,
            (true, Err(e)) => return Err(format!("a valid proof is refused with {:?}: {:?}", e, st)),
            (false, Ok(res)) => return Err(format!("an invalid proof is accepted as {:?}: {:?}", res, st)),
        }
    }
    rep.sample(format!("{:?} claim {} shape {}", p, claim, st.get("shape").s()));
    Ok(n + 2)
}
