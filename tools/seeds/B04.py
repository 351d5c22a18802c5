PROPERTY = "C03"
EDITS = [("crates/bitcoin/src/merkle.rs", "        // fail if all hashes are not used\n        if traversal.hashes_used != self.merkle_proof.hashes.len() {",
          "        // fail if all hashes are not used\n        if traversal.hashes_used.saturating_add(1) < self.merkle_proof.hashes.len() {")]
NEEDS = "a proof with exactly one surplus hash that the traversal never consumes"
BREAKS = "a malformed proof with an unused hash is accepted"
DEMO = r'''
use bitcoin::{merkle::*, types::*};
fn main() {
    let mut b = BlockBuilder::new();
    let mut ids = vec![];
    for k in 0..5 {
        let tx = TransactionBuilder::new().with_block_height(k).build();
        ids.push(tx.clone());
        b.add_transaction(tx);
    }
    let block = b.mine(U256::max_value()).unwrap();
    let mut p = block.merkle_proof(&[ids[2].tx_id()]).unwrap();
    let check = |p: &MerkleProof| PartialTransactionProof { transaction: ids[2].clone(), tx_encoded_len: 1000, merkle_proof: p.clone() }.verify_proof();
    assert!(check(&p).is_ok());
    p.hashes.push(H256Le::zero());
    assert!(check(&p).is_err());
}
'''
