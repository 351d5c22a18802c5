PROPERTY = "C03"
EDITS = [("crates/bitcoin/src/merkle.rs", "let right = if right_index < self.compute_partial_tree_width(next_height) {", "let right = if right_index <= self.compute_partial_tree_width(next_height).saturating_sub(1) || (height == 3 && pos == 1) {")]
NEEDS = "a proof over a tree of height at least 4 whose second subtree at height 3 has an odd edge (9 to 12 transactions)"
BREAKS = "valid proofs of some blocks are refused"
DEMO = r'''
use bitcoin::{merkle::*, types::*};
fn main() {
    let mut b = BlockBuilder::new();
    let mut ids = vec![];
    for k in 0..11 {
        let tx = TransactionBuilder::new().with_block_height(k).build();
        ids.push(tx.clone());
        b.add_transaction(tx);
    }
    let block = b.mine(U256::max_value()).unwrap();
    for t in &ids {
        let p = block.merkle_proof(&[t.tx_id()]).unwrap();
        let r = PartialTransactionProof { transaction: t.clone(), tx_encoded_len: 1000, merkle_proof: p }.verify_proof().unwrap();
        assert_eq!(r.extracted_root, block.header.merkle_root);
    }
}
'''
