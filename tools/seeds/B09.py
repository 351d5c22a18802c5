PROPERTY = "C07"
EDITS = [("crates/bitcoin/src/address.rs", "        // input compressed public key\n        hasher.input(&self.0);", "        // input compressed public key\n        hasher.input(&self.0[1..]);")]
NEEDS = "two vaults whose public keys are negatives of each other (same x coordinate), or anyone recomputing the derivation"
BREAKS = "the scalar no longer commits to the whole public key"
DEMO = r'''
use bitcoin::{types::H256, PublicKey};
fn main() {
    let k = PublicKey::dummy();
    let mut neg = k.clone();
    neg.0[0] ^= 1;
    let a = k.new_deposit_public_key(H256::from([1; 32])).unwrap();
    let b = neg.new_deposit_public_key(H256::from([1; 32])).unwrap();
    assert_ne!(a.as_bytes()[1..], b.as_bytes()[1..]);
}
'''
