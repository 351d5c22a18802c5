PROPERTY = "C01"
EDITS = [("crates/bitcoin/src/script.rs", "            if (x & 0x80) != 0 {", "            if (x & 0x80) != 0 && height_bytes.len() < 3 {")]
NEEDS = "a version 2 coinbase at a height between 0x800000 and 0xffffff (or above 0x80000000)"
BREAKS = "the BIP-34 height push loses its sign byte, so the coinbase id is wrong"
DEMO = r'''
use bitcoin::types::*;
fn main() {
    let mut b = TransactionBuilder::new();
    let mut i = TransactionInputBuilder::new();
    i.with_source(TransactionInputSource::Coinbase(Some(0x900000)));
    b.add_input(i.build());
    let tx = b.build();
    // version, count, outpoint, script (push of 4), sequence, outputs, lock
    assert_eq!(tx.size_no_witness(), 4 + 1 + 36 + 1 + 5 + 4 + 1 + 4);
}
'''
