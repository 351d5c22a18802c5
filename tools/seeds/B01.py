PROPERTY = "C01"
EDITS = [("crates/bitcoin/src/types.rs", "self.inputs.iter().any(|v| !v.witness.is_empty())",
          "self.inputs.first().map_or(false, |v| !v.witness.is_empty())")]
NEEDS = "a transaction whose first input has no witness but a later one does"
BREAKS = "such a transaction is serialized without its witness data, so its hash and bytes are wrong"
DEMO = r'''
use bitcoin::{formatter::TryFormat, parser::parse_transaction, types::*};
fn main() {
    let mut b = TransactionBuilder::new();
    let mut i = TransactionInputBuilder::new();
    i.with_source(TransactionInputSource::FromOutput(H256Le::from_bytes_le(&[3; 32]), 1));
    b.add_input(i.build());
    i.add_witness(&[1, 2, 3]);
    b.add_input(i.build());
    let tx = b.build();
    let mut w: Vec<u8> = vec![];
    tx.try_format(&mut w).unwrap();
    assert_eq!(parse_transaction(&w).unwrap(), tx);
}
'''
