PROPERTY = "C02"
EDITS = [("crates/bitcoin/src/parser.rs", "if inputs.iter().all(|input| input.witness.is_empty())", "if inputs.iter().any(|input| input.witness.is_empty())")]
NEEDS = "a segwit transaction in which one input has a witness and another (e.g. a legacy input) has none"
BREAKS = "well-formed mixed transactions are refused"
DEMO = r'''
use bitcoin::parser::parse_transaction;
fn main() {
    let mut t = vec![2, 0, 0, 0, 0, 1, 2];
    for k in 0..2u8 {
        t.extend([k + 1; 32]);
        t.extend([0, 0, 0, 0, 0, 255, 255, 255, 255]);
    }
    t.extend([1, 1, 0, 0, 0, 0, 0, 0, 0, 0]);
    t.extend([1, 2, 9, 9, 0]);
    t.extend([0, 0, 0, 0]);
    let tx = parse_transaction(&t).expect("well-formed");
    assert_eq!(tx.inputs[0].witness, vec![vec![9, 9]]);
}
'''
