PROPERTY = "C06"
EDITS = [("crates/bitcoin/src/script.rs", "if result.len() != output_script[1] as usize {", "if result.len() < output_script[1] as usize {"),
         ("crates/bitcoin/src/script.rs", "        Ok(result.to_vec())", "        Ok(result[..output_script[1] as usize].to_vec())")]
NEEDS = "an OP_RETURN script with bytes after its push"
BREAKS = "null data is extracted from a script that does not consist of a single push"
DEMO = r'''
use bitcoin::Script;
fn main() {
    assert!(Script::from(vec![0x6a, 2, 1, 2]).extract_op_return_data().is_ok());
    assert!(Script::from(vec![0x6a, 2, 1, 2, 0]).extract_op_return_data().is_err());
}
'''
