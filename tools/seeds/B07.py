PROPERTY = "C05"
EDITS = [("crates/bitcoin/src/types.rs", "        if self.version < 4 {", "        if (self.version as u32) < 4 {")]
NEEDS = "a header with a negative version"
BREAKS = "headers with negative versions pass the version gate"
DEMO = r'''
use bitcoin::types::BlockHeader;
fn main() {
    let h = BlockHeader { version: i32::MIN + 7, ..Default::default() };
    assert!(h.ensure_version().is_err());
}
'''
