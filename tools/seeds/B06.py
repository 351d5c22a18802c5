PROPERTY = "C04"
EDITS = [("crates/bitcoin/src/math.rs", "(word > 0xffff && size > 32)", "(word > 0xfffff && size > 32)")]
NEEDS = "a compact target with exponent 33 and a mantissa between 0x10000 and 0xfffff, i.e. just above 256 bits"
BREAKS = "an overflowing target is decoded to a truncated number instead of being refused"
DEMO = r'''
use bitcoin::{types::U256, SetCompact};
fn main() {
    assert_eq!(U256::set_compact(0x21020000), None);
}
'''
