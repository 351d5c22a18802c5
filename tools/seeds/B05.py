PROPERTY = "C04"
EDITS = [("crates/bitcoin/src/pow.rs", "last_block_time.saturating_sub(first_block_time)", "last_block_time.max(first_block_time) - last_block_time.min(first_block_time)")]
NEEDS = "a difficulty period whose last block carries an earlier timestamp than its first, by more than half a week"
BREAKS = "the retarget treats the negative span as a long one instead of clamping it to the minimum"
DEMO = r'''
use bitcoin::{pow::*, types::U256, GetCompact, SetCompact};
fn main() {
    let t = U256::set_compact(0x1b0404cb).unwrap();
    let want = (t * U256::from(302400u64) / U256::from(1209600u64)).get_compact().unwrap();
    assert_eq!(calculate_next_work_required(t, 1_600_000_000, 1_598_000_000).unwrap(), want);
}
'''
