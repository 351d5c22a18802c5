use crate::{storage::unhashed, twox_128};
use codec::Decode;

pub fn storage_prefix(module: &[u8], item: &[u8]) -> Vec<u8> {
    let mut k = twox_128(module).to_vec();
    k.extend(twox_128(item));
    k
}
pub fn clear_storage_prefix(module: &[u8], item: &[u8], hash: &[u8], _limit: Option<u32>, _cursor: Option<&[u8]>) -> sp_io::MultiRemovalResults {
    let mut k = storage_prefix(module, item);
    k.extend(hash);
    let n = unhashed::kill_prefix(&k);
    sp_io::MultiRemovalResults { maybe_cursor: None, backend: n, unique: n, loops: n }
}
pub fn get_storage_value<T: Decode>(module: &[u8], item: &[u8], hash: &[u8]) -> Option<T> {
    let mut k = storage_prefix(module, item);
    k.extend(hash);
    unhashed::get(&k)
}
pub fn put_storage_value<T: codec::Encode>(module: &[u8], item: &[u8], hash: &[u8], v: T) {
    let mut k = storage_prefix(module, item);
    k.extend(hash);
    unhashed::put(&k, &v)
}
