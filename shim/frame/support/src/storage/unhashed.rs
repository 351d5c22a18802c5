use codec::{Decode, Encode};

pub fn get_raw(key: &[u8]) -> Option<Vec<u8>> {
    sp_io::storage::get(key).map(|v| v.to_vec())
}
pub fn get<T: Decode>(key: &[u8]) -> Option<T> {
    sp_io::storage::get(key).and_then(|v| Decode::decode(&mut &v[..]).map(Some).unwrap_or_else(|e| panic!("corrupted state at {:?}: {}", key, e)))
}
pub fn get_or_default<T: Decode + Default>(key: &[u8]) -> T {
    get(key).unwrap_or_default()
}
pub fn put<T: Encode + ?Sized>(key: &[u8], value: &T) {
    value.using_encoded(|v| sp_io::storage::set(key, v))
}
pub fn put_raw(key: &[u8], value: &[u8]) {
    sp_io::storage::set(key, value)
}
pub fn kill(key: &[u8]) {
    sp_io::storage::clear(key)
}
pub fn exists(key: &[u8]) -> bool {
    sp_io::storage::exists(key)
}
pub fn take<T: Decode>(key: &[u8]) -> Option<T> {
    let v = get(key);
    if v.is_some() {
        kill(key)
    }
    v
}
/// All keys below a prefix, in storage order.
pub fn keys(prefix: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut k = prefix.to_vec();
    if exists(&k) && !prefix.is_empty() {
        out.push(k.clone());
    }
    while let Some(n) = sp_io::storage::next_key(&k) {
        if !n.starts_with(prefix) {
            break;
        }
        out.push(n.clone());
        k = n;
    }
    out
}
pub fn kill_prefix(prefix: &[u8]) -> u32 {
    let ks = keys(prefix);
    for k in &ks {
        kill(k)
    }
    ks.len() as u32
}
