use codec::Codec;
use sp_io::hashing::{blake2_128, blake2_256, twox_128, twox_256, twox_64};

pub trait Hashable: Sized {
    fn twox_128(&self) -> [u8; 16];
    fn blake2_256(&self) -> [u8; 32];
}
impl<T: Codec> Hashable for T {
    fn twox_128(&self) -> [u8; 16] {
        self.using_encoded(twox_128)
    }
    fn blake2_256(&self) -> [u8; 32] {
        self.using_encoded(blake2_256)
    }
}
pub trait StorageHasher: 'static {
    fn hash(x: &[u8]) -> Vec<u8>;
}
pub trait ReversibleStorageHasher: StorageHasher {
    fn reverse(x: &[u8]) -> &[u8];
}
pub struct Identity;
impl StorageHasher for Identity {
    fn hash(x: &[u8]) -> Vec<u8> {
        x.to_vec()
    }
}
impl ReversibleStorageHasher for Identity {
    fn reverse(x: &[u8]) -> &[u8] {
        x
    }
}
pub struct Twox64Concat;
impl StorageHasher for Twox64Concat {
    fn hash(x: &[u8]) -> Vec<u8> {
        twox_64(x).iter().chain(x.iter()).cloned().collect()
    }
}
impl ReversibleStorageHasher for Twox64Concat {
    fn reverse(x: &[u8]) -> &[u8] {
        &x[8..]
    }
}
pub struct Blake2_128Concat;
impl StorageHasher for Blake2_128Concat {
    fn hash(x: &[u8]) -> Vec<u8> {
        blake2_128(x).iter().chain(x.iter()).cloned().collect()
    }
}
impl ReversibleStorageHasher for Blake2_128Concat {
    fn reverse(x: &[u8]) -> &[u8] {
        &x[16..]
    }
}
macro_rules! plain {
    ($n:ident, $f:ident) => {
        pub struct $n;
        impl StorageHasher for $n {
            fn hash(x: &[u8]) -> Vec<u8> {
                $f(x).to_vec()
            }
        }
    };
}
plain!(Blake2_128, blake2_128);
plain!(Blake2_256, blake2_256);
plain!(Twox128, twox_128);
plain!(Twox256, twox_256);
