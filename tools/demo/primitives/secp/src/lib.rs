pub use real::{constants, ffi, All, AllPreallocated, Error, Secp256k1, SecretKey, Signing, Verification};
#[cfg(feature = "rand-std")]
pub use real::rand;

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct PublicKey(pub real::PublicKey);

impl PublicKey {
    pub fn from_slice(data: &[u8]) -> Result<PublicKey, Error> {
        real::PublicKey::from_slice(data).map(PublicKey)
    }
    pub fn from_secret_key<C: Signing>(secp: &Secp256k1<C>, sk: &SecretKey) -> PublicKey {
        PublicKey(real::PublicKey::from_secret_key(secp, sk))
    }
    pub fn serialize(&self) -> [u8; constants::PUBLIC_KEY_SIZE] {
        self.0.serialize()
    }
    pub fn serialize_uncompressed(&self) -> [u8; constants::UNCOMPRESSED_PUBLIC_KEY_SIZE] {
        self.0.serialize_uncompressed()
    }
    /// `secp256k1_ec_pubkey_tweak_mul`: fails for a zero or overflowing scalar.
    pub fn mul_assign<C: Verification>(&mut self, secp: &Secp256k1<C>, other: &[u8]) -> Result<(), Error> {
        if other.len() != 32 {
            return Err(Error::InvalidTweak);
        }
        let mut bytes = [0u8; 32];
        bytes.copy_from_slice(other);
        let scalar = real::Scalar::from_be_bytes(bytes).map_err(|_| Error::InvalidTweak)?;
        self.0 = self.0.mul_tweak(secp, &scalar)?;
        Ok(())
    }
    pub fn combine(&self, other: &PublicKey) -> Result<PublicKey, Error> {
        self.0.combine(&other.0).map(PublicKey)
    }
}
