use crate::{bytes_diff, diff};
use bitcoin::{types::{H160, H256}, Address, PublicKey};
use itf::{guarded, Report, V};
use num_bigint::{BigInt, BigUint, Sign};
use secp256k1::{Secp256k1, SecretKey};

fn scalar(v: &BigInt) -> [u8; 32] {
    let b = v.to_bytes_be().1;
    let mut out = [0u8; 32];
    out[32 - b.len()..].copy_from_slice(&b);
    out
}
fn order() -> BigInt {
    BigInt::parse_bytes(b"fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16).unwrap()
}
/// v·G, compressed
fn point(v: &BigInt) -> Option<[u8; 33]> {
    let sk = SecretKey::from_slice(&scalar(v)).ok()?;
    let pk = secp256k1::PublicKey::from_secret_key(&Secp256k1::new(), &sk);
    Some(pk.serialize())
}

pub fn step(rep: &mut Report, st: &V) -> Result<u64, String> {
    let d = st.get("derive");
    let key: Vec<u8>;
    let secret: Option<BigInt>;
    match d.get("what").s() {
        "key" => {
            let v = d.get("secret").int().clone();
            key = point(&v).ok_or("no such key")?.to_vec();
            secret = Some(v);
        }
        "raw" => {
            key = d.get("raw").bytes();
            secret = None;
        }
        _ => return Ok(0),
    }
    let id = d.get("id").bytes();
    let mut raw = [0u8; 33];
    raw.copy_from_slice(&key);
    let pk = PublicKey::from(raw);
    let got = guarded(|| pk.new_deposit_public_key(H256::from_slice(&id))).map_err(|p| format!("derivation panicked: {}", p))?;
    let mut pre = key.clone();
    pre.extend(&id);
    let c = BigInt::from_biguint(Sign::Plus, BigUint::from_bytes_be(&sp_core_hashing::sha2_256(&pre)));
    bytes_diff("key bytes", &key, pk.as_bytes())?;
    let mut n = 1;
    match secret {
        Some(v) => {
            rep.kind("derived");
            // the vault's private key for the deposit is v*c: it must own the deposit address
            let d = (v * c) % order();
            let want = point(&d).ok_or("degenerate scalar")?;
            let got = got.map_err(|e| format!("derivation refused: {:?}", e))?;
            bytes_diff("deposit public key", &want, got.as_bytes())?;
            use bitcoin::compat::rust_bitcoin::hashes::{hash160, Hash};
            let h = hash160::Hash::hash(&want).to_byte_array();
            diff("hash of the deposit key", H160::from(h), got.to_hash())?;
            let a = Address::P2WPKHv0(got.to_hash());
            let mut s = vec![0, 20];
            s.extend(h);
            bytes_diff("deposit script", &s, a.to_script_pub_key().as_bytes())?;
            rep.sample(format!("id {:?} -> {:02x?}", id, want));
            n += 3;
        }
        None => {
            rep.kind("not a key");
            if secp256k1::PublicKey::from_slice(&key).is_err() != got.is_err() {
                return Err(format!("{:02x?}: acceptance as a key differs from the curve's", key));
            }
            n += 1;
        }
    }
    Ok(n)
}
