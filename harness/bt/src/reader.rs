use crate::{diff, hexs};
use bitcoin::{
    parser::parse_transaction,
    types::{H256Le, LockTime, Transaction, TransactionInput, TransactionInputSource, TransactionOutput},
    Script,
};
use itf::{guarded, Report, V};
use num_traits::ToPrimitive;

fn tx(v: &V) -> Transaction {
    let l = v.get("lock").u32();
    Transaction {
        version: v.get("version").i32(),
        inputs: v
            .get("ins")
            .list()
            .iter()
            .map(|i| TransactionInput {
                source: if i.get("coinbase").b() {
                    TransactionInputSource::Coinbase(i.get("height").int().to_u32())
                } else {
                    TransactionInputSource::FromOutput(
                        H256Le::from_bytes_le(&i.get("prev").bytes()),
                        i.get("index").u32(),
                    )
                },
                script: i.get("script").bytes(),
                sequence: i.get("seq").u32(),
                witness: i.get("wit").list().iter().map(|w| w.bytes()).collect(),
            })
            .collect(),
        outputs: v
            .get("outs")
            .list()
            .iter()
            .map(|o| TransactionOutput { value: o.get("value").i64(), script: Script::from(o.get("script").bytes()) })
            .collect(),
        lock_at: if v.get("isTime").b() { LockTime::Time(l) } else { LockTime::BlockHeight(l) },
    }
}

pub fn step(rep: &mut Report, st: &V) -> Result<u64, String> {
    let image = st.get("image").bytes();
    let out = st.get("outcome");
    let ok = out.get("c").get("ok").b();
    rep.kind(&format!("{}:{}", st.get("history").s(), if ok { "accepted" } else { "refused" }));
    let got = guarded(|| parse_transaction(&image)).map_err(|p| format!("parse panicked ({}) on {}", p, hexs(&image)))?;
    match (ok, got) {
        (true, Ok(t)) => diff(&format!("value read from {}", hexs(&image)), tx(out.get("v")), t)?,
        (false, Err(_)) => {}
        (false, Ok(t)) => return Err(format!("{} must be refused, the code reads {:?}", hexs(&image), t)),
        (true, Err(e)) => return Err(format!("{} must be read, the code refuses it with {:?}", hexs(&image), e)),
    }
    rep.sample(hexs(&image));
    Ok(1)
}
