use crate::{bytes_diff, diff, dsha, hexs};
use bitcoin::{
    formatter::TryFormat,
    parser::parse_transaction,
    types::{H256Le, LockTime, Transaction, TransactionInput, TransactionInputSource, TransactionOutput},
    Error, Script,
};
use itf::{guarded, Report, V};
use num_traits::ToPrimitive;

fn blob(v: &V) -> Vec<u8> {
    vec![v.get("fill").u() as u8; v.get("len").us()]
}

pub fn build(v: &V) -> Transaction {
    let mut inputs = vec![];
    for e in v.get("ins").list() {
        let i = e.get("i");
        let s = i.get("src");
        let source = if s.get("coinbase").b() {
            TransactionInputSource::Coinbase(s.get("height").int().to_u32())
        } else {
            TransactionInputSource::FromOutput(
                H256Le::from_bytes_le(&[s.get("prev").u() as u8; 32]),
                s.get("index").u32(),
            )
        };
        let x = TransactionInput {
            source,
            script: blob(i.get("script")),
            sequence: i.get("seq").u32(),
            witness: i.get("wit").list().iter().map(blob).collect(),
        };
        for _ in 0..e.get("rep").u() {
            inputs.push(x.clone());
        }
    }
    let mut outputs = vec![];
    for e in v.get("outs").list() {
        let o = e.get("o");
        let x = TransactionOutput { value: o.get("value").i64(), script: Script::from(blob(o.get("script"))) };
        for _ in 0..e.get("rep").u() {
            outputs.push(x.clone());
        }
    }
    let l = v.get("lock").u32();
    Transaction {
        version: v.get("version").i32(),
        inputs,
        outputs,
        lock_at: if l < 500_000_000 { LockTime::BlockHeight(l) } else { LockTime::Time(l) },
    }
}

pub fn expand(v: &V) -> Vec<u8> {
    let mut out = vec![];
    for seg in v.list() {
        let mut one = vec![];
        for run in seg.get("body").list() {
            one.resize(one.len() + run.get("n").us(), run.get("b").u() as u8);
        }
        for _ in 0..seg.get("rep").u() {
            out.extend_from_slice(&one);
        }
    }
    out
}

pub fn step(rep: &mut Report, st: &V) -> Result<u64, String> {
    let tx = build(st.get("cur"));
    let stripped = expand(st.get("strippedImg"));
    let full = expand(st.get("fullImg"));
    let mut n = 0;
    let call = |what: &str, r: Result<Vec<u8>, String>, want: &[u8]| -> Result<(), String> {
        match r {
            Ok(b) => bytes_diff(what, want, &b),
            Err(p) => Err(format!("{} panicked: {}", what, p)),
        }
    };
    call(
        "full serialization",
        guarded(|| {
            let mut w = Vec::new();
            tx.try_format(&mut w).expect("format");
            w
        }),
        &full,
    )?;
    let txid = dsha(&stripped);
    call("transaction id", guarded(|| tx.tx_id().to_bytes_le().to_vec()), &txid)?;
    call("hash", guarded(|| tx.hash().to_bytes_le().to_vec()), &dsha(&full))?;
    n += 3;
    let size = guarded(|| tx.size_no_witness())?;
    diff("size without witness", st.get("wireLen").us(), size)?;
    let len = stripped.len() as u32;
    for bound in [len, len.saturating_add(1), u32::MAX] {
        let r = guarded(|| tx.tx_id_bounded(bound))?;
        diff("tx_id_bounded at or above the size", Ok(txid), r.map(|h| h.to_bytes_le()))?;
    }
    for bound in [0, len / 2, len.saturating_sub(1)] {
        if bound < len {
            let r = guarded(|| tx.tx_id_bounded(bound))?;
            diff("tx_id_bounded below the size", Err(Error::BoundExceeded), r)?;
        }
    }
    n += 7;
    let fate = st.get("fate").s().to_string();
    // the reader copies the rest of the buffer for every element: leave out what would take seconds
    if (tx.inputs.len() + tx.outputs.len()) as u64 * full.len() as u64 > 600_000_000 {
        rep.kind("not read back");
        return Ok(n);
    }
    let back = guarded(|| parse_transaction(&full)).map_err(|p| format!("parse panicked: {} on {}", p, hexs(&full)))?;
    rep.kind(&fate);
    match fate.as_str() {
        "same" => diff("reading back the serialization", Ok(&tx), back.as_ref().map_err(|_| ()))?,
        "refuse" => diff("an inadmissible transaction is refused", true, back.is_err())?,
        _ => {}
    }
    rep.sample(format!("{:?} -> {} bytes", st.get("cur"), full.len()));
    Ok(n + 1)
}

pub fn compat(rep: &mut Report, st: &V) -> Result<u64, String> {
    use bitcoin::compat::rust_bitcoin as rb;
    let full = expand(st.get("fullImg"));
    if st.get("fate").s() != "same" || full.len() > 1_000_000 {
        rep.kind("skipped");
        return Ok(0);
    }
    rep.kind("converted");
    let tx = build(st.get("cur"));
    let stripped = expand(st.get("strippedImg"));
    let other: rb::Transaction = guarded(|| tx.clone().try_into())?
        .map_err(|_| format!("conversion to rust-bitcoin failed for {}", hexs(&full)))?;
    bytes_diff("rust-bitcoin's serialization", &full, &rb::consensus::serialize(&other))?;
    let id: &[u8] = other_txid(&other);
    bytes_diff("rust-bitcoin's txid", &dsha(&stripped), id)?;
    bytes_diff("our txid", id, &tx.tx_id().to_bytes_le())?;
    let back: Transaction = guarded(|| other.clone().try_into())?
        .map_err(|_| format!("conversion from rust-bitcoin failed for {}", hexs(&full)))?;
    diff("conversion there and back", &tx, &back)?;
    // addresses and scripts of every output
    let mut n = 4;
    for o in tx.outputs.iter().take(8) {
        let s: rb::ScriptBuf = o
            .script
            .clone()
            .try_into()
            .map_err(|_| format!("script conversion failed for {}", hexs(o.script.as_bytes())))?;
        bytes_diff("script conversion", o.script.as_bytes(), s.as_bytes())?;
        n += 1;
    }
    rep.sample(format!("{:?}", st.get("cur")));
    Ok(n)
}

fn other_txid(t: &bitcoin::compat::rust_bitcoin::Transaction) -> &'static [u8] {
    use bitcoin::compat::rust_bitcoin::hashes::Hash;
    Box::leak(Box::new(t.txid().to_byte_array()))
}
