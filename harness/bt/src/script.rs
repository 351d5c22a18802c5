use crate::{bytes_diff, diff, hexs};
use bitcoin::{
    formatter::TryFormat,
    types::{TransactionOutput, H160, H256},
    Address, Script,
};
use itf::{guarded, Report, V};

fn addr(v: &V) -> Option<Address> {
    let h = v.get("hash").bytes();
    match v.get("kind").s() {
        "p2pkh" => Some(Address::P2PKH(H160::from_slice(&h))),
        "p2sh" => Some(Address::P2SH(H160::from_slice(&h))),
        "p2wpkh" => Some(Address::P2WPKHv0(H160::from_slice(&h))),
        "p2wsh" => Some(Address::P2WSHv0(H256::from_slice(&h))),
        _ => None,
    }
}

pub fn step(rep: &mut Report, st: &V) -> Result<u64, String> {
    let image = st.get("image").bytes();
    let script = Script::from(image.clone());
    let want = addr(st.get("addr"));
    let kind = st.get("addr").get("kind").s().to_string();
    rep.kind(&kind);
    let at = format!("script {}", hexs(&image));
    let got = guarded(|| Address::from_script_pub_key(&script)).map_err(|p| format!("{}: panic {}", at, p))?;
    diff(&format!("{}: address", at), want, got.ok())?;
    let out = TransactionOutput { value: 1, script: script.clone() };
    diff(&format!("{}: output address", at), want, guarded(|| out.extract_address())?.ok())?;
    let flags = guarded(|| [script.is_p2pkh(), script.is_p2sh(), script.is_p2wpkh_v0(), script.is_p2wsh_v0()])
        .map_err(|p| format!("{}: classification panicked: {}", at, p))?;
    diff(&format!("{}: classification", at), ["p2pkh", "p2sh", "p2wpkh", "p2wsh"].map(|k| k == kind), flags)?;
    let data = st.get("nullData");
    let want_data = if data.get("ok").b() { Some(data.get("data").bytes()) } else { None };
    if want_data.is_some() {
        rep.kind("null data");
    }
    let got_data = guarded(|| script.extract_op_return_data()).map_err(|p| format!("{}: panic {}", at, p))?;
    diff(&format!("{}: null data", at), want_data, got_data.ok())?;
    diff("script length", image.len(), script.len())?;
    diff("script emptiness", image.is_empty(), script.is_empty())?;
    bytes_diff("script bytes", &image, script.as_bytes())?;
    let mut n = 7;
    if let Some(a) = want {
        bytes_diff(&format!("{}: script of {:?}", at, a), &image, a.to_script_pub_key().as_bytes())?;
        diff(&format!("{}: payment output", at), &out, &TransactionOutput::payment(1, &a))?;
        diff(&format!("{}: zero address", at), st.get("addr").get("hash").bytes().iter().all(|b| *b == 0), a.is_zero())?;
        use bitcoin::compat::rust_bitcoin as rb;
        let p: rb::address::Payload = guarded(|| a.try_into())?.map_err(|_| format!("{}: no payload", at))?;
        bytes_diff("rust-bitcoin's script of the address", &image, p.script_pubkey().as_bytes())?;
        let b: Address = guarded(|| p.try_into())?.map_err(|_| format!("{}: no address back", at))?;
        diff("address there and back through rust-bitcoin", a, b)?;
        n += 5;
    }
    let built = st.get("built");
    if let Some(a) = addr(built.get("from")) {
        bytes_diff("script built for an address", &image, a.to_script_pub_key().as_bytes())?;
        n += 1;
    }
    if built.get("isData").b() {
        let payload = built.get("payload").bytes();
        bytes_diff("op_return script", &image, Script::op_return(&payload).as_bytes())?;
        diff("op_return output", Script::from(image.clone()), TransactionOutput::op_return(0, &payload).script)?;
        n += 2;
    }
    let mut w: Vec<u8> = vec![];
    script.try_format(&mut w).map_err(|e| format!("{:?}", e))?;
    if image.len() < 253 {
        let mut e = vec![image.len() as u8];
        e.extend(&image);
        bytes_diff("script on the wire", &e, &w)?;
    }
    rep.sample(hexs(&image));
    Ok(n)
}
