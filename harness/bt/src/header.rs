use crate::{bytes_diff, diff, dsha, hexs};
use bitcoin::{
    formatter::TryFormat,
    parser::{parse_block_header, FromLeBytes},
    pow::calculate_next_work_required,
    types::{BlockHeader, U256},
    GetCompact, SetCompact,
};
use itf::{guarded, Report, V};
use num_bigint::BigInt;

pub fn u256(i: &BigInt) -> U256 {
    U256::from_dec_str(&i.to_string()).expect("256 bits")
}
fn neg(v: &V) -> bool {
    *v.int() < BigInt::from(0)
}

pub fn difficulty(rep: &mut Report, st: &V) -> Result<u64, String> {
    let bits = st.get("bits").u32();
    let want = if neg(st.get("decoded")) { None } else { Some(u256(st.get("decoded").int())) };
    let got = guarded(|| U256::set_compact(bits)).map_err(|p| format!("set_compact({:#x}) panicked: {}", bits, p))?;
    diff(&format!("target of {:#010x}", bits), want, got)?;
    let mut n = 1;
    if let Some(t) = want {
        let c = guarded(|| t.get_compact()).map_err(|p| format!("get_compact({}) panicked: {}", t, p))?;
        diff(&format!("compact form of {}", t), Some(st.get("recoded").u32()), c)?;
        let mut w: Vec<u8> = vec![];
        t.try_format(&mut w).map_err(|e| format!("formatting {}: {:?}", t, e))?;
        bytes_diff("target on the wire", &st.get("recoded").u32().to_le_bytes(), &w)?;
        n += 2;
    }
    let call = st.get("call");
    if !neg(call.get("next")) {
        rep.kind("retarget");
        let prev = u256(call.get("prev").int());
        let (t0, t1) = (call.get("t0").u(), call.get("t1").u());
        let r = guarded(|| calculate_next_work_required(prev, t0, t1))
            .map_err(|p| format!("retarget({}, {}, {}) panicked: {}", prev, t0, t1, p))?;
        diff(&format!("retarget of {} over {}..{}", prev, t0, t1), Some(call.get("next").u32()), r.ok())?;
        rep.sample(format!("retarget {:?}", call));
        n += 1;
    } else {
        rep.kind(if want.is_some() { "target" } else { "no target" });
        rep.sample(format!("bits {:#010x}", bits));
    }
    Ok(n)
}

fn same_header(what: &str, st: &V, image: &[u8], g: &BlockHeader) -> Result<u64, String> {
    let h = st.get("outcome").get("h");
    diff(&format!("{}: version", what), h.get("version").i32(), g.version)?;
    bytes_diff(&format!("{}: previous hash", what), &h.get("prev").bytes(), &g.hash_prev_block.to_bytes_le())?;
    bytes_diff(&format!("{}: merkle root", what), &h.get("root").bytes(), &g.merkle_root.to_bytes_le())?;
    diff(&format!("{}: time", what), h.get("time").u32(), g.timestamp)?;
    diff(&format!("{}: nonce", what), h.get("nonce").u32(), g.nonce)?;
    diff(&format!("{}: target", what), u256(st.get("target").int()), g.target)?;
    bytes_diff(&format!("{}: block hash", what), &dsha(image), &g.hash.to_bytes_le())?;
    let normal = st.get("normal").bytes();
    let mut w: Vec<u8> = vec![];
    guarded(|| g.try_format(&mut w))?.map_err(|e| format!("re-encoding: {:?}", e))?;
    bytes_diff(&format!("{}: re-encoding", what), &normal, &w)?;
    let own = guarded(|| g.hash())?.map_err(|e| format!("hash(): {:?}", e))?;
    bytes_diff(&format!("{}: hash()", what), &dsha(&normal), &own.to_bytes_le())?;
    let mut copy = *g;
    guarded(|| copy.update_hash())?.map_err(|e| format!("update_hash(): {:?}", e))?;
    bytes_diff(&format!("{}: update_hash()", what), &dsha(&normal), &copy.hash.to_bytes_le())?;
    let mut rest = copy;
    rest.hash = g.hash;
    diff(&format!("{}: update_hash() touches nothing else", what), g, &rest)?;
    diff(&format!("{}: version gate", what), st.get("modern").b(), g.ensure_version().is_ok())?;
    // order of hashes as numbers is what the proof-of-work comparison uses
    diff(&format!("{}: hash as a number", what), U256::from_little_endian(&dsha(image)), g.hash.as_u256())?;
    Ok(11)
}

pub fn step(rep: &mut Report, st: &V) -> Result<u64, String> {
    let image = st.get("image").bytes();
    let ok = st.get("outcome").get("ok").b();
    rep.kind(match (ok, image.len()) {
        (true, 80) => "header",
        (true, _) => "header with trailing bytes",
        (false, 80) => "80 bytes refused",
        _ => "truncated",
    });
    let mut n = 0;
    let got = guarded(|| BlockHeader::from_bytes(&image)).map_err(|p| format!("from_bytes panicked ({}) on {}", p, hexs(&image)))?;
    match (ok && image.len() == 80, got) {
        (true, Ok(g)) => n += same_header("from_bytes", st, &image, &g)?,
        (false, Err(_)) => {}
        (true, Err(e)) => return Err(format!("{} is a header, refused with {:?}", hexs(&image), e)),
        (false, Ok(g)) => return Err(format!("{} is no header, read as {:?}", hexs(&image), g)),
    }
    if image.len() <= 80 {
        for which in 0..2 {
            let got = guarded(|| if which == 0 { parse_block_header(&image) } else { BlockHeader::from_le_bytes(&image) })
                .map_err(|p| format!("parsing panicked ({}) on {}", p, hexs(&image)))?;
            match (ok, got) {
                (true, Ok(g)) => n += same_header("parse", st, &image, &g)?,
                (false, Err(_)) => n += 1,
                (a, b) => return Err(format!("header {}: specified ok={}, code {:?}", hexs(&image), a, b)),
            }
        }
    }
    rep.sample(hexs(&image));
    Ok(n + 1)
}
