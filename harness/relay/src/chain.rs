use crate::rt::*;
use bitcoin::types::{BlockHeader, H256Le, U256};
use frame_support::traits::Hooks;
use itf::{agree, guarded, Report, Trace, V};
use num_bigint::{BigInt, Sign};
use sp_runtime::DispatchError;

fn int_le(i: &BigInt) -> [u8; 32] {
    let (s, b) = i.to_bytes_le();
    assert!(s != Sign::Minus && b.len() <= 32, "not a hash: {}", i);
    let mut r = [0; 32];
    r[..b.len()].copy_from_slice(&b);
    r
}
fn hash(i: &BigInt) -> H256Le {
    H256Le::from_bytes_le(&int_le(i))
}
fn unknown() -> H256Le {
    H256Le::from_bytes_le(&[0xee; 32])
}
fn header(prev: H256Le, hash: H256Le, op: &V) -> BlockHeader {
    BlockHeader {
        version: 4,
        hash,
        hash_prev_block: prev,
        target: U256::from_little_endian(&int_le(op.get("target").int())),
        timestamp: op.get("time").u32(),
        ..Default::default()
    }
}
/// What the relay was given: the first and last header of an entry.
type Known = std::collections::BTreeMap<i64, (H256Le, H256Le)>;

fn apply(op: &V, known: &mut Known) -> Result<bool, DispatchError> {
    let id = op.get("id").i64();
    match op.get("what").s() {
        "initialize" => {
            let h = header(H256Le::zero(), hash(op.get("hash").int()), op);
            dispatch(|| Relay::_initialize(1, h, op.get("height").u32()))?;
            known.insert(id, (h.hash, h.hash));
            Ok(false)
        }
        "submit" => {
            let last = op.get("hash").int().clone();
            let span = op.get("span").i64();
            let mut prev = known.get(&op.get("parent").i64()).map(|x| x.1).unwrap_or(unknown());
            let mut first = None;
            for j in 0..span {
                let h = header(prev, hash(&(&last - (span - 1 - j))), op);
                // the bound is looked at before anything else, so a header whose hash is its own will do for it
                if op.get("bound").u32() < 1 + known_chains() {
                    return Relay::store_block_header(RuntimeOrigin::signed(1), h, op.get("bound").u32())
                        .map(|_| false)
                        .map_err(|e| e.error);
                }
                dispatch(|| Relay::_store_block_header(&1, h))?;
                prev = h.hash;
                first = first.or(Some(h.hash));
            }
            known.insert(id, (first.unwrap(), prev));
            Ok(false)
        }
        "tick" => {
            for _ in 0..op.get("span").u() {
                let n = System::block_number() + 1;
                System::set_block_number(n);
                <Security as Hooks<u64>>::on_initialize(n);
            }
            Ok(false)
        }
        "activate" => {
            let o = if id == 1 { RuntimeOrigin::root() } else { RuntimeOrigin::signed(1) };
            dispatch(|| Security::activate_counter(o, op.get("yes").b())).map(|_| false)
        }
        "ask" => {
            let h = known.get(&id).map(|x| x.1).unwrap_or(unknown());
            let conf = op.get("conf").i64();
            let got = Relay::verify_block_header_inclusion(h, if conf < 0 { None } else { Some(conf as u32) })?;
            assert!(got.hash == h, "another header is given back");
            Ok(false)
        }
        "expired" => Relay::has_request_expired(op.get("open").u(), op.get("height").u32(), op.get("period").u()),
        w => panic!("{}", w),
    }
}
fn known_chains() -> u32 {
    CHAINS.with(|c| c.get())
}
thread_local! {
    static CHAINS: std::cell::Cell<u32> = std::cell::Cell::new(0);
}

pub fn trace(rep: &mut Report, t: &Trace) -> Result<(), (usize, String)> {
    let s0 = &t.states[0];
    let mut e = ext(s0.get("confs").u32(), s0.get("paraConfs").u(), !s0.get("checked").b());
    let mut known = Known::new();
    CHAINS.with(|c| c.set(0));
    for (i, st) in t.states.iter().enumerate() {
        rep.steps += 1;
        let op = st.get("op");
        let r: Result<u64, String> = e.execute_with(|| {
            let mut n = 0;
            let before = known.clone();
            if op.get("what").s() != "none" {
                let got = guarded(|| apply(op, &mut known)).map_err(|p| format!("panic: {}", p))?;
                if got.is_err() {
                    known = before;
                }
                rep.kind(&format!("{}:{}", op.get("what").s(), if op.get("ok").b() { "ok" } else { "refused" }));
                agree("accepted", op.get("ok").b(), got.is_ok()).map_err(|m| format!("{} ({:?})", m, got))?;
                agree("answer", op.get("what").s() == "expired" && op.get("yes").b(), got.unwrap_or(false))?;
                n += 2;
            }
            CHAINS.with(|c| c.set(st.get("chains").u32()));
            let view = st.get("view");
            let best = view.get("best").i64();
            agree("initialized", best >= 0, btc_relay::Pallet::<Test>::get_best_block() != H256Le::zero())?;
            if best >= 0 {
                agree("best block", known[&best].1, Relay::get_best_block())?;
                agree("best height", view.get("height").u32(), Relay::get_best_block_height())?;
            }
            agree("fully initialized", Ok(view.get("full").b()), Relay::is_fully_initialized())?;
            agree("active block", st.get("now").u(), Security::active_block_number())?;
            n += 4;
            for (id, inc) in view.get("included").map() {
                let h = known[&id.i64()].1;
                agree(format!("block {:?} settled", id), inc.b(), Relay::verify_block_header_inclusion(h, None).is_ok())?;
                n += 1;
            }
            for (id, inc) in view.get("firstIncluded").map() {
                let h = known[&id.i64()].0;
                agree(format!("first block of {:?} settled", id), inc.b(), Relay::verify_block_header_inclusion(h, None).is_ok())?;
                n += 1;
            }
            agree("unknown block settled", false, Relay::verify_block_header_inclusion(unknown(), None).is_ok())?;
            Ok(n)
        });
        match r {
            Ok(n) => rep.comparisons += n,
            Err(m) => return Err((i, format!("after {:?}: {}", op, m))),
        }
        rep.sample(format!("{:?}", op));
    }
    Ok(())
}
