//! Replays behaviours of specs/pools on the real reward and staking pallets.
mod rt;
use itf::{agree, guarded, Report, Trace, V};
use primitives::VaultId;
use reward::RewardsApi;
use rt::*;
use staking::StakingApi;

type Bal = u128;

fn cur(c: u64) -> CurrencyId {
    match c {
        0 => Token(IBTC),
        1 => Token(INTR),
        _ => Token(KINT),
    }
}
type R = reward::Pallet<Test>;

fn reward_op(op: &V) -> Result<Bal, sp_runtime::DispatchError> {
    let (p, s, c, a) = (op.get("pool").u32(), op.get("staker").u(), cur(op.get("cur").u()), op.get("amount").u128());
    dispatch(|| match op.get("what").s() {
        "deposit" => <R as RewardsApi<u32, u64, Bal>>::deposit_stake(&p, &s, a).map(|_| 0),
        "withdraw" => <R as RewardsApi<u32, u64, Bal>>::withdraw_stake(&p, &s, a).map(|_| 0),
        "set" => <R as RewardsApi<u32, u64, Bal>>::set_stake(&p, &s, a).map(|_| 0),
        "distribute" => <R as RewardsApi<u32, u64, Bal>>::distribute_reward(&p, c, a).map(|_| 0),
        _ => <R as RewardsApi<u32, u64, Bal>>::withdraw_reward(&p, &s, c),
    })
}

fn reward_trace(rep: &mut Report, t: &Trace) -> Result<(), (usize, String)> {
    let mut e = ext();
    for (i, st) in t.states.iter().enumerate() {
        rep.steps += 1;
        let op = st.get("op");
        let r: Result<u64, String> = e.execute_with(|| {
            let mut n = 0;
            if op.get("what").s() != "none" {
                let got = guarded(|| reward_op(op)).map_err(|p| format!("panic: {}", p))?;
                rep.kind(&format!("{}:{}", op.get("what").s(), if op.get("ok").b() { "ok" } else { "refused" }));
                agree("accepted", op.get("ok").b(), got.is_ok())?;
                if let Ok(v) = got {
                    agree("result", op.get("out").u128(), v)?;
                }
                n += 2;
            }
            for (k, v) in st.get("claims").map() {
                let (c, p, s) = (k.at(0).u(), k.at(1).u32(), k.at(2).u());
                let got = <R as RewardsApi<u32, u64, Bal>>::compute_reward(&p, &s, cur(c)).ok();
                let want = if v.int() < &0.into() { None } else { Some(v.u128()) };
                agree(format!("claimable in currency {} from pool {} by {}", c, p, s), want, got)?;
                n += 1;
            }
            let w = st.get("w");
            for (k, v) in w.get("stake").map() {
                agree(format!("stake {:?}", k), v.i128(), R::stake(&k.at(0).u32(), &k.at(1).u()).into_inner())?;
                let got = <R as RewardsApi<u32, u64, Bal>>::get_stake(&k.at(0).u32(), &k.at(1).u()).ok();
                agree(format!("stake {:?}", k), Some((v.i128() / 10i128.pow(18)) as u128), got)?;
                n += 2;
            }
            for (p, v) in w.get("total").map() {
                agree(format!("total of pool {:?}", p), v.i128(), R::total_stake(p.u32()).into_inner())?;
                let got = <R as RewardsApi<u32, u64, Bal>>::get_total_stake(&p.u32()).ok();
                agree(format!("total of pool {:?}", p), Some((v.i128() / 10i128.pow(18)) as u128), got)?;
                let len = w.get("tracked").map().iter().find(|x| &x.0 == p).unwrap().1.list().len();
                agree("currencies of the pool", len as u32, <R as RewardsApi<u32, u64, Bal>>::reward_currencies_len(&p.u32()))?;
                n += 3;
            }
            for (c, v) in w.get("undistributed").map() {
                agree(format!("rewards not collected in {:?}", c), v.i128(), R::total_rewards(cur(c.u())).into_inner())?;
                n += 1;
            }
            Ok(n)
        });
        match r {
            Ok(n) => rep.comparisons += n,
            Err(m) => return Err((i, format!("after {:?}: {}", op, m))),
        }
        rep.sample(format!("{:?}", op));
    }
    Ok(())
}

type S = staking::Pallet<Test>;
type Vid = VaultId<u64, CurrencyId>;
type Pid = (Option<u64>, Vid);
fn vault(v: u64) -> Vid {
    VaultId::new(v, Token(DOT), Token(IBTC))
}

fn staking_op(op: &V) -> Result<Bal, sp_runtime::DispatchError> {
    let (v, a, c, x, n) = (vault(op.get("vault").u()), op.get("acc").u(), cur(op.get("cur").u()), op.get("amount").u128(), op.get("nonce").u());
    let now: Pid = (None, v.clone());
    let then: Pid = (Some(n), v.clone());
    dispatch(|| match op.get("what").s() {
        "deposit" => <S as RewardsApi<Pid, u64, Bal>>::deposit_stake(&now, &a, x).map(|_| 0),
        "withdraw" => <S as RewardsApi<Pid, u64, Bal>>::withdraw_stake(&then, &a, x).map(|_| 0),
        "withdrawAll" => <S as RewardsApi<Pid, u64, Bal>>::withdraw_all_stake(&then, &a),
        "slash" => <S as StakingApi<Vid, u64, Bal>>::slash_stake(&v, x).map(|_| 0),
        "distribute" => <S as RewardsApi<Pid, u64, Bal>>::distribute_reward(&now, c, x).map(|_| 0),
        "collect" => <S as RewardsApi<Pid, u64, Bal>>::withdraw_reward(&then, &a, c),
        _ => <S as StakingApi<Vid, u64, Bal>>::force_refund(&v),
    })
}

fn staking_trace(rep: &mut Report, t: &Trace) -> Result<(), (usize, String)> {
    let mut e = ext();
    for (i, st) in t.states.iter().enumerate() {
        rep.steps += 1;
        let op = st.get("op");
        let r: Result<u64, String> = e.execute_with(|| {
            let mut n = 0;
            if op.get("what").s() != "none" {
                let got = guarded(|| staking_op(op)).map_err(|p| format!("panic: {}", p))?;
                rep.kind(&format!("{}:{}", op.get("what").s(), if op.get("ok").b() { "ok" } else { "refused" }));
                agree("accepted", op.get("ok").b(), got.is_ok()).map_err(|m| format!("{} ({:?})", m, got))?;
                if let Ok(v) = got {
                    agree("result", op.get("out").u128(), v)?;
                }
                n += 2;
            }
            for (v, x) in st.get("nonces").map() {
                agree("number of the pool", x.u(), <S as StakingApi<Vid, u64, Bal>>::nonce(&vault(v.u())))?;
            }
            for (k, v) in st.get("views").map() {
                let id = vault(k.at(0).u());
                let nonce = k.at(1).u();
                let then: Pid = (Some(nonce), id.clone());
                let opt = |v: &V| if v.int() < &0.into() { None } else { Some(v.u128()) };
                for (a, s) in v.get("stakes").map() {
                    agree(format!("stake of {:?} in {:?}", a, k), opt(s), <S as RewardsApi<Pid, u64, Bal>>::get_stake(&then, &a.u()).ok())?;
                    n += 1;
                }
                for (ca, s) in v.get("rewards").map() {
                    let got = <S as RewardsApi<Pid, u64, Bal>>::compute_reward(&then, &ca.at(1).u(), cur(ca.at(0).u())).ok();
                    agree(format!("reward {:?} in {:?}", ca, k), opt(s), got)?;
                    n += 1;
                }
                let p = st.get("pools").map().iter().find(|x| &x.0 == k).unwrap().1.clone();
                agree(format!("current stake in {:?}", k), p.get("current").i128(), S::total_current_stake_at_index(nonce, &id).into_inner())?;
                agree(format!("recorded stake in {:?}", k), p.get("total").i128(), S::total_stake_at_index(nonce, &id).into_inner())?;
                for (c, u) in p.get("unpaid").map() {
                    agree(format!("rewards not collected in {:?}", k), u.i128(), S::total_rewards(cur(c.u()), (nonce, id.clone())).into_inner())?;
                }
                n += 4;
                if st.get("nonces").map().iter().any(|x| x.0.u() == k.at(0).u() && x.1.u() == nonce) {
                    agree(format!("total stake of {:?}", k), opt(v.get("current")), <S as RewardsApi<Pid, u64, Bal>>::get_total_stake(&(None, id.clone())).ok())?;
                }
            }
            Ok(n)
        });
        match r {
            Ok(n) => rep.comparisons += n,
            Err(m) => return Err((i, format!("after {:?}: {}", op, m))),
        }
        rep.sample(format!("{:?}", op));
    }
    Ok(())
}

fn main() {
    itf::drive(|k| match k {
        "reward" => Some(reward_trace),
        "staking" => Some(staking_trace),
        _ => None,
    })
}
