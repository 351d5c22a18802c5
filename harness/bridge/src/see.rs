//! What is compared after every step: everything the specification says about the chain.
use crate::{ops::{payee, Ids}, rt::*};
use itf::{agree, V};
use orml_traits::{MultiCurrency, MultiReservableCurrency};
use primitives::{issue::IssueRequestStatus, redeem::RedeemRequestStatus, replace::ReplaceRequestStatus};
use reward::RewardsApi;
use sp_runtime::DispatchError;
use staking::StakingApi;
use vault_registry::types::VaultStatus;

type Pid = (Option<u64>, Vid);
type Staking = staking::Pallet<Test>;
const ONE: i128 = 1_000_000_000_000_000_000;

fn entry<'a>(m: &'a V, f: impl Fn(&V) -> bool) -> Option<&'a V> {
    m.map().iter().find(|(k, _)| f(k)).map(|(_, v)| v)
}
fn pool<'a>(w: &'a V, v: u64, n: u64) -> &'a V {
    entry(w.get("pools"), |k| k.at(0).u() == v && k.at(1).u() == n).expect("pool")
}
fn nonce(w: &V, v: u64) -> u64 {
    entry(w.get("nonces"), |k| k.u() == v).expect("nonce").u()
}
pub fn backing(w: &V, v: u64) -> u128 {
    (pool(w, v, nonce(w, v)).get("current").i128() / ONE) as u128
}
fn account(a: u64) -> u64 {
    match a {
        10 => Fee::fee_pool_account_id(),
        11 => VaultRegistry::liquidation_vault_account_id(),
        12 => Issue::treasury_account_id(),
        a => a,
    }
}
fn value(r: Result<currency::Amount<Test>, DispatchError>) -> i128 {
    r.map(|a| a.amount() as i128).unwrap_or(-1)
}
fn reward_currency(rc: u64) -> CurrencyId {
    if rc == 0 {
        Token(IBTC)
    } else {
        Token(INTR)
    }
}
fn flag(r: Result<bool, DispatchError>) -> i128 {
    match r {
        Ok(b) => b as i128,
        Err(_) => -1,
    }
}

pub fn compare(st: &V, ids: &Ids) -> Result<u64, String> {
    let w = st.get("w");
    let mut n = 0u64;
    macro_rules! same {
        ($what:expr, $spec:expr, $code:expr) => {{
            n += 1;
            let (s, c) = ($spec, $code);
            if s != c {
                agree($what, s, c)?
            }
        }};
    }
    for (k, x) in w.get("free").map() {
        same!(format!("free balance {:?}", k), x.u128(), Tokens::free_balance(cur(k.at(1).u()), &account(k.at(0).u())));
    }
    for (k, x) in w.get("res").map() {
        let id = cur(k.at(1).u());
        same!(format!("reserved balance {:?}", k), x.u128(), Tokens::reserved_balance(id, &account(k.at(0).u())));
    }
    for (k, x) in w.get("vaults").map() {
        let v = vid(k.u());
        let status = x.get("status").u();
        let got = VaultRegistry::get_vault_from_id(&v).ok();
        same!(format!("vault {:?} is registered", k), status != 0, got.is_some());
        if let Some(g) = got {
            let code = match g.status {
                VaultStatus::Active(true) => 1,
                VaultStatus::Active(false) => 2,
                VaultStatus::Liquidated => 3,
            };
            same!(format!("status of vault {:?}", k), status, code);
            same!(format!("vault {:?} is banned until", k), x.get("banned").u(), g.banned_until.unwrap_or(0));
            let custom = g.secure_collateral_threshold.map_or(0, |t| t.into_inner());
            same!(format!("custom threshold of vault {:?}", k), x.get("custom").u128(), custom);
            for (f, y) in [
                ("toIssue", g.to_be_issued_tokens),
                ("issued", g.issued_tokens),
                ("toRedeem", g.to_be_redeemed_tokens),
                ("toReplace", g.to_be_replaced_tokens),
                ("replaceCol", g.replace_collateral),
                ("activeReplace", g.active_replace_collateral),
                ("liquidated", g.liquidated_collateral),
            ] {
                same!(format!("{} of vault {:?}", f, k), x.get(f).u128(), y);
            }
            same!(format!("backing of vault {:?}", k), Some(backing(w, k.u())), VaultRegistry::get_backing_collateral(&v).ok().map(|a| a.amount()));
        }
        same!(format!("nonce of vault {:?}", k), nonce(w, k.u()), <Staking as StakingApi<Vid, u64, Balance>>::nonce(&v));
        let opted = w.get("opted").list().contains(k);
        same!(format!("vault {:?} takes nominations", k), opted, Nomination::is_opted_in(&v));
        same!(format!("nomination limit of vault {:?}", k), entry(w.get("limits"), |y| y == k).unwrap().u128(), Nomination::get_nomination_limit(&v).amount());
    }
    for (c, x) in w.get("liq").map() {
        let g = VaultRegistry::get_liquidation_vault(&pair(c.u()));
        for (f, y) in [
            ("toIssue", g.to_be_issued_tokens),
            ("issued", g.issued_tokens),
            ("toRedeem", g.to_be_redeemed_tokens),
            ("collateral", g.collateral),
        ] {
            same!(format!("{} of liquidation vault {:?}", f, c), x.get(f).u128(), y);
        }
    }
    for (c, x) in w.get("total").map() {
        // the sum itself cannot be asked for: it is what can be taken from it
        for (y, can) in [(x.u128(), true), (x.u128() + 1, false)] {
            let taken = || VaultRegistry::decrease_total_backing_collateral(&pair(c.u()), &currency::Amount::new(y, cur(c.u())));
            let mut got = false;
            let _ = dispatch(|| -> Result<(), DispatchError> {
                got = taken().is_ok();
                Err(DispatchError::CannotLookup)
            });
            same!(format!("{} of the locked collateral {:?} can be taken from it", y, c), can, got);
        }
    }
    // rewards
    for (k, x) in w.get("rew").get("stake").map() {
        same!(format!("reward stake {:?}", k), x.i128(), VaultRewards::stake(&cur(k.at(0).u()), &vid(k.at(1).u())).into_inner());
    }
    for (k, x) in w.get("cap").get("stake").map() {
        same!(format!("capacity stake {:?}", k), x.i128(), CapacityRewards::stake(&(), &cur(k.at(1).u())).into_inner());
    }
    for (k, x) in st.get("owed").map() {
        let rc = reward_currency(k.at(2).u());
        let got = if k.at(0).i64() < 0 {
            <CapacityRewards as RewardsApi<(), CurrencyId, Balance>>::compute_reward(&(), &cur(k.at(1).u()), rc)
        } else {
            <VaultRewards as RewardsApi<CurrencyId, Vid, Balance>>::compute_reward(&cur(k.at(0).u()), &vid(k.at(1).u()), rc)
        };
        same!(format!("owed to {:?}", k), x.i128(), got.map(|a| a as i128).unwrap_or(-1));
    }
    // what can be asked
    for (k, l) in st.get("look").map() {
        let v = vid(k.u());
        let i = |f: &str| l.get(f).i128();
        same!(format!("issuable by vault {:?}", k), i("issuable"), value(VaultRegistry::get_issuable_tokens_from_vault(&v)));
        same!(format!("most premium of vault {:?}", k), i("premium"), value(VaultRegistry::get_vault_max_premium_redeem(&v)));
        let secure = VaultRegistry::get_vault_secure_threshold(&v).map_or(-1, |t| t.into_inner() as i128);
        same!(format!("secure threshold of vault {:?}", k), i("secure"), secure);
        same!(format!("capacity of vault {:?}", k), i("capacity"), value(VaultRegistry::compute_capacity(&v)));
        same!(format!("required collateral of vault {:?}", k), i("required"), value(VaultRegistry::get_required_collateral_for_vault(v.clone())));
        let ratio = VaultRegistry::get_collateralization_from_vault(v.clone(), false).map_or(-1, |t| t.into_inner() as i128);
        same!(format!("collateralization of vault {:?}", k), i("collateralization"), ratio);
        let record = VaultRegistry::get_vault_from_id(&v).expect("vault");
        let c = entry(w.get("liquidation"), |y| y.u() == if v.currencies.collateral == cur(0) { 0 } else { 1 }).unwrap();
        same!(format!("vault {:?} is below the liquidation threshold", k), i("below"), flag(VaultRegistry::is_vault_below_liquidation_threshold(&record, fixed(c))));
        same!(format!("vault {:?} is below the premium threshold", k), i("low"), flag(VaultRegistry::will_be_below_premium_threshold(&v)));
        for j in 0..=nonce(w, k.u()) {
            let id: Pid = (Some(j), v.clone());
            for a in 1..=5u64 {
                let want = entry(l.get("stake"), |y| y.at(0).u() == j && y.at(1).u() == a).map_or(0, |y| y.i128());
                let got = <Staking as RewardsApi<Pid, u64, Balance>>::get_stake(&id, &a).map_or(-1, |x| x as i128);
                same!(format!("stake of {} in pool {} of vault {:?}", a, j, k), want, got);
                for rc in 0..2 {
                    let want = entry(l.get("reward"), |y| y.at(0).u() == j && y.at(1).u() == a && y.at(2).u() == rc).map_or(0, |y| y.i128());
                    let got = <Staking as RewardsApi<Pid, u64, Balance>>::compute_reward(&id, &a, reward_currency(rc)).map_or(-1, |x| x as i128);
                    same!(format!("reward of {} in pool {} of vault {:?}, currency {}", a, j, k, rc), want, got);
                }
            }
        }
    }
    // requests
    same!("issue requests", w.get("issues").map().len(), ids.issues.len());
    let mut addresses = vec![];
    for (k, x) in w.get("issues").map() {
        let g = Issue::issue_requests(ids.issues[k.us()]).ok_or(format!("issue request {:?} is gone", k))?;
        let status = match g.status {
            IssueRequestStatus::Pending => "pending",
            IssueRequestStatus::Completed => "completed",
            IssueRequestStatus::Cancelled => "cancelled",
        };
        let u = |f: &str| x.get(f).u();
        same!(
            format!("issue request {:?}", k),
            (u("who"), vid(u("vault")), u("amount") as u128, u("fee") as u128, u("grief") as u128, cur(u("cur")), u("opened"), u("height") as u32, u("period"), x.get("status").s()),
            (g.requester, g.vault, g.amount, g.fee, g.griefing_collateral, g.griefing_currency, g.opentime, g.btc_height, g.period, status)
        );
        same!(format!("issue request {:?} has an address of its own", k), true, !addresses.contains(&g.btc_address));
        addresses.push(g.btc_address);
    }
    same!("redeem requests", w.get("redeems").map().len(), ids.redeems.len());
    for (k, x) in w.get("redeems").map() {
        let g = Redeem::redeem_requests(ids.redeems[k.us()]).ok_or(format!("redeem request {:?} is gone", k))?;
        let status = match g.status {
            RedeemRequestStatus::Pending => "pending",
            RedeemRequestStatus::Completed => "completed",
            RedeemRequestStatus::Reimbursed(true) => "reimbursed",
            RedeemRequestStatus::Reimbursed(false) => "burnt",
            RedeemRequestStatus::Retried => "retried",
        };
        let u = |f: &str| x.get(f).u();
        same!(
            format!("redeem request {:?}", k),
            (u("who"), vid(u("vault")), u("amount") as u128, u("fee") as u128, u("transfer") as u128, u("premium") as u128, u("opened"), u("height") as u32, u("period"), x.get("status").s(), payee(u("who"))),
            (g.redeemer, g.vault, g.amount_btc, g.fee, g.transfer_fee_btc, g.premium, g.opentime, g.btc_height, g.period, status, g.btc_address)
        );
    }
    same!("replace requests", w.get("replaces").map().len(), ids.replaces.len());
    for (k, x) in w.get("replaces").map() {
        let id = &ids.replaces[k.us()];
        let g = Replace::get_open_or_completed_replace_request(id)
            .or_else(|_| Replace::get_open_or_cancelled_replace_request(id))
            .map_err(|e| format!("replace request {:?}: {:?}", k, e))?;
        let status = match g.status {
            ReplaceRequestStatus::Pending => "pending",
            ReplaceRequestStatus::Completed => "completed",
            ReplaceRequestStatus::Cancelled => "cancelled",
        };
        let u = |f: &str| x.get(f).u();
        same!(
            format!("replace request {:?}", k),
            (vid(u("old")), vid(u("new")), u("amount") as u128, u("collateral") as u128, u("grief") as u128, u("opened"), u("height") as u32, u("period"), x.get("status").s(), payee(20 + u("new"))),
            (g.old_vault, g.new_vault, g.amount, g.collateral, g.griefing_collateral, g.accept_time, g.btc_height, g.period, status, g.btc_address)
        );
    }
    Ok(n)
}
