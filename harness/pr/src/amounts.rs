use crate::diff;
use bitcoin::{Address, PublicKey};
use codec::{Decode, Encode};
use itf::{Report, V};
use primitives::{
    issue::{IssueRequest, IssueRequestStatus}, redeem::{RedeemRequest, RedeemRequestStatus}, replace::{ReplaceRequest, ReplaceRequestStatus},
    Balance, BalanceToFixedPoint, BalanceWrapper, CurrencyId, SignedFixedPoint, TokenSymbol, TruncateFixedPointToInt, UnsignedFixedPoint, VaultId,
};
use serde_json::{json, Value};

type Acc = [u8; 32];
type Issue = IssueRequest<Acc, u32, Balance, CurrencyId>;
type Redeem = RedeemRequest<Acc, u32, Balance, CurrencyId>;
type Replace = ReplaceRequest<Acc, u32, Balance, CurrencyId>;

fn text(v: &V) -> String {
    String::from_utf8(v.bytes()).unwrap()
}
fn currency(v: &V) -> CurrencyId {
    CurrencyId::decode(&mut &v.bytes()[..]).expect("the specification's currencies are well-formed")
}

pub fn step(rep: &mut Report, op: &V) -> Result<u64, String> {
    let what = op.get("what").s();
    match what {
        "fixed" => {
            let f = op.get("fixed").list().first().map(|x| x.i128());
            rep.kind(if f.is_some() { "fixed" } else { "too big" });
            let got: Option<SignedFixedPoint> = op.get("v").u128().to_fixed();
            diff("fixed point", f, got.map(|x| x.into_inner()))?;
            Ok(1)
        }
        "cut" => {
            let v = op.get("v").int();
            let whole = op.get("whole").int();
            let mut n = 0;
            if let Ok(i) = i128::try_from(v) {
                diff("signed integer part", Some(whole.clone()), SignedFixedPoint::from_inner(i).truncate_to_inner().map(Into::into))?;
                rep.kind("signed");
                n += 1;
            }
            if let Ok(u) = u128::try_from(v) {
                diff("unsigned integer part", Some(whole.clone()), UnsignedFixedPoint::from_inner(u).truncate_to_inner().map(Into::into))?;
                rep.kind("unsigned");
                n += 1;
            }
            Ok(n)
        }
        "write" => {
            rep.kind("written");
            let v = op.get("v").u128();
            let w = BalanceWrapper { amount: v };
            let j = serde_json::to_value(&w).map_err(|e| e.to_string())?;
            diff("as JSON", json!({ "amount": text(op.get("text")) }), j.clone())?;
            diff("read back", Some(v), serde_json::from_value::<BalanceWrapper<Balance>>(j).ok().map(|x| x.amount))?;
            diff("as bytes", v.to_le_bytes().to_vec(), w.encode())?;
            Ok(3)
        }
        "read" => {
            let p = op.get("parsed").list().first().map(|x| x.u128());
            rep.kind(if p.is_some() { "readable text" } else { "unreadable text" });
            let j = json!({ "amount": text(op.get("text")) });
            diff("from JSON", p, serde_json::from_value::<BalanceWrapper<Balance>>(j).ok().map(|x| x.amount))?;
            Ok(1)
        }
        "request" => request(rep, op),
        _ => Ok(0),
    }
}

fn same<T: Encode + Decode + serde::Serialize + for<'a> serde::Deserialize<'a> + PartialEq + std::fmt::Debug>(
    r: T, image: &[u8], amounts: &[(&str, u128)],
) -> Result<u64, String> {
    diff("stored bytes", image.to_vec(), r.encode())?;
    diff("read from storage", Some(&r), T::decode(&mut &image[..]).ok().as_ref())?;
    let j = serde_json::to_value(&r).map_err(|e| e.to_string())?;
    for (k, v) in amounts {
        diff(k, &Value::String(v.to_string()), &j[*k])?;
    }
    let text = serde_json::to_string(&r).map_err(|e| e.to_string())?;
    diff("read from JSON", Some(&r), serde_json::from_str::<T>(&text).ok().as_ref())?;
    Ok(3 + amounts.len() as u64)
}

fn request(rep: &mut Report, op: &V) -> Result<u64, String> {
    let r = op.get("req");
    let image = op.get("image").bytes();
    let a: Vec<u128> = r.get("amounts").list().iter().map(|x| x.u128()).collect();
    let vault = VaultId::new([r.get("vault").u() as u8; 32], currency(r.get("coll")), CurrencyId::Token(TokenSymbol::IBTC));
    let other = VaultId::new([r.get("other").u() as u8; 32], CurrencyId::Token(TokenSymbol::KSM), CurrencyId::Token(TokenSymbol::IBTC));
    let h = r.get("hash").u() as u8;
    let btc_address = match r.get("addr").u() {
        0 => Address::P2PKH([h; 20].into()),
        1 => Address::P2SH([h; 20].into()),
        2 => Address::P2WPKHv0([h; 20].into()),
        _ => Address::P2WSHv0([h; 32].into()),
    };
    let who = [r.get("who").u() as u8; 32];
    let (time, period, height, status) = (r.get("time").u32(), r.get("period").u32(), r.get("height").u32(), r.get("status").u());
    rep.kind(r.get("kind").s());
    match r.get("kind").s() {
        "issue" => same(
            Issue {
                vault, opentime: time, period, griefing_collateral: a[0], griefing_currency: currency(r.get("griefing")), amount: a[1],
                fee: a[2], requester: who, btc_address, btc_public_key: PublicKey([r.get("key").u() as u8; 33]), btc_height: height,
                status: [IssueRequestStatus::Pending, IssueRequestStatus::Completed, IssueRequestStatus::Cancelled][status as usize % 3].clone(),
            },
            &image,
            &[("griefing_collateral", a[0]), ("amount", a[1]), ("fee", a[2])],
        ),
        "redeem" => same(
            Redeem {
                vault, opentime: time, period, fee: a[0], transfer_fee_btc: a[1], amount_btc: a[2], premium: a[3], redeemer: who,
                btc_address, btc_height: height,
                status: match status {
                    0 => RedeemRequestStatus::Pending,
                    1 => RedeemRequestStatus::Completed,
                    2 => RedeemRequestStatus::Reimbursed(false),
                    3 => RedeemRequestStatus::Reimbursed(true),
                    _ => RedeemRequestStatus::Retried,
                },
            },
            &image,
            &[("fee", a[0]), ("transfer_fee_btc", a[1]), ("amount_btc", a[2]), ("premium", a[3])],
        ),
        _ => same(
            Replace {
                old_vault: vault, new_vault: other, amount: a[0], griefing_collateral: a[1], collateral: a[2], accept_time: time, period,
                btc_address, btc_height: height,
                status: [ReplaceRequestStatus::Pending, ReplaceRequestStatus::Completed, ReplaceRequestStatus::Cancelled][status as usize % 3].clone(),
            },
            &image,
            &[("amount", a[0]), ("griefing_collateral", a[1]), ("collateral", a[2])],
        ),
    }
}
