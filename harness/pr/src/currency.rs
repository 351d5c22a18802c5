use crate::diff;
use codec::{Decode, Encode};
use itf::{Report, V};
use primitives::{oracle::Key, CurrencyId, CurrencyInfo, LpToken, TokenSymbol, VaultId};
use std::convert::TryFrom;

// Native tokens by variant: independent of the conversions under test.
fn token(n: u64) -> TokenSymbol {
    match n {
        0 => TokenSymbol::DOT,
        1 => TokenSymbol::IBTC,
        2 => TokenSymbol::INTR,
        10 => TokenSymbol::KSM,
        11 => TokenSymbol::KBTC,
        12 => TokenSymbol::KINT,
        _ => panic!("no token {}", n),
    }
}
fn part(v: &V) -> LpToken {
    let id = v.get("id");
    match v.get("kind").s() {
        "token" => LpToken::Token(token(id.u())),
        "foreign" => LpToken::ForeignAsset(id.u32()),
        _ => LpToken::StableLpToken(id.u32()),
    }
}
pub fn cur(v: &V) -> CurrencyId {
    let id = v.get("id");
    match v.get("kind").s() {
        "token" => CurrencyId::Token(token(id.u())),
        "foreign" => CurrencyId::ForeignAsset(id.u32()),
        "lend" => CurrencyId::LendToken(id.u32()),
        "lp" => CurrencyId::LpToken(part(v.get("x")), part(v.get("y"))),
        _ => CurrencyId::StableLpToken(id.u32()),
    }
}
fn sorted(c: CurrencyId) -> CurrencyId {
    let mut c = c;
    c.sort();
    c
}

pub fn step(rep: &mut Report, op: &V) -> Result<u64, String> {
    let what = op.get("what").s();
    match what {
        "pair" => {
            let (a, b) = (cur(op.get("a")), cur(op.get("b")));
            let join = op.get("join").list().first().map(cur);
            let canon = op.get("canon").list().first().map(cur);
            diff("the share of the pair", join, CurrencyId::join_lp_token(a, b))?;
            rep.kind(if join.is_some() { "pool" } else { "no pool" });
            for (c, v) in [(a, op.get("a")), (b, op.get("b"))] {
                let k = v.get("kind").s();
                diff("may be in a pool", ["token", "foreign", "stable"].contains(&k), c.is_lp_token())?;
                diff("is a lend token", k == "lend", c.is_lend_token())?;
                if k != "lp" {
                    diff("canonical form of a plain currency", c, sorted(c))?;
                }
            }
            diff("stored bytes", op.get("aBytes").bytes(), a.encode())?;
            diff("reading them back", Some(a), CurrencyId::decode(&mut &op.get("aBytes").bytes()[..]).ok())?;
            if let (Some(j), Some(c)) = (join, canon) {
                diff("canonical share", c, sorted(j))?;
                diff("canonical share of the other order", c, sorted(CurrencyId::join_lp_token(b, a).ok_or("no share the other way round")?))?;
                diff("stored bytes of the share", op.get("joinBytes").bytes(), j.encode())?;
                if let CurrencyId::LpToken(x, y) = j {
                    diff("first part of the share", a, x.into())?;
                    diff("second part of the share", b, y.into())?;
                }
            }
            // what is stored under a currency
            let ab = op.get("aBytes").bytes();
            let bb = b.encode();
            let v: VaultId<[u8; 32], CurrencyId> = VaultId::new([7; 32], a, b);
            diff("vault id bytes", [vec![7u8; 32], ab.clone(), bb].concat(), v.encode())?;
            diff("vault currencies", (a, b), (v.collateral_currency(), v.wrapped_currency()))?;
            diff("vault from pair", v.clone(), VaultId::from(([7u8; 32], v.currencies.clone())))?;
            diff("vault from pair", v.clone(), VaultId::from_pair([7u8; 32], v.currencies.clone()))?;
            diff("exchange rate key bytes", [vec![0u8], ab].concat(), Key::ExchangeRate(a).encode())?;
            diff("fee estimation key bytes", vec![1u8], Key::FeeEstimation.encode())?;
            Ok(14)
        }
        "bytes" => {
            let raw = op.get("raw").bytes();
            let v = op.get("value");
            let mut rest = &raw[..];
            let got = CurrencyId::decode(&mut rest).ok();
            let ok = v.get("ok").b();
            rep.kind(if ok { "read" } else { "unreadable" });
            diff("reading bytes", if ok { Some(cur(v.get("c"))) } else { None }, got)?;
            if ok {
                diff("bytes used", v.get("used").us(), raw.len() - rest.len())?;
            }
            Ok(2)
        }
        "number" => {
            let n = op.get("number").u();
            let sym = op.get("sym");
            let got = TokenSymbol::try_from(n as u8).ok();
            if sym.get("number").int() < &0.into() {
                rep.kind("unassigned number");
                diff("token by number", None, got)?;
            } else {
                rep.kind("number");
                known(n, sym, got)?;
            }
            Ok(6)
        }
        "name" => {
            let name = op.get("name").bytes();
            let sym = op.get("sym");
            let got = TokenSymbol::try_from(name).ok();
            if sym.get("number").int() < &0.into() {
                rep.kind("unknown name");
                diff("token by name", None, got)?;
            } else {
                rep.kind("name");
                known(sym.get("number").u(), sym, got)?;
            }
            Ok(6)
        }
        _ => Ok(0),
    }
}

fn known(n: u64, sym: &V, got: Option<TokenSymbol>) -> Result<(), String> {
    let t = token(n);
    let name = String::from_utf8(sym.get("name").bytes()).unwrap();
    let decimals = sym.get("decimals").u();
    diff("token", Some(t), got)?;
    let num: u8 = t.into();
    diff("number", n, num as u64)?;
    diff("symbol", name.as_str(), CurrencyInfo::symbol(&t))?;
    diff("decimals", decimals, CurrencyInfo::decimals(&t) as u64)?;
    diff("one", 10u128.pow(decimals as u32), t.one())?;
    diff("listed", 1, TokenSymbol::get_info().iter().filter(|x| **x == (name.as_str(), decimals as u32)).count())?;
    diff("number of tokens", 6, TokenSymbol::get_info().len())
}
