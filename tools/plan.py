"""Which specification and which replay driver decide each property, and how much is explored."""

HARNESS = {
    "bt": {"dir": "harness/bt", "bin": "bt"},
    "pr": {"dir": "harness/pr", "bin": "pr"},
    "ct": {"dir": "harness/ct", "bin": "ct"},
    "pools": {"dir": "harness/pools", "bin": "pools"},
    "relay": {"dir": "harness/relay", "bin": "relay"},
    "bridge": {"dir": "harness/bridge", "bin": "bridge"},
    "apps": {"dir": "harness/apps", "bin": "apps"},
}


def bt(spec, kind, quick, thorough, **kw):
    return dict(spec="bitcoin/%s.qnt" % spec, main=spec, harness="bt", kind=kind, quick=quick, thorough=thorough, **kw)


def bridge(step, quick, thorough, *cover, **kw):
    return dict(spec="bridge/bridge.qnt", main="bridge", harness="bridge", kind="bridge", step=step, quick=quick, thorough=thorough,
                must_cover=list(cover), **kw)


def mixed(step, steps, *cover, more=(), **kw):
    """Mostly the operations the property is about; the rest with every operation, and with vaults failing."""
    return [bridge(step, (200, steps), (3200, 60), *cover, **kw),
            bridge("step", (60, 40), (800, 60), **kw),
            bridge("stepDrama", (60, 40), (800, 60), **kw)] + [bridge(m, (60, 40), (1600, 60), **kw) for m in more]


def lending(step, quick, *cover):
    return dict(spec="apps/lending.qnt", main="lending", harness="apps", kind="lending", step=step, quick=quick, thorough=(quick[0] * 12, 60),
                must_cover=list(cover))


# The behaviours of the bridge that --setup makes once and that every check of the bridge replays in the quick tier;
# where they were not made, a check makes the fewer ones that its own entry below names.
POOL = [bridge(step, (n, k), None, inv="solvent" if step == "stepFees" else "inv") for step, n, k in [
    ("step", 280, 40), ("stepDrama", 280, 40), ("stepCollateral", 160, 36), ("stepLiquidate", 160, 40), ("stepIssue", 120, 36),
    ("stepRedeem", 160, 36), ("stepReplace", 120, 40), ("stepStaking", 120, 36), ("stepFees", 160, 36), ("stepPeriods", 160, 40),
    ("stepNominate", 280, 40), ("stepTakeover", 200, 40)]]

CHECKS = {
    "C01": {"level": "exploration", "parts": [
        bt("wire", "wire", (800, 12), (12000, 14), must_cover=["same", "refuse", "any"])]},
    "C02": {"level": "exploration", "parts": [
        bt("reader", "reader", (1600, 12), (24000, 14), must_cover=["fresh:accepted", "hostileCoinbase:refused", "widenPrefix:refused"])]},
    "C03": {"level": "exploration", "parts": [
        bt("merkle", "merkle", (640, 20), (10000, 22), must_cover=["single:accepted", "giant:accepted", "giant:refused", "miscount:refused"])]},
    "C04": {"level": "exploration", "parts": [
        bt("difficulty", "difficulty", (640, 30), (12000, 40), must_cover=["retarget", "target", "no target"])]},
    "C05": {"level": "exploration", "parts": [
        bt("header", "header", (640, 20), (12000, 24), must_cover=["header", "80 bytes refused", "truncated"])]},
    "C06": {"level": "exploration", "parts": [
        bt("script", "script", (640, 25), (12000, 30), must_cover=["p2pkh", "p2sh", "p2wpkh", "p2wsh", "none", "null data"])]},
    "C07": {"level": "exploration", "parts": [
        bt("okd", "okd", (240, 25), (4000, 40), must_cover=["derived", "not a key"])]},
    "C08": {"level": "exploration", "parts": [
        bt("wire", "compat", (480, 12), (8000, 14), must_cover=["converted"])]},
    "C09": {"level": "exploration", "parts": [
        dict(spec="contract/swap.qnt", main="swap", harness="ct", kind="swap", quick=(640, 25), thorough=(12000, 40),
             must_cover=["create:ok", "create:refused", "execute:ok", "execute:refused"])]},
    "C10": {"level": "exploration", "parts": [
        dict(spec="primitives/currency.qnt", main="currency", harness="pr", kind="currency", quick=(800, 25), thorough=(16000, 40),
             must_cover=["pool", "no pool", "read", "unreadable", "number", "unassigned number", "name", "unknown name"])]},
    "C11": {"level": "exploration", "parts": [
        dict(spec="primitives/amounts.qnt", main="amounts", harness="pr", kind="amounts", quick=(640, 25), thorough=(12000, 40),
             must_cover=["fixed", "too big", "signed", "unsigned", "written", "readable text", "unreadable text", "issue", "redeem", "replace"])]},
    "C12": {"level": "exploration", "parts": [
        dict(spec="pools/reward.qnt", main="reward", harness="pools", kind="reward", quick=(480, 30), thorough=(6000, 45),
             must_cover=["deposit:ok", "withdraw:ok", "withdraw:refused", "set:ok", "distribute:ok", "distribute:refused", "collect:ok"])]},
    "C13": {"level": "exploration", "parts": [
        dict(spec="pools/staking.qnt", main="staking", harness="pools", kind="staking", quick=(400, 30), thorough=(4800, 45),
             must_cover=["deposit:ok", "withdraw:ok", "withdraw:refused", "withdrawAll:ok", "slash:ok", "slash:refused", "distribute:ok", "collect:ok", "refund:ok"])]},
    "C14": {"level": "exploration", "parts": [
        dict(spec="relay/chain.qnt", main="chain", harness="relay", kind="chain", quick=(320, 40), thorough=(4800, 50),
             must_cover=["initialize:ok", "initialize:refused", "submit:ok", "submit:refused", "ask:ok", "ask:refused", "expired:ok", "activate:refused"]),
        dict(spec="relay/chain.qnt", main="chain", harness="relay", kind="chain", quick=(160, 60), thorough=(2400, 80), step="stepForks")]},
    "C15": {"level": "exploration", "parts": [
        dict(spec="relay/payment.qnt", main="payment", harness="relay", kind="payment", quick=(480, 40), thorough=(6000, 60),
             must_cover=["included:ok", "included:refused", "issue:ok", "issue:refused", "settle:ok", "settle:refused"])]},
    "C16": {"level": "exploration", "pool": True, "parts": [
        bridge("step", (120, 40), (1600, 60), "mint:ok", "issue:ok", "redeem:ok", "execute redeem:ok", "self redeem:ok", "report:ok"),
        bridge("stepDrama", (120, 40), (1600, 60), "cancel redeem:ok", "mint reimbursed:ok", "mint reimbursed:refused"),
        bridge("stepLiquidate", (40, 40), (800, 60), "liquidation redeem:ok"),
        bridge("stepReplace", (40, 40), (600, 60), "accept replace:ok", "execute replace:ok"),
        bridge("stepIssue", (40, 40), (600, 60), "execute issue:ok")]},
    "C17": {"level": "exploration", "pool": True, "parts": mixed(
        "stepCollateral", 36, "deposit:ok", "deposit:refused", "withdraw:ok", "withdraw:refused", "register:ok", "register:refused",
        "customize:ok", "customize:refused", "issue:ok", "issue:refused")},
    "C18": {"level": "exploration", "pool": True, "parts": [
        bridge("stepLiquidate", (240, 40), (3200, 60), "report:ok", "report:refused", "liquidation redeem:ok", "liquidation redeem:refused", "recover:ok",
               "recover:refused", "cancel redeem:ok", "execute redeem:ok", "cancel issue:ok", "execute issue:ok"),
        bridge("stepDrama", (40, 40), (1600, 60)),
        bridge("stepTakeover", (80, 40), (1600, 60))]},
    "C19": {"level": "exploration", "pool": True, "parts": mixed(
        "stepIssue", 36, "issue:ok", "issue:refused", "execute issue:ok", "execute issue:refused", "cancel issue:ok", "cancel issue:refused", more=["stepPeriods"])},
    "C20": {"level": "exploration", "pool": True, "parts": mixed(
        "stepRedeem", 36, "redeem:ok", "redeem:refused", "execute redeem:ok", "execute redeem:refused", "cancel redeem:ok",
        "cancel redeem:refused", "self redeem:ok", "mint reimbursed:ok")},
    "C21": {"level": "exploration", "pool": True, "parts": mixed(
        "stepReplace", 40, "replace:ok", "replace:refused", "accept replace:ok", "accept replace:refused", "execute replace:ok",
        "execute replace:refused", "cancel replace:ok", "cancel replace:refused", "withdraw replace:ok", more=["stepTakeover"])},
    "C22": {"level": "exploration", "pool": True, "parts": mixed(
        "stepStaking", 36, "opt in:ok", "opt in:refused", "opt out:ok", "opt out:refused", "deposit:ok", "deposit:refused",
        "withdraw:ok", "withdraw:refused", "limit:ok", more=["stepNominate"])},
    "C23": {"level": "exploration", "pool": True, "parts": mixed(
        "stepFees", 36, "reward:ok", "collect:ok", "commission:ok", "commission:refused", "execute issue:ok", "execute redeem:ok",
        inv="solvent")},
    "C24": {"level": "exploration", "parts": [
        dict(spec="apps/oracle.qnt", main="oracle", harness="apps", kind="oracle", quick=(640, 50), thorough=(9600, 70),
             must_cover=["feed:ok", "feed:refused", "block:ok", "convert:ok", "convert:refused", "distrust:ok", "trust:refused"])]},
    "C25": {"level": "exploration", "parts": [
        lending("step", (200, 45), "mint:ok", "mint:refused", "redeem:ok", "redeem:refused", "redeem all:ok", "repay:ok", "repay:refused", "borrow:ok",
                "reserve:ok", "unreserve:ok", "unreserve:refused", "unshare:refused", "donate:ok", "give:ok", "add:refused", "retune:ok", "remodel:ok", "remodel:refused"),
        lending("stepDust", (200, 45)),
        lending("stepCrisis", (80, 45))]},
    "C26": {"level": "exploration", "parts": [
        lending("stepCrisis", (320, 45), "borrow:ok", "borrow:refused", "liquidate:ok", "liquidate:refused", "deposit:ok", "withdraw:ok", "withdraw:refused", "repay:ok"),
        lending("step", (120, 45), "retune:refused", "force:ok", "activate:ok")]},
    "C27": {"level": "exploration", "parts": [
        lending("stepRewards", (320, 45), "claim:ok", "claim for:ok", "speeds:ok", "fund:ok", "give:ok", "mint:ok", "redeem:ok", "borrow:ok", "repay:ok"),
        lending("stepCrisis", (80, 45), "liquidate:ok")]},
    "C28": {"level": "exploration", "parts": [
        dict(spec="apps/escrow.qnt", main="escrow", harness="apps", kind="escrow", quick=(320, 45), thorough=(4800, 60),
             must_cover=["create:ok", "create:refused", "add:ok", "add:refused", "extend:ok", "extend:refused", "unlock:ok", "unlock:refused", "refresh:ok",
                         "reserve:ok", "reserve:refused", "release:ok", "send:refused", "claim:ok", "claim:refused", "limit:ok", "bar:ok", "inflate:ok", "renew:ok"]),
        dict(spec="apps/escrow.qnt", main="escrow", harness="apps", kind="escrow", step="stepLocks", quick=(120, 60), thorough=(2400, 80))]},
    "C29": {"level": "exploration", "parts": [
        dict(spec="apps/dex.qnt", main="dex", harness="apps", kind="dex", quick=(400, 45), thorough=(8000, 60),
             must_cover=["sell:ok", "sell:refused", "buy:ok", "buy:refused", "add:ok", "add:refused", "remove:ok", "remove:refused", "send:ok", "create:ok", "create:refused",
                         "rate:ok", "rate:refused", "taker:ok", "taker:refused", "point:ok"])]},
    "C30": {"level": "exploration", "parts": [
        dict(spec="apps/dex.qnt", main="dex", harness="apps", kind="dex", init="initEmpty", step="stepBoot", quick=(480, 50), thorough=(8000, 70),
             must_cover=["start:ok", "start:refused", "amend:ok", "amend:refused", "contribute:ok", "contribute:refused", "open:ok", "open:refused", "claim:ok", "claim:refused",
                         "refund:ok", "refund:refused", "charge:ok", "charge:refused", "take back:ok", "take back:refused", "create:ok"])]},
}
