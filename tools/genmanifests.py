"""Writes /verif/manifests/<crate>/Cargo.toml from /repo's manifests (run by hand; the results are committed).

Git dependencies on Substrate and ORML become the crates.io releases of the same generation (sp-*) or our
shims of them (frame-*, pallet-*, orml-*); everything about benchmarks and node-side crates is left out.
"""
import os, re, sys, tomllib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SP = {"sp-runtime": "=24.0.0", "sp-core": "=21.0.0", "sp-io": "=23.0.0", "sp-std": "=8.0.0", "sp-arithmetic": "=16.0.0", "sp-weights": "=20.0.0"}
SHIM = {"frame-support": "support", "frame-system": "system", "pallet-timestamp": "timestamp", "pallet-balances": "balances",
        "orml-traits": "orml-traits", "orml-tokens": "orml-tokens", "pallet-utility": "utility", "pallet-scheduler": "scheduler",
        "pallet-preimage": "preimage", "pallet-transaction-payment": "transaction-payment", "pallet-proxy": "proxy",
        "pallet-authorship": "authorship", "pallet-session": "session", "pallet-aura": "aura",
        "frame-benchmarking": "benchmarking", "proptest": "proptest", "visibility": "visibility", "pretty_assertions": "pretty_assertions", "sp-staking": "sp-staking"}
DROP = {"fixed-hash", "sp-api", "rand_xorshift", "orml-oracle", "frame-executive", "try-runtime", "sp-consensus-aura", "sp-tracing"}
CRATES = """security staking reward currency oracle traits fee vault-registry issue redeem replace nomination btc-relay
 loans escrow annuity supply farming dex-general dex-stable dex-swap-router tx-pause clients-info democracy
 multi-transaction-payment collator-selection""".split()


def v(x):
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, list):
        return "[" + ", ".join('"%s"' % i for i in x) + "]"
    return '"%s"' % x


def dep(name, d, crate, keep_optional):
    if isinstance(d, str):
        d = {"version": d}
    d = dict(d)
    real = d.get("package", name)
    if real in DROP:
        return None
    out = {}
    if d.get("package"):
        out["package"] = d["package"]
    if real in SP:
        out["version"] = SP[real]
    elif real in SHIM:
        out["path"] = "../../../../shim/frame/" + SHIM[real]
    elif "path" in d:
        out["path"] = d["path"]
    elif "git" in d:
        raise SystemExit("%s: no replacement for %s" % (crate, real))
    else:
        out["version"] = d["version"]
    if real not in SHIM:
        if "features" in d:
            out["features"] = [f for f in d["features"]]
        if d.get("default-features") is False:
            out["default-features"] = False
    if keep_optional and d.get("optional"):
        out["optional"] = True
    return "%s = { %s }" % (name, ", ".join("%s = %s" % (k, v(x)) for k, x in out.items()))


def main():
    for c in CRATES:
        m = tomllib.load(open("%s/crates/%s/Cargo.toml" % (REPO, c), "rb"))
        o = ["[package]", 'name = "%s"' % m["package"]["name"], 'version = "%s"' % m["package"]["version"], 'edition = "%s"' % m["package"]["edition"], ""]
        names, opts = set(), set()
        for sec in ("dependencies", "dev-dependencies"):
            o.append("[%s]" % sec)
            for n, d in m.get(sec, {}).items():
                l = dep(n, d, c, sec == "dependencies")
                if l:
                    if sec == "dev-dependencies" and n in names and n == "mocktopus":
                        pass
                    o.append(l)
                    names.add(n)
                    if "optional" in l:
                        opts.add(n)
            o.append("")
        o.append("[features]")
        for f, l in m.get("features", {}).items():
            if f in ("runtime-benchmarks", "try-runtime"):
                o.append("%s = []" % f)
                continue
            keep = []
            for x in l:
                base = re.split(r"[/?]", x)[0]
                b = base.replace("dep:", "")
                if b in names or (b in m["features"]) :
                    if b in DROP:
                        continue
                    if x.endswith("/std") and (b in ("mocktopus", "sha2", "rand") ):
                        keep.append(x)
                    else:
                        keep.append(x)
            o.append("%s = %s" % (f, v(keep)))
        p = "%s/manifests/crates/%s/Cargo.toml" % (ROOT, c)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write("\n".join(o) + "\n")


if __name__ == "__main__":
    main()
