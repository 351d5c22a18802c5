#!/usr/bin/env python3
"""Decides one property: simulates its specification, replays every behaviour on the code built from /repo.

usage: check.py <property> [quick|thorough]      |  check.py --replay <file>  |  check.py --setup
exit 0: held; 1: violated (VIOLATION line); 2: this machinery failed.
"""
import fcntl, glob, gzip, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mirror
from plan import CHECKS, HARNESS, POOL

ROOT = mirror.ROOT
BUILD = os.path.join(ROOT, "build")
TARGET = os.path.join(BUILD, "target")
WORKERS = max(2, min(8, os.cpu_count() or 4))


def env():
    e = dict(os.environ)
    e["PATH"] = os.path.expanduser("~/.cargo/bin") + ":" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN="nightly-2023-04-01", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", RUSTFLAGS="--cap-lints=warn --cfg verif_hooks", CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=TARGET)
    e.pop("CARGO_BUILD_TARGET", None)
    return e


def fail(msg):
    print("TOOL-ERROR " + msg, flush=True)
    sys.exit(2)


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build(harness):
    """Builds the replay driver against the current sources; returns the binary."""
    with Lock():
        mirror.main()
        h = HARNESS[harness]
        r = subprocess.run(["cargo", "build", "--offline", "--bin", h["bin"]], cwd=os.path.join(ROOT, h["dir"]), env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            errs = [l for l in r.stdout.splitlines() if l.startswith("error") or l.strip().startswith("-->")]
            fail("the code does not build in the harness %s:\n%s\n%s" % (harness, "\n".join(errs[:20]), r.stdout[-3000:]))
        # a private copy, so that a concurrent build cannot replace it under us
        src = os.path.join(TARGET, "debug", h["bin"])
        dst = os.path.join(BUILD, "bin", "%s.%d" % (h["bin"], os.getpid()))
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copy2(src, dst)
        return dst


def spec_hash(spec, seen=None):
    """The contents of a specification and of everything it imports."""
    seen = {} if seen is None else seen
    path = os.path.normpath(os.path.join(ROOT, "specs", spec))
    if path not in seen:
        with open(path) as f:
            seen[path] = f.read()
        for m in re.finditer(r'from\s+"([^"]+)"', seen[path]):
            spec_hash(os.path.relpath(os.path.join(os.path.dirname(path), m.group(1) + ".qnt"), os.path.join(ROOT, "specs")), seen)
    h = hashlib.sha256()
    for k in sorted(seen):
        h.update(os.path.relpath(k, ROOT).encode() + b"\0" + seen[k].encode() + b"\0")
    return h.hexdigest()


def simulation(part, samples, steps, seed):
    """The command of a simulation, and the name under which its behaviours are kept."""
    cmd = ["--main", part["main"], "--mbt", "--max-samples", str(samples), "--n-traces", str(samples), "--max-steps", str(steps),
           "--seed", str(seed), "--verbosity", "1"]
    for flag, value in (("--invariant", part.get("inv", "inv")), ("--init", part.get("init")), ("--step", part.get("step"))):
        if value:
            cmd += [flag, value]
    key = hashlib.sha256((spec_hash(part["spec"]) + part["spec"] + " ".join(cmd)).encode()).hexdigest()[:24]
    return cmd, os.path.join(BUILD, "traces", key + ".gz")


def simulate(part, samples, steps, seed, keep):
    """Simulates the specification; returns a file with a behaviour per line. It depends on the specification and the
    seed alone, not on the code, so that --setup may have made it before."""
    cmd, kept = simulation(part, samples, steps, seed)
    if os.path.exists(kept):
        return kept
    tmp = os.path.join(BUILD, "run", "sim.%d.%s" % (os.getpid(), os.path.basename(kept)))
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    e = env()
    e["NODE_OPTIONS"] = "--max-old-space-size=3500"
    r = subprocess.run(["quint", "run", os.path.join(ROOT, "specs", part["spec"])] + cmd + ["--out-itf", os.path.join(tmp, "t_{seq}.itf.json")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
    files = sorted(glob.glob(os.path.join(tmp, "*.itf.json")))
    if r.returncode != 0 or not files:
        fail("quint run %s (seed %s): exit %d, %d traces\n%s" % (part["spec"], seed, r.returncode, len(files), r.stdout[-2500:]))
    out = kept if keep else tmp + ".gz"
    p = subprocess.run([sys.executable, os.path.abspath(__file__), "--pack", tmp, out + ".part"])
    if p.returncode != 0:
        fail("packing the behaviours of %s failed" % part["spec"])
    os.rename(out + ".part", out)
    shutil.rmtree(tmp, ignore_errors=True)
    return out


def pack(src, out):
    """Behaviours as lines, without what the simulator adds for itself, each with the keys of its states."""
    os.makedirs(os.path.dirname(out), exist_ok=True)
    small = re.compile(r'\{\s*"#bigint":\s*"(-?\d{1,18})"\s*\}')
    with gzip.open(out, "wt", compresslevel=4) as o:
        for path in sorted(glob.glob(os.path.join(src, "*.itf.json"))):
            with open(path) as f:
                states = json.loads(small.sub(r"\1", f.read()))["states"]
            states = [{k: v for k, v in st.items() if k != "#meta" and not k.startswith("mbt::")} for st in states]
            keys = [hashlib.blake2b(json.dumps(st, sort_keys=True).encode(), digest_size=12).hexdigest() for st in states]
            o.write(json.dumps({"keys": keys, "states": states}, separators=(",", ":")) + "\n")


def replay(binary, kind, file):
    with subprocess.Popen(["gzip", "-dc", file], stdout=subprocess.PIPE) as gz:
        r = subprocess.run([binary, kind, "-"], stdin=gz.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env())
        gz.stdout.close()
    try:
        rep = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        if r.returncode < 0 or r.returncode in (101, 134, 139):
            # the code under test took the process down (abort, stack overflow): data, not a tool error
            rep = {"traces": 0, "steps": 0, "comparisons": 0, "kinds": {}, "samples": [],
                   "violation": {"trace": "0", "step": -1,
                                 "message": "the process died with %d: %s" % (r.returncode, r.stderr[-800:])}}
        else:
            fail("replay %s: exit %d\n%s\n%s" % (kind, r.returncode, r.stdout[-1000:], r.stderr[-2000:]))
    return rep


def lines(file):
    with gzip.open(file, "rt") as f:
        for line in f:
            yield line


def part_jobs(part, tier, seed):
    """(samples, steps, seed) for each worker."""
    samples, steps = part[tier]
    per = max(1, (samples + WORKERS - 1) // WORKERS)
    # far apart: the simulator counts its seed up, so that close seeds run into each other's sequences
    def far(i):
        key = "%s %s %s %d %d" % (part["spec"], part["kind"], part.get("step"), seed, i)
        return int(hashlib.sha256(key.encode()).hexdigest()[:12], 16)
    return [(per, steps, far(i)) for i in range(WORKERS)]


def pool_jobs(seed):
    per_part = [[(p,) + j for j in part_jobs(p, "quick", seed)] for p in POOL]
    return [jobs[i] for i in range(WORKERS) for jobs in per_part]


def all_jobs(prop, tier, seed):
    """The simulations of a check. Where --setup has made the shared behaviours, the quick tier replays all of those."""
    plan = CHECKS[prop]
    if plan.get("pool") and tier == "quick":
        jobs = [j for j in pool_jobs(seed) if os.path.exists(simulation(*j)[1])]
        if len(jobs) >= WORKERS * len(POOL) // 2:
            return jobs
    return [(part,) + j for part in plan["parts"] for j in part_jobs(part, tier, seed)]


def known_findings(prop):
    path = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k.get("status") == "open"]


def run_check(prop, tier, seed):
    t0 = time.time()
    plan = CHECKS[prop]
    work = os.path.join(BUILD, "run", "%s.%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    tot = dict(traces=0, steps=0, comparisons=0)
    kinds, samples, viol, distinct, transitions = {}, [], None, set(), set()
    bins = {}
    notes = []
    try:
        with ThreadPoolExecutor(WORKERS) as pool:
            # simulation does not need the build: start it first
            jobs = []
            for part, n, k, sd in all_jobs(prop, tier, seed):
                jobs.append((part, pool.submit(simulate, part, n, k, sd, False)))
            for part in plan["parts"]:
                if part["harness"] not in bins:
                    bins[part["harness"]] = build(part["harness"])
            t_build = time.time() - t0

            def do(part, fut):
                file = fut.result()
                rep = replay(bins[part["harness"]], part["kind"], file)
                if rep["violation"]:
                    at = int(rep["violation"]["trace"])
                    rep["violation"]["states"] = next((json.loads(l)["states"] for i, l in enumerate(lines(file)) if i == at), None)
                keys, trans = set(), set()
                for l in lines(file):
                    prev = None
                    for key in json.loads(l[:l.index("]") + 1] + "}")["keys"]:
                        keys.add(key)
                        if prev is not None:
                            trans.add(prev + key)
                        prev = key
                return part, rep, keys, trans

            # a second pool: replays wait for simulations of the first
            with ThreadPoolExecutor(WORKERS) as pool2:
                results = [f.result() for f in [pool2.submit(do, p, j) for p, j in jobs]]
        for part, rep, keys, trans in results:
            for k in tot:
                tot[k] += rep[k]
            for k, v in rep["kinds"].items():
                name = part["kind"] + ":" + k
                kinds[name] = kinds.get(name, 0) + v
            if len(samples) < 6:
                samples += rep["samples"][:2]
            distinct |= keys
            transitions |= trans
            if rep["violation"] and viol is None:
                viol = (part, rep["violation"])
        missing = []
        if viol is None:
            for part in plan["parts"]:
                for k in part.get("must_cover", []):
                    if kinds.get(part["kind"] + ":" + k, 0) == 0:
                        missing.append(part["kind"] + ":" + k)
            if missing:
                fail("vacuous run: never exercised %s (saw %s)" % (missing, kinds))
        rc = 0
        violations = 0
        finding = None
        if viol is not None:
            part, v = viol
            for k in known_findings(prop):
                if re.search(k["match"], v["message"]):
                    finding = k
            if finding is None:
                rc = 1
                violations = 1
        for k in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        if rc:
            rdir = os.path.join(BUILD, "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s-%d.json" % (prop, tier, seed))
            with open(path, "w") as f:
                json.dump({"property": prop, "harness": part["harness"], "kind": part["kind"], "spec": part["spec"],
                           "step": v["step"], "message": v["message"], "trace": {"states": v["states"]}}, f)
            print("at step %s of a behaviour of %s: %s" % (v["step"], part["spec"], v["message"][:3000]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        evid = {
            "property": prop, "tier": tier, "seed": seed, "level": plan["level"],
            "coverage": {
                "evaluations": tot["comparisons"],
                "distinct_nontrivial": len(distinct),
                "rule": plan.get("rule", "every case is a state of a seeded simulation of the specification, with the design "
                                 "invariants evaluated in it; distinct states are counted by content"),
                "states": len(distinct), "transitions": len(transitions),
                "traces_validated_against_impl": tot["traces"],
                "steps_replayed": tot["steps"], "kinds": kinds, "samples": samples[:6] or ["(none)"],
            },
            "assumptions": plan.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2), "violations": violations,
        }
        edir = os.path.join(ROOT, "evidence")
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, prop + ".json"), "w") as f:
            json.dump(evid, f, indent=1)
        print("%s %s seed=%d: %d behaviours, %d steps, %d comparisons, %d distinct states, build %.0fs, total %.0fs%s" % (
            prop, tier, seed, tot["traces"], tot["steps"], tot["comparisons"], len(distinct), t_build, time.time() - t0,
            "" if rc else ": held"))
        if os.environ.get("VERIF_KINDS"):
            print(json.dumps(kinds, indent=1))
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)
        for f in glob.glob(os.path.join(BUILD, "run", "sim.%d.*" % os.getpid())):
            os.unlink(f) if os.path.isfile(f) else shutil.rmtree(f, ignore_errors=True)
        for b in bins.values():
            try:
                os.unlink(b)
            except OSError:
                pass


def main():
    a = sys.argv[1:]
    if a and a[0] == "--pack":
        pack(a[1], a[2])
        return
    if a and a[0] == "--replay":
        with open(a[1]) as f:
            r = json.load(f)
        b = build(r["harness"])
        p = os.path.join(BUILD, "replay", "one.%d.gz" % os.getpid())
        with gzip.open(p, "wt") as f:
            f.write(json.dumps(r["trace"]) + "\n")
        rep = replay(b, r["kind"], p)
        os.unlink(b)
        os.unlink(p)
        print(json.dumps(rep, indent=1))
        sys.exit(1 if rep["violation"] else 0)
    if a and a[0] == "--setup":
        for h in HARNESS:
            os.unlink(build(h))
        # the behaviours that several checks replay, as many as there is time for
        started = time.time()
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        os.makedirs(os.path.join(BUILD, "traces"), exist_ok=True)
        jobs = {simulation(*j)[1]: j for j in pool_jobs(seed)}
        for f in glob.glob(os.path.join(BUILD, "traces", "*")):
            if f not in jobs:
                os.unlink(f)
        with ThreadPoolExecutor(WORKERS) as pool:
            for f in [pool.submit(lambda j: time.time() - started < 850 and simulate(*j, True), j) for j in jobs.values()]:
                f.result()
        print("setup done")
        return
    if not a or a[0] not in CHECKS:
        fail("usage: check.py <property> [quick|thorough]; properties: " + " ".join(sorted(CHECKS)))
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    sys.exit(run_check(a[0], tier, seed))


if __name__ == "__main__":
    main()
