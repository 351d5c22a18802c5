#!/usr/bin/env python3
"""mkseed.py <id> : (re)creates /verif/seeded/<id> from tools/seeds/<id>.py, then tries it:
build, stable tests, demo on the patched and the unpatched tree, and the property's check on the patched tree.
Options: --only-make, --checks C01,C02 (checks to run instead of the property's own)."""
import importlib.util, json, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def load(sid):
    spec = importlib.util.spec_from_file_location(sid, os.path.join(ROOT, "tools", "seeds", sid + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def make(sid):
    m = load(sid)
    assert sh(["git", "-C", REPO, "status", "--porcelain"]).stdout.strip() == "", "/repo is dirty"
    d = os.path.join(ROOT, "seeded", sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        for f, old, new in m.EDITS:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", REPO, "diff"], stdout=subprocess.PIPE, text=True).stdout
    finally:
        sh(["git", "-C", REPO, "checkout", "--", "."])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    kind = getattr(m, "KIND", "bitcoin")
    t = os.path.join(ROOT, "tools", "demo", kind)
    for n in os.listdir(t):
        if n in ("bundle.sh", "kit.rs"):
            continue
        if n == "demo.sh":
            s = open(os.path.join(t, n)).read().replace("@ID@", sid.lower())
            for k, v in getattr(m, "VARS", {}).items():
                s = s.replace("@%s@" % k, v)
            open(os.path.join(d, n), "w").write(s)
            os.chmod(os.path.join(d, n), 0o755)
        elif os.path.isdir(os.path.join(t, n)):
            shutil.copytree(os.path.join(t, n), os.path.join(d, n), ignore=shutil.ignore_patterns("target"))
        else:
            shutil.copy2(os.path.join(t, n), os.path.join(d, n))
    open(os.path.join(d, "main.rs"), "w").write(m.DEMO)
    json.dump({"property": m.PROPERTY, "needs": m.NEEDS, "what_it_breaks": m.BREAKS}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    return m, d


def trial(sid, m, d, checks):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    r0 = sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO)
    print(sid, "demo unpatched:", r0.returncode, flush=True)
    if r0.returncode:
        print(r0.stdout[-1500:])
    a = sh(["git", "-C", REPO, "apply", os.path.join(d, "patch.diff")])
    assert a.returncode == 0, a.stdout
    try:
        b = sh(["bash", "/opt/vp/build.sh"])
        t = sh(["bash", "/opt/vp/test.sh", "/tmp/seed-test.json"])
        passed = set(json.load(open("/tmp/seed-test.json"))["passed"])
        print(sid, "build:", b.returncode, "stable tests broken:", sorted(stable - passed), flush=True)
        r1 = sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO)
        print(sid, "demo patched:", r1.returncode, r1.stdout.strip()[-300:], flush=True)
        for c in checks or [m.PROPERTY]:
            t0 = time.time()
            e = dict(os.environ, VERIF_SEED="1")
            k = sh(["python3", os.path.join(ROOT, "tools", "check.py"), c, "quick"], cwd=ROOT, env=e)
            print(sid, c, "check:", k.returncode, "%.0fs" % (time.time() - t0), "\n   ", "\n    ".join(l[:400] for l in k.stdout.strip().splitlines()[-4:]), flush=True)
    finally:
        sh(["git", "-C", REPO, "checkout", "--", "."])


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    only = "--only-make" in sys.argv
    checks = None
    for a in sys.argv[1:]:
        if a.startswith("--checks="):
            checks = a[9:].split(",")
    for sid in args:
        m, d = make(sid)
        if not only:
            trial(sid, m, d, checks)
