"""Mirror of /repo's sources into /verif/build/mirror, content-compared.

/repo's manifests name git dependencies that cannot be fetched offline, so every crate under test is
compiled from an exact copy of its sources (nothing is cut, patched or rewritten) with a manifest of
ours from /verif/manifests.  A file is rewritten only when its content differs, so cargo rebuilds exactly
what changed in /repo, whatever the timestamps there are.
"""
import os, shutil, sys, filecmp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
DST = os.path.join(ROOT, "build", "mirror")
MAN = os.path.join(ROOT, "manifests")


def put(path, data):
    if os.path.exists(path):
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)
    return True


def sync_tree(src, dst, keep=()):
    changed = 0
    want = set(keep)
    for base, dirs, files in os.walk(src):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "rpc", "runtime-api"))
        for f in sorted(files):
            if f in ("Cargo.toml", "Cargo.lock"):
                continue
            p = os.path.join(base, f)
            rel = os.path.relpath(p, src)
            want.add(rel)
            with open(p, "rb") as h:
                changed += put(os.path.join(dst, rel), h.read())
    for base, dirs, files in os.walk(dst):
        for f in files:
            rel = os.path.relpath(os.path.join(base, f), dst)
            if rel not in want and not rel.startswith("target"):
                os.unlink(os.path.join(base, f))
                changed += 1
    return changed


def main():
    """Mirrors every crate that has a manifest of ours."""
    n = 0
    for base, _dirs, files in os.walk(MAN):
        if "Cargo.toml" not in files:
            continue
        rel = os.path.relpath(base, MAN)
        src = os.path.join(REPO, rel)
        dst = os.path.join(DST, rel)
        if not os.path.isdir(src):
            continue
        n += sync_tree(src, dst, keep=("Cargo.toml",))
        with open(os.path.join(base, "Cargo.toml"), "rb") as h:
            n += put(os.path.join(dst, "Cargo.toml"), h.read())
    return n


if __name__ == "__main__":
    print("mirror: %d files changed" % main())
