"""Source of properties.jsonl and of MANIFEST.json's checks: run `python3 tools/props.py` after editing."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import CHECKS
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), note="", level=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                           "mechanism": mechanism}))
    P[-1]["_note"] = note


exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")

claimed = [p for p in P if p["id"] in CHECKS]
man = {
    "version": 1,
    "setup_cmd": "python3 tools/check.py --setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 tools/check.py %s quick" % p["id"],
        "thorough_cmd": "python3 tools/check.py %s thorough" % p["id"],
        "technique": CHECKS[p["id"]].get("technique", "Quint specification; seeded simulation replayed on the code (model-based conformance)"),
        "level": CHECKS[p["id"]]["level"],
        "level_note": p["_note"] or "every simulated behaviour of the specification agrees with the code step by step; seeded, bounded, not exhaustive",
    } for p in claimed],
    "not_applicable": [{"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]} for p in P if p["id"] not in CHECKS],
    "hooks": {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS --cfg verif_hooks, set by tools/check.py", "source_commits": ["9f7aae8"]},
    "notes": "Specifications are in Quint (specs/); see DESIGN.md. Genuine defects that were repaired in /repo are listed in known-findings.json",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
missing = [c for c in CHECKS if c not in [p["id"] for p in P]]
assert not missing, missing
print("%d properties, %d claimed" % (len(P), len(claimed)))
