"""Regenerates MANIFEST.json from properties.jsonl and the existing property modules."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, "tools", "level_notes.json")))
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    path = os.path.join(ROOT, "mc", "props", pid.lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": pid, "reason": NOTES.get(pid, {}).get("na", "check not built yet")})
        continue
    n = NOTES.get(pid, {})
    checks.append(
        {
            "property": pid,
            "quick_cmd": "bash check.sh %s quick" % pid,
            "thorough_cmd": "bash check.sh %s thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": n.get("technique", "bounded exhaustive enumeration on the real code against a naive reference model"),
            "level": "model_checking",
            "level_note": n.get(
                "note",
                "Holds for every case of the stated finite spaces (sizes in the evidence); nothing is claimed beyond the bounds. "
                "Trusts numpy/pandas/scipy and the reference model in /verif/mc.",
            ),
        }
    )
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none (no hooks were added to /repo)", "enable": "nothing to enable: checks import /repo's working tree", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Checks import the package from /repo's working tree; VERIF_SEED only permutes the exploration order and picks the quoted samples.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
