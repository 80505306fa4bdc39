"""write MANIFEST.json from the registered checks"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import framework, props  # noqa
from notes import NOTES, TECH

ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in framework.CHECKS:
        cmd = f"/opt/venv/bin/python harness/check.py {i}"
        checks.append({"property": i, "quick_cmd": cmd,
                       "thorough_cmd": f"VERIF_TIER=thorough {cmd}",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": TECH.get(i, TECH["*"]), "level": framework.LEVEL[i],
                       "level_note": NOTES.get(i, NOTES["*"])})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python harness/setup.py", "checks": checks,
     "not_applicable": na,
     "notes": "TLA+ specification in spec/, checked with TLC; the real code is driven through its own "
              "main() and public classes from harness/ and its recorded behaviour is validated against "
              "the specification by TLC. No hooks in /repo."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
