"""one run in a process of its own (used by the determinism check); reads a description as
JSON from stdin, prints the observations as JSON"""
import json
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bd  # noqa: E402
import histories  # noqa: E402
import inputs  # noqa: E402


def desc(secs, files, style):
    d = inputs.Desc()
    d.secs, d.files, d.style = secs, files, style
    return d


j = json.load(sys.stdin)
bd.load(scripted=False)
own = "VERIF_SCRATCH" not in os.environ
for b in j["before"]:
    histories.observe(desc(*b))
print(json.dumps(histories.observe(desc(j["secs"], j["files"], j["style"]))))
sys.stdout.flush()
if own:
    shutil.rmtree(bd.SCRATCH(), ignore_errors=True)
