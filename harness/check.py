"""Decide one property:  check.py C01 [--tier quick|thorough] [--replay FILE]

exit 0: held on everything explored; exit 1 + VIOLATION line; exit 2: machinery failure
"""
import argparse
import json
import os
import shutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)


def known_findings():
    """entries 'finding: property=<id> key=<key> <text>' of known_findings.txt"""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding:"):
                f = dict(w.split("=", 1) for w in line.split() if "=" in w)
                out[(f["property"], f["key"])] = line.split(":", 1)[1].strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    import bd

    own = "VERIF_SCRATCH" not in os.environ
    bd.SCRATCH()
    t0 = time.time()
    rc = 2
    try:
        import framework
        import props  # noqa: F401  registers the checks

        ctx = framework.Ctx(a.pid, a.tier, a.seed)
        if a.replay:
            ctx.replay_only = json.load(open(a.replay))
        framework.CHECKS[a.pid](ctx)
        kf = known_findings()
        new = []
        for v in ctx.violations:
            k = (a.pid, v["key"])
            if k in kf:
                print(f"KNOWN-FINDING: property={a.pid} {kf[k]}")
            else:
                new.append(v)
        paths = ctx.write_replays(new)
        ctx.write_evidence(time.time() - t0, len(new))
        for v, p in zip(new[:20], paths):
            print(f"VIOLATION property={a.pid} replay={p}")
            print("  " + v["what"][:1500])
        if len(new) > 20:
            print(f"  ... and {len(new) - 20} more")
        rc = 1 if new else 0
        if rc == 0:
            print(f"property {a.pid} held: {ctx.summary()}")
    except Exception:
        traceback.print_exc()
        print(f"CHECK-ERROR property={a.pid}")
        rc = 2
    finally:
        if own:
            shutil.rmtree(bd.SCRATCH(), ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
