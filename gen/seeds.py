#!/usr/bin/env python3
"""Planted bugs: writes /verif/seeded/<id>/ from the descriptions in seedlist*.py.

usage: seeds.py make [ID..]     write the folders (patch against /repo's HEAD)
       seeds.py verify [ID..]   patch applies, stable tests pass, demo 0 / nonzero
       seeds.py sweep [ID..]    apply to /repo, run the property's quick check, undo
"""
import glob, importlib.util, json, os, re, shutil, subprocess, sys, tempfile

GEN = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(GEN)
SEEDED = os.path.join(ROOT, "seeded")
REPO = "/repo"
BASE = "a396e50"


def seeds():
    res = {}
    for f in sorted(glob.glob(os.path.join(GEN, "seedlist*.py"))):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for s in m.SEEDS:
            assert s["id"] not in res, s["id"]
            res[s["id"]] = s
    return res


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def make(s):
    d = os.path.join(SEEDED, s["id"])
    with tempfile.TemporaryDirectory(prefix="seedmk") as t:
        sh("git", "clone", "-q", REPO, t + "/r")
        blames = 0
        for f, old, new in s["edits"]:
            p = os.path.join(t, "r", f)
            src = open(p).read()
            assert src.count(old) == 1, (s["id"], f, src.count(old), old)
            open(p, "w").write(src.replace(old, new))
        diff = sh("git", "diff", cwd=t + "/r").stdout
        # at least one removed line, or an insertion next to an original one
        for f, old, new in s["edits"]:
            bl = sh("git", "blame", "-s", "HEAD", "--", f, cwd=t + "/r").stdout.split("\n")
            mine = [re.sub(r"^\S+ (\S+ )?\s*\d+\) ?", "", l) for l in bl if not l.startswith("^" + BASE[:7]) and l]
            rem = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
            if rem and all(r in mine for r in rem if r.strip()):
                print("  WARNING", s["id"], "only removes lines of fix commits")
    assert diff
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write("from lib import *\n\n" + s["demo"].strip() + "\nprint('ok')\n")
    shutil.copy(os.path.join(GEN, "seedlib", "lib.py"), d)
    shutil.copy(os.path.join(GEN, "seedlib", "demo.sh"), d)
    shutil.copytree(os.path.join(GEN, "seedlib", "helpers"), d + "/helpers", ignore=shutil.ignore_patterns("__pycache__"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)


def verify(i):
    d = os.path.join(SEEDED, i)
    with tempfile.TemporaryDirectory(prefix="seedvf") as t:
        sh("git", "clone", "-q", REPO, t + "/r")
        shutil.copytree(d, t + "/d")
        r = sh("bash", t + "/d/demo.sh", cwd=t + "/r")
        if r.returncode != 0:
            return i, "demo fails on unchanged tree: " + r.stdout[-1500:]
        r = sh("git", "apply", d + "/patch.diff", cwd=t + "/r")
        if r.returncode:
            return i, "does not apply " + r.stdout
        # the stable tests, as test.sh runs them; then the whole suite with the helpers in place (information only)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
        py = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "test"]
        r = sh(*py, "--ignore=test/test_action.py", "--ignore=test/test_birth_death.py", "--ignore=test/test_grid.py", "--ignore=test/test_potential.py", cwd=t + "/r", env=env)
        if "2 passed" not in r.stdout.strip().split("\n")[-1]:
            return i, "stable tests: " + r.stdout[-300:]
        shutil.rmtree(t + "/r/bdld/helpers", ignore_errors=True)
        shutil.copytree(os.path.join(GEN, "seedlib", "helpers"), t + "/r/bdld/helpers")
        r = sh(*py, cwd=t + "/r", env=env)
        last = r.stdout.strip().split("\n")[-1]
        note = "" if "1 failed, 27 passed" in last else " (full suite notices)"
        sh("git", "checkout", "--", ".", cwd=t + "/r")
        shutil.rmtree(t + "/r/bdld/helpers", ignore_errors=True)
        sh("git", "apply", d + "/patch.diff", cwd=t + "/r")
        r = sh("bash", t + "/d/demo.sh", cwd=t + "/r")
        if r.returncode == 0:
            return i, "demo passes with the patch"
        return i, "ok%s (%s)" % (note, r.stdout.strip().split("\n")[-1][:150])


def sweep(i, seed="1"):
    d = os.path.join(SEEDED, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    man = json.load(open(ROOT + "/MANIFEST.json"))
    cmd = [c for c in man["checks"] if c["property"] == prop][0]
    cmd = cmd.get("quick_cmd") or cmd.get("quick")
    assert not sh("git", "-C", REPO, "status", "--porcelain").stdout.strip()
    r = sh("git", "-C", REPO, "apply", d + "/patch.diff")
    assert r.returncode == 0, r.stdout
    try:
        r = sh("bash", "-c", cmd, cwd=ROOT, env=dict(os.environ, VERIF_SEED=seed, VERIF_TIER="quick"))
    finally:
        sh("git", "-C", REPO, "checkout", "--", ".")
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    ok = r.returncode == 1 and any("property=%s " % prop in l for l in v)
    return ok, r.returncode, (v[0] if v else r.stdout.strip()[-300:])


def psweep(i, seed="1"):
    """like sweep, on a clone of /repo (several at a time)"""
    d = os.path.join(SEEDED, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    with tempfile.TemporaryDirectory(prefix="seedsw") as t:
        sh("git", "clone", "-q", REPO, t + "/r")
        r = sh("git", "apply", d + "/patch.diff", cwd=t + "/r")
        assert r.returncode == 0, r.stdout
        r = sh("/opt/venv/bin/python", "-W", "ignore", "harness/check.py", prop, cwd=ROOT,
               env=dict(os.environ, VERIF_SEED=seed, VERIF_TIER="quick", VERIF_REPO=t + "/r"))
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    ok = r.returncode == 1 and any("property=%s " % prop in l for l in v)
    return ok, r.returncode, (v[0] if v else r.stdout.strip()[-300:])


if __name__ == "__main__":
    S = seeds()
    ids = sys.argv[2:] or list(S)
    ids = [i for i in S if any(i == a or i.startswith(a) for a in ids)]
    if sys.argv[1] == "make":
        for i in ids:
            make(S[i])
    elif sys.argv[1] == "verify":
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(7) as ex:
            for i, r in ex.map(verify, ids):
                print(i, r, flush=True)
    elif sys.argv[1] == "sweep":
        seed = os.environ.get("SEED", "1")
        for i in ids:
            ok, code, line = sweep(i, seed)
            print("CAUGHT" if ok else "MISSED(%d)" % code, i, line, flush=True)
    elif sys.argv[1] == "psweep":
        from concurrent.futures import ThreadPoolExecutor
        seed = os.environ.get("SEED", "1")
        with ThreadPoolExecutor(3) as ex:
            for i, (ok, code, line) in zip(ids, ex.map(lambda i: psweep(i, seed), ids)):
                print("CAUGHT" if ok else "MISSED(%d)" % code, i, line, flush=True)
