"""Histories of complete (unscripted, seeded) runs: C16, C17, C18."""
import copy
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

import bd
import inputs
import sim


def setopt(opts, k, v):
    for o in opts:
        if o[0] == k:
            o[1] = v
            return
    opts.append([k, v])


def delopt(opts, k):
    opts[:] = [o for o in opts if o[0] != k]


def valid_base(rng, full=False, bdprob=.6):
    """a valid seeded input with fitting options"""
    while True:
        d = inputs.base(rng)
        if full and len(d.secs) < 8:
            continue
        if (d.sec("birth-death") is None) == (rng.random() < bdprob):
            continue
        break
    for s, o in d.secs:
        o[:] = [x for x in o if not (x[0] == "coeffs-file" and x[1] == "nofile")]
        if s in ("delta-f", "particle-distribution", "fes", "histogram"):
            if not any(x[0] == "filename" for x in o):
                o.append(["filename", {"delta-f": "df", "particle-distribution": "pd", "fes": "fes", "histogram": "hist"}[s]])
        st = next((int(x[1]) for x in o if x[0] == "stride"), None)
        if s in ("delta-f", "particle-distribution") and st:
            for x in o:
                if x[0] == "write-stride":
                    x[1] = str(st * rng.choice([1, 2]))
        if s == "fes":
            delopt(o, "plot-stride")
            delopt(o, "plot-filename")
            if not st:
                delopt(o, "write-stride")
        if s == "trajectories" and rng.random() < .8:
            setopt(o, "filename", "traj")
    if d.files:  # one name per content
        c = next(iter(d.files.values()))
        d.files = {f"coeffs{len(c)}": c}
        setopt(d.sec("potential"), "coeffs-file", f"coeffs{len(c)}")
    setopt(d.sec("ld"), "timestep", rng.choice(["0.005", "0.01", "1e-3"]))
    setopt(d.sec("ld"), "n_steps", str(rng.choice([1, 3, 5, 8, 12])))
    seed_all(rng, d)
    return d


SEEDS = ["0", "1", "2", "7", "999", "123456", "16777216", "1099511627776"]


def seed_all(rng, d, **kw):
    for s in ("ld", "particles", "birth-death"):
        if d.sec(s) is not None:
            setopt(d.sec(s), "seed", kw.get(s) or rng.choice(SEEDS))


# ------------------------------------------------------------------ C16
PAT = re.compile(r"^bck\.(0|[1-9]\d*)\.(.+)$")


class Ids(dict):
    def of(self, content):
        if content not in self:
            self[content] = len(self) + 1
        return self[content]


def dir_set(files, ids, skip=()):
    out = []
    for name, c in sorted(files.items()):
        if name in skip and skip[name] == c:
            continue
        dd, f = os.path.split(name)
        m = PAT.match(f)
        base, n = (os.path.join(dd, m.group(2)), int(m.group(1)) + 1) if m else (name, 0)
        out.append([base, n, ids.of(c)])
    return out


def run_in(d, cwd, kill):
    script = None
    if kill:
        seed = int(next(o[1] for o in d.sec("ld") if o[0] == "seed"))
        script = bd.Script(fault=(seed, kill, "raise"))
    for sub in ("sub", "a/b"):
        os.makedirs(os.path.join(cwd, sub), exist_ok=True)
    return bd.run_main(d.text(), script, dict(d.files), cwd=cwd)


def dir_case(spec, cid):
    ids = Ids()
    cwd = tempfile.mkdtemp(prefix="hist_", dir=bd.SCRATCH())
    extra = {}
    for d, _ in spec["runs"]:
        extra.update(d.files)
    log, texts = [], []
    rng = random.Random(spec["seed"])
    cleans = []
    for d, kill in spec["runs"]:
        c = tempfile.mkdtemp(prefix="clean_", dir=bd.SCRATCH())
        r = run_in(d, c, kill)
        cleans.append((r["status"], r["err"][:80], {k: v for k, v in r["files"].items() if extra.get(k) != v}))
        shutil.rmtree(c)
    before = dict(extra)
    names = sorted({n for _, _, f in cleans for n in f})
    for n in names:
        dd, f = os.path.split(n)
        if rng.random() < spec["p"]:
            before[n] = f"old {n}\n" if rng.random() < .9 else ""
        for k in range(spec.get("many", 4)):
            if rng.random() < (spec["p"] * .5 if "many" not in spec else .97):
                before[os.path.join(dd, f"bck.{k}.{f}")] = f"old backup {k} of {n}\n"
    for k, n in enumerate(rng.sample(["other", "traj", "hist_", "bck.0.other", "bck.x.pd", "traj.0.bak", "hist_1x"], 3)):
        if n not in names:
            before.setdefault(n, f"unrelated {k}\n")
    for sub in ("sub", "a/b"):
        os.makedirs(os.path.join(cwd, sub))
    for n, c in before.items():
        with open(os.path.join(cwd, n), "w") as fh:
            fh.write(c)
    for (d, kill), (st, err, out) in zip(spec["runs"], cleans):
        r = run_in(d, cwd, kill)
        log.append({"out": [[n, ids.of(c)] for n, c in sorted(out.items())],
                    "after": dir_set(r["files"], ids, extra), "same": (r["status"], r["err"][:80]) == (st, err)})
        texts.append(d.text())
    shutil.rmtree(cwd, ignore_errors=True)
    return {"id": cid, "before": dir_set(before, ids, extra), "log": log, "_inputs": texts, "_before": before,
            "_kills": [k for _, k in spec["runs"]]}


def c16(rng, k):
    for q in range(k):
        n = rng.choice([1, 2, 2, 3, 4])
        d0 = valid_base(rng, full=rng.random() < .5)
        if rng.random() < .7:
            for s in d0.secs:
                for o in s[1]:
                    if o[0] in ("filename", "stats-filename"):
                        o[1] = rng.choice(["", "", "sub/", "a/b/", "./"]) + rng.choice(["", "x.", "out_"]) + o[1]
        runs = []
        for j in range(n):
            d = copy.deepcopy(d0) if rng.random() < .8 else valid_base(rng)
            if rng.random() < .8:
                seed_all(rng, d)
            if rng.random() < .4:
                setopt(d.sec("ld"), "n_steps", str(rng.choice([1, 2, 6, 9, 25])))
            if q % 12 == 0:  # many walkers
                setopt(d.sec("particles"), "number", str(rng.choice([11, 12, 30])))
            kill = None
            if rng.random() < .2:
                kill = rng.randint(1, 12)
            runs.append((d, kill))
        yield dict({"runs": runs, "p": rng.choice([0, .3, .7, 1]), "seed": rng.random()},
                   **({"many": rng.choice([12, 14])} if q % 10 == 3 else {}))  # many earlier backups


# ------------------------------------------------------------------ C17 / C18
def hid(o):
    return int(hashlib.md5(repr(o).encode()).hexdigest()[:7], 16)


def observe(d, cwd=None):
    ob = sim.Observer()
    r = bd.run_main(d.text(), None, dict(d.files), hook=ob.hook, cwd=cwd)
    res = {"ended": "" if r["status"] == "ok" else f"{r['status']}: {r['err']}"[:150], "init": 0, "post": [], "end": [],
           "n": 0, "moved": 0, "rounds": 0}
    if ob.log:
        res["init"] = hid(ob.log[0][0])
        ends = [pre for pre, _ in ob.log[1:]] + [ob.snap(ob.ld)]
        res["post"] = [hid(p) for _, p in ob.log]
        res["end"] = [hid(e) for e in ends]
        moved = [sum(a != b for a, b in zip(p, e)) for (_, p), e in zip(ob.log, ends)]
        res["n"], res["moved"], res["rounds"] = len(ends[0]), sum(moved), sum(m > 0 for m in moved)
    res["files"] = [[k, hid(v)] for k, v in sorted(r["files"].items()) if k not in d.files]
    return res


def observe_sub(d, hashseed, before):
    """the run in a process of its own, after some other things have happened there"""
    spec = json.dumps({"secs": d.secs, "files": d.files, "style": d.style,
                       "before": [[b.secs, b.files, b.style] for b in before]})
    env = dict(os.environ, PYTHONHASHSEED=hashseed)
    p = subprocess.run([sys.executable, os.path.join(bd.HERE, "runone.py")], input=spec, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=300)
    if p.returncode:
        raise RuntimeError(p.stderr[-2000:])
    return json.loads(p.stdout.strip().split("\n")[-1])


def seeds_of(d):
    g = lambda s: next((o[1] for o in (d.sec(s) or []) if o[0] == "seed"), "-")
    return {"sp": g("particles"), "sl": g("ld"), "sb": g("birth-death")}


def runs_case(spec, cid):
    """spec: list of (desc, out label, how) -> family of runs with one configuration of the motion"""
    import numpy as np
    runs = []
    for d, out, how in spec["runs"]:
        if how.startswith("sub"):
            o = observe_sub(d, how.split(":")[1], spec.get("before", []))
        else:
            if how == "disturbed":  # other users of random numbers in between
                np.random.seed(len(runs) + 5)
                random.seed(3)
                for b in spec.get("before", []):
                    observe(b)
            o = observe(d)
        o.update(seeds_of(d), cfg=1, out=out, how=how, rand=spec["rand"])
        runs.append(o)
    return {"id": cid, "runs": runs, "_inputs": [d.text() for d, _, _ in spec["runs"]]}


def is_random(d):
    return any(o == ["initial-distribution", "random-global"] for o in d.sec("particles"))


def c17(rng, k, nsub):
    for q in range(k):
        many = q % 12 == 5  # many events, seeds that differ by round numbers
        d = valid_base(rng, full=rng.random() < .4, bdprob=1 if many else .8)
        if d.sec("birth-death") is not None:  # frequent events
            setopt(d.sec("birth-death"), "exponential-factor", rng.choice(["1", "50", "1000"]))
            setopt(d.sec("ld"), "n_steps", str(rng.choice([4, 8, 12])))
        setopt(d.sec("particles"), "number", str(rng.choice([1, 2, 4, 6] if rng.random() < .75 and not many else [11, 12, 30, 70])))
        if many:
            setopt(d.sec("birth-death"), "exponential-factor", "1000")
            setopt(d.sec("birth-death"), "stride", "1")
            setopt(d.sec("ld"), "n_steps", "12")
        if any(o[0] == "friction" for o in d.sec("ld")):  # without friction there is no noise
            setopt(d.sec("ld"), "friction", rng.choice(["10", "1.5"]))
        if rng.random() < .5:
            setopt(d.sec("particles"), "initial-distribution", "random-global")
        if ["type", "mueller-brown"] in d.sec("potential"):
            # forces so strong that walkers jump from wall to wall would hide the noise
            setopt(d.sec("potential"), "scaling-factor", rng.choice(["0.01", "0.02"]))
        var = lambda **kw: (lambda e: (seed_all(rng, e, **dict(seeds_of2(d), **kw)), e)[1])(copy.deepcopy(d))
        other = valid_base(rng)
        other2 = copy.deepcopy(d)
        runs = [(d, 1, "plain"), (copy.deepcopy(d), 1, "again"), (copy.deepcopy(d), 1, "disturbed")]
        pick = lambda s: (str(int(seeds_of2(d)[s]) + rng.choice([1, 1, 256, 1000, 65536, 2 ** 32])) if rng.random() < .4 and seeds_of2(d)[s].isdigit()
                          else rng.choice([v for v in SEEDS if v != seeds_of2(d)[s]]))
        runs += [(var(**{"birth-death": pick("birth-death")}), 1, "other bd seed"),
                 (var(ld=pick("ld")), 1, "other ld seed"), (var(particles=pick("particles")), 1, "other particle seed"),
                 (copy.deepcopy(d), 1, "last")]
        if d.sec("birth-death") is None:
            runs.pop(3)
        if many:
            for s in ("birth-death", "birth-death", "ld", "particles"):
                for delta in rng.sample([10, 100, 256, 1000, 1000, 65536, 10**6, 2 ** 32], 3):
                    runs.append((var(**{s: str(int(seeds_of2(d)[s]) + delta)}), 1, f"{s} seed + {delta}"))
        if q < nsub:
            runs += [(copy.deepcopy(d), 1, f"sub:{rng.randint(1, 9999)}"), (copy.deepcopy(d), 1, "sub:0")]
        yield {"runs": runs, "rand": is_random(d), "before": [other, other2] if rng.random() < .5 else [other]}


def seeds_of2(d):
    s = seeds_of(d)
    return {"particles": s["sp"], "ld": s["sl"], "birth-death": s["sb"] if s["sb"] != "-" else "1"}


OUTSECS = ("trajectories", "histogram", "fes", "delta-f", "particle-distribution")


def c18(rng, k):
    for q in range(k):
        d = valid_base(rng, full=True, bdprob=.9)
        if d.sec("birth-death") is not None:
            setopt(d.sec("birth-death"), "exponential-factor", rng.choice(["1", "50", "1000"]))
        setopt(d.sec("particles"), "number", str(rng.choice([1, 2, 4, 6] if rng.random() < .9 else [11, 25, 40])))
        setopt(d.sec("ld"), "n_steps", str(rng.choice([4, 8, 12] if rng.random() < .9 else [30, 110])))
        runs = [(d, 0, "all")]
        for j in range(rng.choice([4, 6])):
            e = copy.deepcopy(d)
            what = rng.choice(["drop", "reconf", "reconf", "none", "stats"])
            if what == "none":
                e.secs = [s for s in e.secs if s[0] not in OUTSECS]
            elif what == "drop":
                cut = rng.choice(OUTSECS)
                gone = {"trajectories": OUTSECS[:4], "histogram": OUTSECS[1:4], "fes": OUTSECS[2:4]}.get(cut, (cut,))
                e.secs = [s for s in e.secs if s[0] not in gone]
            elif what == "reconf":
                for s in e.secs:
                    if s[0] in OUTSECS:
                        delopt(s[1], "write-stride")
                        delopt(s[1], "stride")
                        if rng.random() < .7:
                            st = rng.choice([1, 2, 3])
                            s[1].append(["stride", str(st)])
                            if rng.random() < .6 and any(o[0] == "filename" for o in s[1]):
                                s[1].append(["write-stride", str(st * rng.choice([1, 2, 5]))])
                        if s[0] == "histogram" and rng.random() < .5:
                            setopt(s[1], "reset", rng.choice(["1", "2,4"]))
                        if s[0] == "trajectories":
                            setopt(s[1], "momentum", rng.choice(["true", "false"]))
                            setopt(s[1], "write-stride", str(rng.choice([1, 2, 3, 7])))
                            if rng.random() < .5:
                                delopt(s[1], "filename")
            if e.sec("birth-death") is not None and (what == "stats" or rng.random() < .5):
                o = e.sec("birth-death")
                delopt(o, "stats-stride")
                delopt(o, "stats-filename")
                if rng.random() < .7:
                    o.append(["stats-stride", str(rng.choice([1, 2, 3]))])
                if rng.random() < .5:
                    o.append(["stats-filename", "st"])
            runs.append((e, j + 1, what))
        yield {"runs": runs, "rand": False, "before": []}
