"""Common parts of all checks: running scenarios in parallel, TLC stages, evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import sys
import time

import bd
import tlc
from tlc import MachineryError, run_tlc, run_trace  # noqa: F401

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {}
LEVEL = {}


def check(pid, level="model_checking"):
    def deco(f):
        CHECKS[pid] = f
        LEVEL[pid] = level
        return f

    return deco


def _call(a):
    fn, args = a
    try:
        return ("ok", fn(*args))
    except bd.Timeout:
        return ("err", "timeout")
    except Exception:
        import traceback

        return ("err", traceback.format_exc())


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.violations = []
        self.states = self.transitions = self.traces = 0
        self.events = 0
        self.stages = []
        self.samples = []
        self.distinct = set()
        self.assumptions = []
        self.replay_only = None
        self._pool = None

    def rng(self, salt=""):
        return random.Random(f"{self.pid}/{self.seed}/{salt}")

    # ---- running the real code -------------------------------------------------
    def pool(self):
        if self._pool is None:
            bd.load()
            self._pool = mp.Pool(min(8, os.cpu_count() or 1))
        return self._pool

    def map(self, fn, arglist, chunksize=2, timeout=700):
        r = self.pool().map_async(_call, [(fn, a) for a in arglist], chunksize)
        try:
            out = r.get(timeout)
        except mp.TimeoutError as e:
            raise MachineryError("scenario pool timed out") from e
        for st, v in out:
            if st == "err":
                raise MachineryError("harness error in scenario:\n" + v)
        return [v for _, v in out]

    # ---- model checking of the design -----------------------------------------
    def design(self, name, module, constants, invariants, properties=(), timeout=800,
               spec=None, extra_cfg="", heap="6g"):
        cfg = ("SPECIFICATION %s\n" % spec if spec else "INIT Init\nNEXT Next\n")
        cfg += "CHECK_DEADLOCK FALSE\n"
        if constants:
            cfg += "CONSTANTS\n" + "".join(
                f"  {k} {'<-' if isinstance(v, tuple) else '='} {v[0] if isinstance(v, tuple) else v}\n"
                for k, v in constants.items())
        for i in invariants:
            cfg += f"INVARIANT {i}\n"
        for p in properties:
            cfg += f"PROPERTY {p}\n"
        r = run_tlc(module, cfg + extra_cfg, timeout=timeout, heap=heap)
        self.states += r["distinct"]
        self.transitions += r["states"]
        self.stages.append({"stage": name, "module": module, "constants": {k: str(v) for k, v in (constants or {}).items()},
                            "invariants": list(invariants) + list(properties),
                            "distinct_states": r["distinct"], "states_generated": r["states"]})
        if r["violated"]:
            # a specification that breaks its own property is a machinery failure
            raise MachineryError(f"design check {name}: {r['violated']} violated\n" + r["out"][-5000:])
        return r

    # ---- conformance of recorded behaviour --------------------------------------
    def conform(self, name, module, cases, constants="", timeout=800, what=None, key=None,
                batch=4000, nontrivial=None):
        """cases: dicts with id (1..n) ; keys starting with _ are kept out of TLC"""
        if not cases:
            raise MachineryError(f"{name}: no cases")
        rejected, s0, t0 = 0, self.states, time.time()
        for a in range(0, len(cases), batch):
            part = cases[a:a + batch]
            slim = []
            for i, c in enumerate(part):
                s = {k: v for k, v in c.items() if not k.startswith("_")}
                s["id"] = i + 1
                slim.append(s)
            verd, r = run_trace(module, slim, constants, timeout)
            self.states += r["distinct"]
            self.transitions += r["states"]
            self.traces += len(part)
            for i, c in enumerate(part):
                v = verd[i + 1]
                if v is not None:
                    rejected += 1
                    self.violation(name, c, v, slim[i], module, constants)
        for c in cases:
            if nontrivial is None or nontrivial(c):
                s = json.dumps({k: v for k, v in c.items() if k != "id" and not k.startswith("_")},
                               sort_keys=True)
                self.distinct.add(hashlib.md5(s.encode()).hexdigest())
        self.stages.append({"stage": name, "module": module, "recorded_behaviours": len(cases),
                            "states": self.states - s0, "tlc_s": round(time.time() - t0, 1),
                            "rejected": rejected})
        c = cases[len(cases) // 2]
        self.samples.append({"stage": name, "case": _shorten({k: v for k, v in c.items()})})

    def violation(self, stage, case, verdict, slim=None, module=None, constants=None):
        clause = re.sub(r"[^\w\-]", "", verdict[0].split(",")[0])
        self.violations.append({
            "key": f"{stage}:{clause}", "what": f"{stage}: {' | '.join(verdict)}"[:3000],
            "data": {"stage": stage, "verdict": verdict, "case": case, "spec_case": slim,
                     "module": module, "constants": constants}})

    # ---- results -----------------------------------------------------------------
    def write_replays(self, viols):
        d = os.path.join(ROOT, "out", "replays")
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            if f.startswith(self.pid + "-"):
                os.unlink(os.path.join(d, f))
        paths = []
        for k, v in enumerate(viols[:20]):
            p = os.path.join(d, f"{self.pid}-{k + 1}.json")
            with open(p, "w") as fh:
                json.dump(v, fh, indent=1, default=str)
            paths.append(p)
        return paths

    def write_evidence(self, wall, nviol):
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": LEVEL[self.pid],
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "evaluations": self.traces + self.events,
                           "distinct_nontrivial": len(self.distinct),
                           "rule": "a recorded behaviour of the real program, distinct by its full "
                                   "content (configuration, scripted randomness, observations)",
                           "stages": self.stages, "samples": self.samples[:4]},
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": nviol}
        with open(os.path.join(d, f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)

    def summary(self):
        return (f"{self.states} states, {self.transitions} transitions, "
                f"{self.traces} recorded behaviours")


def _shorten(o, depth=0):
    if isinstance(o, dict):
        return {k: _shorten(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        r = [_shorten(v, depth + 1) for v in o[:6]]
        return r + [f"... {len(o) - 6} more"] if len(o) > 6 else r
    if isinstance(o, str) and len(o) > 1200:
        return o[:1200] + "..."
    return o


def runs(ctx, scs, chunk=2):
    """run scenarios for TraceSim"""
    import sim

    return ctx.map(sim.run_case, [(s, i + 1) for i, s in enumerate(scs)], chunk)


def clauses(*names):
    return "Check = {" + ", ".join(f'"{n}"' for n in names) + "}"
