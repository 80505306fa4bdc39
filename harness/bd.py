"""Running the real bdld code of /repo under controlled conditions.

Everything here only *drives and observes*: input files in a scratch directory, the
program's own main(), scripted random numbers, the files it leaves.  No expected result is
computed here (that is the specification's job).
"""
import contextlib
import io
import logging
import os
import shutil
import signal
import sys
import tempfile
import types
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True

import numpy as np  # noqa: E402

_RealGenerator = np.random.Generator
_RealPCG64 = np.random.PCG64

SEED_LD, SEED_PART, SEED_BD = 11, 22, 33


class Fault(BaseException):
    """raised inside the code under test to interrupt it"""


class Script:
    """scripted random numbers per generator, keyed by the generator's seed"""

    active = None

    def __init__(self, normal=None, uniform=None, fault=None):
        # normal/uniform: {seed: [values]}; fault: (seed, nth drawn value, action)
        self.normal = {k: list(v) for k, v in (normal or {}).items()}
        self.uniform = {k: list(v) for k, v in (uniform or {}).items()}
        self.pos = {}
        self.draws = {}
        self.kinds = {}
        self.exhausted = 0
        self.fault = fault

    def has(self, kind, seed):
        return seed in getattr(self, kind)

    def take(self, kind, seed, n):
        src = getattr(self, kind)[seed]
        p = self.pos.get((kind, seed), 0)
        out = src[p : p + n]
        self.pos[(kind, seed)] = p + n
        if len(out) < n:
            self.exhausted += n - len(out)
            out = out + [0.25] * (n - len(out))
        return out

    def tick(self, seed, n=1):
        """count the values drawn; the fault strikes at the draw of a given value"""
        c = self.draws.get(seed, 0) + n
        self.draws[seed] = c
        if self.fault and self.fault[0] == seed and self.fault[1] <= c:
            if self.fault[2] == "exit":
                os._exit(9)
            raise Fault()


def _size(size):
    if size is None:
        return 1, None
    shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
    return int(np.prod(shape)), shape


class ScriptedGenerator(_RealGenerator):
    """numpy Generator whose normal / uniform draws can be scripted (other methods real)"""

    def _key(self):
        try:
            e = self.bit_generator.seed_seq.entropy
            e = int(e)
        except Exception:
            return None
        s = Script.active  # the birth-death generator is seeded with seed + 1000
        if e == SEED_BD + 1000 or (s is not None and e - 1000 in s.uniform):
            return e - 1000
        return e

    def _scripted(self, kind, size):
        s = Script.active
        k = self._key()
        if s is None or k is None:
            return None
        n, shape = _size(size)
        s.kinds[kind] = s.kinds.get(kind, 0) + n
        s.tick(k, n)
        if not s.has(kind, k):
            return None
        v = s.take(kind, k, n)
        return v[0] if shape is None else np.array(v, dtype=float).reshape(shape)

    def standard_normal(self, size=None, *a, **kw):
        r = self._scripted("normal", size)
        return super().standard_normal(size, *a, **kw) if r is None else r

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        r = self._scripted("normal", size)
        return super().normal(loc, scale, size) if r is None else loc + scale * r

    def random(self, size=None, *a, **kw):
        r = self._scripted("uniform", size)
        return super().random(size, *a, **kw) if r is None else r

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast(low, high).shape
        r = self._scripted("uniform", size)
        return super().uniform(low, high, size) if r is None else low + (high - low) * r


def _default_rng(seed=None):
    if isinstance(seed, _RealGenerator):
        return seed
    if isinstance(seed, np.random.BitGenerator):
        return ScriptedGenerator(seed)
    return ScriptedGenerator(_RealPCG64(seed))


_loaded = None


def load(scripted=True):
    """import bdld from the repository's working tree (helpers from the vendored copy if the
    submodule is not checked out)"""
    global _loaded
    if _loaded is not None:
        return _loaded
    if scripted:
        np.random.default_rng = _default_rng
        np.random.Generator = ScriptedGenerator
    sys.path.insert(0, REPO)
    import bdld

    assert os.path.abspath(bdld.__file__).startswith(os.path.abspath(REPO)), bdld.__file__
    inject_helpers(bdld)
    from bdld import main

    _loaded = types.SimpleNamespace(bdld=bdld, main=main)
    return _loaded


def inject_helpers(bdld):
    if not os.path.exists(os.path.join(REPO, "bdld", "helpers", "misc.py")):
        pkg = types.ModuleType("bdld.helpers")
        pkg.__path__ = [os.path.join(HERE, "vendor", "helpers")]
        sys.modules["bdld.helpers"] = pkg
        bdld.helpers = pkg


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def read_dir(d):
    """all files below d as text"""
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read().decode("utf-8", "replace")
    return out


def input_text(sections):
    """sections: list of (name, list of (key, value))"""
    lines = []
    for name, opts in sections:
        lines.append(f"[{name}]")
        for k, v in opts:
            lines.append(f"{k}: {v}")
        lines.append("")
    return "\n".join(lines)


def run_main(text, script=None, extra_files=None, cwd=None, timeout=240, hook=None,
             keep=False, argv=None):
    """run bdld's main() in-process on the given input text in a scratch directory

    returns dict: status ok|exit|exc|timeout|fault, code, err, stdout, stderr, files
    """
    ns = load()
    own = cwd is None
    if own:
        cwd = tempfile.mkdtemp(prefix="bdldrun_", dir=SCRATCH())
    old = os.getcwd()
    old_argv = sys.argv
    so, se = io.StringIO(), io.StringIO()
    res = {"status": "ok", "code": 0, "err": ""}
    for fn, content in (extra_files or {}).items():
        with open(os.path.join(cwd, fn), "w") as fh:
            fh.write(content)
    with open(os.path.join(cwd, "input"), "w") as fh:
        fh.write(text)
    # limit of the processor time of this process: does not depend on the machine's load
    oldalarm = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, timeout)
    logging.root.handlers.clear()
    undo = hook(ns) if hook else None
    try:
        os.chdir(cwd)
        sys.argv = argv or ["bdld", "input"]
        Script.active = script
        with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ns.main.main()
    except SystemExit as e:
        res["code"] = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        res["status"] = "exit" if res["code"] else "ok"
        res["err"] = str(e.code)
    except Fault:
        res.update(status="fault", code=9)
    except Timeout:
        res.update(status="timeout", code=-1)
    except Exception as e:  # uncaught exception: python would end with status 1
        res.update(status="exc", code=1, err=f"{type(e).__name__}: {e}")
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, oldalarm)
        Script.active = None
        sys.argv = old_argv
        os.chdir(old)
        if undo:
            undo()
        logging.root.handlers.clear()
        try:
            import matplotlib.pyplot as plt

            plt.close("all")
        except Exception:
            pass
    res["stdout"], res["stderr"] = so.getvalue(), se.getvalue()
    res["files"] = {k: v for k, v in read_dir(cwd).items() if k != "input"}
    if script is not None:
        res["draws"] = dict(script.draws)
        res["exhausted"] = script.exhausted
        res["used"] = {f"{k[0]}:{k[1]}": v for k, v in script.pos.items()}
    if own and not keep:
        shutil.rmtree(cwd, ignore_errors=True)
    return res


def run_killed(text, script, extra_files=None, timeout=240, hook=None):
    """as run_main, in a forked child that may os._exit() (crash); returns files left"""
    cwd = tempfile.mkdtemp(prefix="bdldkill_", dir=SCRATCH())
    pid = os.fork()
    if pid == 0:
        code = 77
        try:
            r = run_main(text, script, extra_files, cwd=cwd, timeout=timeout, hook=hook)
            code = {"ok": 0, "fault": 9, "exit": 3, "exc": 3, "timeout": 4}[r["status"]]
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    files = {k: v for k, v in read_dir(cwd).items() if k != "input"}
    shutil.rmtree(cwd, ignore_errors=True)
    return {"status": {0: "ok", 9: "fault", 4: "timeout"}.get(code, "exc"), "code": code,
            "files": files, "stdout": "", "stderr": "", "err": f"exit status {code}"}


_scratch = None


def SCRATCH():
    global _scratch
    if _scratch is None:
        _scratch = os.environ.get("VERIF_SCRATCH")
        if not _scratch:
            _scratch = tempfile.mkdtemp(prefix="bdldverif_")
            os.environ["VERIF_SCRATCH"] = _scratch
    os.makedirs(_scratch, exist_ok=True)
    return _scratch


def parse_table(text):
    """(header lines, rows of float tokens as text); blank lines are kept as []"""
    head, rows = [], []
    if not text:
        return head, rows
    for line in text.split("\n")[:-1] if text.endswith("\n") else text.split("\n"):
        if line.startswith("#"):
            head.append(line)
        else:
            rows.append(line.split())
    return head, rows
