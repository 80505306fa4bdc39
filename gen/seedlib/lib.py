"""helpers of the demonstrations: run bdld of the current directory's tree in a scratch directory"""
import contextlib, io, os, sys, tempfile, types, warnings
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
sys.path.insert(0, REPO)
import numpy as np
import bdld
if not os.path.exists(os.path.join(REPO, "bdld", "helpers", "misc.py")):
    pkg = types.ModuleType("bdld.helpers")
    pkg.__path__ = [os.path.join(HERE, "helpers")]
    sys.modules["bdld.helpers"] = pkg
    bdld.helpers = pkg
from bdld import main as bmain, grid, histogram, particle, potential, actions
warnings.simplefilter("ignore")


def text(**secs):
    out = ""
    for k, v in secs.items():
        out += "[%s]\n" % k.replace("_", "-")
        for o, w in v.items():
            out += "%s: %s\n" % (o.replace("__", "-"), w)
        out += "\n"
    return out


LD = {"type": "overdamped", "timestep": "0.01", "n_steps": "10", "seed": "3"}
BP = {"type": "bussi-parinello", "timestep": "0.05", "n_steps": "10", "seed": "3", "friction": "5", "kt": "1"}
POT = {"type": "polynomial", "n_dim": "1", "coeffs": "0,0,1", "min": "-3", "max": "3"}
POT2 = {"type": "polynomial", "n_dim": "2", "coeffs-file": "coeffs", "min": "-3,-3", "max": "3,3"}
CO2 = {"coeffs": "2 0 1.0\n0 2 2.0\n1 1 0.5\n"}
PART = {"number": "4", "initial-distribution": "random-global", "seed": "5"}
PART2 = {"number": "4", "initial-distribution": "fractions-pos", "pos1": "0.5", "pos2": "-0.5", "fractions": "0.5,0.5"}


def read(d):
    res = {}
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if os.path.isfile(p):
            with open(p, errors="replace") as fh:
                res[f] = fh.read()
    return res


def run(txt, files=None, cwd=None):
    """(exit status, files, output)"""
    with contextlib.ExitStack() as st:
        d = cwd or st.enter_context(tempfile.TemporaryDirectory())
        for f, c in (files or {}).items():
            with open(os.path.join(d, f), "w") as fh:
                fh.write(c)
        with open(os.path.join(d, "input"), "w") as fh:
            fh.write(txt)
        old, argv = os.getcwd(), sys.argv
        so, code = io.StringIO(), 0
        try:
            os.chdir(d)
            sys.argv = ["bdld", "input"]
            with contextlib.redirect_stdout(so), contextlib.redirect_stderr(so):
                try:
                    bmain.main()
                except SystemExit as e:
                    code = e.code or 0
                except Exception as e:
                    code, _ = 1, so.write(repr(e))
        finally:
            os.chdir(old)
            sys.argv = argv
        return code, read(d), so.getvalue()


def rows(txt):
    return np.array([[float(v) for v in l.split()] for l in txt.split("\n") if l and not l.startswith("#")])


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def check(cond, msg="property broken"):
    if not cond:
        print("FAIL:", msg)
        sys.stdout.flush()
        os._exit(1)


def poly(co, lo=-3.0, hi=3.0):
    co = np.array(co, dtype=float)
    return potential.polynomial.PolynomialPotential(co, [(lo, hi)] * co.ndim)
