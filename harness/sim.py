"""Scenarios: a description of one run (all numbers exact) -> input file, scripted random
numbers, and after running the real program the recorded trace for spec/TraceSim.tla."""
import math
import random
from fractions import Fraction as F

import bd

S = 1024
INF, NAN = 999999999, 888888888


def fx(v):
    """fixed point"""
    v = F(v) * S
    assert v.denominator == 1, v
    return int(v)


def num(v):
    return repr(float(v))


def rat(v):
    v = F(v)
    return [v.numerator, v.denominator]


def lst(vs):
    return ", ".join(num(v) for v in vs)


class Scenario(dict):
    """keys: dim n nsteps ld(o|b) dt nf c1 c2 mass kt fric pot lo hi bc init noise
    tr hi_ fes df pd bd extra fault momfile"""


def thermostat(kind, dt, mass, q=F(1)):
    """friction, kt, c1, c2 (exact) for a kind of thermostat; q = wanted c2 where possible"""
    if kind == "none":  # no friction
        return 0.0, F(1), F(1), F(0)
    if kind == "full":  # momentum completely refreshed
        return 1e6 / float(dt), q * q / mass, F(0), q
    if kind == "half":
        return 2 * math.log(2) / float(dt), q * q * F(4, 3) / mass, F(1, 2), q
    if kind == "quarter":
        return 4 * math.log(2) / float(dt), q * q * F(16, 15) / mass, F(1, 4), q
    raise ValueError(kind)


def sections(sc):
    dim = sc["dim"]
    ld = [("type", "overdamped" if sc["ld"] == "o" else "bussi-parinello"),
          ("timestep", num(sc["dt"])), ("n_steps", sc["nsteps"]), ("seed", bd.SEED_LD)]
    if sc["ld"] == "b":
        ld += [("friction", repr(sc["fric"])), ("kt", num(sc["kt"]))]
    pot = [("type", "polynomial"), ("n_dim", dim)]
    extra = {}
    if dim == 1:
        deg = max([t[0][0] for t in sc["pot"]] + [1])
        co = [F(0)] * (deg + 1)
        for e, c in sc["pot"]:
            co[e[0]] += c
        if sc.get("coeffile") and any(v for v in co[1:]):
            extra["coeffs.data"] = "# coefficients\n" + "".join(
                f"{i} {num(v)}\n" for i, v in reversed(list(enumerate(co))) if v)
            pot.append(("coeffs-file", "coeffs.data"))
        else:
            pot.append(("coeffs", lst(co)))
        pot += [("min", num(sc["lo"][0])), ("max", num(sc["hi"][0]))]
    else:
        rows = list(sc["pot"]) or [((0,) * dim, F(0))]
        if not any(sum(e) for e, _ in rows):
            rows.append((tuple([1] + [0] * (dim - 1)), F(0)))
        extra["coeffs.data"] = "".join(
            " ".join(str(i) for i in e) + " " + num(c) + "\n" for e, c in rows)
        pot += [("coeffs-file", "coeffs.data"), ("min", lst(sc["lo"])), ("max", lst(sc["hi"]))]
    if sc.get("bc", 0):
        pot.append(("boundary-condition", {1: "periodic", 2: "reflective"}[sc["bc"]]))
    part = [("number", sc["n"]), ("initial-distribution", "fractions-pos"),
            ("seed", bd.SEED_PART)]
    if sc.get("mass", 1) != 1 or sc.get("writemass"):
        part.append(("mass", num(sc["mass"])))
    if sc.get("samepos"):  # one position for all
        part += [("pos1", lst(sc["init"][0])), ("fractions", "1.0")]
    else:
        for i, x in enumerate(sc["init"]):
            part.append((f"pos{i + 1}", lst(x)))
        part.append(("fractions", ", ".join(["1"] * sc["n"])))
    out = [("ld", ld), ("potential", pot), ("particles", part)]
    b = sc.get("bd")
    if b:
        o = [("stride", b["stride"]), ("kernel-bandwidth", lst(b["bw"])),
             ("seed", b.get("seed", bd.SEED_BD))]
        if b.get("fac", 1) != 1:
            o.append(("exponential-factor", num(b["fac"])))
        if b.get("recalc"):
            o.append(("recalculate-probabilities", "true"))
        if b.get("statstride"):
            o.append(("stats-stride", b["statstride"]))
        if b.get("statfile"):
            o.append(("stats-filename", "bdstats"))
        o += b.get("variantopts", [])
        out.append(("birth-death", o))
    t = sc.get("tr")
    if t:
        o = []
        if t["file"]:
            o.append(("filename", "tr"))
        if t["stride"] != 1 or t.get("explicit"):
            o.append(("stride", t["stride"]))
        if t["ws"] != 100 or t.get("explicit"):
            o.append(("write-stride", t["ws"]))
        if t.get("mom"):
            o.append(("momentum", "true"))
        o += [("fmt", t["fmt"])] if t.get("fmt") else []
        out.append(("trajectories", o))
    h = sc.get("hist")
    if h:
        o = [("min", lst(h["min"])), ("max", lst(h["max"])),
             ("bins", ", ".join(str(k) for k in h["bins"]))]
        if h["stride"] != 1:
            o.append(("stride", h["stride"]))
        if h["file"]:
            o.append(("filename", "histo"))
        if h["ws"]:
            o.append(("write-stride", h["ws"]))
        if h["reset"]:
            o.append(("reset", ", ".join(str(k) for k in h["reset"])))
        o += [("fmt", h["fmt"])] if h.get("fmt") else []
        out.append(("histogram", o))
    f = sc.get("fes")
    if f:
        o = [("kt", num(f["kt"]))]
        if f["file"]:
            o.append(("filename", "fes"))
        if f["stride"]:
            o.append(("stride", f["stride"]))
        if f["ws"]:
            o.append(("write-stride", f["ws"]))
        o += [("fmt", f["fmt"])] if f.get("fmt") else []
        if f.get("plot"):
            o.append(("plot-filename", f["plot"]))
            if f.get("ps"):
                o.append(("plot-stride", f["ps"]))
            if f.get("dom"):
                o.append(("plot-domain", lst(f["dom"])))
            if f.get("ptitle"):
                o.append(("plot-title", f["ptitle"]))
        out.append(("fes", o))
    for key, name, fn in (("df", "delta-f", "df"), ("pd", "particle-distribution", "pd")):
        d = sc.get(key)
        if not d:
            continue
        o = []
        if d["file"]:
            o.append(("filename", fn))
        if d["stride"]:
            o.append(("stride", d["stride"]))
            if d["ws"] != 100 * d["stride"]:
                o.append(("write-stride", d["ws"]))
        elif d.get("wsonly"):  # has no meaning without a stride
            o.append(("write-stride", d["wsonly"]))
        o += [("fmt", d["fmt"])] if d.get("fmt") else []
        for i, box in enumerate(d["states"]):
            o.append((f"state{i + 1}-min", lst([r[0] for r in box])))
            o.append((f"state{i + 1}-max", lst([r[1] for r in box])))
        out.append((name, o))
    return out, extra


def boxes(states):
    return [[[fx(r[0]), fx(r[1])] for r in box] for box in states]


def conf(sc):
    """the configuration record of the specification"""
    dim = sc["dim"]
    c = {"dim": dim, "ld": 0 if sc["ld"] == "o" else 1, "dt": rat(sc["dt"]),
         "nf": rat(sc.get("nf", 1)), "c1": rat(sc.get("c1", 1)), "c2": rat(sc.get("c2", 0)),
         "mass": rat(sc.get("mass", 1)), "bc": sc.get("bc", 0),
         "pot": [list(e) + [fx(k)] for e, k in sc["pot"]],
         "rlo": [fx(v) for v in sc["lo"]], "rhi": [fx(v) for v in sc["hi"]]}
    off = {"on": False, "file": False, "stride": 0, "ws": 0}
    t = sc.get("tr")
    c["tr"] = {"on": True, "file": t["file"], "stride": t["stride"], "ws": t["ws"]} if t else off
    h = sc.get("hist")
    c["hi"] = {"on": True, "file": h["file"], "stride": h["stride"], "ws": h["ws"] or 0,
               "reset": h["reset"], "min": [fx(v) for v in h["min"]],
               "max": [fx(v) for v in h["max"]], "bins": h["bins"]} if h else off
    f = sc.get("fes")
    c["fes"] = {"on": True, "file": f["file"], "stride": f["stride"] or 0, "ws": f["ws"] or 0,
                "kt": rat(f["kt"]), "plot": bool(f.get("plot")), "ps": f.get("ps") or 0} if f else dict(
                    off, kt=[1, 1], plot=False, ps=0)
    for k in ("df", "pd"):
        d = sc.get(k)
        c[k] = {"on": True, "file": d["file"], "stride": d["stride"] or 0,
                "ws": (d["ws"] or 0) if d["stride"] else 0,
                "states": boxes(d["states"])} if d else dict(off, states=[])
    b = sc.get("bd")
    if b:
        c["bd"] = {"on": True, "stride": b["stride"], "recalc": 1 if b.get("recalc") else 0,
                   "bw": [rat(v) for v in b["bw"]],
                   "kt": rat(F(1) if sc["ld"] == "o" else sc["kt"]),
                   "tau": rat(F(sc["dt"]) * b["stride"] * F(b.get("fac", 1))),
                   "variant": b.get("variant", 0),
                   "s2": [rat(v) for v in b.get("s2", [1] * dim)],
                   "cen": [fx(v) for v in b.get("cen", [0] * dim)],
                   "margin": b.get("margin", 40), "statstride": b.get("statstride") or 0}
    else:
        c["bd"] = {"on": False, "stride": 1, "recalc": 0, "statstride": 0}
    return c


class Observer:
    """records the walkers before and after every Langevin step, and at the end"""

    def __init__(self, sc=None):
        self.log = []
        self.ld = None
        plot = sc and sc.get("fes") and sc["fes"].get("plot")
        self.figs = [] if plot else None
        self.hist = sc["hist"] if plot else None
        self.plot = sc["fes"]["plot"] if plot else ""

    def snap(self, ld):
        return [([float(v) for v in p.pos], [float(v) for v in p.mom]) for p in ld.particles]

    def hook(self, ns, extra=(), records=()):
        acts = ns.bdld.actions
        saved = []
        obs = self

        def wrap(cls):
            orig = cls.run

            def run(this, *a, **kw):
                if obs.ld is None:
                    obs.ld = this
                pre = obs.snap(this)
                r = orig(this, *a, **kw)
                obs.log.append((pre, obs.snap(this)))
                return r

            saved.append((cls, "run", orig))
            cls.run = run

        wrap(acts.overdamped_ld.OverdampedLD)
        wrap(acts.bussi_parinello_ld.BussiParinelloLD)
        if self.figs is not None:
            import matplotlib.backend_bases as mb

            fcls = mb.FigureCanvasBase
            forig = fcls.print_figure

            def pf(this, filename, *a, **kw):
                r = forig(this, filename, *a, **kw)
                obs.figs.append(figure(this.figure, str(filename), obs.hist, obs.plot))
                return r

            saved.append((fcls, "print_figure", forig))
            fcls.print_figure = pf
        if extra:
            cls = acts.trajectory_action.TrajectoryAction
            orig = cls.run

            def trun(this, step, *a, **kw):
                r = orig(this, step, *a, **kw)
                if step in extra:
                    this.write(step)
                return r

            saved.append((cls, "run", orig))
            cls.run = trun
        for cls in (acts.delta_f_action.DeltaFAction, acts.particle_distribution.ParticleDistributionAction) if records else ():
            def rrun(this, step, *a, _orig=cls.run, **kw):
                r = _orig(this, step, *a, **kw)
                if step in records and this.stride:
                    this.write(step)
                return r

            saved.append((cls, "run", cls.run))
            cls.run = rrun

        def undo():
            for cls, name, orig in saved:
                setattr(cls, name, orig)

        return undo


def plot_no(name, base):
    """time step in the name of a plot (before the extension): 0 without, -1 not understood"""
    import os, re

    root, ext = os.path.splitext(base)
    m = re.fullmatch(re.escape(root) + r"(?:_(\d+))?" + re.escape(ext), os.path.normpath(name))
    return -1 if not m else int(m.group(1) or 0)


def plot_files(files, base):
    """numbers of the plots that were saved (without an extension, a default one is added)"""
    import os

    root, ext = os.path.splitext(base)
    files = [k if ext else os.path.splitext(k)[0] for k in files if base and k.startswith(root)]
    return sorted(plot_no(k, base) for k in files)


def figure(fig, name, h, base):
    """what a saved figure shows: curves (sorted by abscissa), or the values drawn at the
    bin centres of the histogram; range of values shown"""
    import numpy as np

    out = {"n": plot_no(name, base), "lines": [], "img": [], "range": [0, 0]}
    cen = [[float(h["min"][d] + (2 * j + 1) * (h["max"][d] - h["min"][d]) / h["bins"][d] / 2)
            for j in range(h["bins"][d])] for d in range(len(h["bins"]))]
    for ax in fig.axes[:1]:
        for ln in ax.get_lines():
            pts = sorted(zip((float(v) for v in ln.get_xdata()), (float(v) for v in ln.get_ydata())))
            out["lines"].append([[round(x * 1000) if math.isfinite(x) else NAN for x, _ in pts],
                                 [to5(y) if not math.isnan(y) else INF for _, y in pts]])
            out["range"] = [to5(v) for v in ax.get_ylim()]
        meshes = [m for m in ax.collections if type(m).__name__ == "QuadMesh"]
        for im in list(ax.images) + meshes:
            a = np.ma.filled(np.ma.masked_invalid(im.get_array()), np.inf)
            if im in meshes:
                xy = np.asarray(im.get_coordinates())
                a = a.reshape(xy.shape[0] - 1, xy.shape[1] - 1)
                ex, ey = list(xy[0, :, 0]), list(xy[:, 0, 1])
            else:
                x0, x1, y0, y1 = im.get_extent()
                ny, nx = a.shape[:2]
                ex = list(np.linspace(x0, x1, nx + 1))
                ey = list(np.linspace(y0, y1, ny + 1))
                if im.origin == "upper":
                    ey.reverse()
            vals = []
            for x in cen[0]:
                for y in cen[-1]:
                    i, j = place(ex, x), place(ey, y)
                    vals.append(-9 if i < 0 or j < 0 else to5(a[j, i]))
            out["img"] = vals
            out["range"] = [to5(v) if v is not None else 0 for v in im.get_clim()]
    return out


def place(edges, v):
    """index of the cell that contains v (cells between neighbouring edges)"""
    for i, (a, b) in enumerate(zip(edges, edges[1:])):
        a, b = min(a, b), max(a, b)
        if a - 1e-9 <= v and (v < b - 1e-9 or (i == len(edges) - 2 and v <= b + 1e-9)):
            return i
    return -1


def proj(v):
    """value -> (fixed point int, off-grid flag)"""
    if not math.isfinite(v) or abs(v) > 1e6:
        return NAN, 1
    q = round(v * S)
    return q, int(abs(v * S - q) > 2e-3)


FINE = 2.0 ** -27  # unit of the parts of numbers below the lattice


def fine(v, unit=FINE):
    """what a value has below the lattice, in units of FINE (or smaller ones)"""
    if not math.isfinite(v) or abs(v) > 1e6:
        return NAN
    q = (v - round(v * S) / S) / unit
    return round(q) if abs(q - round(q)) < .2 else 10**6


def proj_state(st, fn=None):
    out, off = [], 0
    for x, p in st:
        a = [proj(v) for v in x]
        b = [proj(v) for v in p]
        off |= any(o for _, o in a + b)
        out.append([[v for v, _ in a], [v for v, _ in b]] + ([[[fine(v, fn) for v in x], [fine(v, fn) for v in p]]] if fn else []))
    return out, int(off)


def tostep(tok, unit):
    v = float(tok) / unit
    r = round(v) if math.isfinite(v) else -1
    return r if abs(v - r) < 1e-4 else -1


def toint(tok):
    v = float(tok)
    if not math.isfinite(v) or abs(v) > 1e9:
        return NAN
    r = round(v)
    return r if abs(v - r) < 1e-6 else -7


def to5(tok):
    v = float(tok)
    if math.isnan(v):
        return NAN
    if math.isinf(v) or abs(v) > 1e4:
        return INF if v > 0 else -INF
    return round(v * 1e5)


def grid_file(text, dim, conv):
    """values of a histogram / fes file ordered by coordinates"""
    _, rows = bd.parse_table(text)
    rows = [r for r in rows if r]
    rows.sort(key=lambda r: [round(float(v), 6) for v in r[:dim]])
    return [conv(r[dim]) if len(r) > dim else -9 for r in rows]


def snapshots(files, base, dim, conv):
    out = []
    for name, text in files.items():
        if name == base:
            out.append((10**9, 0, grid_file(text, dim, conv)))
        elif name.startswith(base + "_") and name[len(base) + 1:].isdigit():
            t = int(name[len(base) + 1:])
            out.append((t, t, grid_file(text, dim, conv)))
    return [[t, v] for _, t, v in sorted(out)]


def stats_rows(sc, res):
    b = sc.get("bd")
    if not b:
        return []
    if b.get("statfile"):
        _, rows = bd.parse_table(res["files"].get("bdstats", ""))
        return [[toint(r[0]), [toint(v) for v in r[1:]]] for r in rows if r]
    import re

    rows = []
    pat = (r"After (\d+) time steps:\s*\nBirth events: (\d+)/(\d+).*\n"
           r"Death events: (\d+)/(\d+)")
    for m in re.finditer(pat, res["stdout"]):
        v = [int(x) for x in m.groups()]
        rows.append([v[0], v[1:]])
    return rows


def observe_files(sc, res):
    dim, fl = sc["dim"], res["files"]
    dt = float(sc["dt"])
    traj = []
    for i in range(sc["n"]):
        _, rows = bd.parse_table(fl.get(f"tr.{i}", ""))
        tr = []
        for r in rows:
            try:
                v = [proj(float(x))[0] for x in r[1:]]
                g = [fine(float(x), sc["unit"]) for x in r[1:]] if sc.get("fine") else []
                tr.append([tostep(r[0], dt), v[:dim], v[dim:]] + ([g[:dim], g[dim:]] if g else []))
            except (ValueError, IndexError):
                tr.append([-5, [], []])
        traj.append(tr)
    df, pd = [], []
    for name, out, unit, conv in (("df", df, dt, to5), ("pd", pd, 1.0, toint)):
        _, rows = bd.parse_table(fl.get(name, ""))
        for r in rows:
            try:
                out.append([tostep(r[0], unit), [conv(v) for v in r[1:]]])
            except (ValueError, IndexError):
                out.append([-5, []])
    try:
        hist = snapshots(fl, "histo", dim, toint)
        fes = snapshots(fl, "fes", dim, to5)
        stats = stats_rows(sc, res)
    except ValueError:
        hist, fes, stats = [[-5, []]], [[-5, []]], [[-5, []]]
    return {"traj": traj, "hist": hist, "fes": fes, "df": df, "pd": pd, "stats": stats}


def chunk(vals, per):
    return [vals[i:i + per] for i in range(0, len(vals), per)]


def flat_noise(sc):
    if sc.get("fine"):
        return [v / S + f * sc["unit"] for sn, sf in zip(sc["noise"], sc["fine"]) for wn, wf in zip(sn, sf) for v, f in zip(wn, wf)]
    return [v / S for step in sc["noise"] for w in step for v in w]


def refine(rng, sc, exp=27, vals=None):
    """noise between the lattice points; only for walkers that jump freely"""
    sc["unit"] = 2.0 ** -exp
    sc["fine"] = [[[rng.choice(vals) if vals else rng.randint(-60, 60) for _ in w] for w in step] for step in sc["noise"]]
    return sc


def run_case(sc, cid):
    """run the scenario on the real code, return the recorded trace"""
    secs, extra = sections(sc)
    order = sc.get("order")
    if order:
        secs = [secs[i] for i in order if i < len(secs)]
    text = bd.input_text(secs)
    uni = {}
    if sc.get("bd") and "u" in sc["bd"]:
        uni[sc["bd"].get("seed", bd.SEED_BD)] = [-math.expm1(-t / 1e5) for rnd in sc["bd"]["u"] for t in rnd]
    script = bd.Script({bd.SEED_LD: flat_noise(sc)}, uni)
    ob = Observer(sc)
    dom = (sc.get("fes") or {}).get("dom")
    case = {"id": cid, "cfg": conf(sc), "dom": [to5(v) for v in dom] if dom else [], "extra": list(sc.get("extra", ())), "mom": bool(
        sc.get("tr") and sc["tr"].get("mom")), "crash": False, "nostat": bool(sc.get("nostat")),
        "noise": sc["noise"], "fine": sc.get("fine", []), "u": sc["bd"].get("u", []) if sc.get("bd") else []}
    if sc.get("crash"):
        # the states of the interrupted run are those of the uninterrupted one
        res0 = bd.run_main(text, bd.Script(script.normal, script.uniform), extra,
                           hook=lambda ns: ob.hook(ns, sc.get("extra", ())))
        seed, nth = sc["fault"]
        script.fault = (seed, nth, sc.get("how", "exit"))
        res = bd.run_killed(text, script, extra,
                            hook=lambda ns: Observer().hook(ns, sc.get("extra", ())))
        last = sc["crash"]
        ended = "" if res["status"] == "fault" else "not interrupted: " + res["err"]
        if res0["status"] != "ok":
            ended = "failed: " + res0["err"]
        case.update(crash=True, nostat=bool(sc.get("bd")) and not sc["bd"].get("statfile"))
    else:
        res = bd.run_main(text, script, extra, hook=lambda ns: ob.hook(ns, sc.get("extra", ()), sc.get("records", ())))
        last = sc["nsteps"]
        ended = "" if res["status"] == "ok" else f"{res['status']}: {res['err']}"[:200]
    steps = []
    prev_off = 0
    final = ob.snap(ob.ld) if ob.ld is not None else []
    ends = [pre for pre, _ in ob.log[1:]] + [final]
    for (pre, post), end in zip(ob.log, ends):
        a, off = proj_state(post, sc.get("unit"))
        e, off2 = proj_state(end, sc.get("unit"))
        steps.append({"ld": a, "end": e, "off": int(off or prev_off), "ev": int(post != end)})
        prev_off = off2
    case["init"] = proj_state(ob.log[0][0], sc.get("unit"))[0] if ob.log else [
        [[fx(v) for v in x], [0] * sc["dim"]] + ([[[0] * sc["dim"]] * 2] if "fine" in sc else []) for x in sc["init"]]
    if ob.log and not sc.get("crash") and not ended:
        last = max(last, len(steps))  # more steps than requested is judged by the spec
    case["steps"] = steps[:last] if sc.get("crash") else steps
    case["last"] = sc["nsteps"] if not sc.get("crash") else last
    case["ended"] = ended
    case["obs"] = observe_files(sc, res)
    case["obs"]["figs"] = ob.figs or []
    case["obs"]["pngs"] = plot_files(res["files"], ob.plot)
    case["_text"] = text
    case["_stdout"] = res["stdout"][-2000:]
    case["_stderr"] = res["stderr"][-2000:]
    case["_files"] = {k: v for k, v in res["files"].items() if len(v) < 20000}
    case["_extra"] = extra
    return case


# ---------------------------------------------------------------- random building blocks
def lattice(rng, lo, hi, den=4):
    """random lattice value in [lo, hi]"""
    a, b = math.ceil(lo * den), math.floor(hi * den)
    return F(rng.randint(a, b), den)


def free_noise(rng, sc, lo=-3, hi=3, den=4):
    """noise on the lattice for every step, walker, dimension"""
    k = sc["dim"] * (1 if sc["ld"] == "o" else 2)
    return [[[fx(lattice(rng, lo, hi, den)) for _ in range(k)] for _ in range(sc["n"])]
            for _ in range(sc["nsteps"])]


# ---------------------------------------------------------------- C09: results of many rounds
def run_outcomes(sc, cid):
    """one run with many identical rounds (the walkers are put back in every step); the
    results of the rounds are counted"""
    secs, extra = sections(sc)
    uni = {sc["bd"]["seed"]: [-math.expm1(-t / 1e5) for rnd in sc["bd"]["u"] for t in rnd]}
    ob = Observer()
    res = bd.run_main(bd.input_text(secs), bd.Script({bd.SEED_LD: flat_noise(sc)}, uni), extra,
                      hook=ob.hook)
    ended = "" if res["status"] == "ok" else f"{res['status']}: {res['err']}"[:200]
    base = [tuple(float(v) / S for v in w) for w in sc["noise"][0]]
    lab = {x: i + 1 for i, x in enumerate(base)}
    assert len(lab) == len(base)
    seen, events = {}, {}
    if sc.get("counts") and not ended:  # only the numbers of events of the rounds
        rows = [[int(float(v)) for v in r] for r in bd.parse_table(res["files"].get("bdstats", ""))[1] if r]
        if len(rows) != sc["nsteps"]:
            ended = "statistics not complete"
        for a, b in zip([[0] * 5] + rows, rows):
            o = (b[1] - a[1], b[3] - a[3])
            events[o] = events.get(o, 0) + 1
    elif not ended:
        ends = [pre for pre, _ in ob.log[1:]] + [ob.snap(ob.ld)]
        for (_, post), end in zip(ob.log, ends):
            if [tuple(x) for x, _ in post] != base:
                ended = "walkers not where they were put"
                break
            o = tuple(lab.get(tuple(x), 0) for x, _ in end)
            seen[o] = seen.get(o, 0) + 1
    return {"id": cid, "cfg": conf(sc), "x": [list(w) for w in sc["noise"][0]],
            "u": sc["bd"]["u"][0], "seen": [[list(k), v] for k, v in sorted(seen.items())],
            "events": [[list(k), v] for k, v in sorted(events.items())],
            "ended": ended, "_text": bd.input_text(secs)}


# ---------------------------------------------------------------- C14: initial walkers
class InitObserver(Observer):
    def snap(self, ld):
        return [([float(v) for v in p.pos], [float(v) for v in p.mom], float(p.mass)) for p in ld.particles]


def init_sections(o, seed):
    dim = o["dim"]
    pot = [("type", "polynomial"), ("n_dim", dim)]
    extra = {}
    if dim == 1:
        pot += [("coeffs", "0, 0, 1"), ("min", num(o["lo"][0])), ("max", num(o["hi"][0]))]
    else:
        extra["coeffs.data"] = " ".join(["2"] + ["0"] * (dim - 1)) + " 1.0\n" + " ".join(["0"] * (dim - 1) + ["1"]) + " 0.5\n"
        pot += [("coeffs-file", "coeffs.data"), ("min", lst(o["lo"])), ("max", lst(o["hi"]))]
    if o["ld"] == "o":
        ld = [("type", "overdamped"), ("timestep", "0.25"), ("n_steps", 1), ("seed", bd.SEED_LD)]
    else:
        ld = [("type", "bussi-parinello"), ("timestep", "0.25"), ("n_steps", 1), ("seed", bd.SEED_LD),
              ("friction", "1.0"), ("kt", "1.0")]
    part = [("number", o["n"]), ("initial-distribution",
                                 {"frac": "fractions-pos", "pos": "random-pos", "global": "random-global"}[o["kind"]])]
    if seed is not None:
        part.append(("seed", seed))
    if o["mass"] is not None:
        part.append(("mass", num(o["mass"])))
    for i, x in enumerate(o.get("pos", [])):
        part.append((f"pos{i + 1}", lst(x)))
    if o["kind"] == "frac":
        part.append(("fractions", o["frtext"]))
    return [("ld", ld), ("potential", pot), ("particles", part)], extra


def init_case(o, cid):
    case = {"id": cid, "kind": o["kind"], "dim": o["dim"], "n": o["n"], "ended": "",
            "mass": fx(1 if o["mass"] is None else o["mass"]), "x": [], "p": [], "m": []}
    allx = []
    first = None
    for seed in o["seeds"]:
        secs, extra = init_sections(o, seed)
        ob = InitObserver()
        res = bd.run_main(bd.input_text(secs), bd.Script(), extra, hook=ob.hook)
        if res["status"] != "ok" or not ob.log:
            case["ended"] = f"{res['status']}: {res['err']}"[:200]
            break
        st = ob.log[0][0]
        first = first or st
        allx += [tuple(x) for x, _, _ in st]
    if first:
        show = first if o["kind"] != "global" else first[:60]
        case["n"] = o["n"] if len(first) != o["n"] or o["kind"] != "global" else len(show)
        if len(first) != o["n"]:
            show = first
        case["x"] = [[proj(v)[0] for v in x] for x, _, _ in show]
        case["p"] = [[0 if v == 0.0 else 1 for v in p] for _, p, _ in first]
        case["p"] = case["p"][:len(show)] if all(not any(q) for q in case["p"]) else case["p"]
        case["m"] = [proj(m)[0] for _, _, m in first][:len(show)]
        if len({m for _, _, m in first}) > 1:
            case["m"][0] = -1
    if o["kind"] != "global":
        case["pos"] = [[fx(v) for v in x] for x in o["pos"]]
    if o["kind"] == "frac":
        case["fr"] = o["fr"]
    elif o["kind"] == "pos":
        case["cnt"] = [sum(1 for x in allx if list(x) == [float(v) for v in p]) for p in o["pos"]]
    else:
        case["rlo"], case["rhi"] = [fx(v) for v in o["lo"]], [fx(v) for v in o["hi"]]
        oct_ = [[0] * 8 for _ in range(o["dim"])]
        joint = [0] * 2 ** o["dim"]
        for x in allx:
            j = 0
            for d, v in enumerate(x):
                u = (v - float(o["lo"][d])) / float(o["hi"][d] - o["lo"][d])
                oct_[d][min(7, max(0, int(u * 8)))] += 1
                j = 2 * j + (u > .5)
            joint[j] += 1
        case.update(oct=oct_, joint=joint, total=len(allx), ndistinct=len(set(allx)))
    case["_opts"] = {k: str(v) for k, v in o.items()}
    return case


# ---------------------------------------------------------------- C19: layout of the files
def thou(tok):
    try:
        v = float(tok)
    except ValueError:
        return NAN
    return round(v * 1000) if math.isfinite(v) and abs(v) < 1e5 else NAN


def tokshape(t):
    import re

    if re.fullmatch(r"[+-]?(inf|nan)", t):
        return ["n", 0, len(t)]
    m = re.fullmatch(r"[+-]?\d+(?:\.(\d*))?(e[+-]\d+)?", t)
    if not m:
        return ["?", 0, len(t)]
    if m.group(2):
        return ["e", len(m.group(1) or ""), len(t)]
    return ["f" if m.group(1) is not None else "d", len(m.group(1) or ""), len(t)]


def fmtshape(fmt):
    import re

    m = re.fullmatch(r"%(\d*)(?:\.(\d+))?([fegd])", fmt)
    return [m.group(3), int(m.group(2) or 0), int(m.group(1) or 0)]


def file_lines(text, dim):
    lines, consts = [], []
    if text.endswith("\n"):
        text = text[:-1]
    for line in text.split("\n") if text else []:
        if line.startswith("#"):
            w = line.split()
            lines.append({"k": "h", "w": w})
            if len(w) == 4 and w[1] == "SET":
                consts.append([w[2], thou(w[3])])
        elif not line.strip():
            lines.append({"k": "b"})
        else:
            t = line.split()
            lines.append({"k": "d", "x": [thou(v) for v in t[:dim]], "t": [tokshape(v) for v in t], "len": len(line)})
    return lines, consts


def layout_case(case, sc, cid):
    """the files of an already recorded run, line by line"""
    import re

    dim = sc["dim"]
    out = []
    h = sc.get("hist")
    for name, text in sorted(case["_files"].items()):
        m = re.fullmatch(r"tr\.(\d+)", name)
        base = {"dim": dim, "name": name, "mom": case["mom"], "no": "", "nstates": 0}
        if h:
            base.update(lo=[int(v * 1000) for v in h["min"]], hi=[int(v * 1000) for v in h["max"]], bins=h["bins"])
        if m:
            base.update(kind="traj", no=m.group(1), fmt=sc["tr"].get("fmt"))
        elif re.fullmatch(r"histo(_\d+)?", name):
            base.update(kind="hist", fmt=h.get("fmt"))
        elif re.fullmatch(r"fes(_\d+)?", name):
            base.update(kind="fes", fmt=sc["fes"].get("fmt"))
        elif name in ("df", "pd"):
            base.update(kind=name, nstates=len(sc[name]["states"]), fmt=sc[name].get("fmt"))
        elif name == "bdstats":
            base.update(kind="stats", fmt="%d")
        else:
            continue
        base["fmt"] = fmtshape(base["fmt"] or "%14.9f")
        base["lines"], base["consts"] = file_lines(text, dim)
        out.append(base)
    return {"id": cid, "files": out, "ended": case["ended"], "_files": case["_files"], "_text": case["_text"]}


# ---------------------------------------------------------------- C08: very many walkers
def run_sites(sc, cid):
    """one step with a birth-death round; only the changes of it are kept"""
    secs, extra = sections(sc)
    part = dict(secs[2][1])
    keep = [(k, v) for k, v in secs[2][1] if not k.startswith("pos") and k != "fractions"]
    pos = [(f"pos{i + 1}", lst(x)) for i, x in enumerate(sc["sites"])]
    secs[2] = (secs[2][0], keep + pos + [("fractions", ", ".join(str(v) for v in sc["mult"]))])
    del part
    uni = {bd.SEED_BD: [-math.expm1(-t / 1e5) for t in sc["bd"]["u"][0]]}
    ob = Observer()
    res = bd.run_main(bd.input_text(secs), bd.Script({bd.SEED_LD: [v / S for v in sc["flat"]]}, uni), extra,
                      hook=ob.hook, timeout=1500)
    ended = "" if res["status"] == "ok" else f"{res['status']}: {res['err']}"[:200]
    lab = {tuple(float(v) for v in x): i + 1 for i, x in enumerate(sc["sites"])}
    ch, i0, stats = [], 0, []
    if sc.get("stats"):
        rows = [r for r in bd.parse_table(res["files"].get("bdstats", ""))[1] if r]
        if len(rows) != 1 or len(rows[0]) != 5:
            ended = ended or "statistics not complete"
        else:
            stats = [int(float(v)) for v in rows[0][1:]]
    if not ended:
        _, post = ob.log[0]
        end = ob.snap(ob.ld)
        labs = [lab.get(tuple(x), 0) for x, _ in post]
        if [labs.count(k + 1) for k in range(len(lab))] != sc["mult"] or len(end) != len(post):
            ended = "walkers not where they were put"
        else:
            i0 = labs.index(sc["act"]) + 1
            ch = [[i + 1, lab.get(tuple(e[0]), 0)] for i, (p, e) in enumerate(zip(post, end)) if p != e]
    return {"id": cid, "cfg": conf(sc), "x": [[fx(v) for v in x] for x in sc["sites"]], "m": sc["mult"],
            "act": sc["act"], "i": i0, "u": min(sc["bd"]["u"][0]), "ch": ch, "stats": stats, "ended": ended}


# ---------------------------------------------------------------- C11: any parameters
def therm_case(o, cid):
    """a run with arbitrary decimal parameters; the walkers before and after every step"""
    dim, n = o["dim"], o["n"]
    ld = [("type", "overdamped" if o["ld"] == 0 else "bussi-parinello"), ("timestep", o["dt"]),
          ("n_steps", o["nsteps"]), ("seed", bd.SEED_LD)]
    if o["ld"]:
        ld += [("friction", o["fric"]), ("kt", o["kt"])]
    pot = [("type", "polynomial"), ("n_dim", dim)]
    extra = {}
    if dim == 1:
        pot.append(("coeffs", f"0.0, {o['lin'][0]}, {o['quad'][0]}"))
    else:
        extra["coeffs.data"] = "".join(
            " ".join("1" if k == d else "0" for k in range(dim)) + f" {o['lin'][d]}\n"
            + " ".join("2" if k == d else "0" for k in range(dim)) + f" {o['quad'][d]}\n" for d in range(dim))
        pot.append(("coeffs-file", "coeffs.data"))
    pot += [("min", lst([-9000] * dim)), ("max", lst([9000] * dim))]
    part = [("number", n), ("initial-distribution", "fractions-pos"), ("seed", bd.SEED_PART), ("mass", o["mass"]),
            ("pos1", lst([float(v) for v in o["x"]])), ("fractions", "1.0")]
    ob = Observer()
    res = bd.run_main(bd.input_text([("ld", ld), ("potential", pot), ("particles", part)]),
                      bd.Script({bd.SEED_LD: [v / 1e6 for v in o["noise"]]}), extra, hook=ob.hook)
    ended = "" if res["status"] == "ok" else f"{res['status']}: {res['err']}"[:200]
    if not ended and len(ob.log) != o["nsteps"]:
        ended = "steps missing"
    per = dim * (2 if o["ld"] else 1)
    e6 = lambda vs: [int(round(max(-100, min(100, v)) * 1e6)) if v == v else 99999999 for v in vs]
    steps, k = [], 0
    for pre, post in ob.log:
        for i in range(n):
            z = o["noise"][k:k + per]
            k += per
            steps.append([[e6(pre[i][0]), e6(pre[i][1])], z, [e6(post[i][0]), e6(post[i][1])]])
    dec = lambda v: int(round(float(v) * 1e6))
    return {"id": cid, "dim": dim, "ld": o["ld"], "dt": dec(o["dt"]), "fric": dec(o["fric"]), "kt": dec(o["kt"]),
            "mass": dec(o["mass"]), "lin": [dec(v) for v in o["lin"]], "quad": [dec(v) for v in o["quad"]],
            "steps": steps if not ended else [], "ended": ended}


# ---------------------------------------------------------------- C01, C02: rows to the last digit
def nano(v):
    """number -> [10^-6, 10^-9]"""
    v = float(v)
    if not math.isfinite(v) or abs(v) > 2000:
        return [2000000001, 0]
    q = round(v * 1e9)
    return [q // 1000, q % 1000]


def rows_case(o, cid):
    """a run with a decimal time step: rows of the trajectories, times of the delta-f file"""
    n = o["n"]
    secs = [("ld", [("type", "overdamped" if o["ld"] == 0 else "bussi-parinello"), ("timestep", repr(o["dt"] / 1e6)),
                               ("n_steps", o["nsteps"]), ("seed", o["seed"])] + ([("friction", 5.0), ("kt", 0.7)] if o["ld"] else [])),
                       ("potential", [("type", "polynomial"), ("n_dim", 1), ("coeffs", "0.0, 0.1, 0.5"), ("min", -50), ("max", 50)]),
                       ("particles", [("number", n), ("initial-distribution", "random-global"), ("seed", o["seed"])])]
    if o["bd"]:
        secs.append(("birth-death", [("stride", o["bd"]), ("kernel-bandwidth", 0.3), ("seed", o["seed"])]))
    tr = [("filename", "tr"), ("stride", o["st"]), ("write-stride", o["ws"])]
    if o["mom"]:
        tr.append(("momentum", "true"))
    secs.append(("trajectories", tr))
    if o["dst"]:
        secs += [("histogram", [("min", -5), ("max", 5), ("bins", 5)]), ("fes", [("kt", 1.0), ("stride", o["ws"])]),
                 ("delta-f", [("filename", "df"), ("stride", o["dst"]), ("write-stride", o["dst"] * o["dmul"]),
                              ("state1-min", -5), ("state1-max", 0), ("state2-min", 0), ("state2-max", 5)])]
    ob = Observer()
    logs = {}

    def hook(ns):
        undo = ob.hook(ns)
        cls = ns.bdld.actions.trajectory_action.TrajectoryAction
        orig = cls.run

        def run(this, step, *a, **kw):  # the walkers at the time of the output
            logs[step] = ob.snap(this.ld)
            return orig(this, step, *a, **kw)

        cls.run = run

        def back():
            cls.run = orig
            undo()

        return back

    res = bd.run_main(bd.input_text(secs), bd.Script(), {}, hook=hook)
    ended = "" if res["status"] == "ok" else f"{res['status']}: {res['err']}"[:200]
    table = lambda name: [r for r in bd.parse_table(res["files"].get(name, ""))[1] if r]
    try:
        traj = [[[nano(v) for v in r] for r in table(f"tr.{i}")] for i in range(n)]
        df = [nano(r[0]) for r in table("df")]
        log = [[[nano(v) for v in x + (p if o["mom"] else [])] for x, p in logs[t]] for t in range(1, o["nsteps"] + 1)]
    except (ValueError, KeyError) as e:
        traj, df, log, ended = [], [], [], ended or "not understood: " + str(e)[:100]
    return {"id": cid, "dt": o["dt"], "nsteps": o["nsteps"], "st": o["st"], "dst": o["dst"], "traj": traj, "df": df,
            "log": log, "ended": ended}


# ---------------------------------------------------------------- very long runs
def long_case(sc, cid):
    """a run of very many steps; the walkers are only logged where a record is due"""
    secs, extra = sections(sc)
    c = conf(sc)
    strides = {v for v in (c["tr"]["on"] and c["tr"]["file"] and c["tr"]["stride"], c["pd"]["on"] and c["pd"]["stride"],
                           c["df"]["on"] and c["df"]["stride"], c["bd"]["on"] and c["bd"]["statstride"],
                           c["hi"]["on"] and c["hi"]["ws"]) if v}
    due = sorted({t for v in strides for t in range(v, sc["nsteps"] + 1, v)})
    ob = Observer()
    snaps, full, count = {}, ob.snap, [0]

    def snap(ld):  # called before and after every step: the walkers at the end of step k are those before k + 1
        k, count[0] = count[0], count[0] + 1
        if k % 2 == 0:
            t = k // 2
            if t in want:
                snaps[t] = [x for x, _ in full(ld)]
        return None

    want = set(due)
    ob.snap = snap
    res = bd.run_main(bd.input_text(secs), bd.Script({bd.SEED_LD: flat_noise(sc)}, {}), extra, hook=ob.hook, timeout=600)
    ended = "" if res["status"] == "ok" else f"{res['status']}: {res['err']}"[:200]
    if not ended and count[0] != 2 * sc["nsteps"]:
        ended = f"{count[0] / 2} steps"
    if not ended:
        snap(ob.ld)
    return {"id": cid, "cfg": c, "last": sc["nsteps"], "ended": ended, "obs": observe_files(sc, res),
            "log": [[t, [[proj(v)[0] for v in x] for x in snaps[t]]] for t in due] if not ended else []}
