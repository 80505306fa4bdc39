"""Direct use of the public classes of bdld (records of what they do)."""
import contextlib
import io
import math
from fractions import Fraction as F

import numpy as np

import bd
import sim
from sim import S


def r3(v):
    """value -> units of 1/1000 (rounded; -999999999 if it is not one)"""
    v = float(v)
    if not math.isfinite(v) or abs(v) > 1e6:
        return 999999999
    q = round(v * 1000)
    return q if abs(v * 1000 - q) < 1e-5 else 999999998


def guarded(case, fn):
    try:
        fn()
        case["ended"] = ""
    except Exception as e:
        case["ended"] = f"{type(e).__name__}: {e}"[:200]
    return case


def boundary_case(spec, cid):
    ns = bd.load()
    P = ns.bdld.potential
    B = P.potential.BoundaryCondition
    conds = {0: None, 1: B.periodic, 2: B.reflective}
    dim, scale = spec["dim"], spec.get("scale", 1000)
    back = r3 if scale == 1000 else lambda v: round(v * scale) if abs(v) < 15 else 1999999999
    log = []
    case = {"id": cid, "dim": dim, "rlo": spec["rlo"], "rhi": spec["rhi"], "first": spec["first"],
            "log": log}

    def go():
        if spec["kind"] == "mb":
            pot = P.mueller_brown.MuellerBrownPotential(None)
            case["rlo"], case["rhi"] = [-1500, -500], [1500, 2500]
        else:
            co = np.zeros([3] * dim)
            co[tuple([1] * dim)] = 1.0
            pot = P.polynomial.PolynomialPotential(
                co, [(a / scale, b / scale) for a, b in zip(spec["rlo"], spec["rhi"])])
        if spec["first"]:
            pot.boundary_condition = conds[spec["first"]]
        for op, b, x, p in spec["ops"]:
            if op == "set":
                pot.boundary_condition = conds[b]
                log.append({"op": "set", "bc": b})
                continue
            xa, pa = np.array(x) / float(scale), np.array(p) / float(scale)
            pot.apply_boundary_condition(xa, pa)
            log.append({"op": "call", "before": [x, p], "after": [[back(v) for v in xa], [back(v) for v in pa]]})

    return guarded(case, go)


# ---------------------------------------------------------------- potentials (C13)
def off_grid(vals):
    return int(any(sim.proj(float(v))[1] for v in vals))


def p4(v):
    v = float(v)
    return 1999999999 if not math.isfinite(v) or abs(v) > 1.9e5 else round(v * 1e4)


def ln5(v):
    v = float(v)
    return 1999999999 if not v > 0 else round(math.log(v) * 1e5)


def make_poly(ns, o, scratch):
    """the ways to get a polynomial potential"""
    import os
    P = ns.bdld.potential.polynomial
    dim = o["dim"]
    shape = [max([t[0][d] for t in o["terms"]] + [0]) + 1 + o.get("pad", 0) for d in range(dim)]
    rng_ = [(-4.0, 4.0)] * dim
    if o["how"] == "array":
        co = np.zeros(shape)
        for e, c in o["terms"]:
            co[tuple(e)] = float(c)
        return P.PolynomialPotential(co, rng_)
    if o["how"] == "list":
        co = [0.0] * shape[0]
        for e, c in o["terms"]:
            co[e[0]] = float(c)
        if all(float(v).is_integer() for v in co):
            co = [int(v) for v in co]  # integer coefficients
        return P.PolynomialPotential(co, rng_)
    fn = os.path.join(scratch, "coeffs")
    with open(fn, "w") as fh:
        fh.write(o["filetext"])
    return P.PolynomialPotential(P.coefficients_from_file(fn, dim), rng_)


def pot_case(ops, cid):
    import shutil, tempfile
    ns = bd.load()
    log = []
    case = {"id": cid, "slack": 60, "log": log}
    scratch = tempfile.mkdtemp(dir=bd.SCRATCH())
    objs = []

    def go():
        for o in ops:
            if o["op"] == "new":
                if o["kind"] == "mb":
                    objs.append(ns.bdld.potential.mueller_brown.MuellerBrownPotential(
                        None if o["sf"] is None else float(o["sf"])))
                    log.append({"op": "new", "kind": "mb", "sf": sim.rat(1 if o["sf"] is None else o["sf"])})
                else:
                    objs.append(make_poly(ns, o, scratch))
                    log.append({"op": "new", "kind": "poly", "dim": o["dim"],
                                "pot": [list(e) + [sim.fx(c)] for e, c in o["terms"]]})
                continue
            p = objs[o["id"] - 1]
            if o["op"] == "eval":
                u = 16 if o["mb"] else 4
                x = [v / u for v in o["x"]]
                x = np.array(x) if o["arr"] else x
                e, f = p.energy(x), p.force(x)
                e2, f2 = p.evaluate(x)
                vals = [e, e2] + list(f) + list(f2)
                q = p4 if o["mb"] else (lambda v: sim.proj(float(v))[0])
                log.append({"op": "eval", "id": o["id"], "x": [v * (S // 4) for v in o["x"]] if not o["mb"] else o["x"],
                            "xa": [sim.proj(float(v))[0] if not o["mb"] else round(float(v) * 16) for v in x],
                            "e": q(e), "f": [q(v) for v in f], "e2": q(e2), "f2": [q(v) for v in f2],
                            "off": 0 if o["mb"] else off_grid(vals)})
            elif o["op"] == "ref":
                pts = [np.array([v / 4 for v in x]) for x in o["pts"]]
                r = p.calculate_reference(np.array(pts) if o["arr"] else pts, o["zero"])
                log.append({"op": "ref", "id": o["id"], "pts": [[v * (S // 4) for v in x] for x in o["pts"]],
                            "zero": o["zero"], "e": [sim.proj(float(v))[0] for v in r], "off": off_grid(r)})
            elif o["op"] == "dens":
                g = p.calculate_probability_density(float(o["kt"]), [(a / 4, b / 4) for a, b in o["ranges"]],
                                                    o["n"])
                pts = [[round(float(v) * S) for v in q] for q in g.points()]
                vol = 1.0
                for (a, b), n in zip(o["ranges"], o["n"]):
                    vol *= (b - a) / 4 / (n - 1)
                log.append({"op": "dens", "id": o["id"], "pts": pts, "kt": sim.rat(o["kt"]),
                            "ln": [ln5(v) for v in g.data.flatten()],
                            "norm": round(float(np.sum(g.data)) * vol * 1e6)})

    guarded(case, go)
    shutil.rmtree(scratch, ignore_errors=True)
    return case


# ---------------------------------------------------------------- grids (C20)
def observe_grid(g):
    pts = [[round(float(v) * 16) for v in p] for p in g.points()]
    offp = any(abs(float(v) * 16 - round(float(v) * 16)) > 1e-6 for p in g.points() for v in p)
    data = [sim.proj(float(v)) for v in np.asarray(g.data).flatten()]
    shape_off = int(np.size(g.data) > 0 and list(np.shape(g.data)) != [int(v) for v in g.n_points])
    return {"n": [int(v) for v in g.n_points], "pts": pts, "data": [v for v, _ in data],
            "off": int(offp or any(o for _, o in data) or shape_off)}


def grid_case(ops, cid):
    import operator as O
    ns = bd.load()
    G = ns.bdld.grid
    gs, log = [], []
    case = {"id": cid, "log": log}

    def go():
        for o in ops:
            r = {k: v for k, v in o.items() if not k.startswith("_")}
            op = o["op"]
            r.update(refused=False, err="")
            a = gs[o["a"] - 1] if "a" in o else None
            b = gs[o["b"] - 1] if "b" in o else None
            fl = lambda v: [(float(x) / 16) for x in v]
            try:
                new = None
                if op == "new":
                    n = o["n"][0] if o["_int"] else list(o["n"])
                    new = G.from_npoints([(x, y) for x, y in zip(fl(o["lo"]), fl(o["hi"]))], n)
                elif op == "step":
                    st = fl(o["st"])[0] if o["_int"] else fl(o["st"])
                    new = G.from_stepsizes([(x, y) for x, y in zip(fl(o["lo"]), fl(o["hi"]))], st, o["shrink"])
                elif op == "dstep":
                    dec = lambda v: float(F(v, 10 ** o["u"]))
                    st = [dec(v) for v in o["st"]]
                    g = G.from_stepsizes([(dec(x), dec(y)) for x, y in zip(o["lo"], o["hi"])], st[0] if o["_int"] else st, o["shrink"])
                    q = [[float(v) * 10 ** o["u"] for v in p] for p in g.points()]
                    r.update(got=[[round(v) for v in p] for p in q], n=[int(v) for v in g.n_points],
                             off=int(any(abs(v - round(v)) > 1e-4 for p in q for v in p)))
                elif op == "copy":
                    new = a.copy_empty()
                elif op == "func":
                    c = o["c"]

                    def f(p):
                        return (c["c0"] + sum(k * p[d] for d, k in enumerate(c["cs"]))
                                + (c["cx"] * np.prod(p) if len(p) > 1 else 0.0))

                    a.set_from_func(f)
                elif op == "set":
                    a.data = np.array([v / S for v in o["vals"]])
                elif op == "item":
                    a[tuple(o["ix"])] = o["v"] / S
                elif op == "gn":
                    v = o["v"] / S
                    v = int(v) if o["_int"] else v
                    f = getattr(O, o["f"])
                    new = f(v, a) if o["_right"] else f(a, v)
                elif op == "ga":
                    arr = np.array([v / S for v in o["vals"]]).reshape(o["_shape"])
                    new = getattr(O, o["f"])(a, arr)
                elif op == "gg":
                    new = getattr(O, o["f"])(a, b)
                elif op == "neg":
                    new = -a
                elif op == "plus":
                    new = +a
                elif op == "sparse":
                    new = G.sparsify(a, list(o["max"]))
                elif op == "conv":
                    new = G.convolve(a, b, o["mode"], o["_method"])
                elif op == "interp":
                    q = np.array([[v / 16 for v in p] for p in o["qs"]])
                    kw = {} if o["_fill"] is None else {"fill_value": float(o["_fill"])}
                    got = np.asarray(a.interpolate(q, "linear", **kw)).reshape(-1)
                    r["got"] = [sim.proj(float(v))[0] for v in got]
                    r["fill"] = sim.NAN if o["_fill"] is None else o["_fill"] * S
                elif op in ("exp", "log"):
                    f = getattr(np, op)
                    g = f(a) if o["_np"] else getattr(a, op)()
                    r["pts"] = observe_grid(g)["pts"]
                    v = np.asarray(g.data).flatten()
                    r["got"] = [ln5(x) for x in v] if op == "exp" else [round(math.exp(float(x)) * S) for x in v]
                elif op == "eq":
                    r["got"] = bool(a == b)
                elif op == "get":
                    r["got"] = sim.proj(float(a[tuple(o["ix"])]))[0]
                if new is not None:
                    gs.append(new)
            except (ValueError, NotImplementedError) as e:
                r.update(refused=True, err=f"{type(e).__name__}: {e}"[:120])
                r.setdefault("got", [])
            r["store"] = [observe_grid(g) for g in gs]
            log.append(r)

    return guarded(case, go)


# ---------------------------------------------------------------- list of walkers (C21)
def list_case(o, cid):
    ns = bd.load()
    sc = o["sc"]
    dim = sc["dim"]
    P = ns.bdld.potential
    B = P.potential.BoundaryCondition
    log = []
    case = {"id": cid, "conf": sim.conf(sc), "log": log}
    case["conf"] = {k: case["conf"][k] for k in ("dim", "ld", "dt", "nf", "c1", "c2", "mass", "bc", "pot", "rlo", "rhi")}

    def look(ld):
        out = []
        for p in ld.particles:
            x, m, e, f = ([sim.proj(float(v)) for v in np.atleast_1d(q)] for q in (p.pos, p.mom, p.energy, p.forces))
            out.append({"x": [v for v, _ in x], "p": [v for v, _ in m], "e": e[0][0], "f": [v for v, _ in f], "g": [sim.fine(float(v)) for v in np.atleast_1d(p.pos)],
                        "m": sim.rat(F(float(p.mass)).limit_denominator(1000)),
                        "off": int(any(q for _, q in x + m + e + f))})
        return out

    def go():
        shape = [max([t[0][d] for t in sc["pot"]] + [1]) + 1 for d in range(dim)]
        co = np.zeros(shape)
        for e, c in sc["pot"]:
            co[tuple(e)] = float(c)
        pot = P.polynomial.PolynomialPotential(co, [(float(a), float(b)) for a, b in zip(sc["lo"], sc["hi"])])
        pot.boundary_condition = {0: None, 1: B.periodic, 2: B.reflective}[sc["bc"]]
        noise = [v for op in o["ops"] if op["op"] == "step" for z in op["z"] for v in z]
        bd.Script.active = bd.Script(normal={bd.SEED_LD: [v / S for v in noise]})
        acts = ns.bdld.actions
        with contextlib.redirect_stdout(io.StringIO()):
            if sc["ld"] == "o":
                ld = acts.overdamped_ld.OverdampedLD(pot, float(sc["dt"]), bd.SEED_LD)
            else:
                ld = acts.bussi_parinello_ld.BussiParinelloLD(pot, float(sc["dt"]), sc["fric"], float(sc["kt"]), bd.SEED_LD)
        passed = []
        nstep = 0
        bdact = None
        for op in o["ops"]:
            r = {k: v for k, v in op.items() if not k.startswith("_")}
            r.update(refused=False)
            if op["op"] in ("add", "put", "over"):
                if op["_again"] is not None and op["_again"] < len(passed):
                    obj = passed[op["_again"]]  # an object that was used before
                    for d, v in enumerate(op["x"]):
                        obj[d] = v / S + op["g"][d] * sim.FINE
                else:
                    obj = [v / S + g * sim.FINE for v, g in zip(op["x"], op["g"])]
                    if op["_kind"] == "int":
                        obj = [int(v) for v in obj]
                    elif op["_kind"] == "array":
                        obj = np.array(obj)
                    elif op["_kind"] == "view":
                        obj = np.array([obj, obj])[1]
                passed.append(obj)
                a, kw = [obj], {}
                if op["m"] != [1, 1] or op["_mass"]:
                    a.append(op["m"][0] / op["m"][1])
                if op["op"] == "put" or (op["op"] == "over" and not op["_default"]):
                    kw["partnum"] = op["i"]
                elif op["op"] == "add" and op["_mass"]:
                    kw["partnum"] = -1
                if op["op"] == "over":
                    kw["overwrite"] = True
                fn = lambda: ld.add_particle(*a, **kw)
            elif op["op"] == "del":
                # also counted from the end, as for any list
                fn = lambda: ld.remove_particle(op["i"] - (len(ld.particles) if op.get("_end") else 0))
            elif op["op"] == "touch":
                def fn():
                    if passed:
                        q = passed[op["_which"] % len(passed)]
                        for d in range(len(q)):
                            q[d] = 77
            elif op["op"] == "round":
                if bdact is None:
                    with contextlib.redirect_stdout(io.StringIO()):
                        bdact = acts.birth_death.BirthDeath(
                            ld.particles, float(sc["dt"]), 1, np.array([float(v) for v in o["bw"]]), ld.kt,
                            float(o["fac"]), o["recalc"], seed=o["seed"])
                fn = lambda: bdact.do_birth_death()
            else:
                nstep += 1
                fn = lambda: ld.run(nstep)
            try:
                fn()
            except (ValueError, IndexError):
                r["refused"] = True
            r["got"] = look(ld)
            log.append(r)

    try:
        return guarded(case, go)
    finally:
        bd.Script.active = None


# ---------------------------------------------------------------- kernel density (C08)
def density_case(spec, cid):
    """densities at the walkers by all functions for it; those that do not exist (any more)
    in this form are left out"""
    ns = bd.load()
    mod = ns.bdld.actions.birth_death
    pos = np.array([[float(v) for v in x] for x in spec["x"]])
    bw = np.array([float(b) for b in spec["bw"]])
    obs = []
    for name in ("walker_density", "_walker_density_manual", "_walker_density_pdist"):
        try:
            v = [ln5(q) for q in np.asarray(getattr(mod, name)(pos.copy(), bw.copy()), dtype=float).reshape(-1)]
        except (AttributeError, TypeError):
            continue
        obs.append(v)
    return {"id": cid, "x": [[sim.fx(v) for v in x] for x in spec["x"]], "bw": [sim.rat(b) for b in spec["bw"]],
            "obs": obs, "ended": ""}


# ---------------------------------------------------------------- polynomials of any size (C13)
def big(v):
    """rational with integer value -> sign and digits to the base 10^4"""
    n, out = abs(round(v)), []
    neg = v < 0 and n > 0
    while n:
        out.append(n % 10000)
        n //= 10000
    return {"n": neg, "v": out}


def poly_case(o, cid):
    import shutil, tempfile
    ns = bd.load()
    scratch = tempfile.mkdtemp(dir=bd.SCRATCH())
    a, b, deg = 30, 6, max(sum(e) for e, _ in o["terms"])
    case = {"id": cid, "dim": o["dim"], "b": b, "deg": deg, "obs": [],
            "terms": [{"e": list(e), "c": big(c * 2 ** a)} for e, c in o["terms"]]}
    unit = 2 ** (a + b * deg)
    num = lambda v: big(F(float(v)) * unit) if math.isfinite(v) else {"n": False, "v": [7] * 60}

    def go():
        p = make_poly(ns, o, scratch)
        for x in o["pts"]:
            q = np.array([float(v) for v in x])
            e, f = p.energy(q), p.force(q)
            e2, f2 = p.evaluate(q)
            case["obs"].append({"x": [big(v * 2 ** b) for v in x], "e": num(e), "f": [num(v) for v in f],
                                "e2": num(e2), "f2": [num(v) for v in f2]})
    try:
        return guarded(case, go)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ---------------------------------------------------------------- corrected rates (C22)
def corr_case(spec, cid):
    """rates with a given equilibrium density (on a grid), as the birth-death action
    calculates them"""
    ns = bd.load()
    mod = ns.bdld.actions.birth_death
    dim = spec["dim"]
    hi = [a + (k - 1) * s for a, k, s in zip(spec["lo"], spec["n"], spec["st"])]
    bw = [s * m for s, m in zip(spec["st"], spec["m"])]
    case = {"id": cid, "n": spec["n"], "m": spec["m"], "pi": spec["pi"], "w": [[v + 1 for v in w] for w in spec["ws"]],
            "lo": [sim.fx(v) for v in spec["lo"]], "st": [sim.fx(v) for v in spec["st"]], "ended": "",
            "cfg": {"dim": dim, "pot": [list(e) + [sim.fx(k)] for e, k in spec["pot"]],
                    "bd": {"bw": [sim.rat(b) for b in bw], "kt": sim.rat(spec["kt"]), "variant": spec["variant"]}}}
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            g = ns.bdld.grid.from_npoints([(float(a), float(b)) for a, b in zip(spec["lo"], hi)], list(spec["n"]))
            pi = np.array(spec["pi"], dtype=float).reshape(spec["n"])
            g.data = pi / (pi.sum() * float(np.prod([float(s) for s in spec["st"]])))
            c = np.zeros([max([e[d] for e, _ in spec["pot"]] + [2]) + 1 for d in range(dim)])
            for e, k in spec["pot"]:
                c[tuple(e)] += float(k)
            pot = ns.bdld.potential.polynomial.PolynomialPotential(c, [(float(a), float(b)) for a, b in zip(spec["lo"], hi)])
            ld = ns.bdld.actions.overdamped_ld.OverdampedLD(pot, 0.5, 1)
            for w in spec["ws"]:
                ld.add_particle([float(a + k * s) for a, k, s in zip(spec["lo"], w, spec["st"])])
            v = mod.ApproxVariant.add if spec["variant"] == 1 else mod.ApproxVariant.mult
            act = mod.BirthDeath(ld.particles, 0.5, 1, [float(b) for b in bw], float(spec["kt"]), approx_variant=v,
                                 eq_density=g, seed=1)
            rates = act.calc_betas
    except (AttributeError, TypeError, ImportError):
        case["obs"] = []
        return case
    try:
        case["obs"] = [round(float(r) * 1e5) if np.isfinite(r) and abs(r) < 1e3 else 10**9 for r in rates()]
    except Exception as e:  # pylint: disable=broad-except
        case.update(obs=[], ended=type(e).__name__)
    return case
