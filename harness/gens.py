"""Scenario generators (what to run; never what to expect)."""
import itertools
import math
import random
from fractions import Fraction as F

import sim
from sim import fx, lattice

SQ = {1: [((2,), F(1))],
      2: [((2, 0), F(1)), ((0, 2), F(1))],
      3: [((2, 0, 0), F(1)), ((0, 2, 0), F(1)), ((0, 0, 2), F(1))]}


def base(rng, dim=None, n=None, nsteps=None, ld=None, bdp=0.25, spread=3):
    """walkers jumping freely on the lattice: x' = noise (and p' = noise for BP)"""
    dim = dim or rng.choice([1, 1, 1, 2, 2, 3])
    n = n or (rng.choice([1, 2, 2, 3]) if rng.random() < .95 else rng.choice([9, 11, 13]))
    ld = ld or rng.choice(["o", "o", "b"])
    sc = sim.Scenario(dim=dim, n=n, nsteps=nsteps or rng.randint(1, 13), ld=ld, pot=SQ[dim],
                      lo=[F(-8)] * dim, hi=[F(8)] * dim, bc=0, mass=F(1))
    if ld == "o":
        sc.update(dt=F(1, 2), nf=F(1))
    else:
        fr, kt, c1, c2 = sim.thermostat("full", F(1), F(1))
        sc.update(dt=F(1), fric=fr, kt=kt, c1=c1, c2=c2)
    sc["init"] = [[lattice(rng, -2, 2) for _ in range(dim)] for _ in range(n)]
    sc["noise"] = sim.free_noise(rng, sc, -spread, spread)
    if rng.random() < bdp:
        st = rng.choice([1, 2, 3])
        sc["bd"] = dict(stride=st, bw=[F(1)] * dim, recalc=rng.random() < .4, statfile=True,
                        statstride=rng.choice([None, 1, 2, 3]))
        if n == 1:
            sc["nostat"] = True
    return sc


def add_traj(rng, sc, file=True, stride=None, ws=None, mom=None):
    sc["tr"] = dict(file=file, stride=stride or rng.choice([1, 1, 2, 3, 4, 5]),
                    ws=ws or rng.choice([1, 2, 3, 4, 5, 6, 7, 100]),
                    mom=rng.random() < .4 if mom is None else mom,
                    explicit=rng.random() < .5)
    if mom is None and not file:
        sc["tr"]["mom"] = rng.random() < .2
    return sc


def add_hist(rng, sc, **kw):
    dim = sc["dim"]
    lo = [rng.choice([F(-2), F(-1), F(-3), F(0), F(-5, 4)]) for _ in range(dim)]
    wid = [rng.choice([F(1), F(2), F(4), F(6) if dim == 1 else F(3)]) for _ in range(dim)]
    bins = [rng.choice([1, 2, 4] + ([8] if dim < 3 else [])) for _ in range(dim)]
    if rng.random() < .15:  # many bins
        bins = [rng.choice([12, 20, 25, 33]) if d == 0 else rng.choice([1, 3, 7]) for d in range(dim)]
        if rng.random() < .5:
            bins.reverse()
        wid = [F(b, 4) for b in bins]
    n = sc["nsteps"]
    h = dict(file=True, stride=rng.choice([1, 1, 2, 3, 4]),
             ws=rng.choice([None, None, 1, 2, 3, 4, 5]),
             reset=rng.sample(range(1, n + 3), rng.choice([0, 0, 0, 1, 2, 3]) if n > 1 else 0),
             min=lo, max=[a + b for a, b in zip(lo, wid)], bins=bins)
    h.update(kw)
    sc["hist"] = h
    return sc


def add_fes(rng, sc, **kw):
    st = rng.choice([None, 1, 2, 3, 4])
    f = dict(file=True, stride=st, ws=(rng.choice([None, st, 2 * st, st + 1]) if st else None),
             kt=rng.choice([F(1), F(1, 2), F(2), F(5, 2), F(3, 4)]))
    f.update(kw)
    sc["fes"] = f
    return sc


def add_boxes(rng, sc, k, lo=-3, hi=3):
    out = []
    for _ in range(k):
        box = []
        for _ in range(sc["dim"]):
            a, b = sorted([lattice(rng, lo, hi, 4), lattice(rng, lo, hi, 4)])
            if rng.random() < .3:
                a, b = F(lo) - 1, F(hi) + 1
            box.append((a, b))
        out.append(box)
    return out


def add_df(rng, sc, **kw):
    st = rng.choice([None, 1, 2, 3, 4])
    h = sc["hist"]
    states = []
    for _ in range(rng.choice([2, 2, 3] if rng.random() < .95 else [5, 11])):
        box = []
        for d in range(sc["dim"]):
            # boxes around and on the bin centres
            w = (h["max"][d] - h["min"][d]) / h["bins"][d]
            pts = [h["min"][d] + w * F(j, 2) for j in range(-1, 2 * h["bins"][d] + 2)]
            a, b = sorted(rng.sample(pts, 2))
            if rng.random() < .4:
                a = h["min"][d] - 1
            if rng.random() < .4:
                b = h["max"][d] + 1
            box.append((a, b))
        states.append(box)
    d = dict(file=True, stride=st, ws=st and st * rng.choice([1, 2, 3, 100]), states=states,
             wsonly=rng.choice([None, 1, 2, 3, 5]))
    d.update(kw)
    sc["df"] = d
    return sc


def add_pd(rng, sc, **kw):
    st = rng.choice([None, 1, 1, 2, 3, 4])
    d = dict(file=True, stride=st, ws=st and st * rng.choice([1, 2, 3, 4, 100]),
             states=add_boxes(rng, sc, rng.choice([1, 2, 3] if rng.random() < .95 else [4, 7, 11])), wsonly=rng.choice([None, 1, 2, 3, 5]))
    d.update(kw)
    sc["pd"] = d
    return sc


def heavy(rng, what, thorough):
    """large numbers of samples, walkers, steps"""
    def sc(n, nsteps, dim=1, bdp=0):
        return base(rng, dim, n, nsteps, "o", bdp)
    if what == "hist":
        for n, k in ((150, 8), (90, 6), (1, 1100)) + (((300, 230), (700, 100), (2, 3000)) if thorough else ()):
            s = add_traj(rng, sc(n, k), rng.random() < .2, rng.choice([1, 3]), rng.choice([5, 100, 7]), False)
            add_hist(rng, s, stride=1, min=[F(-3)], max=[F(3)], bins=[rng.choice([1, 2, 3])], reset=[],
                     ws=rng.choice([None, k // 2]))
            add_fes(rng, s, stride=rng.choice([5, 7]), ws=None)
            yield add_df(rng, s)
    if what == "pd":
        for n, k in ((300, 4), (140, 5), (1, 1200)) + (((1000, 8), (2, 4000)) if thorough else ()):
            s = sc(n, k)
            big = [(F(-4), F(4))]
            yield add_pd(rng, s, stride=rng.choice([1, 2]), ws=rng.choice([2, 4, 200, 1000]),
                         states=[big, [(F(0), F(4))]] + add_boxes(rng, s, 1))
    if what == "traj":
        for n, k in ((130, 7), (260, 3), (1, 1500)) + (((1030, 5), (3, 4100)) if thorough else ()):
            s = sc(n, k)
            yield add_traj(rng, s, True, rng.choice([1, 2, 3]), rng.choice([2, 3, 5, 1000]) if n > 1 else rng.choice([100, 256, 1000, 1024]), None)


def long_runs(rng, lens):
    """very many steps, few records"""
    for q, ns in enumerate(lens):
        n = rng.choice([1, 2]) if q else 2
        sc = base(rng, 1, n, 1, "o", 0)
        sc["nsteps"] = ns
        vals = [fx(F(v, 4)) for v in range(-12, 13)]
        sc["noise"] = [[[rng.choice(vals)] for _ in range(n)] for _ in range(ns)]
        far = lambda: rng.choice([997, 1000, 1024, 1500, 2999, 4096, 7000])
        add_traj(rng, sc, True, far(), rng.choice([100, 128, 1000, 5000]), False)
        add_hist(rng, sc, stride=rng.choice([1, 2, 3, 10]), ws=rng.choice([ns // 3, ns // 2, ns - 1]), reset=[], min=[F(-4)], max=[F(4)], bins=[rng.choice([1, 2, 4])])
        add_fes(rng, sc, stride=rng.choice([1000, 5000]), ws=None, file=False)
        st = far()
        add_df(rng, sc, stride=st, ws=st * rng.choice([1, 2, 100]))
        st = far()
        add_pd(rng, sc, stride=st, ws=st * rng.choice([1, 2, 100]))
        if n > 1:
            sc["bd"] = dict(stride=rng.choice([500, 1000]), bw=[F(1)], recalc=False, statfile=True, statstride=far())
        yield sc


def busy_runs(rng, sizes):
    """very many birth-death attempts"""
    for n, ns in sizes:
        sc = base(rng, 1, n, 1, "o", 0)
        sc["nsteps"] = ns
        sc["bd"] = dict(stride=1, bw=[F(1)], recalc=False, statfile=True, statstride=ns // 4 - rng.randint(1, 9))
        for _ in range(200):  # nearly all walkers with a rate of the same sign
            a = F(rng.randint(-4, 4), 4)
            row = [a] * (n - 2) + [F(rng.randint(-8, 8), 4) for _ in range(2)]
            if not 2 < sum(v > 0 for v in approx_rates(sc, [[v] for v in row])) < n - 2:
                break
        rng.shuffle(row)
        sc["noise"] = [[[fx(v)] for v in row]] * ns
        yield sc


def exact_rows(rng, k):
    """decimal time steps"""
    for q in range(k):
        ns = rng.choice([30, 100, 400]) if q % 8 else 2500
        st, dst = rng.choice([1, 2, 3, 7]), rng.choice([0, 1, 2, 5])
        if q % 8 == 0:
            st, dst = rng.choice([50, 99, 250]), rng.choice([50, 100])
        yield dict(n=rng.choice([1, 2, 3]), ld=rng.randrange(2), dt=rng.choice([1000, 5000, 3000, 7100, 10, 123, 2500, 33333, 200000, 999999 if ns < 2000 else 700000]),
                   nsteps=ns, seed=rng.randint(0, 10**6), st=st, ws=rng.choice([1, 5, 10, 64]), mom=rng.random() < .5,
                   dst=dst, dmul=rng.choice([1, 2, 5]), bd=rng.choice([0, 0, 2, 10]))


def polys(rng, k):
    """polynomials with coefficients and positions of any size"""
    for _ in range(k):
        dim = rng.choice([1, 1, 2, 3])
        deg = rng.choice([2, 3, 4] + ([6, 8] if dim == 1 else []))
        terms = {}
        for _ in range(rng.randint(1, 6)):
            e = [0] * dim
            for _ in range(rng.randint(0, deg)):
                e[rng.randrange(dim)] += 1
            terms[tuple(e)] = F(rng.choice([-1, 1]) * rng.randrange(1, 2 ** rng.choice([6, 14, 22, 30, 38, 44])), 2 ** 30)
        pts = [[F(rng.randint(-600, 600), 64) if rng.random() < .5 else F(rng.randint(-100, 100), 64) for _ in range(dim)] for _ in range(3)]
        terms = list(terms.items())
        yield dict(dim=dim, terms=terms, pts=pts, how=rng.choice(["array", "file"] + (["list"] if dim == 1 else [])),
                   pad=rng.randint(0, 1), filetext=coeff_file(rng, terms, dim))


def wide_runs(rng, sizes):
    """very many walkers, few steps"""
    for n in sizes:
        ns = rng.randint(3, 6)
        sc = base(rng, 1, n, 1, "o", 0)
        sc["nsteps"] = ns
        vals = [fx(F(v, 4)) for v in range(-12, 13)]
        sc["noise"] = [[[rng.choice(vals)] for _ in range(n)] for _ in range(ns)]
        add_traj(rng, sc, True, rng.choice([1, 2]), rng.choice([1, 2, 3]), False)
        add_hist(rng, sc, stride=rng.choice([1, 2]), ws=rng.choice([1, 2, 3]), reset=[], min=[F(-4)], max=[F(4)], bins=[rng.choice([1, 2, 4])])
        add_fes(rng, sc, stride=rng.choice([1, 2]), ws=None, file=False)
        add_df(rng, sc, stride=1, ws=rng.choice([1, 2]))
        add_pd(rng, sc, stride=1, ws=rng.choice([1, 2]))
        yield sc


def contrast(rng, k):
    """nearly all samples in one bin: large free energy differences"""
    for q in range(k):
        n, ns, dim = rng.choice([30, 60, 110] if q else [260]), rng.randint(8, 18) if q else 40, rng.choice([1, 1, 2])
        sc = base(rng, dim, n, ns, "o", 0)
        a = [lattice(rng, -2, 2) for _ in range(dim)]
        odd = rng.choice([.001, .001, .004, .02] if q else [.0003])
        sc["noise"] = [[[fx(lattice(rng, -2, 2) if rng.random() < odd else v) for v in a] for _ in range(n)] for _ in range(ns)]
        add_traj(rng, sc, False, ws=rng.choice([1, 2, 3]))
        add_hist(rng, sc, stride=1, min=[F(-2)] * dim, max=[F(2)] * dim, bins=[rng.choice([2, 4, 8])] * dim, ws=None, reset=[])
        add_fes(rng, sc)
        yield add_df(rng, sc)


def small_dt(rng, sc):
    """a small time step, no forces: the noise is scaled accordingly"""
    k = rng.choice([8, 16, 32])
    sc.update(dt=F(1, 2 * k * k), nf=F(1, k), pot=[], ld="o")
    x = [list(v) for v in sc["init"]]
    out = []
    for _ in range(sc["nsteps"]):
        row = []
        for i in range(sc["n"]):
            t = [lattice(rng, -2, 2) for _ in range(sc["dim"])]
            row.append([fx((a - b) * k) for a, b in zip(t, x[i])])
            x[i] = t
        out.append(row)
    sc["noise"] = out
    return sc


# ------------------------------------------------------------------ C01
def c01(rng, k, thorough):
    mx = 5 if thorough else 4
    # exhaustive grid of strides and lengths, one walker
    for ts, tw, n in itertools.product(range(1, mx + 1), range(1, mx + 2), range(1, 2 * mx + 2)):
        yield add_traj(rng, base(rng, 1, 1, n, "o", 0), True, ts, tw, False)
    for _ in range(k):
        sc = add_traj(rng, base(rng))
        if rng.random() < .5:
            sc["extra"] = sorted(rng.sample(range(1, sc["nsteps"] + 1),
                                            rng.randint(1, min(5, sc["nsteps"]))))
        if rng.random() < .3:
            add_hist(rng, sc)
        if rng.random() < .15:
            sc.pop("bd", None)
            small_dt(rng, sc)
        elif rng.random() < .4 and "hist" not in sc:
            sim.refine(rng, sc)
        yield sc
    yield from heavy(rng, "traj", thorough)
    for _ in range(60 if thorough else 10):  # long strides, few or many walkers
        n = rng.choice([40, 77, 128, 150, 333])
        sc = add_traj(rng, base(rng, 1, rng.choice([1, 2, 12]), n, "o", .3), True,
                      rng.choice([7, 10, 13, 32, 64]), rng.choice([8, 10, 25, 37, 64, 128, 150]), None)
        if rng.random() < .5:
            sc["extra"] = sorted(rng.sample(range(1, n + 1), 4))
        yield sc
    for n in (99, 100, 101, 205) if not thorough else (99, 100, 101, 199, 200, 201, 205, 303, 512):
        sc = add_traj(rng, base(rng, 1, 1, n, "o", 0), True, rng.choice([1, 3, 7]), 100, False)
        if rng.random() < .5:
            sc["extra"] = sorted(rng.sample(range(1, n + 1), 3))
        yield sc


def c02(rng, k, thorough):
    mx = 4 if thorough else 3
    for st, mul, n in itertools.product(range(1, mx + 1), range(1, mx + 1), range(1, 10 if not thorough else 14)):
        sc = base(rng, 1, rng.choice([1, 2]), n, "o", 0)
        add_traj(rng, sc, rng.random() < .5, 1, rng.choice([1, 2, 3]), False)
        add_hist(rng, sc, reset=[], ws=None)
        add_fes(rng, sc, ws=None)
        add_df(rng, sc, stride=st, ws=st * mul)
        add_pd(rng, sc, stride=st, ws=st * mul)
        yield sc
    for _ in range(k):
        sc = add_traj(rng, base(rng))
        add_hist(rng, sc)
        add_fes(rng, sc)
        add_df(rng, sc)
        add_pd(rng, sc)
        if rng.random() < .15:
            sc.pop("bd", None)
            small_dt(rng, sc)
        if rng.random() < .25:  # writing at other moments
            sc["records"] = sorted(rng.sample(range(1, sc["nsteps"] + 1), min(sc["nsteps"], rng.randint(1, 3))))
        yield sc
    yield from heavy(rng, "pd", thorough)
    for n in (205, 301):
        sc = base(rng, 1, 1, n, "o", 0)
        add_traj(rng, sc, False, 1, 10, False)
        add_hist(rng, sc, reset=[], ws=None, bins=[2])
        add_fes(rng, sc, ws=None)
        add_df(rng, sc, stride=2, ws=200)
        add_pd(rng, sc, stride=3, ws=300)
        yield sc


def full(rng, **kw):
    sc = add_traj(rng, base(rng, **kw), rng.random() < .8)
    add_hist(rng, sc)
    add_fes(rng, sc)
    add_df(rng, sc)
    add_pd(rng, sc)
    return sc


def beside(sc):
    """bin edges that are lattice points are computed without rounding"""
    h = sc["hist"]
    return all(((b - a) / n * 64).denominator == 1 for a, b, n in zip(h["min"], h["max"], h["bins"]))


def c04(rng, k, thorough):
    mx = 5 if thorough else 4
    for tw, hs, n in itertools.product(range(1, mx + 1), range(1, mx), range(1, 2 * mx)):
        sc = base(rng, 1, 1, n, "o", 0)
        add_traj(rng, sc, rng.random() < .5, rng.choice([1, 2, 3]), tw, False)
        add_hist(rng, sc, stride=hs, reset=[])
        yield sc
    for _ in range(k):
        sc = add_traj(rng, base(rng), rng.random() < .6)
        add_hist(rng, sc)
        if rng.random() < .1:  # many resets
            sc["hist"]["reset"] = rng.sample(range(1, 25), rng.randint(9, 20))
        if rng.random() < .3 and beside(sc):  # positions just beside the bin edges
            sim.refine(rng, sc, rng.choice([26, 27, 40]), [-1, 0, 0, 1])
        if rng.random() < .4:
            sc["extra"] = sorted(rng.sample(range(1, sc["nsteps"] + 1),
                                            rng.randint(1, min(4, sc["nsteps"]))))
        yield sc
    yield from heavy(rng, "hist", thorough)
    for n in (100, 150, 230):
        sc = add_traj(rng, base(rng, 1, 2, n, "o", 0), rng.random() < .5, rng.choice([1, 3]), 100, False)
        yield add_hist(rng, sc, stride=rng.choice([1, 3, 7]))


def c05(rng, k, thorough):
    yield from heavy(rng, "hist", thorough)
    yield from contrast(rng, 120 if thorough else 30)
    for _ in range(k):
        sc = add_traj(rng, base(rng, nsteps=rng.randint(4, 16)), rng.random() < .5,
                      ws=rng.choice([1, 1, 2, 3, 5]))
        add_hist(rng, sc, stride=1, min=[F(-2)] * sc["dim"], max=[F(2)] * sc["dim"],
                 bins=[rng.choice([2, 4])] * sc["dim"] if sc["dim"] < 3 else [2, 2, rng.choice([1, 4])],
                 ws=rng.choice([None, 2]))
        if sc["dim"] == 2:
            sc["hist"]["bins"] = rng.choice([[2, 4], [4, 2], [1, 4], [4, 4]])
        add_fes(rng, sc)
        add_df(rng, sc)
        yield sc


def c23(rng, k, thorough):
    """plots of the free energy surface"""
    for _ in range(k):
        dim = rng.choice([1, 1, 2, 2, 2] + ([3] if rng.random() < .2 else []))
        sc = add_traj(rng, base(rng, dim=dim, n=rng.choice([1, 2, 5, 12]), nsteps=rng.randint(1, 9)), rng.random() < .3,
                      ws=rng.choice([1, 1, 2, 3]))
        lo = [rng.choice([F(-2), F(-1), F(-3), F(-5, 4)]) for _ in range(dim)]
        bins = [rng.choice([2, 4, 8, 6]) for _ in range(dim)]
        if dim == 1 and rng.random() < .2:
            bins = [rng.choice([1, 12, 24, 72, 100])]
        wid = [rng.choice([F(b, 4), F(b, 2), F(b)]) if b < 50 else F(b, 16) for b in bins]
        add_hist(rng, sc, stride=rng.choice([1, 1, 2]), min=lo, max=[a + b for a, b in zip(lo, wid)], bins=bins,
                 ws=None, file=rng.random() < .3)
        st = rng.choice([None, 1, 1, 2, 3])
        add_fes(rng, sc, file=rng.random() < .3, stride=st, ws=None, plot=rng.choice(["plot", "plot.png", "plot.png", "plot.v1.png", "pl.o.t.pdf", "a_1.png"]),
                ps=rng.choice([None, 1, 2, 3, st, 2 * st]) if st else None,
                dom=rng.choice([None, None, (F(0), F(3)), (F(-1, 2), F(7, 2)), (F(1), F(2))]),
                ptitle=rng.choice([None, None, "run 7"]))
        yield sc


def c06(rng, k, thorough):
    yield from heavy(rng, "pd", thorough)
    for _ in range(k):
        sc = base(rng, n=rng.choice([1, 2, 3, 4, 5] if rng.random() < .9 else [12, 40]), bdp=.4)
        if rng.random() < .3:
            add_traj(rng, sc)
        add_pd(rng, sc, file=True)
        if rng.random() < .3:  # positions just beside the boxes' faces
            sim.refine(rng, sc, rng.choice([26, 27, 36, 40]), [-1, 0, 0, 1])
        yield sc


def c03(rng, k, thorough):
    import bd
    for _ in range(k):
        sc = full(rng, nsteps=rng.randint(2, 13), bdp=.5)
        if sc.get("bd"):
            sc["bd"]["statfile"] = True
        cr = rng.randint(1, sc["nsteps"] - 1)
        per = (1 if sc["ld"] == "o" else 2) * sc["n"] * sc["dim"]
        # interrupted at some random number of step cr+1: everything of step cr is finished
        sc["crash"] = cr
        sc["fault"] = (bd.SEED_LD, cr * per + rng.randint(1, per))
        sc["how"] = rng.choice(["exit", "exit", "raise"])
        b = sc.get("bd")
        if b and sc["n"] > 1 and rng.random() < .4:  # interrupted in the middle of a birth-death round
            r = [v for v in range(1, sc["nsteps"] // b["stride"] + 1) if v * b["stride"] > 1]
            if r:
                v = rng.choice(r)
                sc["crash"] = v * b["stride"] - 1
                sc["fault"] = (bd.SEED_BD, (v - 1) * sc["n"] + rng.randint(1, sc["n"]))
        yield sc


# ------------------------------------------------------------------ birth-death
def pot_energy(pot, x):
    e = F(0)
    for ex, co in pot:
        t = co
        for d, k in enumerate(ex):
            t *= x[d] ** k
        e += t
    return e


def pot_force(pot, x, dim):
    f = [F(0)] * dim
    for ex, co in pot:
        for d in range(dim):
            if ex[d]:
                t = co * ex[d]
                for q, k in enumerate(ex):
                    t *= x[q] ** (k - (q == d))
                f[d] -= t
    return f


def approx_rates(sc, xs):
    """rough rates, only used to place the random numbers near the decision thresholds"""
    b = sc["bd"]
    kt = 1.0 if sc["ld"] == "o" else float(sc["kt"])
    n = len(xs)
    ln = []
    for x in xs:
        s = sum(math.exp(-sum((float(x[d] - y[d]) / float(b["bw"][d])) ** 2 / 2
                              for d in range(sc["dim"]))) for y in xs)
        if b.get("variant", 0) == 2:
            e = sum(float(x[d] - b["cen"][d]) ** 2 / 2 / float(b["s2"][d] + b["bw"][d] ** 2) for d in range(sc["dim"]))
        else:
            e = float(pot_energy(sc["pot"], x)) / kt
        ln.append(math.log(s) + e)
    m = sum(ln) / n
    r = [v - m for v in ln]
    if b.get("variant", 0) == 1:
        for i, x in enumerate(xs):
            r[i] -= sum(0.5 * (float(x[d] - b["cen"][d]) ** 2 - float(b["s2"][d])) * float(b["bw"][d]) ** 2
                        / float(b["s2"][d] * (b["s2"][d] + b["bw"][d] ** 2)) for d in range(sc["dim"]))
    return r


def steer(sc, x0, target):
    """noise that brings walkers from rest at x0 to the target in one step"""
    out = []
    for x, t in zip(x0, target):
        f = pot_force(sc["pot"], x, sc["dim"])
        z = []
        for d in range(sc["dim"]):
            if sc["ld"] == "o":
                z.append((t[d] - x[d] - sc["dt"] * f[d]) / sc["nf"])
            else:
                p = (t[d] - x[d]) * sc["mass"] / sc["dt"] - f[d] * sc["dt"] / 2
                z.append(p / sc["c2"])
        out.append(z)
    return out


def ucode(rng, rate, tau, p_acc=.3, p_rej=.2):
    """random number as t (1e-5 nats): always, never, or close to the threshold"""
    thr = abs(rate) * float(tau) * 1e5
    r = rng.random()
    if r < p_acc:
        return int(max(1, thr / 2) if thr < 2 else min(thr / 2, rng.choice([1, 10, 1000])))
    if r < p_acc + p_rej:
        return int(thr * rng.choice([2, 3, 10]) + 20000)
    return max(1, int(thr * rng.choice([.5, .8, .93, .97, 1.03, 1.07, 1.2, 2, 4])))


DTS = {"o": [(F(1, 2), F(1)), (F(2), F(2)), (F(1, 8), F(1, 2))]}


def bd_base(rng, dim, n, ld, generic, bw=None):
    if generic:  # any potential, one round
        if ld == "o":
            dt, nf = rng.choice(DTS["o"])
            th = dict(dt=dt, nf=nf)
            mass = F(1)
        else:
            dt, mass = rng.choice([F(1, 2), F(1), F(2)]), rng.choice([F(1), F(2), F(4)])
            fr, kt, c1, c2 = sim.thermostat("full", dt, mass, rng.choice([F(1), F(2), F(1, 2)]))
            th = dict(dt=dt, fric=fr, kt=kt, c1=c1, c2=c2)
        terms = {}
        for _ in range(rng.randint(0, 4)):
            e = [0] * dim
            for _ in range(rng.randint(0, 3 if dim == 1 else 2)):
                e[rng.randrange(dim)] += 1
            terms[tuple(e)] = F(rng.choice([-2, -1, 1, 2, 3, 4]), rng.choice([1, 2]))
        pot = list(terms.items())
    else:  # walkers are put to chosen positions in every step
        mass = F(1)
        if ld == "o":
            th = dict(dt=F(1, 2), nf=F(1))
        else:
            fr, kt, c1, c2 = sim.thermostat("full", F(1), F(1), rng.choice([F(1), F(2), F(1, 2)]))
            th = dict(dt=F(1), fric=fr, kt=kt, c1=c1, c2=c2)
        pot = SQ[dim]
    sc = sim.Scenario(dim=dim, n=n, ld=ld, pot=pot, lo=[F(-8)] * dim, hi=[F(8)] * dim, bc=0,
                      mass=mass, **th)
    return sc


def bd_sc(rng, rounds=None, dim=None, n=None, ld=None, generic=None, variant=0, recalc=None):
    dim = dim or rng.choice([1, 1, 2, 2, 3])
    n = n or rng.choice([2, 3, 3, 3, 4, 4, 5])
    ld = ld or rng.choice(["o", "b"])
    generic = rng.random() < .5 if generic is None else generic
    sc = bd_base(rng, dim, n, ld, generic)
    spread = rng.choice([F(1, 2), F(1), F(2)])

    def places():
        out = [[lattice(rng, -spread, spread) for _ in range(dim)] for _ in range(n)]
        if rng.random() < .15:
            out[rng.randrange(n)] = list(out[0])
        if rng.random() < .1:
            out[rng.randrange(n)] = [F(rng.choice([-6, 6]))] * dim
        return out

    stride = 1 if generic else rng.choice([1, 1, 2, 3])
    rounds = rounds or rng.randint(1, 3 if n < 4 else 2)
    sc["nsteps"] = 1 if generic else stride * rounds + rng.randrange(stride)
    sc["bd"] = dict(stride=stride, bw=[rng.choice([F(1, 4), F(1, 2), F(1), F(2)]) for _ in range(dim)],
                    fac=rng.choice([F(1), F(1), F(1, 2), F(2), F(1, 4)]) if rng.random() < .85 else rng.choice([F(1, 16), F(12), F(20)]),
                    recalc=rng.random() < .4 if recalc is None else recalc,
                    statfile=rng.random() < .7,
                    statstride=rng.choice([None, 1, 2, 3]), variant=variant)
    tau = sc["dt"] * stride * sc["bd"]["fac"]
    sc["init"] = [[lattice(rng, -2, 2) for _ in range(dim)] for _ in range(n)]
    noise, us = [], []
    for st in range(1, sc["nsteps"] + 1):
        xs = places()
        if generic:
            z = steer(sc, sc["init"], xs)
        else:
            z = [[v / sc.get("c2", 1) for v in x] for x in xs]
        if ld == "b":  # second thermostat step: momenta that identify the walkers
            z = [a + [lattice(rng, -4, 4) for _ in range(dim)] for a in z]
        noise.append([[fx(v) for v in w] for w in z])
        if st % stride == 0:
            r = approx_rates(sc, xs)
            assert max(abs(v) for v in r) * float(tau) < 30
            us.append([ucode(rng, q, tau) for q in r])
    sc["noise"] = noise
    sc["bd"]["u"] = us
    return sc


def bd_many(rng, k, thorough, **kw):
    for _ in range(k):
        try:
            yield bd_sc(rng, **kw)
        except AssertionError:  # steering not exact on the lattice
            continue


NEVER = 100000000


def crowd(rng, k, thorough, recalc=None, steps=None):
    """many walkers, of which only one or two may have an event"""
    for q in range(k):
        dim = rng.choice([1, 1, 2, 3])
        rc = rng.random() < .3 if recalc is None else recalc
        n = rng.choice([7, 9, 12, 16] if rc else [7, 12, 20, 33, 50, 101, 130])
        ld = rng.choice(["o", "b"])
        sc = bd_base(rng, dim, n, ld, False)
        spread = rng.choice([F(1), F(2)])
        sc["bd"] = dict(stride=1, bw=[rng.choice([F(1, 4), F(1, 2), F(1)]) for _ in range(dim)],
                        fac=rng.choice([F(1), F(1, 2), F(2), F(16)]), recalc=rc, statfile=True, statstride=None, margin=60)
        tau = sc["dt"] * sc["bd"]["fac"]
        sc["nsteps"] = steps or rng.randint(1, 2)
        if steps:
            sc["bd"]["statstride"] = rng.choice([None, 1, 3])
        sc["init"] = [[lattice(rng, -2, 2) for _ in range(dim)] for _ in range(n)]
        noise, us = [], []
        for _ in range(sc["nsteps"]):
            xs = [[lattice(rng, -spread, spread) for _ in range(dim)] for _ in range(n)]
            if rng.random() < .3:
                xs[rng.randrange(n)] = [F(rng.choice([-4, 4]))] * dim
            z = [[v / sc.get("c2", 1) for v in x] for x in xs]
            if ld == "b":
                z = [a + [lattice(rng, -4, 4) for _ in range(dim)] for a in z]
            noise.append([[fx(v) for v in w] for w in z])
            r = approx_rates(sc, xs)
            if max(abs(v) for v in r) * float(tau) > 28:  # no random number would be beyond it
                break
            u = [NEVER] * n
            for i in rng.sample(range(n), rng.choice([1, 1, 2, 3] if n < 8 and not steps else [1, 1, 2] if n < 18 and not steps else [1])):
                u[i] = ucode(rng, r[i], tau)
            us.append(u)
        else:
            sc["noise"], sc["bd"]["u"] = noise, us
            yield sc


def densities(rng, k):
    for _ in range(k):
        dim, n = rng.choice([1, 1, 2, 3]), rng.choice([2, 3, 5, 8, 20, 40])
        spread = rng.choice([F(1), F(2), F(4)])
        yield dict(x=[[lattice(rng, -spread, spread) for _ in range(dim)] for _ in range(n)],
                   bw=[rng.choice([F(1, 4), F(1, 2), F(1), F(2)]) for _ in range(dim)])


def sites(rng, sizes, stats=False):
    """very many walkers at a few sites; one of them, alone at its site, may have an event"""
    for n in sizes:
        while True:
            sc = bd_base(rng, 1, n, "o", False)
            pts = [[F(v, 4)] for v in rng.sample(range(-8, 9), 6)]
            cut = sorted(rng.sample(range(1, n - 1), 4))
            mult = [b - a for a, b in zip([0] + cut, cut + [n - 1])] + [1]
            sc["bd"] = dict(stride=1, bw=[rng.choice([F(1, 2), F(1)])], fac=F(1), recalc=False, statstride=None)
            if stats:
                sc["stats"] = True
                sc["bd"].update(statfile=True, statstride=rng.choice([None, 1]))
            lr = []
            for x in pts:
                q = sum(m * math.exp(-(float(x[0] - y[0]) / float(sc["bd"]["bw"][0])) ** 2 / 2) for y, m in zip(pts, mult))
                lr.append(math.log(q) + float(pot_energy(sc["pot"], x)))
            b = lr[5] - sum(l * m for l, m in zip(lr, mult)) / n
            if abs(b) > .1 and max(abs(l - lr[5] + b) for l in lr) < 25:
                break
        u = [NEVER] * n
        u[n - 1] = max(1, int(abs(b) * .5e5 * rng.choice([.3, .8, .9, 1.1, 1.2, 3])))  # tau = 1/2
        sc.update(nsteps=1, sites=pts, mult=mult, act=6, init=[pts[0]] * n, noise=[])
        sc["flat"] = [fx(x[0]) for x, m in zip(pts, mult) for _ in range(m)]
        sc["bd"]["u"] = [u]
        yield sc


def c07(rng, k, thorough):
    for _ in range(k):
        sc = base(rng, n=rng.choice([1, 2, 3, 4, 6] if rng.random() < .93 else [12, 40]), nsteps=rng.randint(2, 9), bdp=0)
        sc["bd"] = dict(stride=rng.choice([1, 2, 3]), recalc=rng.random() < .5, statfile=True,
                        bw=[rng.choice([F(1, 4), F(1), F(2)]) for _ in range(sc["dim"])],
                        statstride=None, fac=rng.choice([F(1), F(4)]))
        if rng.random() < .3:
            sc["noise"] = sim.free_noise(rng, sc, -1, 1)
        if sc["n"] == 1 and rng.random() < .7:  # also with the smallest random numbers
            sc["bd"]["u"] = [[0]] * (sc["nsteps"] // sc["bd"]["stride"])
        yield sim.refine(rng, sc) if rng.random() < .5 else sc


def clear(sc, xs, events):
    """no rate is close to zero (but for identical walkers) before any of the events of a round"""
    n = len(xs)
    seen, todo = set(), [(tuple(range(n)), 0)]
    while todo:
        lab, e = todo.pop()
        if (lab, e) in seen:
            continue
        seen.add((lab, e))
        r = [abs(v) for v in approx_rates(sc, [xs[i] for i in lab])]
        if any(1e-9 < v < .02 for v in r) or (len(set(lab)) > 1 and min(r) < .02):
            return False
        if e + 1 < events:
            for i in range(n):
                for j in range(n):
                    if lab[i] != lab[j]:
                        todo.append((lab[:i] + (lab[j],) + lab[i + 1:], e + 1))
    return True


def c09(rng, k, thorough, rounds=None):
    rounds = rounds or (6000 if thorough else 2500)
    for q in range(k):
        recalc = q % 2 == 1
        n = rng.choice([3, 3, 4, 4, 2, 6, 8, 16]) if q > 4 else [3, 3, 4, 4, 16][q]
        act = n if n <= (3 if recalc else 4) else rng.randint(1, 3 if n <= 4 else 2) if n < 10 else 1
        for _ in range(1000):
            sc = bd_base(rng, 1, n, "o", False)
            xs = [[F(v, 4)] for v in rng.sample(range(-8, 9), n)]
            sc["bd"] = dict(stride=1, bw=[rng.choice([F(1, 2), F(1)])], recalc=recalc, fac=F(1),
                            statstride=None, seed=rng.randint(100, 900), margin=5)
            if min(abs(v) for v in approx_rates(sc, xs)) > .02 and (not recalc or clear(sc, xs, act)):
                break
        acting = rng.sample(range(n), act)
        u = [40 if i in acting else 100000000 for i in range(n)]
        sc.update(nsteps=rounds, init=xs, noise=[[[fx(x[0])] for x in xs]] * rounds)
        sc["bd"]["u"] = [u] * rounds
        yield sc


def pairs(rng, sizes, rounds):
    """exactly two walkers with an event in every round: which one goes first matters"""
    for q, n in enumerate(sizes):
        for _ in range(3000):
            sc = bd_base(rng, 1, n, "o", False)
            xs = [[F(v, 4)] for v in rng.sample(range(-8, 9), n)]
            sc["bd"] = dict(stride=1, bw=[rng.choice([F(1, 2), F(1)])], recalc=q % 3 == 2, fac=F(1),
                            statstride=None, seed=rng.randint(100, 900), margin=5)
            r = approx_rates(sc, xs)
            acting = [i for i in range(n) if r[i] < 0][:2]
            if q % 2 and len(acting) == 2:  # one to be replaced
                acting[0] = next(i for i in range(n) if r[i] > 0)
            if len(acting) == 2 and min(abs(v) for v in r) > .02 and (not sc["bd"]["recalc"] or clear(sc, xs, 2)):
                break
        else:
            continue
        sc.update(nsteps=rounds, init=xs, noise=[[[fx(x[0])] for x in xs]] * rounds)
        sc["bd"]["u"] = [[40 if i in acting else NEVER for i in range(n)]] * rounds
        yield sc


def turns(rng, sizes, rounds):
    """recalculation with an event for (nearly) every walker in every round"""
    for n in sizes:
        for _ in range(1000):
            sc = bd_base(rng, 1, n, "o", False)
            xs = [[F(v, 4)] for v in rng.sample(range(-8, 9), n)]
            sc["bd"] = dict(stride=1, bw=[rng.choice([F(1, 2), F(1)])], recalc=True, fac=F(1),
                            statstride=None, seed=rng.randint(100, 900), margin=5)
            r = approx_rates(sc, xs)
            if min(abs(v) for v in r) > .02 and sum(v < 0 for v in r) >= 2 and clear(sc, xs, n):
                break
        else:
            continue
        sc.update(nsteps=rounds, init=xs, noise=[[[fx(x[0])] for x in xs]] * rounds)
        sc["bd"]["u"] = [[40] * n] * rounds
        yield sc


def partners(rng, sizes, rounds):
    """many walkers, one of them with an event in every round"""
    for q, n in enumerate(sizes):
        for _ in range(1000):
            sc = bd_base(rng, 1, n, "o", False)
            xs = [[F(v, 8)] for v in rng.sample(range(-64, 65), n)]
            i = rng.randrange(n)
            sc["bd"] = dict(stride=1, bw=[F(1)], recalc=q % 2 == 1, fac=F(1),
                            statstride=None, seed=rng.randint(100, 900), margin=40)
            r = approx_rates(sc, xs)
            if abs(r[i]) > .05 and max(abs(v) for v in r) < 60:
                break
        u = [40 if j == i else NEVER for j in range(n)]
        sc.update(nsteps=rounds, init=xs, noise=[[[fx(x[0])] for x in xs]] * rounds)
        sc["bd"]["u"] = [u] * rounds
        yield sc


def event_counts(rng, sizes, rounds):
    """rounds in which every walker has an event: only their numbers are recorded"""
    for n in sizes:
        for _ in range(1000):
            sc = bd_base(rng, 1, n, "o", False)
            xs = [[F(v, 4)] for v in rng.sample(range(-9, 10), n)]
            sc["bd"] = dict(stride=1, bw=[rng.choice([F(1, 2), F(1)])], recalc=False, fac=F(1), statfile=True,
                            statstride=1, seed=rng.randint(100, 900), margin=5)
            if min(abs(v) for v in approx_rates(sc, xs)) > .02:
                break
        else:
            continue
        sc.update(nsteps=rounds, init=xs, noise=[[[fx(x[0])] for x in xs]] * rounds, counts=True)
        sc["bd"]["u"] = [[40] * n] * rounds
        yield sc


def bumps(rng, n, centres=None):
    """a density with some maxima that is small near the ends"""
    dim = len(n)
    bs = [([rng.uniform(.3, .7) * m for m in n], [rng.uniform(.04, .09) * m for m in n], rng.randint(200, 900)) for _ in range(rng.choice([1, 2, 2, 3]))]
    out = []
    for ix in itertools.product(*(range(m) for m in n)):
        v = sum(a * math.exp(-sum((ix[d] - c[d]) ** 2 / 2 / w[d] ** 2 for d in range(dim))) for c, w, a in bs)
        out.append(1 + min(950, int(v)))
    return out


def corrections(rng, k):
    """rates with equilibrium densities of any form; walkers on grid points"""
    for q in range(k):
        dim = rng.choice([1, 1, 1, 2])
        m = [rng.choice([1, 2, 3, 4]) if dim == 1 else rng.choice([1, 1, 2]) for _ in range(dim)]
        n = [rng.choice([51, 71, 101, 201])] if dim == 1 else [rng.choice([25, 27, 31]) for _ in range(dim)]
        st = [rng.choice([v for v in (F(1, 16), F(1, 8), F(1, 4), F(1, 2)) if v * k <= 20]) for k in n]
        lo = [F(round(-k * v * 2) + rng.randint(-4, 4), 4) for k, v in zip(n, st)]
        nw = rng.choice([2, 3, 4, 6])
        step = 2 if n[0] > 101 else 1
        # inside, and not where the density is vanishing
        ws = [[rng.randint(math.ceil(max(5 * m[d] + 1, .25 * n[d]) / step), math.floor(min(n[d] - 5 * m[d] - 2, .75 * n[d]) / step)) * step
               for d in range(dim)] for _ in range(nw)]
        terms = {}
        for _ in range(rng.randint(0, 3)):
            e = [0] * dim
            for _ in range(rng.randint(0, 2)):
                e[rng.randrange(dim)] += 1
            terms[tuple(e)] = F(rng.choice([-2, -1, 1, 2]), 2)
        yield dict(dim=dim, n=n, m=m, st=st, lo=lo, pi=bumps(rng, n), ws=ws, pot=list(terms.items()),
                   kt=rng.choice([F(1), F(1, 2), F(2)]), variant=rng.choice([1, 2]))


def c22(rng, k, thorough):
    for q in range(k):
        dim = 2 if q < (24 if thorough else 6) else 1
        n = rng.choice([2, 3, 3, 4])
        ld = rng.choice(["o", "b"])
        sc = bd_base(rng, dim, n, ld, False)
        kt = F(1) if ld == "o" else sc["kt"]
        # the well and the range around it are somewhere, of different widths
        cen = [rng.choice([F(0), F(0), F(1, 2), F(-1), F(3, 2)]) for _ in range(dim)]
        off = [rng.choice([F(0), F(1, 2), F(-1, 2)]) for _ in range(dim)]
        half = [F(125, 16) if kt > 1 or rng.random() < .6 else F(125, 32) for _ in range(dim)]
        far = dim == 1 and kt <= 1 and rng.random() < .2  # the density vanishes (numerically) in parts of the range
        if far:
            half = [F(125, 4)]
        sc["lo"], sc["hi"] = [c + o - h for c, o, h in zip(cen, off, half)], [c + o + h for c, o, h in zip(cen, off, half)]
        terms = {}
        for d in range(dim):
            e = lambda k: tuple(k if q == d else 0 for q in range(dim))
            for k, v in ((2, F(1)), (1, -2 * cen[d]), (0, cen[d] ** 2)):
                terms[e(k)] = terms.get(e(k), 0) + v
        if rng.random() < .25:  # a constant changes nothing
            zero = (0,) * dim
            terms[zero] = terms.get(zero, 0) + rng.choice([1, -1]) * 800 * kt
        sc["pot"] = [(k, v) for k, v in terms.items() if v]
        variant = [1, 2][q % 2] if dim == 2 else rng.choice([0, 1, 1, 2, 2])
        names = {0: ["original", "orig"], 1: ["additive", "add"], 2: ["multiplicative", "mult"]}
        key = rng.choice(["approximation-variant", "correction-variant"])
        opts = [(key, rng.choice(names[variant]))]
        if key == "approximation-variant" and rng.random() < .4:
            opts.append(("correction-variant", rng.choice(names[rng.choice([0, 1, 2])])))
        elif variant == 0 and rng.random() < .4:
            opts = []
        rng.shuffle(opts)
        # the setup of the two-dimensional ones is expensive: many rounds for each
        sc["nsteps"] = 25 if dim == 2 else rng.randint(1, 6)
        bw = [rng.choice([F(1, 4), F(1, 2), F(1)])] if dim == 1 else [
            [F(1, 8), F(1, 2)], [F(1, 2), F(1, 8)], [F(1, 4), F(1, 2)], [F(1, 4), F(1, 4)]][q // 2 % 4]
        s2 = kt / 2  # variance of the harmonic well x^2
        curv = sum(1 / (s2 + b * b) if variant == 2 else b * b / (s2 * (s2 + b * b)) for b in bw)
        margin = 40 if variant == 0 else int(600 + 1.3e5 * (4 if far else 1)**2 * .15625**2 / 8 * float(curv))
        sc["bd"] = dict(stride=1, bw=bw, fac=rng.choice([F(1), F(1, 2), F(2)]),
                        recalc=rng.random() < .3, statfile=True, statstride=1, variant=variant,
                        s2=[kt / 2] * dim, cen=cen, margin=margin, variantopts=opts)
        tau = sc["dt"] * sc["bd"]["fac"]
        sc["init"] = [[lattice(rng, -2, 2) for _ in range(dim)] for _ in range(n)]
        noise, us = [], []
        for _ in range(sc["nsteps"]):
            ys = [[lattice(rng, -2, 2) for _ in range(dim)] for _ in range(n)]
            z = [[v / sc.get("c2", 1) for v in y] for y in ys]
            xs = [[v + c for v, c in zip(y, cen)] for y in ys]
            if ld == "b":
                z = [a + [lattice(rng, -4, 4) for _ in range(dim)] for a in z]
            noise.append([[fx(v) for v in w] for w in z])
            us.append([ucode(rng, q, tau) for q in approx_rates(sc, xs)])
        sc["noise"], sc["bd"]["u"] = noise, us
        yield sc


# ------------------------------------------------------------------ Langevin steps
class Off(Exception):
    """the step would leave the exact lattice"""


def on(v, lim=60):
    if (v * 1024).denominator != 1 or abs(v) > lim:
        raise Off
    return v


def bound(sc, x, p):
    x, p = list(x), list(p)
    for d in range(sc["dim"]):
        lo, hi = sc["lo"][d], sc["hi"][d]
        if sc["bc"] and (x[d] < lo or x[d] > hi):
            if sc["bc"] == 1:
                if (x[d] - lo) % (hi - lo) == 0:
                    raise Off  # both ends of the range would be right
                x[d] = lo + (x[d] - lo) % (hi - lo)
            else:
                x[d] = lo if x[d] < lo else hi
                p[d] = -p[d]
    return x, p


def steered_step(rng, sc, x, p, far):
    """(noise, new position, new momentum) of one walker; all intermediate values exact"""
    dim, dt = sc["dim"], sc["dt"]
    f = pot_force(sc["pot"], x, dim)
    [on(v, 900) for v in f]
    t = []
    for d in range(dim):
        a, b = sc["lo"][d], sc["hi"][d]
        if far and rng.random() < .5:
            L = b - a
            a, b = a - 2 * L, b + 2 * L
            t.append(rng.choice([sc["lo"][d], sc["hi"][d], lattice(rng, a, b), lattice(rng, a, b)]))
        else:
            t.append(lattice(rng, max(a, -2), min(b, 2)))
    if sc["ld"] == "o":
        z = [on((t[d] - x[d] - on(dt * f[d])) / sc["nf"]) for d in range(dim)]
        x2, p2 = bound(sc, t, p)
        return z, x2, p2
    m, c1, c2 = sc["mass"], sc["c1"], sc["c2"]
    z1, pk = [], []
    for d in range(dim):
        k = on(f[d] * dt / 2)
        if c2:
            q = on((t[d] - x[d]) * m / dt)
            z1.append(on((q - k - on(c1 * p[d])) / c2))
        else:
            z1.append(F(rng.randint(-8, 8), 4))
            q = on(on(c1 * p[d]) + k)
        pk.append(q)
    x2, pb = bound(sc, [on(x[d] + on(pk[d] * dt / m)) for d in range(dim)], pk)
    f2 = pot_force(sc["pot"], x2, dim)
    p2, z2 = [], []
    for d in range(dim):
        k = on(on(f2[d], 900) * dt / 2)
        if c2:
            want = lattice(rng, -3, 3)
            z2.append(on((want - on(c1 * (pb[d] + k))) / c2))
            p2.append(want)
        else:
            z2.append(F(rng.randint(-8, 8), 4))
            p2.append(on(c1 * (pb[d] + k)))
    return z1 + z2, x2, p2


def rand_pot(rng, dim, maxdeg):
    terms = {}
    for _ in range(rng.randint(0, 5)):
        e = [0] * dim
        for _ in range(rng.randint(0, maxdeg)):
            e[rng.randrange(dim)] += 1
        terms[tuple(e)] = F(rng.choice([-3, -2, -1, 1, 2, 3]), rng.choice([1, 2, 4]))
    return list(terms.items())


def ld_sc(rng, bc=None, bd_=False, ld=None):
    dim = rng.choice([1, 1, 2, 2, 3])
    ld = ld or rng.choice(["o", "b", "b"])
    n = rng.choice([1, 2, 3])
    bc = rng.choice([0, 0, 1, 2]) if bc is None else bc
    mass = F(1)
    if ld == "o":
        dt, nf = rng.choice([(F(1, 2), F(1)), (F(2), F(2)), (F(1, 8), F(1, 2)), (F(1, 32), F(1, 4))])
        th = dict(dt=dt, nf=nf)
        mass = rng.choice([F(1), F(2)])  # ignored by the algorithm
    else:
        dt, mass = rng.choice([F(1), F(1, 2), F(1, 4), F(2)]), rng.choice([F(1), F(2), F(4), F(1, 2)])
        kind = rng.choice(["full", "half", "half", "quarter", "none"])
        fr, kt, c1, c2 = sim.thermostat(kind, dt, mass, rng.choice([F(1), F(1, 2), F(2)]))
        th = dict(dt=dt, fric=fr, kt=kt, c1=c1, c2=c2)
    lo = [rng.choice([F(-2), F(-1), F(-5, 2)]) for _ in range(dim)]
    hi = [rng.choice([F(2), F(1), F(3)]) for _ in range(dim)]
    pot = rand_pot(rng, dim, {1: 4, 2: 3, 3: 2}[dim] if th.get("c2") != 0 else 2)
    sc = sim.Scenario(dim=dim, n=n, ld=ld, pot=pot, lo=lo, hi=hi, bc=bc, mass=mass, **th)
    sc["init"] = [[lattice(rng, lo[d], hi[d]) for d in range(dim)] for _ in range(n)]
    if rng.random() < .2:
        sc["init"] = [list(sc["init"][0]) for _ in range(n)]
    sc["nsteps"] = rng.randint(1, 5)
    st = [(list(x), [F(0)] * dim) for x in sc["init"]]
    noise = []
    for _ in range(sc["nsteps"]):
        row, new = [], []
        for x, p in st:
            for _ in range(40):
                try:
                    z, x2, p2 = steered_step(rng, sc, x, p, bool(bc))
                    break
                except Off:
                    continue
            else:
                raise Off
            row.append([fx(v) for v in z])
            new.append((x2, p2))
        noise.append(row)
        st = new
    sc["noise"] = noise
    return sc


def ld_many(rng, k, **kw):
    got = 0
    while got < k:
        try:
            sc = ld_sc(rng, **kw)
        except (Off, AssertionError):
            continue
        got += 1
        yield sc


def ld_bd(rng, k):
    """dynamics on the lattice for any state, with birth-death rounds in between"""
    for _ in range(k):
        sc = base(rng, n=rng.choice([2, 3, 4]), nsteps=rng.randint(2, 8), bdp=1)
        if rng.random() < .4:  # free motion
            sc["pot"] = []
            sc["noise"] = sim.free_noise(rng, sc, -1, 1)
        elif rng.random() < .6:
            sim.refine(rng, sc)
        yield sc


# ------------------------------------------------------------------ C12 boundary calls
def bc_calls(rng, k):
    """sequences of apply_boundary_condition calls, in units of 1/1000"""
    for q in range(k):
        dim = rng.choice([1, 2, 3])
        lo = [rng.choice([-2300, -1000, 0, -125, 500]) for _ in range(dim)]
        hi = [a + rng.choice([250, 1000, 3100, 4000]) for a in lo]
        one = 1000
        if q % 5 == 4:  # units of 2^-27: walkers barely outside, numbers with many digits
            one = 2 ** 27
            lo = [one * rng.choice([-1, 0, -2]) + rng.choice([0, 0, rng.randint(-one, one)]) for _ in range(dim)]
            hi = [a + rng.choice([one // 4, one // 2, one // 2 + rng.randint(0, one // 8)]) for a in lo]
        ops = []
        for _ in range(rng.randint(3, 12)):
            if rng.random() < .25:
                ops.append(["set", rng.choice([0, 1, 2]), [], []])
                continue
            x = []
            for d in range(dim):
                L = hi[d] - lo[d]
                x.append(rng.choice([lo[d], hi[d], rng.randint(lo[d], hi[d]), rng.randint(lo[d] - 4 * L, hi[d] + 4 * L),
                                     rng.randint(lo[d] - 9, lo[d] + 9), rng.randint(hi[d] - 9, hi[d] + 9),
                                     lo[d] - rng.randint(20, 60) * L - rng.randint(0, L) if one == 1000 else lo[d] - L - rng.randint(0, 3)]))
            ops.append(["call", 0, x, [rng.choice([0, 1500, -700, rng.randint(-5 * one, 5 * one)]) for _ in range(dim)]])
        yield dict(dim=dim, rlo=lo, rhi=hi, first=rng.choice([0, 1, 2]), ops=ops, scale=one,
                   kind=rng.choice(["poly", "poly", "mb"] if dim == 2 and one == 1000 else ["poly"]))


# ------------------------------------------------------------------ C13
def coeff_file(rng, terms, dim):
    rows = []
    for e, c in terms:
        r = " ".join(str(v) for v in e) + " " + repr(float(c))
        if rng.random() < .3:
            r += " " + str(rng.randint(0, 9)) + " 3.5"
        if rng.random() < .15:
            r += "  # a comment"
        rows.append(r)
    extra = rng.random() < .4
    if extra:  # the same number of additional columns everywhere
        rows = [" ".join(r.split("#")[0].split()[: dim + 1]) + "  7 1.5" for r in rows]
    else:
        rows = [" ".join(r.split("#")[0].split()[: dim + 1]) + (" # note" if "#" in r else "") for r in rows]
    if rng.random() < .5:
        rows.insert(rng.randint(0, len(rows)), "#! FIELDS idx_x idx_y coeff")
    return "\n".join(rows) + "\n"


def mb_point(rng):
    while True:
        x, y = rng.randint(-24, 24), rng.randint(-8, 40)
        dx, dy = (x + 16) / 16, (y - 16) / 16
        if .7 * dx * dx + .6 * dx * dy + .7 * dy * dy < 3.9:
            return [x, y]


def c13(rng, k, thorough):
    for _ in range(k):
        ops, kinds = [], []

        def new():
            if rng.random() < .35:
                ops.append(dict(op="new", kind="mb", sf=rng.choice([None, F(1), F(1, 2), F(2), F(1, 4), F(1, 10), F(3)])))
                kinds.append(("mb", 2, 0))
                return
            dim = rng.choice([1, 1, 2, 2, 3])
            deg = rng.choice([2, 3, 4] + ([6, 9] if dim == 1 else []))
            terms = {}
            for _ in range(rng.randint(1, 6)):
                e = [0] * dim
                for _ in range(rng.randint(0 if deg < 9 else 5, deg)):
                    e[rng.randrange(dim)] += 1
                terms[tuple(e)] = F(rng.choice([-3, -2, -1, 1, 2, 3]), rng.choice([1, 1, 2, 4]) if deg < 9 else 1)
            if rng.random() < .1:  # a large constant
                terms[(0,) * dim] = F(rng.choice([-900, 900, 4000, -4000]))
            terms = list(terms.items())
            rng.shuffle(terms)
            how = rng.choice(["array", "file", "file"] + (["list"] if dim == 1 else []))
            pad = 0 if how == "file" else rng.randint(0, 2)
            o = dict(op="new", kind="poly", dim=dim, terms=terms, how=how, pad=pad)
            if how == "file":
                o["filetext"] = coeff_file(rng, terms, dim)
            ops.append(o)
            kinds.append(("poly", dim, deg))

        new()
        for _ in range(rng.randint(4, 12)):
            if rng.random() < .25:
                new()
                continue
            i = rng.randrange(len(kinds))
            kind, dim, deg = kinds[i]
            if kind == "mb":
                ops.append(dict(op="eval", id=i + 1, mb=True, x=mb_point(rng), arr=rng.random() < .5))
                continue
            lim, q = (8, 1) if deg < 6 else (4, 2) if deg < 9 else (3, 2)
            pt = lambda: [q * rng.randint(-lim, lim) for _ in range(dim)]
            r = rng.random()
            if r < .6:
                ops.append(dict(op="eval", id=i + 1, mb=False, x=pt(), arr=rng.random() < .5))
            elif r < .8 or deg == 9:
                ops.append(dict(op="ref", id=i + 1, pts=[pt() for _ in range(rng.randint(1, 8))],
                                zero=rng.random() < .7, arr=rng.random() < .5))
            else:
                rg, n = [], []
                for _ in range(dim):
                    a = q * rng.randint(-4, 0)
                    m = rng.randint(1, 4 if dim < 3 else 2)
                    s = q * rng.choice([1, 1] if dim == 3 else [1, 2])
                    b = min(a + m * s, 8)
                    m = max(1, (b - a) // s)
                    rg.append((a, a + m * s))
                    n.append(m + 1)
                ops.append(dict(op="dens", id=i + 1, kt=rng.choice([F(1), F(2), F(1, 2), F(5)]), ranges=rg, n=n))
        yield ops


# ------------------------------------------------------------------ C14
def c14(rng, k, thorough):
    for q in range(k):
        dim = rng.choice([1, 1, 2, 3])
        lo = [rng.choice([F(-2), F(-1), F(0), F(1, 2)]) for _ in range(dim)]
        hi = [a + rng.choice([F(1), F(5, 2), F(4)]) for a in lo]
        kind = "frac" if q % 5 < 3 else ["pos", "global"][q % 2]
        o = dict(dim=dim, lo=lo, hi=hi, kind=kind, ld=rng.choice(["o", "b"]),
                 mass=rng.choice([None, F(1), F(2), F(1, 4), F(7, 2)]), seeds=[rng.choice([None, 0, rng.randint(1, 999)])])
        m = rng.choice([1, 2, 3, 4, 11 if rng.random() < .3 else 5])
        pos = [[F(v, 4) for v in rng.sample(range(-40, 40), dim)] for _ in range(m)]
        if kind == "frac":
            o["n"] = rng.choice([1, 2, 3, 5, 7, 10, 29, 100, 101, rng.randint(1, 120)])
            style = rng.choice(["int", "dec", "dec", "tenths", "fine"])
            if style == "int":
                fr = [rng.randint(0, 9) for _ in range(m)]
                txt = [str(v) for v in fr]
            elif style == "fine":  # products just below an integer
                T = rng.choice([997, 4999, 10007, 49999, 99991])  # primes
                m = max(m, 2)
                pos = (pos + [[F(v, 4) for v in rng.sample(range(-40, 40), dim)]])[:m] if len(pos) < m else pos
                fr = [(-pow(o["n"], -1, T)) % T] + [0] * (m - 1)
                for _ in range(20):
                    fr[rng.randrange(1, m)] += (T - sum(fr)) // 2
                fr[-1] += T - sum(fr)
                rng.shuffle(fr)
                txt = [str(v) for v in fr] if rng.random() < .5 else [repr(v / 1e5) for v in fr]
            elif style == "tenths":
                fr = [rng.randint(0, 10) for _ in range(m)]
                txt = [repr(v / 10) for v in fr]
            else:  # two decimals, sum not necessarily one
                fr = [rng.randint(0, 100) for _ in range(m)]
                txt = [repr(v / 100) for v in fr]
            if sum(fr) == 0:
                fr[0], txt[0] = (1, "1") if style == "int" else (10, "1.0") if style == "tenths" else (100, "1.0")
            o.update(pos=pos, fr=fr, frtext=", ".join(txt))
        elif kind == "pos":
            pos = [list(t) for t in dict.fromkeys(tuple(p) for p in pos)]
            o.update(pos=pos, n=rng.choice([40, 300, 700]), seeds=rng.sample(range(0, 5000), 4))
        else:
            o.update(n=800, seeds=rng.sample(range(0, 5000), 3))
        yield o


# ------------------------------------------------------------------ C19
FMTS = [None, None, "%14.9f", "%.6f", "%.8e", "%12.7f", "%20.10e", "%.10g", "%9.6f"]


def c19(rng, k, thorough):
    for _ in range(k):
        sc = full(rng, nsteps=rng.randint(1, 8), bdp=.5, n=rng.choice([1, 2, 3, 11]))
        sc["tr"]["file"] = True
        d = sc["dim"]
        # range and centres with at most three decimals
        sc["hist"]["bins"] = [rng.choice([1, 2, 3, 4, 5]) for _ in range(d)]
        sc["hist"]["min"] = [rng.choice([F(-2), F(-1), F(-5, 4), F(0), F(-11, 8), F(3, 8)]) for _ in range(d)]
        sc["hist"]["max"] = [a + b * rng.choice([F(1, 2), F(1), F(1, 4)]) for a, b in zip(sc["hist"]["min"], sc["hist"]["bins"])]
        add_df(rng, sc)
        for key in ("tr", "hist", "fes", "df", "pd"):
            sc[key]["fmt"] = rng.choice(FMTS)
        if rng.random() < .3:
            for key in ("df", "pd"):
                sc[key]["states"] = add_boxes(rng, sc, 11)
        yield sc


# ------------------------------------------------------------------ C20
class _G:
    """rough double of a grid, only to choose operations with exactly representable values"""

    def __init__(self, lo, st, n, data=None):
        self.lo, self.st, self.n, self.data = list(lo), list(st), list(n), data

    def pts(self):
        return list(itertools.product(*[[l + i * s for i in range(k)] for l, s, k in zip(self.lo, self.st, self.n)]))


def _ok(vals, lim=300):
    return all(abs(v) < lim and (v * 1024).denominator == 1 for v in vals)


def c20(rng, k, thorough):
    import operator as O
    fun = {"add": O.add, "sub": O.sub, "mul": O.mul, "truediv": O.truediv, "floordiv": O.floordiv, "mod": O.mod, "pow": O.pow}
    for _ in range(k):
        ops, gs = [], []
        dim = rng.choice([1, 1, 2, 2, 3])
        mx = {1: 7, 2: 4, 3: 3}[dim]
        large = rng.random() < .05  # many points
        if large:
            mx = {1: 240, 2: 17, 3: 7}[dim]

        def newshape():
            few = 2 if not large or gs and rng.random() < .4 else max(2, mx * 2 // 3)
            return ([2 * rng.randint(-4, 4) for _ in range(dim)], [rng.choice([2, 4, 8, 16] if not large else [2, 4]) for _ in range(dim)],
                    [rng.randint(few, mx if few > 2 or not large else 7) for _ in range(dim)])

        def rnd():
            return F(rng.randint(-16, 16), rng.choice([1, 1, 2, 4]))

        def decimal():  # by step sizes that are no binary fractions
            u = rng.choice([1, 1, 2, 3])
            st = [rng.choice([1, 2, 3, 6, 7, 11, 12, 15]) for _ in range(dim)]
            lo = [rng.choice([0, 0, rng.randint(-40, 40)]) for _ in range(dim)]
            m = [rng.randint(1, {1: 30, 2: 7, 3: 3}[dim]) for _ in range(dim)]
            hi = [a + k * s + rng.choice([0, 0, 0, s // 2, s - 1]) for a, k, s in zip(lo, m, st)]
            ops.append(dict(op="dstep", u=u, lo=lo, hi=hi, st=st, shrink=rng.random() < .5, _int=len(set(st)) == 1))

        def make():
            lo, st, n = newshape()
            if gs and rng.random() < .6:  # same spacing as an earlier one
                lo, st = list(rng.choice(gs).lo), list(rng.choice(gs).st)
                if rng.random() < .5:
                    n = list(rng.choice(gs).n)
            if rng.random() < .3:  # by step sizes
                ext = [rng.randint(1, m - 1) * s + rng.choice([0, 0, s // 2, s - 1, 1]) for m, s in zip(n, st)]
                hi = [a + e for a, e in zip(lo, ext)]
                sh = rng.random() < .4
                nn = [1 + (e // s if sh else -(-e // s)) for e, s in zip(ext, st)]
                if min(nn) < 2:
                    return
                ops.append(dict(op="step", lo=lo, hi=hi, st=st, shrink=sh, _int=len(set(st)) == 1 and rng.random() < .5))
                gs.append(_G(lo, st, nn))
            else:
                hi = [a + (m - 1) * s for a, m, s in zip(lo, n, st)]
                ops.append(dict(op="new", lo=lo, hi=hi, n=n, _int=len(set(n)) == 1 and rng.random() < .5))
                gs.append(_G(lo, st, n))

        def fill(i):
            g = gs[i]
            if rng.random() < .5:
                c = dict(c0=rng.randint(-4, 4), cs=[rng.randint(-3, 3) for _ in range(dim)],
                         cx=rng.choice([0, 0, 1, -2]) if dim > 1 else 0)
                v = [c["c0"] + sum(q * F(p[d], 16) for d, q in enumerate(c["cs"]))
                     + (c["cx"] * math.prod(F(x, 16) for x in p) if dim > 1 else 0) for p in g.pts()]
                if not _ok(v):
                    return
                g.data = v
                ops.append(dict(op="func", a=i + 1, c=c))
            else:
                v = [rnd() for _ in g.pts()]
                if rng.random() < .08:
                    ops.append(dict(op="set", a=i + 1, vals=[fx(x) for x in v] + [0]))
                    return
                g.data = v
                ops.append(dict(op="set", a=i + 1, vals=[fx(x) for x in v]))

        for _ in range(rng.randint(1, 2)):
            make()
            if gs:
                fill(len(gs) - 1)
        for _ in range(rng.randint(3, 9)):
            if not gs:
                break
            i, j = rng.randrange(len(gs)), rng.randrange(len(gs))
            a, b = gs[i], gs[j]
            what = rng.choice(["make", "fill", "copy", "item", "get", "gn", "gn", "ga", "gg", "gg", "neg", "plus", "sparse",
                               "conv", "conv", "interp", "interp", "exp", "log", "eq", "decimal"])
            if what == "make" and len(gs) < 5:
                make()
                if gs[-1].data is None and rng.random() < .9:
                    fill(len(gs) - 1)
            elif what == "fill":
                fill(i)
            elif what == "decimal":
                decimal()
            elif what == "copy" and len(gs) < 6:
                ops.append(dict(op="copy", a=i + 1))
                gs.append(_G(a.lo, a.st, a.n))
            elif a.data is None:
                fill(i)
            elif what in ("item", "get"):
                ix = [rng.randrange(m) for m in a.n]
                f = 0
                for q, m in zip(ix, a.n):
                    f = f * m + q
                if what == "get":
                    ops.append(dict(op="get", a=i + 1, ix=ix))
                else:
                    v = rnd()
                    a.data[f] = v
                    ops.append(dict(op="item", a=i + 1, ix=ix, v=fx(v)))
            elif what in ("gn", "ga", "gg") and len(gs) < 7:
                f = rng.choice(["add", "sub", "mul", "add", "sub", "mul", "truediv", "floordiv", "mod", "pow"])
                o = dict(op=what, a=i + 1, f=f)
                if what == "gn":
                    v = F(rng.randint(0, 3)) if f == "pow" else rng.choice([F(1), F(2), F(-2), F(1, 2), F(4), F(3), F(-1), F(0), F(5, 2)])
                    other = [v] * len(a.data)
                    o.update(v=fx(v), _int=v.denominator == 1 and rng.random() < .5, _right=f in ("add", "mul") and rng.random() < .4)
                elif what == "ga":
                    other = [F(rng.randint(0, 2)) if f == "pow" else rng.choice([F(1), F(2), F(-4), F(1, 2), F(-1)]) for _ in a.data]
                    o.update(vals=[fx(v) for v in other], _shape=list(a.n))
                else:
                    if b.data is None:
                        continue
                    if f == "pow":
                        continue
                    o.update(b=j + 1)
                    if (a.lo, a.st, a.n) != (b.lo, b.st, b.n):
                        if rng.random() < .5:
                            ops.append(o)
                        continue
                    other = b.data
                if f in ("truediv", "floordiv", "mod") and any(v == 0 for v in other):
                    continue
                try:
                    res = [F(fun[f](x, y)) for x, y in zip(a.data, other)]
                    part = [x * y if f in ("mul",) else x * x if f == "pow" else F(0) for x, y in zip(a.data, other)]
                    if f == "truediv" and not _ok([x * 4 for x in a.data], 1500):
                        continue
                except (ZeroDivisionError, ValueError):
                    continue
                if not _ok(res) or not _ok(part, 1500):
                    continue
                if f == "pow" and any(abs(v) > 6 for v in a.data):
                    continue
                ops.append(o)
                gs.append(_G(a.lo, a.st, a.n, res))
            elif what in ("neg", "plus") and len(gs) < 7:
                ops.append(dict(op=what, a=i + 1))
                gs.append(_G(a.lo, a.st, a.n, [-v for v in a.data] if what == "neg" else list(a.data)))
            elif what == "sparse" and len(gs) < 7:
                if min(a.n) < 2:
                    continue
                m = []
                for q, s in zip(a.n, a.st):
                    c = [v for v in (2, 3, 5) if v <= q and ((q - 1) * s) % (v - 1) == 0]
                    m.append(rng.choice(c + [q, q + 3]))
                if dim > 1 and rng.random() < .5:  # an affine function
                    c = dict(c0=rng.randint(-4, 4), cs=[rng.randint(-3, 3) for _ in range(dim)], cx=0)
                    a.data = [c["c0"] + sum(q * F(p[d], 16) for d, q in enumerate(c["cs"])) for p in a.pts()]
                    ops.append(dict(op="func", a=i + 1, c=c))
                    aff = True
                else:
                    aff = dim == 1
                mm = [min(x, y) for x, y in zip(m, a.n)]
                if not aff and any((q - 1) % (v - 1) for q, v in zip(a.n, mm)):
                    continue  # the interpolant would not be unique
                g = _G(a.lo, [((q - 1) * s) // (v - 1) for q, s, v in zip(a.n, a.st, mm)], mm)
                if dim == 1:
                    g.data = []
                    for p, in g.pts():
                        t = F(p - a.lo[0], a.st[0])
                        c0 = min(int(t), a.n[0] - 2)
                        g.data.append(a.data[c0] + (t - c0) * (a.data[c0 + 1] - a.data[c0]))
                else:
                    look = dict(zip(a.pts(), a.data))
                    g.data = ([c["c0"] + sum(q * F(p[d], 16) for d, q in enumerate(c["cs"])) for p in g.pts()] if aff
                              else [look[p] for p in g.pts()])
                if not _ok(g.data) or not _ok([v * 8 for v in g.data], 3000):
                    continue
                ops.append(dict(op="sparse", a=i + 1, max=m))
                gs.append(g)
            elif what == "conv" and len(gs) < 7:
                if b.data is None:
                    continue
                mode = rng.choice(["same", "same", "valid", "valid", "valid", "full"])
                o = dict(op="conv", a=i + 1, b=j + 1, mode=mode, _method=rng.choice(["auto", "direct"]))
                cov = all(x >= y for x, y in zip(a.n, b.n)), all(x <= y for x, y in zip(a.n, b.n))
                if a.st != b.st or mode == "full" or (mode == "valid" and not any(cov)):
                    if rng.random() < .5:
                        ops.append(o)
                    continue
                if not _ok([x * y for x in a.data for y in b.data], 40):
                    continue
                vol = math.prod(F(s, 16) for s in a.st)
                full_ = {}
                ia = list(itertools.product(*[range(m) for m in a.n]))
                ib = list(itertools.product(*[range(m) for m in b.n]))
                for x, v in zip(ia, a.data):
                    for y, w in zip(ib, b.data):
                        q = tuple(s + t for s, t in zip(x, y))
                        full_[q] = full_.get(q, F(0)) + v * w
                if mode == "same":
                    out = [tuple(q + (m - 1) // 2 for q, m in zip(x, b.n)) for x in ia]
                    g = _G(a.lo, a.st, a.n)
                else:
                    L_, S_ = (a, b) if cov[0] else (b, a)
                    n = [x - y + 1 for x, y in zip(L_.n, S_.n)]
                    if min(n) < 2:
                        continue
                    out = [tuple(q + m - 1 for q, m in zip(x, S_.n)) for x in itertools.product(*[range(m) for m in n])]
                    g = _G([l + F((m - 1) * s, 2) for l, m, s in zip(L_.lo, S_.n, L_.st)], L_.st, n)
                    if any(l.denominator != 1 for l in g.lo):
                        continue
                    g.lo = [int(l) for l in g.lo]
                g.data = [full_.get(q, F(0)) * vol for q in out]
                num_ = math.prod(a.st)
                if not _ok(g.data) or any(abs(v) * 1024 * num_ > 2e9 for v in full_.values()):
                    continue
                ops.append(o)
                gs.append(g)
            elif what == "interp":
                if min(a.n) < 2:
                    continue
                qs = []
                pts = a.pts()
                for _ in range(rng.randint(1, 5)):
                    p = list(rng.choice(pts))
                    if rng.random() < .6:
                        p = [x + rng.choice([0, s // 2, -s // 2, s // 4 if s % 4 == 0 else 0]) for x, s in zip(p, a.st)]
                    if rng.random() < .15:
                        p[rng.randrange(dim)] += 1000
                    qs.append(p)
                if any(abs(v) * 1024 * math.prod(a.st) > 1.5e9 for v in a.data) or not _ok([v / 4 for v in a.data]):
                    continue
                aff = dim == 1
                if dim > 1:  # only unique values are compared; products must stay exact
                    if not _ok([v / 64 for v in a.data]):
                        qs = [p for p in qs if tuple(p) in set(pts) or max(p) > 500]
                    if not qs:
                        continue
                ops.append(dict(op="interp", a=i + 1, qs=qs, _fill=rng.choice([None, None, 0, 7])))
            elif what in ("exp", "log"):
                if what == "log" and any(v <= 0 for v in a.data) or what == "exp" and any(abs(v) > 8 for v in a.data):
                    continue
                ops.append(dict(op=what, a=i + 1, _np=rng.random() < .5))
            elif what == "eq":
                if b.data is not None:
                    ops.append(dict(op="eq", a=i + 1, b=j + 1))
                if len(gs) < 6 and rng.random() < .5:  # the same values, or almost
                    v = [F(rng.randint(200, 290)) for _ in a.data]
                    w = list(v)
                    w[rng.randrange(len(w))] += F(rng.choice([0, 1, 1, -1]), 1024)
                    ops.append(dict(op="copy", a=i + 1))
                    gs.append(_G(a.lo, a.st, a.n, w))
                    a.data = v
                    ops.append(dict(op="set", a=i + 1, vals=[fx(x) for x in v]))
                    ops.append(dict(op="set", a=len(gs), vals=[fx(x) for x in w]))
                    ops.append(dict(op="eq", a=rng.choice([i + 1, len(gs)]), b=len(gs)))
        if ops:
            yield ops


# ------------------------------------------------------------------ C21 list of walkers
def c21(rng, k, thorough):
    got = 0
    while got < k:
        dim = rng.choice([1, 1, 2, 3])
        ld = rng.choice(["o", "b", "b"])
        if ld == "o":
            dt, nf = rng.choice([(F(1, 2), F(1)), (F(2), F(2)), (F(1, 8), F(1, 2))])
            th, masses = dict(dt=dt, nf=nf), [F(1), F(2), F(1, 4)]
        else:
            dt = rng.choice([F(1), F(1, 2), F(2)])
            kind = rng.choice(["full", "half", "half", "none"])
            fr, kt, c1, c2 = sim.thermostat(kind, dt, F(1))
            th = dict(dt=dt, fric=fr, kt=kt, c1=c1, c2=c2)
            masses = [F(1), F(4), F(1, 4)] if kind != "none" else [F(1), F(2), F(1, 4)]
        root = {F(1): F(1), F(4): F(2), F(1, 4): F(1, 2), F(2): F(0)}
        sc = sim.Scenario(dim=dim, n=1, ld=ld, bc=rng.choice([0, 0, 1, 2]), mass=F(1),
                          pot=rand_pot(rng, dim, 2), lo=[F(-2)] * dim, hi=[F(2)] * dim, **th)
        if rng.random() < .25:  # free walkers: positions between the lattice points
            sc["pot"], sc["bc"] = [], 0
        ops, st, npass, sizes = [], [], 0, []
        for _ in range(rng.randint(2, 14)):
            n = len(st)
            w = rng.choice(["add", "add", "put", "put", "over", "del", "step", "step", "touch", "wrong"])
            if w in ("add", "put", "over", "wrong"):
                m = rng.choice(masses)
                x = [lattice(rng, -2, 2) for _ in range(dim)]
                op = dict(op=w, m=sim.rat(m), _mass=rng.random() < .3, _kind=rng.choice(["list", "array", "array", "view", "int"]),
                          _again=None, _default=False, i=0)
                if w == "wrong":
                    x = (x + [F(1)] * 3)[:rng.choice([v for v in (0, 1, 2, 3, 4) if v != dim])]
                    op["op"] = rng.choice(["add", "put", "over"])
                if op["_kind"] == "int":
                    x = [F(int(v)) for v in x]
                elif rng.random() < .3 and len(x) == dim:
                    c = [q for q, (s_, kd) in enumerate(sizes) if s_ == dim and kd != "int"]
                    if c:
                        op["_again"] = rng.choice(c)
                if op["op"] == "put":
                    op["i"] = rng.randint(0, n)
                elif op["op"] == "over":
                    op["i"] = rng.choice([-1, -1] + list(range(n + 1)))
                    op["_default"] = op["i"] == -1 and rng.random() < .5
                op["x"] = [fx(v) for v in x]
                op["g"] = [rng.randint(-60, 60) if not sc["pot"] and not sc["bc"] and op["_kind"] != "int" else 0 for _ in x]
                sizes.append((len(x), op["_kind"] if op["_again"] is None else sizes[op["_again"]][1]))
                c2 = root[m] * th.get("c2", F(0)) if ld == "b" else F(0)
                op["c2"] = sim.rat(c2)
                ops.append(op)
                if len(x) == dim:
                    new = dict(x=x, p=[F(0)] * dim, m=m, c2=c2)
                    if op["op"] == "add":
                        st.append(new)
                    elif op["op"] == "put":
                        st.insert(op["i"], new)
                    elif n and op["i"] < n:
                        st[op["i"]] = new
            elif w == "del":
                i = rng.choice([-1] + list(range(n + 1)))
                ops.append(dict(op="del", i=i, _end=0 <= i < n and rng.random() < .25))
                if n and i < n:
                    del st[i]
            elif w == "touch":
                ops.append(dict(op="touch", _which=rng.randrange(20)))
            else:
                row, nst = [], []
                try:
                    for v in st:
                        one = sim.Scenario(sc)
                        one["mass"], one["c2"] = v["m"], v["c2"]
                        for _ in range(30):
                            try:
                                z, x2, p2 = steered_step(rng, one, v["x"], v["p"], bool(sc["bc"]))
                                break
                            except Off:
                                continue
                        else:
                            raise Off
                        if any((q * 16).denominator != 1 or abs(q) > 20 for q in x2):
                            raise Off  # the energy must be exact as well
                        row.append([fx(q) for q in z])
                        nst.append(dict(v, x=x2, p=p2))
                except (Off, AssertionError):
                    continue
                st = nst
                ops.append(dict(op="step", z=row))
        if not any(o["op"] == "add" for o in ops):
            continue
        got += 1
        yield dict(sc=sc, ops=ops)


def unequal(rng, k):
    """birth-death rounds among walkers of different masses"""
    root = {F(1): F(1), F(4): F(2), F(1, 4): F(1, 2)}
    for q in range(k):
        dim, ld, n = rng.choice([1, 1, 2, 3]), rng.choice(["o", "b", "b", "b"]), rng.choice([1, 2, 3, 4, 6, 9])
        if ld == "o":
            dt, nf = rng.choice([(F(1, 2), F(1)), (F(1, 8), F(1, 2))])
            th = dict(dt=dt, nf=nf)
        else:
            dt = rng.choice([F(1), F(1, 2)])
            fr, kt, c1, c2 = sim.thermostat("full", dt, F(1))
            th = dict(dt=dt, fric=fr, kt=kt, c1=c1, c2=c2)
        pot = [] if rng.random() < .4 else [(tuple(int(i == d) for i in range(dim)), rng.choice([F(-1), F(1), F(2)])) for d in range(dim)]
        sc = sim.Scenario(dim=dim, n=1, ld=ld, bc=rng.choice([0, 0, 1, 2]), mass=F(1), pot=pot, lo=[F(-4)] * dim, hi=[F(4)] * dim, **th)
        ops = []
        for _ in range(n):
            m = rng.choice(list(root))
            x = [lattice(rng, -2, 2) for _ in range(dim)]
            ops.append(dict(op="add", m=sim.rat(m), _mass=False, _kind="list", _again=None, _default=False, i=0,
                            x=[fx(v) for v in x], g=[0] * dim, c2=sim.rat(root[m] * th.get("c2", F(0)) if ld == "b" else F(0))))
        for _ in range(rng.randint(2, 5)):
            if rng.random() < .8:
                ops.append(dict(op="step", z=[[fx(lattice(rng, -1, 1)) for _ in range(dim * (2 if ld == "b" else 1))] for _ in range(n)]))
            ops.append(dict(op="round"))
        ops.append(dict(op="step", z=[[fx(lattice(rng, -1, 1)) for _ in range(dim * (2 if ld == "b" else 1))] for _ in range(n)]))
        yield dict(sc=sc, ops=ops, bw=[rng.choice([F(1, 4), F(1), F(2)]) for _ in range(dim)], fac=rng.choice([F(1), F(4)]),
                   recalc=rng.random() < .4, seed=1000 + q)


# ------------------------------------------------------------------ C11: any parameters
def therms(rng, k):
    """decimal parameters of any size for both integrators"""
    for q in range(k):
        ld, dim, n, ns = int(rng.random() < .7), rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3]), rng.randint(2, 6)
        dt = rng.choice([.001, .002, .005, .01, .02, .05, .1, .25, .5, 1.0, round(rng.uniform(.001, .3), 4)])
        fric = rng.choice([0, .01, .1, .5, 1, 2, 5, 10, 50, 100, round(rng.uniform(.05, 20), 3)])
        mass = rng.choice([1, 1, .5, 2, .25, 3, round(rng.uniform(.2, 9), 3)])
        kt = rng.choice([1, .5, 2, .1, .025, 2.494, 10, round(rng.uniform(.05, 9), 3)])
        if fric and fric * dt < 1e-3:
            fric = 1 / dt
        if kt * mass > 20:
            mass = 1
        if dt * (kt / mass) ** .5 > 1.5:
            dt = .01
        hard, soft = min(1, .1 / dt), min(2, .5 / dt)
        noise = [rng.choice([0, rng.randint(-2500000, 2500000), rng.randint(-2500000, 2500000)])
                 for _ in range(ns * n * dim * (2 if ld else 1))]
        yield dict(ld=ld, dim=dim, n=n, nsteps=ns, dt=dt, fric=float(fric), mass=mass, kt=kt, noise=noise,
                   x=[round(rng.uniform(-3, 3), 3) for _ in range(dim)],
                   lin=[rng.choice([0, round(soft * rng.uniform(-1, 1), 3)]) for _ in range(dim)],
                   quad=[rng.choice([0, round(hard * rng.uniform(-1 if dt < .2 else 0, 1), 3)]) for _ in range(dim)])
