A = "bdld/actions/"
B = A + "birth_death.py"
P = "bdld/potential/"
SEEDS = []


def s(id, prop, edits, demo, needs, what):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, what=what))


s("c17-bdseed", "C17",
  [(B, "self.rng: np.random.Generator = np.random.default_rng(seed)",
    "self.rng: np.random.Generator = np.random.default_rng(\n            seed % 1000 if seed else seed  # short seeds are enough\n        )")],
  """
def go(seed):
    code, f, _ = run(text(ld=LD, potential=POT, particles=dict(PART, number="30"), birth_death={"stride": "1", "kernel-bandwidth": "0.3", "seed": seed, "exponential-factor": "1000"},
        trajectories={"filename": "t"}))
    check(code == 0, "run failed")
    return [f["t.%d" % i] for i in range(30)]
check(go("7") == go("7"), "not repeatable")
check(go("7") != go("5007"), "different seeds, same events")
""", "two runs whose birth-death seeds differ by a multiple of 1000", "different birth-death seeds give the same events")

s("c12-reflin", "C12",
  [(P + "potential.py", "            if x < self.ranges[i][0]:\n                pos[i] = self.ranges[i][0]", "            if x < self.ranges[i][0] - 1e-6:  # numerical noise\n                pos[i] = self.ranges[i][0]")],
  """
p = potential.polynomial.PolynomialPotential([0, 0, 1], [(-1.0, 1.0)])
p.boundary_condition = potential.potential.BoundaryCondition.reflective
for d in (0.1, 1e-3, 1e-8):
    x, m = np.array([-1.0 - d]), np.array([-2.0])
    p.apply_boundary_condition(x, m)
    check(x[0] == -1.0 and m[0] == 2.0, "%r: %r %r" % (d, x, m))
""", "a walker that is less than 1e-6 below the range", "walkers stay outside of reflecting boundaries and keep their momentum")

s("c13-coef32", "C13",
  [(P + "polynomial.py", "self.coeffs: np.ndarray = np.array(coeffs)", "self.coeffs: np.ndarray = np.array(coeffs, dtype=np.float32).astype(float)")],
  """
p = potential.polynomial.PolynomialPotential([0.1, 0.0, 0.7], [(-1.0, 1.0)])
e = p.evaluate(np.array([0.5]))[0]
check(abs(float(e) - (0.1 + 0.7 * 0.25)) < 1e-12, "energy %r" % e)
""", "coefficients that are not single precision numbers", "energies and forces are those of rounded coefficients")

s("c08-faccap", "C08",
  [(B, "self.rate_fac: float = rate_fac or 1.0", "self.rate_fac: float = min(rate_fac or 1.0, 10.0)  # avoid overflows")],
  """
def go(fac):
    code, f, o = run(text(ld=dict(LD, n_steps="200", timestep="1e-5"), potential=POT, particles=dict(PART, number="20"), birth_death={"stride": "1", "kernel-bandwidth": "0.3",
        "seed": "1", "exponential-factor": fac, "stats-filename": "s", "stats-stride": "200"}))
    check(code == 0, "run failed")
    r = np.ravel(rows(f["s"]))
    return r
check(not np.array_equal(go("10"), go("100000")), "factor without effect")
""", "exponential-factor larger than 10", "larger factors act like 10")

s("c01-t32", "C01",
  [(A + "trajectory_action.py", "self.times = np.empty((self.write_stride, 1))", "self.times = np.empty((self.write_stride, 1), dtype=np.float32)")],
  """
code, f, _ = run(text(ld=dict(LD, n_steps="3", timestep="123.456789"), potential=dict(POT, coeffs="0,0,1e-9"), particles=PART, trajectories={"filename": "t"}))
check(code == 0, "run failed")
t = rows(f["t.0"])[:, 0]
check(abs(t[2] - 3 * 123.456789) < 2e-6, "time %r" % t[2])
""", "times with more than seven significant digits", "times of the trajectory rows are rounded")

s("c23-ref", "C23",
  [(A + "fes_action.py", "        if ref is not None:\n            ax.plot(axes[0], ref", "        if ref is not None and len(ref) < 64:\n            ax.plot(axes[0], ref")],
  """
import matplotlib.axes as ma
from bdld.actions import fes_action as fa
got = []
old = ma.Axes.plot
def rec(self, x, y, *a, **k):
    got.append(len(y))
    return old(self, x, y, *a, **k)
ma.Axes.plot = rec
with tempfile.TemporaryDirectory() as d:
    for n in (10, 100):
        del got[:]
        fa.plot_fes(np.zeros(n), [np.arange(float(n))], ref=np.ones(n), filename=d + "/p.png")
        check(len(got) == 2, "%d curves" % len(got))
""", "one-dimensional histograms of at least 64 bins", "the reference surface is missing in the plot")
