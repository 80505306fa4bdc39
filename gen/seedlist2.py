A = "bdld/actions/"
B = A + "birth_death.py"
SEEDS = []


def s(id, prop, edits, demo, needs, what):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, what=what))


s("c01-single", "C01",
  [(A + "trajectory_action.py", "self.positions = np.empty((self.write_stride, n_particles, ld.pot.n_dim))",
    "self.positions = np.empty(\n            (self.write_stride, n_particles, ld.pot.n_dim), dtype=np.float32\n        )  # half the memory")],
  """
pos = "0.123456789"
code, f, _ = run(text(ld=dict(LD, n_steps="1", timestep="1e-30"), potential=POT, particles={"number": "2", "initial-distribution": "fractions-pos", "pos1": pos, "fractions": "1"},
    trajectories={"filename": "t", "fmt": "%.12e"}))
check(code == 0, "run failed")
check(abs(rows(f["t.0"])[0, 1] - float(pos)) < 1e-12, "position %r" % rows(f["t.0"])[0, 1])
""", "positions that are not single precision numbers and a format with more than 7 significant digits", "trajectories are stored in single precision")

s("c01-names", "C01",
  [(A + "trajectory_action.py", 'f"{filename}.{i}" for i in range(n_particles)]', 'f"{filename}.{i % 1000}" for i in range(n_particles)]')],
  """
code, f, _ = run(text(ld=dict(LD, n_steps="1"), potential=POT, particles=dict(PART, number="1003"), trajectories={"filename": "t"}))
check(code == 0, "run failed")
names = {"t.%d" % i for i in range(1003)}
check(names <= set(f) and all(len(rows(f[n])) == 1 for n in names), "files %d" % len(names & set(f)))
""", "more than 1000 particles", "trajectories of particle 1000 and later go to the files of the first ones")

s("c02-int16", "C02",
  [(A + "particle_distribution.py", "                (self.write_stride // self.stride, len(self.states) + 1)\n", "                (self.write_stride // self.stride, len(self.states) + 1), dtype=np.int16\n")],
  """
code, f, _ = run(text(ld=dict(LD, n_steps="33000", timestep="1e-6"), potential=POT, particles=dict(PART, number="1"),
    particle_distribution={"stride": "3000", "filename": "p", "state1-min": "-3", "state1-max": "3"}))
check(code == 0, "run failed")
check(np.array_equal(rows(f["p"])[:, 0], np.arange(3000, 33001, 3000)), "steps %s" % rows(f["p"])[:, 0])
""", "runs of more than 32767 time steps", "the time step of a record wraps around")

s("c03-open", "C03",
  [(A + "delta_f_action.py", '            with open(self.filename, "ab") as f:\n                np.savetxt(\n                    f,\n                    save_data,\n                    delimiter=" ",\n                    newline="\\n",\n                    fmt=self.write_fmt,\n                )',
    '            if not hasattr(self, "_file"):  # opening it each time is slow\n                self._file = open(self.filename, "ab")\n            np.savetxt(\n                self._file,\n                save_data,\n                delimiter=" ",\n                newline="\\n",\n                fmt=self.write_fmt,\n            )\n            if step % self.write_stride:\n                self._file.flush()')],
  """
import subprocess
src = '''
import sys, os
sys.path.insert(0, %r)
from lib import *
import bdld.actions.overdamped_ld as o
old = o.OverdampedLD.run
def new(self, step):
    if step == 7:
        os._exit(9)
    return old(self, step)
o.OverdampedLD.run = new
os.chdir(%r)
sys.argv = ["bdld", "input"]
bmain.main()
'''
with tempfile.TemporaryDirectory() as d:
    with open(d + "/input", "w") as fh:
        fh.write(text(ld=LD, potential=POT, particles=PART, trajectories={"write-stride": "1"}, histogram={"min": "-3", "max": "3", "bins": "2"}, fes={"kt": "1", "stride": "1"},
            delta__f={"stride": "2", "write-stride": "2", "filename": "d", "state1-min": "-3", "state1-max": "0", "state2-min": "0", "state2-max": "3"}).replace("delta--f", "delta-f"))
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", src % (HERE, d)], cwd=REPO, stdout=subprocess.DEVNULL)
    check(r.returncode == 9, "child %d" % r.returncode)
    n = len(rows(open(d + "/d").read()))
    check(n == 3, "%d rows after the crash at step 7" % n)
""", "a crash after regular writes of the delta-f file, before any final write", "written rows stay in the buffer of an open file and are lost when the run dies")

s("c04-resets", "C04",
  [(A + "histogram_action.py", "        if step in self.reset:\n", "        if self.reset and step == self.reset[0]:\n            self.reset = self.reset[1:]\n")],
  """
P1 = {"number": "3", "initial-distribution": "fractions-pos", "pos1": "0.5", "fractions": "1"}
for res in ("4,12", "12,4"):
    code, f, _ = run(text(ld=dict(LD, timestep="1e-9"), potential=POT, particles=P1, trajectories={"write-stride": "1"},
        histogram={"min": "-3", "max": "3", "bins": "2", "filename": "h", "reset": res}))
    check(code == 0, "run failed")
    check(list(rows(f["h"])[:, -1]) == [0, 18], "counts %s with resets at %s" % (rows(f["h"])[:, -1], res))
""", "several reset times that are not given in increasing order", "resets given out of order are skipped")

s("c04-single", "C04",
  [("bdld/histogram.py", "tmp_histo, _ = np.histogramdd(data, bins=self.bins)", "tmp_histo, _ = np.histogramdd(np.asarray(data, dtype=np.float32), bins=self.bins)")],
  """
pos = "0.999999999"
code, f, _ = run(text(ld=dict(LD, timestep="1e-30", n_steps="4"), potential=POT, particles={"number": "3", "initial-distribution": "fractions-pos", "pos1": pos, "fractions": "1"},
    histogram={"min": "0", "max": "2", "bins": "2", "filename": "h"}, trajectories={}))
check(code == 0, "run failed")
check(list(rows(f["h"])[:, -1]) == [12, 0], "counts %s" % rows(f["h"])[:, -1])
""", "a position within single precision of a bin edge", "positions close to an edge are counted in the neighbouring bin")

s("c05-cap", "C05",
  [(A + "delta_f_action.py", "state_probs = [np.sum(probabilities[m]) for m in masks]", "state_probs = [np.sum(probabilities[m], where=probabilities[m] > 2e-3) for m in masks]")],
  """
P1 = {"number": "600", "initial-distribution": "fractions-pos", "pos1": "0.5", "pos2": "-0.5", "fractions": "599,1"}
code, f, _ = run(text(ld=dict(LD, timestep="1e-30", n_steps="1"), potential=POT, particles=P1, trajectories={},
    histogram={"min": "-1", "max": "1", "bins": "2"}, fes={"kt": "2"},
    delta_f={"filename": "d", "state1-min": "0", "state1-max": "1", "state2-min": "-1", "state2-max": "0"}))
check(code == 0, "run failed")
check(abs(rows(f["d"])[0, 1] - 2 * np.log(599)) < 1e-6, "delta F %r" % rows(f["d"])[0, 1])
""", "a bin with less than 1/500 of the counts of the most populated one", "rarely visited bins do not count for their state")

s("c06-tol", "C06",
  [("bdld/tools.py", "(pos[:, i] <= state[i][1])", "(pos[:, i] <= state[i][1] + 1e-8)")],
  """
for pos, n in (("1.000000001", 0), ("1.0", 3), ("0.999999999", 3)):
    code, f, _ = run(text(ld=dict(LD, timestep="1e-60", n_steps="1"), potential=POT, particles={"number": "3", "initial-distribution": "fractions-pos", "pos1": pos, "fractions": "1"},
        particle_distribution={"stride": "1", "filename": "p", "state1-min": "0", "state1-max": "1"}))
    check(code == 0, "run failed")
    check(rows(f["p"])[0, 1] == n, "%s particles for %s" % (rows(f["p"])[0, 1], pos))
""", "a walker very close above the upper face of a box", "walkers just outside the box are counted")

s("c07-mass", "C07",
  [(B, "            self.particles[kill] = copy.deepcopy(self.particles[dup])", "            new = copy.deepcopy(self.particles[dup])\n            new.mass = self.particles[kill].mass\n            self.particles[kill] = new")],
  """
p = poly([0, 0, 1])
ld = quiet(actions.bussi_parinello_ld.BussiParinelloLD, p, 0.1, 1.0, 1.0, 1)
quiet(ld.add_particle, [0.0], mass=1.0)
quiet(ld.add_particle, [1.0], mass=4.0)
bd = quiet(actions.birth_death.BirthDeath, ld.particles, 0.1, 1, [0.5], 1.0)
bd.perform_moves([(1, 0)])
a, b = ld.particles
check(a.mass == 4.0 and a.pos[0] == 1.0 and a is not b, "mass %r" % a.mass)
""", "walkers of different mass", "the copy keeps the mass of the overwritten walker")

s("c08-recent", "C08",
  [(B, "                if i not in kill_list:", "                if i not in kill_list[-8:]:")],
  """
class R:
    def __init__(s, n): s.n = n; s.k = 0
    def random(s, n): return np.zeros(n)
    def shuffle(s, x):
        x[:] = np.arange(s.n)
    def integers(s, m):
        s.k += 1
        return m - 1 if s.k == 1 else 0
n = 14
p = poly([0, 0, 1], -60, 60)
ld = quiet(actions.overdamped_ld.OverdampedLD, p, 0.1, 1)
xs = [4.0 * i for i in range(n - 1)] + [0.0]
for x in [60.0 - x for x in xs]:
    quiet(ld.add_particle, [x])
class E:  # rates are fixed: first walker duplicates, all others die
    pass
bd = quiet(actions.birth_death.BirthDeath, ld.particles, 0.1, 1, [0.5], 1.0)
bd.rng = R(n)
bd.calc_betas = lambda: np.array([-1.0] + [1.0] * (n - 1))
ev = bd.do_birth_death()
kills = [int(k) for _, k in ev]
check(len(ev) == n - 1 and len(set(kills)) == n - 1, "events %s" % ev)
""", "a round with more than eight events between the overwriting of a walker and its own turn", "a walker that was already overwritten gets an event of its own")

s("c09-near", "C09",
  [(B, "        num = self.rng.integers(num_part - 1)\n", "        num = self.rng.integers(min(num_part - 1, 64))\n")],
  """
p = poly([0, 0, 1])
ld = quiet(actions.overdamped_ld.OverdampedLD, p, 0.1, 1)
for _ in range(100):
    quiet(ld.add_particle, [0.0])
bd = quiet(actions.birth_death.BirthDeath, ld.particles, 0.1, 1, [0.5], 1.0, seed=1)
seen = {int(bd.random_other(100, 7)) for _ in range(5000)}
check(seen == set(range(100)) - {7}, "%d partners" % len(seen))
""", "more than 65 walkers", "walkers of high index are never chosen as partners")

s("c09-roll", "C09",
  [(B, "            self.rng.shuffle(particle_indices)", "            particle_indices = np.roll(particle_indices, self.rng.integers(num_part))")],
  """
p = poly([0, 0, 1])
seen = set()
for seed in range(120):
    ld = quiet(actions.overdamped_ld.OverdampedLD, p, 0.1, 1)
    for x in (0.0, 1.0, 2.0):
        quiet(ld.add_particle, [x])
    bd = quiet(actions.birth_death.BirthDeath, ld.particles, 0.1, 1, [0.5], 1.0, recalc_probs=True, seed=seed)
    order = []
    class Beta:
        def __getitem__(s, i):
            if not order or order[-1] != int(i):
                order.append(int(i))
            return 0.0
    bd.calc_betas = Beta
    r = bd.rng
    class G:
        def __getattr__(s, k): return getattr(r, k)
        def random(s, n): return np.ones(n)
    bd.rng = G()
    bd.do_birth_death()
    seen.add(tuple(order))
check(len(seen) == 6, "orders %s" % sorted(seen))
""", "recalculation with at least three walkers", "walkers are processed in cyclic order, only the start is random")

s("c10-uint8", "C10",
  [(B, "            curr_kill_attempts = np.count_nonzero(beta > 0)", "            curr_kill_attempts = int(np.sum(beta > 0, dtype=np.uint8))")],
  """
code, f, _ = run(text(ld=dict(LD, n_steps="1"), potential=POT, particles=dict(PART, number="900"),
    birth_death={"stride": "1", "kernel-bandwidth": "0.5", "seed": "1", "stats-stride": "1", "stats-filename": "s"}))
check(code == 0, "run failed")
r = rows(f["s"])[0]
p = poly([0, 0, 1])
check(256 < r[4] < 800 and r[2] + r[4] == 900, "statistics %s" % r)
""", "more than 255 walkers with a positive rate", "death attempts are counted modulo 256 and the rest as birth attempts")

s("c11-linear", "C11",
  [(A + "bussi_parinello_ld.py", "np.exp(-0.5 * friction * dt)", "np.exp(-0.5 * friction * dt) if friction * dt > 0.02 else 1 - 0.5 * friction * dt")],
  """
p = poly([0, 0, 1])
for fr, dt in ((10.0, 0.1), (0.15, 0.1), (1.9, 0.01)):
    ld = quiet(actions.bussi_parinello_ld.BussiParinelloLD, p, dt, fr, 1.0, 1)
    check(abs(ld.c1 - np.exp(-fr * dt / 2)) < 1e-9, "c1 %r" % ld.c1)
""", "a small product of friction and timestep", "the exponential is replaced by its linear approximation")

s("c14-zip", "C14",
  [("bdld/main.py", "ld.add_particle(rng.choice(init_pos_choices, axis=0), mass)", "ld.add_particle([rng.choice(c) for c in zip(*init_pos_choices)], mass)")],
  """
code, f, _ = run(text(ld=dict(LD, n_steps="1", timestep="1e-30"), potential=POT2, particles={"number": "20", "initial-distribution": "random-pos", "pos1": "1,2", "pos2": "-1,-2", "seed": "1"},
    trajectories={"filename": "t"}), CO2)
check(code == 0, "run failed")
for i in range(20):
    x = rows(f["t.%d" % i])[0, 1:3]
    check(x[0] * x[1] > 0, "particle at %s" % x)
""", "random-pos with several positions in more than one dimension", "coordinates of different positions are mixed")

s("c15-onestate", "C15",
  [("bdld/main.py", "    if len(state_ranges) < 2:", "    if len(state_ranges) < 1:")],
  """
code, f, _ = run(text(ld=LD, potential=POT, particles=PART, trajectories={}, histogram={"min": "-3", "max": "3", "bins": "4"}, fes={"kt": "1"},
    delta_f={"filename": "d", "state1-min": "-3", "state1-max": "0"}))
check(code != 0, "delta-f with a single state was accepted")
""", "a delta-f section with a single state", "a delta-f section without a second state is accepted")

s("c16-later", "C16",
  [(A + "trajectory_action.py", "                initialize_file(fname, ifields)", "                if i < 20:\n                    initialize_file(fname, ifields)\n                else:  # looking for backup names is slow for many files\n                    with open(fname, \"w\") as f:\n                        f.write(\"#! FIELDS \" + \" \".join(ifields) + \"\\n\")")],
  """
with tempfile.TemporaryDirectory() as d:
    txt = text(ld=LD, potential=POT, particles=dict(PART, number="24"), trajectories={"filename": "t"})
    check(run(txt, cwd=d)[0] == 0, "run failed")
    old = {i: open(d + "/t.%d" % i).read() for i in range(24)}
    check(run(txt.replace("seed: 3", "seed: 4"), cwd=d)[0] == 0, "run failed")
    for i in range(24):
        check(os.path.exists(d + "/bck.0.t.%d" % i) and open(d + "/bck.0.t.%d" % i).read() == old[i], "trajectory %d lost" % i)
""", "more than 20 walkers and existing trajectory files", "existing trajectory files of later walkers are overwritten")

s("c17-long", "C17",
  [(A + "bussi_parinello_ld.py", "np.random.default_rng(seed)", "np.random.default_rng(seed if seed is None or seed < 2**32 else None)")],
  """
txt = text(ld=dict(BP, seed=str(2**40 + 7)), potential=POT, particles=PART, trajectories={"filename": "t"})
a, b = run(txt), run(txt)
check(a[0] == 0 and a[1] == b[1], "two runs differ")
""", "a seed of more than 32 bits", "such a seed is ignored and the run is not reproducible")

s("c18-sort", "C18",
  [(A + "histogram_action.py", "            self.histo.add(data.reshape(-1, data.shape[-1]))\n            self.last_update = step\n        if self.write", "            samples = data.reshape(-1, data.shape[-1])\n            self.histo.add(samples)\n            self.last_update = step\n            if self.stride > 2:  # improves locality\n                self.traj_action.ld.particles.sort(key=lambda p: p.pos[0])\n        if self.write")],
  """
def go(**more):
    code, f, _ = run(text(ld=LD, potential=POT, particles=PART, trajectories={"filename": "t", "write-stride": "2"}, **more))
    check(code == 0, "run failed")
    return [f["t.%d" % i] for i in range(4)]
check(go() == go(histogram={"min": "-3", "max": "3", "bins": "4", "stride": "3"}), "the histogram changes the trajectories")
""", "a histogram with a stride larger than two and updates during the run", "walkers are reordered, so the trajectories differ")

s("c20-large", "C20",
  [("bdld/grid.py", "            self.points(), self.data.flatten(), points, method, fill_value\n", "            self.points(),\n            self.data.flatten(),\n            points,\n            method if np.prod(self.n_points) <= 200 else \"nearest\",  # triangulation is slow\n            fill_value,\n")],
  """
for n in (5, 20):
    g = grid.from_npoints([(0.0, 1.0), (0.0, 2.0)], [n, n])
    g.data = np.array([p[0] + 3 * p[1] for p in g.points()])
    v = float(np.ravel(g.interpolate(np.array([[0.511, 0.777]]), "linear", 0.0))[0])
    check(abs(v - (0.511 + 3 * 0.777)) < 1e-9, "interpolated %r" % v)
""", "a grid with more than 200 points", "values between the grid points are those of the nearest point")

s("c22-points", "C22",
  [(B, "grid.sparsify(conv, [101] * conv.n_dim, \"linear\")", "grid.sparsify(conv, [21] * conv.n_dim, \"linear\")")],
  """
p = poly([0, 0, 1], -6, 6)
bd = actions.birth_death
dens = p.calculate_probability_density(1.0, [(-6.0, 6.0)], [601])
class P: pass
ps = []
for x in (0.3, -0.6):
    q = P(); q.pos = np.array([x]); q.energy = x * x; ps.append(q)
b = quiet(bd.BirthDeath, ps, 0.1, 1, [0.1], 1.0, approx_variant=bd.ApproxVariant.mult, eq_density=dens)
beta = b.calc_betas()
s2 = 0.5 + 0.01
e = [x * x / 2 / s2 for x in (0.3, -0.6)]
check(abs((beta[0] - beta[1]) - (e[0] - e[1])) < 0.02, "rates %s" % beta)
""", "walkers between the points of the coarse grid", "the smoothed density is interpolated on a much too coarse grid")

s("c23-before", "C23",
  [(A + "fes_action.py", "        if self.stride and step % self.stride == 0:\n            self.fes = calculate_fes(self.histo_action.histo, self.kt)\n        if self.write_stride and step % self.write_stride == 0:\n            self.write(step)\n        if self.plot_stride and step % self.plot_stride == 0:\n            self.plot(step)",
    "        if self.plot_stride and step % self.plot_stride == 0:\n            self.plot(step)\n        if self.stride and step % self.stride == 0:\n            self.fes = calculate_fes(self.histo_action.histo, self.kt)\n        if self.write_stride and step % self.write_stride == 0:\n            self.write(step)")],
  """
import bdld.actions.fes_action as fa
got = []
old = fa.plot_fes
def rec(fes, *a, **k):
    got.append((k.get("filename"), np.array(fes)))
    return old(fes, *a, **k)
fa.plot_fes = rec
code, f, _ = run(text(ld=dict(LD, n_steps="6"), potential=POT, particles=dict(PART, number="30"), trajectories={"write-stride": "2"},
    histogram={"min": "-3", "max": "3", "bins": "4"}, fes={"kt": "1", "stride": "2", "plot-stride": "2", "plot-filename": "p.png", "filename": "f", "write-stride": "2"}))
check(code == 0, "run failed")
for name, fes in got:
    if "_" in name:
        w = rows(f["f" + name[1:].replace(".png", "")])[:, -1]
        check(np.allclose(fes[np.isfinite(w)], w[np.isfinite(w)]), "plot %s" % name)
check(len(got) == 4, "plots %s" % [n for n, _ in got])
""", "plots during the run", "a plot shows the surface of the calculation before")

s("c23-domain", "C23",
  [(A + "fes_action.py", "            vmin, vmax = plot_domain\n", "            vmin, vmax = 0, plot_domain[1]\n")],
  """
import bdld.actions.fes_action as fa, matplotlib.axes as ma
got = []
old = ma.Axes.imshow
def rec(self, X, *a, **k):
    im = old(self, X, *a, **k)
    got.append(im.get_clim())
    return im
ma.Axes.imshow = rec
with tempfile.TemporaryDirectory() as d:
    fa.plot_fes(np.arange(6.0).reshape(2, 3), [np.arange(2.0), np.arange(3.0)], plot_domain=(1.5, 4.0), filename=d + "/p.png")
check(got and tuple(map(float, got[0])) == (1.5, 4.0), "values shown %s" % got)
""", "a two-dimensional surface and a plot-domain that does not start at zero", "the lower end of the plot-domain is ignored")

s("c23-square", "C23",
  [(A + "fes_action.py", "            extent=(axes[0][0], axes[0][-1], axes[-1][0], axes[-1][-1]),", "            extent=(axes[0][0], axes[0][-1], axes[0][0], axes[0][-1]),")],
  """
import bdld.actions.fes_action as fa, matplotlib.axes as ma
got = []
old = ma.Axes.imshow
def rec(self, X, *a, **k):
    im = old(self, X, *a, **k)
    got.append(im.get_extent())
    return im
ma.Axes.imshow = rec
with tempfile.TemporaryDirectory() as d:
    fa.plot_fes(np.arange(6.0).reshape(2, 3), [np.array([0.0, 1.0]), np.array([5.0, 6.0, 7.0])], filename=d + "/p.png")
e = [float(v) for v in got[0]]
check(abs(e[0]) <= 0.51 and abs(e[1] - 1) <= 0.51 and abs(e[2] - 5) <= 0.51 and abs(e[3] - 7) <= 0.51, "extent %s" % e)
""", "a two-dimensional surface with different ranges", "the vertical axis of the plot has the coordinates of the horizontal one")
