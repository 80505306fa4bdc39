A = "bdld/actions/"
SEEDS = []


def s(id, prop, edits, demo, needs, what):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, what=what))


s("c01-offset", "C01",
  [(A + "action.py", "first_element -= (last_write % stride) // update_stride", "first_element -= (already_written % (stride // update_stride))")],
  """
code, f, _ = run(text(ld=dict(LD, n_steps="20"), potential=POT, particles=PART, trajectories={"filename": "t", "stride": "4", "write-stride": "6"}))
check(code == 0, "run failed")
t = rows(f["t.0"])[:, 0]
check(np.allclose(t, np.arange(4, 21, 4) * 0.01), "rows %s" % t)
""", "a trajectory stride that does not divide the write-stride and at least two writes", "rows of the wrong time steps are selected after the first write")

s("c01-lastwrite", "C01",
  [(A + "trajectory_action.py", "                self.last_write = step\n", "                if len(save_data):\n                    self.last_write = step\n")],
  """
for st, ws, n in [(7, 3, 21), (5, 2, 20), (7, 2, 28)]:
    code, f, _ = run(text(ld=dict(LD, n_steps=str(n)), potential=POT, particles=PART, trajectories={"filename": "t", "stride": str(st), "write-stride": str(ws)}))
    check(code == 0, "run failed")
    t = rows(f["t.1"])
    check(len(t) == n // st and np.allclose(t[:, 0], np.arange(st, n + 1, st) * 0.01), "rows %s" % t)
""", "a trajectory stride larger than the write-stride", "write intervals without a due row are merged although the buffer was overwritten")

s("c01-stale", "C01",
  [(A + "trajectory_action.py", "        self.ld = ld\n", "        self.ld = ld\n        self.walkers = list(ld.particles)  # avoid the attribute lookups in each step\n"),
   (A + "trajectory_action.py", "self.positions[row] = [p.pos for p in self.ld.particles]", "self.positions[row] = [p.pos for p in self.walkers]")],
  """
code, f, _ = run(text(ld=dict(LD, n_steps="6", timestep="0.001"), potential=dict(POT, coeffs="0,0,40"),
    particles={"number": "4", "initial-distribution": "fractions-pos", "pos1": "0", "pos2": "2.5", "fractions": "1,1"},
    birth_death={"stride": "1", "kernel-bandwidth": "0.5", "seed": "1", "exponential-factor": "10"},
    trajectories={"filename": "t"}, particle_distribution={"stride": "1", "filename": "p", "state1-min": "-3", "state1-max": "1"}))
check(code == 0, "run failed")
n = sum(abs(rows(f["t.%d" % i])[-1, 1]) < 1 for i in range(4))
check(n == rows(f["p"])[-1, 1], "%d walkers in state by trajectory, %s by distribution" % (n, rows(f["p"])[-1]))
""", "a birth-death event that replaced a walker", "trajectories follow the dead walker instead of the copy")

s("c01-momshift", "C01",
  [(A + "trajectory_action.py", "                    self.momentum, step, self.stride, 1, self.last_write\n                )\n", "                    self.momentum, step, self.stride, 1, self.last_write\n                )\n                self.last_write = step\n")],
  """
code, f, _ = run(text(ld=dict(BP, n_steps="9"), potential=POT, particles=dict(PART, number="3"),
    trajectories={"filename": "t", "momentum": "true", "write-stride": "9"}))
check(code == 0, "run failed")
check(all(len(rows(f["t.%d" % i])) == 9 for i in range(3)))
l = quiet(actions.bussi_parinello_ld.BussiParinelloLD, poly([0, 0, 1]), 0.05, 5, 1, 1)
l.add_particle([0.5])
import tempfile, os
d = tempfile.mkdtemp(); os.chdir(d)
t = quiet(actions.trajectory_action.TrajectoryAction, l, 2, "t", True, 5)
for k in range(1, 13):
    l.run(k); t.run(k)
t.final_run(12)
r = rows(open("t.0").read()); os.remove("t.0"); os.rmdir(d)
check(len(r) == 6 and np.allclose(r[:, 0], np.arange(2, 13, 2) * 0.05), "rows %s" % r[:, 0])
""", "x", "x")
SEEDS.pop()  # harmless, not a bug

s("c01-extra", "C01",
  [(A + "action.py", "    if stride == update_stride and already_written == 0 and last_element == 0:\n", "    if stride == update_stride and last_element == 0:\n")],
  """
import os, tempfile
l = quiet(actions.overdamped_ld.OverdampedLD, poly([0, 0, 1]), 0.01, 1)
l.add_particle([0.5])
d = tempfile.mkdtemp(); os.chdir(d)
t = quiet(actions.trajectory_action.TrajectoryAction, l, 1, "t", False, 5)
for k in range(1, 11):
    l.run(k); t.run(k)
    if k == 3:
        t.write(k)
t.final_run(10)
r = rows(open("t.0").read()); os.remove("t.0"); os.chdir("/"); os.rmdir(d)
check(len(r) == 10 and np.allclose(r[:, 0], np.arange(1, 11) * 0.01), "rows %s" % r[:, 0])
""", "writing out in the middle of a write interval", "rows written by the additional write appear again")

s("c02-nostride", "C02",
  [(A + "particle_distribution.py", "        else:  # just store one data set\n            self.counts = np.empty((len(self.states) + 1))\n", "        else:  # just store one data set\n            self.counts = np.zeros((len(self.states) + 1))\n            self.write_stride = write_stride or 0\n")],
  """
code, f, _ = run(text(ld=LD, potential=POT, particles=PART, particle_distribution={"filename": "p", "write-stride": "4", "state1-min": "-3", "state1-max": "1"}))
check(code == 0, "run failed")
check(len(rows(f["p"])) == 1, "rows %s" % rows(f["p"]))
""", "a write-stride without a stride", "rows are written although no distribution was calculated")

s("c02-default", "C02",
  [(A + "particle_distribution.py", "self.write_stride = write_stride or self.stride * 100", "self.write_stride = write_stride or max(100, self.stride)")],
  """
code, f, o = run(text(ld=dict(LD, n_steps="40"), potential=POT, particles=PART, particle_distribution={"filename": "p", "stride": "7", "state1-min": "-3", "state1-max": "1"}))
check(code == 0, "run failed " + o[-200:])
check(list(rows(f["p"])[:, 0]) == [7, 14, 21, 28, 35])
""", "no write-stride and a stride that does not divide 100", "a valid input is refused or rows are misplaced")

s("c02-row", "C02",
  [(A + "delta_f_action.py", "row = (step % self.write_stride) // self.stride - 1", "row = (step // self.stride - 1) % 100")],
  """
st = {"state1-min": "-3", "state1-max": "0", "state2-min": "0", "state2-max": "3"}
for ws in ("4", "6", "20"):
    code, f, o = run(text(ld=dict(LD, n_steps="20"), potential=POT, particles=PART, trajectories={"write-stride": "2"}, histogram={"min": "-3", "max": "3", "bins": "2"},
       fes={"kt": "1", "stride": "2"}, delta_f=dict(st, filename="d", stride="2", **{"write-stride": ws})))
    check(code == 0, "run failed " + o[-200:])
    check(np.allclose(rows(f["d"])[:, 0], np.arange(2, 21, 2) * 0.01), "times")
""", "an explicit write-stride that is no multiple of 100 strides", "delta-f rows are stored at the wrong place or not at all")

s("c03-buffer", "C03",
  [(A + "trajectory_action.py", """                with open(filename, "ab") as f:
                    np.savetxt(
                        f,
                        save_data,
                        delimiter=" ",
                        newline="\\n",
                        fmt=self.write_fmt,
                    )
                self.last_write = step
""", """                # keep the files open to avoid the overhead of opening them in each write
                if filename not in self._files:
                    self._files[filename] = open(filename, "ab")
                np.savetxt(
                    self._files[filename],
                    save_data,
                    delimiter=" ",
                    newline="\\n",
                    fmt=self.write_fmt,
                )
                self.last_write = step
"""), (A + "trajectory_action.py", "        self.write(step)\n\n    def write(", "        self.write(step)\n        for f in self._files.values():\n            f.close()\n        self._files.clear()\n\n    def write("),
   (A + "trajectory_action.py", "        self.last_write: int = 0\n", "        self.last_write: int = 0\n        self._files = {}\n")],
  """
import os, tempfile, shutil
d = tempfile.mkdtemp()
pid = os.fork()
if pid == 0:
    c = actions.overdamped_ld.OverdampedLD
    old, n = c.run, [0]
    def step(self, *a, **k):
        n[0] += 1
        if n[0] == 8:
            os._exit(0)
        return old(self, *a, **k)
    c.run = step
    run(text(ld=LD, potential=POT, particles=PART, trajectories={"filename": "t", "write-stride": "3"}), cwd=d)
    os._exit(0)
os.waitpid(pid, 0)
r = rows(open(d + "/t.0").read()); shutil.rmtree(d)
check(len(r) == 6, "%d rows on disk" % len(r))
""", "the process is killed between two writes", "data of passed write times is still in a userspace buffer and lost")

s("c03-stats", "C03",
  [(A + "birth_death.py", """                with open(self.stats_filename, "ab") as f:
                    np.savetxt(
                        f,
                        stats,
""", """                self.pending.append(stats)
                if len(self.pending) < 4 and not final:
                    return
                stats = np.concatenate(self.pending)
                self.pending = []
                with open(self.stats_filename, "ab") as f:
                    np.savetxt(
                        f,
                        stats,
"""), (A + "birth_death.py", "        def print(self, step: int, reset: bool = False) -> None:", "        def flush(self) -> None:\n            \"\"\"Write the pending statistics\"\"\"\n            if self.stats_filename and self.pending:\n                with open(self.stats_filename, \"ab\") as f:\n                    np.savetxt(f, np.concatenate(self.pending), fmt=\"%d\")\n                self.pending = []\n\n        def print(\n            self, step: int, reset: bool = False, final: bool = False\n        ) -> None:"),
   (A + "birth_death.py", "        if not self.stats_stride:\n            self.stats.print(step)\n", "        if not self.stats_stride:\n            self.stats.print(step, final=True)\n        else:\n            self.stats.flush()\n"),
   (A + "birth_death.py", "            self.stats_filename: Optional[str] = filename\n", "            self.stats_filename: Optional[str] = filename\n            self.pending: List[np.ndarray] = []\n")],
  """
import os, tempfile, shutil
d = tempfile.mkdtemp()
pid = os.fork()
if pid == 0:
    c = actions.overdamped_ld.OverdampedLD
    old, n = c.run, [0]
    def step(self, *a, **k):
        n[0] += 1
        if n[0] == 8:
            os._exit(0)
        return old(self, *a, **k)
    c.run = step
    run(text(ld=LD, potential=POT, particles=PART, birth_death={"stride": "1", "kernel-bandwidth": "0.5", "stats-stride": "1", "stats-filename": "s"}), cwd=d)
    os._exit(0)
os.waitpid(pid, 0)
r = rows(open(d + "/s").read()); shutil.rmtree(d)
check(len(r) == 7, "%d rows on disk" % len(r))
code, f, _ = run(text(ld=LD, potential=POT, particles=PART, birth_death={"stride": "1", "kernel-bandwidth": "0.5", "stats-stride": "1", "stats-filename": "s"}))
check(len(rows(f["s"])) == 10)
""", "the run dies between two statistics records", "statistics that were due are still in memory")

s("c04-resetfirst", "C04",
  [(A + "histogram_action.py", """        if self.write_stride and step % self.write_stride == 0:
            self.write(step)
        if step in self.reset:
            logging.info("Reset of histogram at step %s", step)
            self.histo.clear()
""", """        if step in self.reset:
            logging.info("Reset of histogram at step %s", step)
            self.histo.clear()
        if self.write_stride and step % self.write_stride == 0:
            self.write(step)
""")],
  """
code, f, _ = run(text(ld=LD, potential=dict(POT, **{"boundary-condition": "periodic"}), particles=PART, trajectories={"write-stride": "2"},
  histogram={"min": "-3", "max": "3", "bins": "3", "filename": "h", "write-stride": "4", "reset": "4"}))
check(code == 0, "run failed")
check(rows(f["h_4"])[:, 1].sum() == 16, "counts %s" % rows(f["h_4"]))
""", "a reset at a time step at which a snapshot is written", "the snapshot misses everything collected before")

s("c04-upper", "C04",
  [("bdld/histogram.py", "        tmp_histo, _ = np.histogramdd(data, bins=self.bins)\n        self.data += tmp_histo\n", """        # direct counting is faster than histogramdd for few data points
        index = np.array(
            [np.searchsorted(b, d, side="right") - 1 for b, d in zip(self.bins, data.T)]
        )
        inside = np.all(
            (index >= 0) & (index < np.array(self.n_points).reshape(-1, 1)), axis=0
        )
        np.add.at(self.data, tuple(index[:, inside]), 1)
""")],
  """
h = histogram.Histogram([4], [(-1.0, 1.0)])
h.add(np.array([[1.0], [-1.0], [0.3], [2.0]]))
check(h.data.sum() == 3, "counts %s" % h.data)
""", "a position exactly at the upper end of the histogram range (e.g. a walker on a reflective boundary)", "such positions are not counted")

s("c05-skipfinal", "C05",
  [(A + "fes_action.py", "        self.fes = calculate_fes(self.histo_action.histo, self.kt)\n        self.write()\n", "        if not self.stride or step % self.stride != 0:\n            self.fes = calculate_fes(self.histo_action.histo, self.kt)\n        self.write()\n")],
  """
code, f, _ = run(text(ld=dict(LD, n_steps="10", timestep="0.3"), potential=dict(POT, **{"boundary-condition": "periodic"}), particles=PART, trajectories={"write-stride": "4"},
  histogram={"min": "-3", "max": "3", "bins": "5", "filename": "h"}, fes={"kt": "1", "stride": "5", "filename": "f"}))
check(code == 0, "run failed")
h, e = rows(f["h"])[:, 1], rows(f["f"])[:, 1]
with np.errstate(divide="ignore"):
    x = -np.log(h / h.max())
check(np.allclose(e, x, atol=1e-6), "%s %s" % (e, x))
""", "a number of steps that is a multiple of the fes stride but not of the trajectory write-stride", "the final free energies do not contain the last positions")

s("c05-mean", "C05",
  [(A + "delta_f_action.py", "state_probs = [np.sum(probabilities[m]) for m in masks]", "state_probs = [np.mean(probabilities[m]) for m in masks]")],
  """
from bdld.actions.delta_f_action import calculate_delta_f
fes = np.array([0.0, 1.0, 2.0, 0.5])
m = [np.array([True, False, False, False]), np.array([False, True, True, True])]
p = np.exp(-fes / 2.0)
check(np.allclose(calculate_delta_f(fes, 2.0, m), [-2.0 * np.log(p[1:].sum() / p[0])]))
""", "states with different numbers of bins", "the free energy difference is that of the average instead of the total populations")

s("c05-kt", "C05",
  [(A + "fes_action.py", "            self.fes = calculate_fes(self.histo_action.histo, self.kt)\n        if self.write_stride", "            self.fes = calculate_fes(\n                self.histo_action.histo, self.histo_action.traj_action.ld.kt\n            )\n        if self.write_stride")],
  """
code, f, _ = run(text(ld=dict(LD, n_steps="12"), potential=dict(POT, **{"boundary-condition": "periodic"}), particles=PART, trajectories={"write-stride": "4"},
  histogram={"min": "-3", "max": "3", "bins": "3", "filename": "h", "write-stride": "4"}, fes={"kt": "2", "stride": "4", "filename": "f", "write-stride": "4"}))
check(code == 0, "run failed")
h, e = rows(f["h_8"])[:, 1], rows(f["f_8"])[:, 1]
with np.errstate(divide="ignore"):
    x = -2 * np.log(h / h.max())
check(np.allclose(e, x, atol=1e-6), "%s %s" % (e, x))
""", "a kt in the fes section that differs from that of the dynamics, and snapshots", "the snapshots use another temperature than the final surface")

s("c06-strict", "C06",
  [("bdld/tools.py", "(pos[:, i] <= state[i][1])", "(pos[:, i] < state[i][1])")],
  """
from bdld.tools import pos_inside_ranges
r = pos_inside_ranges(np.array([[1.0], [0.5], [0.0], [1.5]]), [[(0.0, 1.0)], [(1.0, 2.0)]])
check([int(sum(x)) for x in r] == [3, 2], str(r))
""", "a walker exactly on the upper face of a box", "it is not counted")

s("c06-once", "C06",
  [(A + "particle_distribution.py", "        counts = [sum(state_bools) for state_bools in bool_lists]\n", "        counts = []\n        unassigned = np.ones(len(pos), dtype=bool)\n        for state_bools in bool_lists:\n            counts.append(sum(state_bools & unassigned))\n            unassigned &= ~state_bools\n")],
  """
code, f, _ = run(text(ld=dict(LD, timestep="0"), potential=POT, particles={"number": "3", "initial-distribution": "fractions-pos", "pos1": "0.5", "fractions": "1"},
   particle_distribution={"stride": "1", "filename": "p", "state1-min": "0", "state1-max": "1", "state2-min": "-1", "state2-max": "2"}))
check(code == 0, "run failed")
check((rows(f["p"])[:, 1:] == 3).all(), "counts")
""", "overlapping states", "a walker is only counted in the first of them")

s("c07-shallow", "C07",
  [(A + "birth_death.py", "self.particles[kill] = copy.deepcopy(self.particles[dup])", "self.particles[kill] = copy.copy(self.particles[dup])")],
  """
l = quiet(actions.overdamped_ld.OverdampedLD, poly([0, 0, 1]), 0.01, 1)
for x in (0.1, 0.2, 0.3):
    l.add_particle([x])
b = quiet(actions.birth_death.BirthDeath, l.particles, 0.01, 1, [0.5], 1.0)
b.perform_moves([(0, 1)])
l.run(1)
check(l.particles[0].pos[0] != l.particles[1].pos[0], "copy moves with the original")
""", "steps after a birth-death event", "copy and original share their position array")

s("c07-snapshot", "C07",
  [(A + "birth_death.py", "        for dup, kill in event_list:\n            self.particles[kill] = copy.deepcopy(self.particles[dup])\n", "        # copy first, as the list changes during the moves\n        originals = [copy.deepcopy(self.particles[dup]) for dup, _ in event_list]\n        for new_particle, (_, kill) in zip(originals, event_list):\n            self.particles[kill] = new_particle\n")],
  """
l = quiet(actions.overdamped_ld.OverdampedLD, poly([0, 0, 1]), 0.01, 1)
for x in (0.1, 0.2, 0.3):
    l.add_particle([x])
b = quiet(actions.birth_death.BirthDeath, l.particles, 0.01, 1, [0.5], 1.0)
b.perform_moves([(0, 1), (1, 2)])
check([p.pos[0] for p in l.particles] == [0.1, 0.1, 0.1], "events are not executed one after the other")
""", "two events of one round where the copied walker was itself replaced before", "a walker that no longer exists is brought back")
SEEDS.pop()  # either reading is defensible: statement does not fix it

s("c07-forces", "C07",
  [(A + "birth_death.py", "            self.particles[kill] = copy.deepcopy(self.particles[dup])\n", """            victim, source = self.particles[kill], self.particles[dup]
            victim.pos[:] = source.pos
            victim.mom[:] = source.mom
            victim.energy = source.energy
            victim.mass = source.mass
""")],
  """
l = quiet(actions.overdamped_ld.OverdampedLD, poly([0, 0, 1]), 0.01, 1)
for x in (0.1, 0.2, 3.0):
    l.add_particle([x])
b = quiet(actions.birth_death.BirthDeath, l.particles, 0.01, 1, [0.5], 1.0)
b.perform_moves([(0, 2)])
class Z:
    def standard_normal(self, n=None, size=None):
        return np.zeros(n if size is None else size)
l.rng = Z()
l.run(1)
check(l.particles[0].pos[0] == l.particles[2].pos[0], "copy moves differently than the original")
""", "the step after a birth-death event", "the copy is moved with the force of the dead walker")

s("c08-recalcskip", "C08",
  [(A + "birth_death.py", "            event_list = []\n            for i in particle_indices:\n                if beta[i] > 0:\n                    self.stats.kill_attempts += 1\n", "            event_list, killed = [], set()\n            for i in particle_indices:\n                if i in killed:\n                    continue\n                if beta[i] > 0:\n                    self.stats.kill_attempts += 1\n"),
   (A + "birth_death.py", "                    event_list.append(curr_event)\n", "                    event_list.append(curr_event)\n                    killed.add(curr_event[1])\n")],
  """
class R:
    def random(self, size=None):
        return np.zeros(size)
    def shuffle(self, x):
        pass
    def integers(self, *a, **k):
        return 0
l = quiet(actions.overdamped_ld.OverdampedLD, poly([0, 0, 8]), 1.0, 1)
for x in (0.0, 0.9, 1.5, 2.0):
    l.add_particle([x])
b = quiet(actions.birth_death.BirthDeath, l.particles, 1.0, 1, [0.4], 1.0, 50.0, True)
b.rng = R()
n = len(b.do_birth_death())
check(n == 4, "%d events" % n)
""", "recalculate-probabilities and a walker that is replaced before its turn", "it gets no turn")

s("c08-dupskip", "C08",
  [(A + "birth_death.py", "                if i not in kill_list:  # the move was accepted from the old beta!\n", "                # the move was accepted from the old beta!\n                if i not in kill_list and i not in dup_list:\n")],
  """
class R:
    def random(self, size=None):
        return np.zeros(size)
    def shuffle(self, x):
        pass
    def integers(self, *a, **k):
        return 0
l = quiet(actions.overdamped_ld.OverdampedLD, poly([0, 0, 8]), 1.0, 1)
for x in (2.0, 1.5, 0.0, 0.1):
    l.add_particle([x])
b = quiet(actions.birth_death.BirthDeath, l.particles, 1.0, 1, [0.4], 1.0, 50.0, False)
b.rng = R()
n = len(b.do_birth_death())
check(n == 4, "%d events" % n)
""", "a walker with an event of its own that was chosen as source of an earlier event", "its event is dropped")

s("c08-bw", "C08",
  [(A + "birth_death.py", "gauss_per_dim[i] = heights[i] * np.exp(-dist / (2 * bw[i] ** 2))", "gauss_per_dim[i] = heights[i] * np.exp(-dist / (2 * bw[0] ** 2))")],
  """
from bdld.actions.birth_death import walker_density, calc_kernel
pos = np.array([[0.0, 0.0], [0.3, 1.0], [1.0, -0.5]])
bw = np.array([0.3, 1.1])
ref = [np.mean(calc_kernel(pos[i] - pos, bw)) for i in range(3)]
check(np.allclose(walker_density(pos, bw), ref))
""", "different bandwidths per dimension", "the density of the walkers is wrong")

s("c08-cache", "C08",
  [(A + "birth_death.py", "            ene = np.array([p.energy for p in self.particles])\n            beta += ene * self.inv_kt\n", "            ene = np.array([p.energy for p in self.particles])\n            beta += ene\n"),
   (A + "birth_death.py", "        prob = 1 - np.exp(-np.abs(beta) * self.dt * self.rate_fac)\n", "        prob = 1 - np.exp(-np.abs(beta) * self.dt * self.rate_fac)\n") ][:1],
  """
l = quiet(actions.bussi_parinello_ld.BussiParinelloLD, poly([0, 0, 1]), 0.01, 1.0, 4.0, 1)
for x in (0.1, 1.0, 2.0):
    l.add_particle([x])
b = quiet(actions.birth_death.BirthDeath, l.particles, 0.01, 1, [0.5], 4.0)
from bdld.actions.birth_death import walker_density
q = np.log(walker_density(np.array([[0.1], [1.0], [2.0]]), np.array([0.5]))) + np.array([0.01, 1.0, 4.0]) / 4.0
check(np.allclose(b.calc_betas(), q - q.mean()))
""", "a temperature other than one", "the energies are not divided by kT")

s("c09-biased", "C09",
  [(A + "birth_death.py", "        num = self.rng.integers(num_part - 1)\n        if num >= excl:\n            num += 1\n        return num\n", "        num = self.rng.integers(num_part)\n        if num == excl:\n            num = (num + 1) % num_part\n        return num\n")],
  """
l = quiet(actions.overdamped_ld.OverdampedLD, poly([0, 0, 1]), 0.01, 1)
for x in (0.1, 0.2, 0.3, 0.4):
    l.add_particle([x])
b = quiet(actions.birth_death.BirthDeath, l.particles, 0.01, 1, [0.5], 1.0, seed=7)
c = np.bincount([b.random_other(4, 1) for _ in range(9000)], minlength=4)
check(c[1] == 0 and all(abs(c[i] - 3000) < 300 for i in (0, 2, 3)), str(c))
""", "many events (only a distribution can show it)", "the walker after the acting one is chosen twice as often")

s("c09-order", "C09",
  [(A + "birth_death.py", "            self.rng.shuffle(event_particles)\n", "            if len(event_particles) > 2:  # shuffling is not needed for few events\n                self.rng.shuffle(event_particles)\n")],
  """
first = []
for seed in range(300):
    l = quiet(actions.overdamped_ld.OverdampedLD, poly([0, 0, 0]), 1.0, 1)
    for x in (0.0, 1.0):
        l.add_particle([x])
    l.particles[0].energy = 5.0
    b = quiet(actions.birth_death.BirthDeath, l.particles, 1.0, 1, [0.4], 1.0, 1000.0, False, None, None, seed)
    ev = b.do_birth_death()
    first.append(b.stats.kill_count)
check(60 < sum(first) < 240, "kills %d of 300" % sum(first))
""", "rounds with exactly two events that exclude each other", "the lower index always goes first")

s("c10-reset", "C10",
  [(A + "birth_death.py", "        if self.stats_stride and step % self.stats_stride == 0:\n            self.stats.print(step)\n", "        if self.stats_stride and step % self.stats_stride == 0:\n            self.stats.print(step, reset=not self.stats.stats_filename)\n")],
  """
code, f, o = run(text(ld=LD, potential=POT, particles=PART, birth_death={"stride": "1", "kernel-bandwidth": "0.5", "stats-stride": "5"}))
import re
n = [int(a) + int(b) for a, b in zip(re.findall(r"Birth events: \\d+/(\\d+)", o), re.findall(r"Death events: \\d+/(\\d+)", o))]
check(n == [20, 40], str(n))
""", "statistics on screen and more than one record", "the counters restart at each record")

s("c10-order", "C10",
  [(A + "birth_death.py", "        if step % self.stride == 0:\n            self.do_birth_death()\n        if self.stats_stride and step % self.stats_stride == 0:\n            self.stats.print(step)\n", "        if self.stats_stride and step % self.stats_stride == 0:\n            self.stats.print(step)\n        if step % self.stride == 0:\n            self.do_birth_death()\n")],
  """
code, f, o = run(text(ld=LD, potential=POT, particles=PART, birth_death={"stride": "2", "kernel-bandwidth": "0.5", "stats-stride": "2", "stats-filename": "s"}))
check(list(rows(f["s"])[:, [2, 4]].sum(axis=1)) == [4, 8, 12, 16, 20], f["s"])
""", "a statistics record at a step with a birth-death round", "the round of that step is missing")

s("c10-dtfac", "C10",
  [("bdld/main.py", """            actions_dict["birth-death"] = setup_birth_death(config.birth_death, ld)
        if config.trajectories:
            actions_dict["trajectories"] = setup_trajectories(config.trajectories, ld)
""", """            actions_dict["birth-death"] = setup_birth_death(config.birth_death, ld)
        if config.trajectories:
            actions_dict["trajectories"] = setup_trajectories(config.trajectories, ld)
            if config.birth_death and not config.histogram:
                actions_dict.move_to_end("birth-death")
""")],
  """
code, f, _ = run(text(ld=dict(LD, n_steps="6", timestep="0.001"), potential=dict(POT, coeffs="0,0,40"),
    particles={"number": "4", "initial-distribution": "fractions-pos", "pos1": "0", "pos2": "2.5", "fractions": "1,1"},
    birth_death={"stride": "6", "kernel-bandwidth": "0.5", "seed": "1", "exponential-factor": "100"},
    trajectories={"filename": "t"}, particle_distribution={"stride": "1", "filename": "p", "state1-min": "-3", "state1-max": "1"}))
check(code == 0, "run failed")
n = sum(abs(rows(f["t.%d" % i])[-1, 1]) < 1 for i in range(4))
check(n == rows(f["p"])[-1, 1] and n == 4, "%d walkers in state by trajectory, %s by distribution" % (n, rows(f["p"])[-1]))
""", "trajectories without a histogram", "birth-death comes after the trajectory output of the step")

s("c11-scalar", "C11",
  [(A + "overdamped_ld.py", "self.rng.standard_normal(\n                self.pot.n_dim\n            )", "self.rng.standard_normal(\n                1\n            )")],
  """
l = quiet(actions.overdamped_ld.OverdampedLD, poly([[0.0]]), 0.01, 1)
l.add_particle([0.0, 0.0])
l.run(1)
check(l.particles[0].pos[0] != l.particles[0].pos[1], "same noise in both dimensions")
""", "more than one dimension", "all dimensions get the same noise")

s("c11-mass", "C11",
  [(A + "bussi_parinello_ld.py", "p.c2 = np.sqrt((1 - self.c1 * self.c1) * p.mass * self.kt)", "p.c2 = np.sqrt((1 - self.c1 * self.c1) * self.kt / p.mass)")],
  """
l = quiet(actions.bussi_parinello_ld.BussiParinelloLD, poly([0.0]), 0.1, 1.0, 1.0, 1)
l.add_particle([0.0], 4.0)
r = np.random.default_rng(1)
l.run(1)
c1 = np.exp(-0.05)
c2 = np.sqrt((1 - c1 * c1) * 4.0)
a, b = r.standard_normal(1), r.standard_normal(1)
check(np.allclose(l.particles[0].mom, c1 * c2 * a + c2 * b))
""", "a mass other than one", "the thermostat produces the wrong temperature")

s("c11-oldforce", "C11",
  [(A + "overdamped_ld.py", "            self.pot.apply_boundary_condition(p.pos, p.mom)\n            p.energy, p.forces = self.pot.evaluate(p.pos)\n", "            p.energy, p.forces = self.pot.evaluate(p.pos)\n            self.pot.apply_boundary_condition(p.pos, p.mom)\n")],
  """
pot = poly([0, 0, 1])
pot.boundary_condition = potential.potential.BoundaryCondition.reflective
l = quiet(actions.overdamped_ld.OverdampedLD, pot, 1.0, 1)
l.add_particle([0.0])
class Z:
    def standard_normal(self, n=None, size=None):
        return np.array([9.0])
l.rng = Z()
l.run(1)
check(l.particles[0].pos[0] == 3.0 and np.allclose(l.particles[0].forces, [-6.0]) and np.isclose(l.particles[0].energy, 9.0))
""", "a walker that hits the boundary", "the next step uses the force of the position outside")

s("c12-allmom", "C12",
  [("bdld/potential/potential.py", "                pos[i] = self.ranges[i][1]\n                mom[i] = -mom[i]\n", "                pos[i] = self.ranges[i][1]\n                mom *= -1\n")],
  """
pot = poly(np.ones((2, 2)))
pot.boundary_condition = potential.potential.BoundaryCondition.reflective
p, m = np.array([4.0, 0.5]), np.array([1.0, 2.0])
pot.apply_boundary_condition(p, m)
check(list(m) == [-1.0, 2.0] and list(p) == [3.0, 0.5])
""", "more than one dimension and the upper boundary", "the momenta of the other dimensions are reversed too")

s("c12-mirror", "C12",
  [("bdld/potential/potential.py", "                pos[i] = self.ranges[i][0]\n", "                pos[i] = min(2 * self.ranges[i][0] - x, self.ranges[i][1])\n")],
  """
pot = poly([0.0, 1.0])
pot.boundary_condition = potential.potential.BoundaryCondition.reflective
p, m = np.array([-3.5]), np.array([-1.0])
pot.apply_boundary_condition(p, m)
check(list(m) == [1.0] and list(p) == [-3.0])
""", "a walker below the lower boundary", "it is mirrored instead of put on the boundary")

s("c13-shift", "C13",
  [("bdld/potential/mueller_brown.py", "        pot += pot_shift\n        return (pot, force)\n", "        pot += pot_shift * self.scaling_factor\n        return (pot, force)\n")],
  """
p = potential.mueller_brown.MuellerBrownPotential(0.5)
x = np.array([0.1, 0.2])
check(np.isclose(p.evaluate(x)[0], p.energy(x)))
""", "a scaling factor", "energy and evaluate do not agree")

s("c13-norm", "C13",
  [("bdld/potential/potential.py", "prob /= np.sum(prob.data) * np.prod(prob.stepsizes)", "prob /= np.sum(prob.data) * prob.stepsizes[0] ** self.n_dim")],
  """
p = poly([[0.0, 1.0], [0.5, 0.2]])
g = p.calculate_probability_density(1.0, [(-1.0, 1.0), (-2.0, 3.0)], [11, 6])
check(np.isclose(g.data.sum() * 0.2 * 1.0, 1.0), str(g.data.sum() * 0.2))
""", "different step sizes per dimension", "the density is not normalised")

s("c13-coef", "C13",
  [("bdld/potential/polynomial.py", "    shape = [int(max(file_data[:, i])) + 1 for i in range(n_dim)]\n", "    shape = [int(file_data[-1, i]) + 1 for i in range(n_dim)]\n    shape = [max(s, int(max(file_data[:, :n_dim].flat)) + 1) for s in shape]\n    file_data = file_data[file_data[:, :n_dim].sum(axis=1) > 0]\n")],
  """
import tempfile, os
d = tempfile.mkdtemp()
open(d + "/c", "w").write("0 0 2.5\\n1 2 1.0\\n")
c = potential.polynomial.coefficients_from_file(d + "/c", 2)
os.remove(d + "/c"); os.rmdir(d)
check(c[0, 0] == 2.5 and c[1, 2] == 1.0, str(c))
""", "a coefficient file with a constant term", "the constant is dropped")

s("c14-range", "C14",
  [("bdld/main.py", "pos = [rng.uniform(start, end) for start, end in ld.pot.ranges]", "pos = list(rng.uniform(*ld.pot.ranges[0], ld.pot.n_dim))")],
  """
pot = potential.mueller_brown.MuellerBrownPotential()
l = quiet(actions.overdamped_ld.OverdampedLD, pot, 0.01, 1)
quiet(bmain.init_particles, {"number": 200, "mass": 1.0, "initial-distribution": "random-global", "seed": 1}, l)
y = np.array([p.pos[1] for p in l.particles])
check(y.min() >= -0.5 and y.max() > 2.0, "%g %g" % (y.min(), y.max()))
""", "a potential with different ranges per dimension", "the range of the first one is used for all")

s("c14-offset", "C14",
  [("bdld/main.py", "counts[0] += options[\"number\"] - np.sum(counts)  # rounding offset", "counts[np.argmax(counts)] += options[\"number\"] - np.sum(counts)  # rounding offset")],
  """
l = quiet(actions.overdamped_ld.OverdampedLD, poly([0, 0, 1]), 0.01, 1)
quiet(bmain.init_particles, {"number": 7, "mass": 1.0, "initial-distribution": "fractions-pos", "seed": None, "pos1": [0.0], "pos2": [1.0], "fractions": [0.3, 0.7]}, l)
check(sum(p.pos[0] == 0.0 for p in l.particles) == 3, str([p.pos for p in l.particles]))
""", "fractions that do not divide the number of particles, the first one not being the largest", "the rest is added to another position")

s("c14-choices", "C14",
  [("bdld/main.py", "            ld.add_particle(rng.choice(init_pos_choices, axis=0), mass)", "            ld.add_particle(\n                init_pos_choices[int(rng.triangular(0, 1, 1) * len(init_pos_choices))], mass\n            )")],
  """
l = quiet(actions.overdamped_ld.OverdampedLD, poly([0, 0, 1]), 0.01, 1)
quiet(bmain.init_particles, {"number": 600, "mass": 1.0, "initial-distribution": "random-pos", "seed": 1, "pos1": [0.0], "pos2": [1.0], "pos3": [2.0]}, l)
n = [sum(p.pos[0] == x for p in l.particles) for x in (0.0, 1.0, 2.0)]
check(all(130 < k < 270 for k in n), str(n))
""", "many particles (only a distribution shows it)", "the positions are not equally likely")

s("c15-any", "C15",
  [("bdld/inputparser.py", "lambda lst: all(x > 0 for x in lst)", "lambda lst: any(x > 0 for x in lst)")],
  """
code, f, o = run(text(ld=LD, potential=POT2, particles=dict(PART, number="4"), birth_death={"stride": "2", "kernel-bandwidth": "0.5,-0.5"}), CO2)
check(code != 0, "accepted")
""", "a list option with a valid and an invalid value", "it is accepted")

s("c15-bool", "C15",
  [("bdld/inputparser.py", "val = section.getboolean(self.key)", "val = section.get(self.key).strip().lower() in (\"1\", \"yes\", \"true\", \"on\")")],
  """
code, f, o = run(text(ld=LD, potential=POT, particles=PART, trajectories={"filename": "t", "momentum": "maybe"}))
check(code != 0 and "momentum" in o, "accepted")
""", "a boolean option with a value that is none", "it is taken as no")

s("c15-default", "C15",
  [("bdld/inputparser.py", "        if self.key not in section.keys():\n", "        if self.key not in section.parser._sections[section.name]:\n")],
  """
t = "[DEFAULT]\\ntimestep: 0.01\\n\\n" + text(ld={k: v for k, v in LD.items() if k != "timestep"}, potential=POT, particles=PART)
code, f, o = run(t)
check(code == 0, "refused: " + o[-200:])
""", "options in the DEFAULT section", "they are ignored")

s("c16-snapshot", "C16",
  [(A + "histogram_action.py", "            backup_if_exists(filename)\n", "            if not step:  # the numbered files are unique\n                backup_if_exists(filename)\n")],
  """
t = text(ld=LD, potential=POT, particles=PART, trajectories={"write-stride": "5"}, histogram={"min": "-3", "max": "3", "bins": "3", "filename": "h", "write-stride": "5"})
code, f, o = run(t, {"h_5": "precious"})
check(code == 0, "run failed")
check("precious" in f.values(), "data lost")
""", "a snapshot file of an earlier run", "it is overwritten")

s("c16-stats", "C16",
  [(A + "birth_death.py", "initialize_file(self.stats_filename, fields, constants)", "initialize_file(self.stats_filename, fields, constants, overwrite=True)")],
  """
t = text(ld=LD, potential=POT, particles=PART, birth_death={"stride": "2", "kernel-bandwidth": "0.5", "stats-stride": "2", "stats-filename": "s"})
code, f, o = run(t, {"s": "precious"})
check(code == 0, "run failed " + o[-200:])
check("precious" in f.values(), "data lost")
""", "a statistics file of an earlier run", "it is overwritten")

s("c17-seed0", "C17",
  [("bdld/main.py", """        rng = np.random.default_rng(options["seed"])
        for _ in range(options["number"]):
            pos = [""", """        rng = np.random.default_rng(options["seed"] or None)
        for _ in range(options["number"]):
            pos = [""")],
  """
t = text(ld=LD, potential=POT, particles=dict(PART, seed="0"), trajectories={"filename": "t"})
check(run(t)[1] == run(t)[1], "runs differ")
""", "the seed 0 in the particles section", "the run is not reproducible")

s("c17-global", "C17",
  [(A + "birth_death.py", "num = self.rng.integers(num_part - 1)", "num = np.random.randint(num_part - 1)")],
  """
t = text(ld=LD, potential=POT, particles=dict(PART, number="8"), birth_death={"stride": "1", "kernel-bandwidth": "0.3", "seed": "4", "exponential-factor": "100"}, trajectories={"filename": "t"})
check(run(t)[1] == run(t)[1], "runs differ")
""", "birth-death events", "the partner is drawn from the unseeded global stream")

s("c18-round", "C18",
  [(A + "trajectory_action.py", "        self.positions[row] = [p.pos for p in self.ld.particles]\n", "        for i, p in enumerate(self.ld.particles):\n            self.positions[row, i] = np.around(p.pos, 12, out=p.pos)\n")],
  """
def final(**k):
    c = actions.overdamped_ld.OverdampedLD
    old, res = c.run, []
    def step(self, *a, **kw):
        old(self, *a, **kw)
        res.append([p.pos.copy() for p in self.particles])
    c.run = step
    code, f, o = run(text(ld=dict(LD, n_steps="50"), potential=POT, particles=PART, **k))
    c.run = old
    check(code == 0, "run failed")
    return np.array(res)
check(np.array_equal(final(), final(trajectories={"filename": "t"})), "motion differs")
""", "more than twelve digits", "the trajectory output rounds the positions themselves")

s("c18-rng", "C18",
  [(A + "birth_death.py", "        if self.stats_stride and step % self.stats_stride == 0:\n            self.stats.print(step)\n", "        if self.stats_stride and not step % self.stats_stride:\n            self.stats.print(step)\n            if self.stats.kill_attempts == 0:\n                self.rng.random()\n")],
  """
x = {"stride": "4", "kernel-bandwidth": "0.3", "seed": "4", "exponential-factor": "100"}
a = run(text(ld=LD, potential=POT, particles=dict(PART, number="8"), birth_death=x, trajectories={"filename": "t"}))[1]
b = run(text(ld=LD, potential=POT, particles=dict(PART, number="8"), birth_death=dict(x, **{"stats-stride": "1", "stats-filename": "s"}), trajectories={"filename": "t"}))[1]
check(all(a["t.%d" % i] == b["t.%d" % i] for i in range(8)), "motion differs")
""", "statistics before the first round", "the statistics use up random numbers")

s("c19-momhead", "C19",
  [(A + "trajectory_action.py", """                ifields = ["time"] + [f"pos_{f}.{i}" for f in fields]
                if self.store_momentum:
                    ifields += [f"mom_{f}.{i}" for f in fields]
""", """                quantities = ["pos", "mom"] if self.store_momentum else ["pos"]
                ifields = ["time"] + [f"{q}_{f}.{i}" for f in fields for q in quantities]
""")],
  """
code, f, o = run(text(ld=BP, potential=POT2, particles=PART, trajectories={"filename": "t", "momentum": "yes"}), CO2)
check(code == 0, "run failed")
h = f["t.1"].split("\\n")[0].split()
check(h[-5:] == ["time", "pos_x.1", "pos_y.1", "mom_x.1", "mom_y.1"], str(h))
""", "momenta in more than one dimension", "the columns are labelled in the wrong order")

s("c19-fesmax", "C19",
  [(A + "fes_action.py", "constants[f\"{fields[i]}_max\"] = h_grid.ranges[i][1]", "constants[f\"{fields[i]}_max\"] = h_grid.ranges[-1][1]")],
  """
code, f, o = run(text(ld=LD, potential=POT2, particles=PART, trajectories={}, histogram={"min": "-3,-2", "max": "3,2", "bins": "6,4"}, fes={"kt": "1", "filename": "f"}), CO2)
check(code == 0, "run failed " + o[-300:])
h = {l.split()[2]: float(l.split()[3]) for l in f["f"].split("\\n") if l.startswith("#! SET")}
check(h["x_max"] == 2.5 and h["y_max"] == 1.5, str(h))
""", "different ranges per dimension", "the header of the free energy gives the wrong range")

s("c20-pos", "C20",
  [("bdld/grid.py", "        return self._perform_math_on_self(operator.pos)\n", "        return self\n")],
  """
g = grid.from_npoints([(0.0, 1.0)], 3)
g.data = np.array([1.0, 2.0, 3.0])
h = +g
h.data[0] = 9.0
check(g.data[0] == 1.0, "operand changed")
""", "changing the result of +grid", "the operand is changed too")

s("c20-valid", "C20",
  [("bdld/grid.py", "        gs, gl = sorted([g1, g2], key=lambda g: g.n_points)\n", "        gl, gs = g1, g2\n")],
  """
a = grid.from_npoints([(0.0, 1.0)], 3)
b = grid.from_npoints([(0.0, 3.0)], 7)
a.data, b.data = np.ones(3), np.arange(7.0)
g = grid.convolve(a, b)
check(g.n_points == [5] and np.allclose(g.ranges, [(0.5, 2.5)]), str((g.n_points, g.ranges)))
""", "a valid convolution whose first grid is the smaller one", "it fails or has the wrong points")

s("c20-sparse", "C20",
  [("bdld/grid.py", "        n if n <= max_points[i] else max_points[i] for i, n in enumerate(g.n_points)\n", "        n if n <= max(max_points) else max_points[i] for i, n in enumerate(g.n_points)\n")],
  """
g = grid.from_npoints([(0.0, 1.0), (0.0, 1.0)], [5, 5])
g.data = np.arange(25.0)
check(grid.sparsify(g, [3, 9]).n_points == [3, 5], "points")
""", "different maximal numbers of points per dimension", "a dimension keeps too many points")

s("c21-alias", "C21",
  [("bdld/particle.py", "self.pos = np.array(pos, dtype=float)", "self.pos = np.asarray(pos, dtype=float)")],
  """
l = quiet(actions.overdamped_ld.OverdampedLD, poly([0, 0, 1]), 0.01, 1)
x = np.array([0.5])
l.add_particle(x)
l.add_particle(x)
x[0] = 2.0
check(l.particles[0].pos[0] == 0.5, "walker changed")
""", "the caller reuses the array it passed", "the walker moves with it")

s("c21-insert", "C21",
  [(A + "overdamped_ld.py", "            if partnum == -1:\n", "            if partnum == -1 or partnum >= len(self.particles) - 1:\n")],
  """
l = quiet(actions.overdamped_ld.OverdampedLD, poly([0, 0, 1]), 0.01, 1)
for x in (0.0, 1.0):
    l.add_particle([x])
l.add_particle([0.5], 1.0, 1)
check([p.pos[0] for p in l.particles] == [0.0, 0.5, 1.0])
""", "inserting before the last walker", "it is appended")

s("c22-mean", "C22",
  [(A + "birth_death.py", "    correction = -log_term + integral_term\n", "    correction = -log_term + np.average(log_term.data)\n")],
  """
from bdld.actions.birth_death import calc_additive_correction
p = poly([0.0, 0.2, 1.0], -3.0, 3.0)
d = p.calculate_probability_density(1.0, [(-3.0, 3.0)], [301])
c = calc_additive_correction(d, np.array([0.4]))
i = np.trapz(c.interpolate(d.points(), "linear").reshape(-1) * d.data, dx=0.02)
check(abs(i) < 1e-3, "average %g" % i)
""", "the additive approximation", "the average is not weighted with the density")

s("c22-precedence", "C22",
  [("bdld/main.py", "    for key in [\"correction-variant\", \"approximation-variant\"]:\n        # keep previous if not existing\n", "    for key in [\"approximation-variant\", \"correction-variant\"]:\n        # keep previous if not existing\n")],
  """
x = {"stride": "2", "kernel-bandwidth": "0.5", "correction-variant": "mult", "approximation-variant": "add"}
code, f, o = run(text(ld=LD, potential=POT, particles=PART, birth_death=x))
check(code == 0 and "additive" in o and "multiplicative" not in o, o[-300:])
""", "both options given", "the deprecated one wins")

s("c22-cut", "C22",
  [(A + "birth_death.py", "    kernel_ranges = [(-x, x) for x in 5 * bw]  # cutoff at 5 sigma\n", "    kernel_ranges = [(-x, x) for x in 5 * bw[:1].repeat(len(bw))]  # cutoff at 5 sigma\n")],
  """
from bdld.actions.birth_death import dens_kernel_convolution
p = poly(np.zeros((1, 1)), -3.0, 3.0)
d = p.calculate_probability_density(1.0, [(-3.0, 3.0), (-3.0, 3.0)], [61, 61])
c = dens_kernel_convolution(d, np.array([0.1, 0.5]), "same")
check(abs(c.data[30, 30] / d.data[30, 30] - 1) < 0.02, "%g" % (c.data[30, 30] / d.data[30, 30]))
""", "two dimensions with different bandwidths", "the kernel of the wider dimension is cut off")
