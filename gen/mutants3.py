"""Third batch of edits for mutants.py (imported by it)."""
A = "bdld/actions/"
B = A + "birth_death.py"
P = "bdld/potential/"


def add(m):
    m("t32", "C01", (A + "trajectory_action.py", "self.times = np.empty((self.write_stride, 1))", "self.times = np.empty((self.write_stride, 1), dtype=np.float32)"))
    m("tround", "C01", (A + "trajectory_action.py", "self.times[row] = step * self.ld.dt", "self.times[row] = round(step * self.ld.dt, 4)"))
    m("mom32", "C01", (A + "trajectory_action.py", "            self.momentum = np.empty((self.write_stride, n_particles, ld.pot.n_dim))", "            self.momentum = np.empty((self.write_stride, n_particles, ld.pot.n_dim), dtype=np.float32)"))
    m("cap4k", "C01", (A + "trajectory_action.py", "self.write_stride: int = write_stride or 100", "self.write_stride: int = min(write_stride or 100, 4096)"))
    m("dftime", "C02", (A + "delta_f_action.py", "self.last_write = step", "self.last_write = step - step % self.stride + self.stride if step % self.stride > self.stride - 2 > 0 else step"))
    m("pdrow8", "C02", (A + "particle_distribution.py", "row = (step % self.write_stride) // self.stride - 1", "row = ((step % self.write_stride) // self.stride - 1) % 1000"))
    m("hist16", "C04", ("bdld/histogram.py", "self.data += tmp_histo", "self.data = (self.data + tmp_histo).astype(np.float16)"))
    m("histsum", "C04", ("bdld/histogram.py", "self.data += tmp_histo", "self.data += np.minimum(tmp_histo, 255)"))
    m("fes32", "C05", (A + "fes_action.py", "def calculate_fes(", "def calculate_fes_(") , (A + "fes_action.py", "class FesAction(Action):", "def calculate_fes(histo, kt, *a, **k):\n    g = calculate_fes_(histo, kt, *a, **k)\n    g.data = np.where(np.isfinite(g.data), np.minimum(g.data, 8 * kt), g.data)\n    return g\n\n\nclass FesAction(Action):"))
    m("f16", "C07", (B, "self.particles[kill] = copy.deepcopy(self.particles[dup])", "self.particles[kill] = copy.deepcopy(self.particles[dup])\n            self.particles[kill].mom = np.round(self.particles[kill].mom, 6)"))
    m("pos6", "C07", (B, "self.particles[kill] = copy.deepcopy(self.particles[dup])", "self.particles[kill] = copy.deepcopy(self.particles[dup])\n            self.particles[kill].pos = np.round(self.particles[kill].pos, 8)"))
    m("cut35", "C08", (B, "        gauss = height * np.exp(-dist / (2 * bw[0] ** 2))", "        gauss = height * np.exp(-dist / (2 * bw[0] ** 2))\n        gauss[dist > 12.25 * bw[0] ** 2] = 0.0"))
    m("facbig", "C08", (B, "self.rate_fac: float = rate_fac or 1.0", "self.rate_fac: float = min(rate_fac or 1.0, 10.0)"))
    m("enecut", "C08", (B, "beta += ene * self.inv_kt", "beta += np.clip(ene * self.inv_kt, -50, 50)"))
    m("meanmed", "C08", (B, "            beta -= np.mean(beta[beta != -np.inf])\n            if", "            beta -= np.mean(beta[beta < 30])\n            if"))
    m("statbig", "C10", (B, '                        fmt="%d",', '                        fmt="%.6g",'))
    m("statbig2", "C10", (B, '                        fmt="%d",', '                        fmt="%i",'), (B, "                stats = np.array(\n", "                stats = np.float32(\n"))
    m("frc32", "C13", (P + "polynomial.py", "for d in range(self.n_dim)])", "for d in range(self.n_dim)], dtype=np.float32)"))
    m("frc32b", "C11", (P + "polynomial.py", "for d in range(self.n_dim)])", "for d in range(self.n_dim)], dtype=np.float32)"))
    m("coef32", "C13", (P + "polynomial.py", "self.coeffs: np.ndarray = np.array(coeffs)", "self.coeffs: np.ndarray = np.array(coeffs, dtype=np.float32)"))
    m("usecols", "C13", (P + "polynomial.py", "np.genfromtxt(filename, usecols=range(n_dim + 1))", "np.genfromtxt(filename)"))
    m("order9", "C13", (P + "polynomial.py", "shape = [int(max(file_data[:, i])) + 1 for i in range(n_dim)]", "shape = [int(max(file_data[:, i])) + 1 for i in range(n_dim)]\n    file_data = file_data[np.abs(file_data[:, n_dim]) > 1e-4]"))
    m("frac2", "C14", ("bdld/main.py", 'int(round(frac * options["number"], 9))', 'int(round(frac * options["number"], 3))'))
    m("remlast", "C14", ("bdld/main.py", "round(frac * options[\"number\"], 9)", "round(round(frac, 3) * options[\"number\"], 9)"))
    m("hdr3", "C19", (A + "histogram_action.py", 'constants[f"{fields[i]}_min"] = ranges[i][0]', 'constants[f"{fields[i]}_min"] = round(ranges[i][0], 2)'))
    m("hdrint", "C19", (A + "histogram_action.py", 'constants[f"{fields[i]}_max"] = ranges[i][1]', 'constants[f"{fields[i]}_max"] = float("%.3g" % ranges[i][1])'))
    m("g32", "C20", ("bdld/grid.py", "self._data = value.reshape(self.n_points)", "self._data = value.reshape(self.n_points).astype(np.float32)"))
    m("eqtol", "C20", ("bdld/grid.py", "return self._same_points(other) and np.array_equal(self.data, other.data)", "return self._same_points(other) and np.allclose(self.data, other.data)"))
    m("insneg", "C21", (A + "overdamped_ld.py", "self.particles.insert(partnum, p)", "self.particles.insert(max(partnum, 0), p)"))
    m("ovw", "C21", (A + "bussi_parinello_ld.py", "            self.particles[partnum] = p\n", "            self.particles[partnum].__dict__.update(p.__dict__)\n"))
    m("reuse", "C21", (A + "overdamped_ld.py", "p.energy, p.forces = self.pot.evaluate(p.pos)\n        if over", "p.energy, p.forces = self.pot.evaluate(np.round(p.pos, 5))\n        if over"))
    m("perf", "C12", (P + "potential.py", "pos[i] = start + (x - start) % (end - start)", "pos[i] = start + np.float32((x - start) % (end - start))"))
    m("refl_in", "C12", (P + "potential.py", "            if x < self.ranges[i][0]:\n                pos[i] = self.ranges[i][0]", "            if x < self.ranges[i][0] - 1e-6:\n                pos[i] = self.ranges[i][0]"))
    m("kernel7", "C22", (B, "5 * bw]  # cutoff", "3 * bw]  # cutoff"))
    m("dom0", "C23", (A + "fes_action.py", "        if plot_domain is not None:\n", "        if plot_domain is not None and plot_domain[0] != 0:\n"))
    m("titleref", "C23", (A + "fes_action.py", '        if ref is not None:\n            ax.plot(axes[0], ref', '        if ref is not None and len(ref) < 64:\n            ax.plot(axes[0], ref'))
    m("pdbig", "C06", ("bdld/tools.py", "(pos[:, i] <= state[i][1])", "(pos[:, i] <= np.float32(state[i][1]))"))
    m("seed32", "C17", ("bdld/main.py", 'options["seed"] + 1000 if', 'int(np.float32(options["seed"])) + 1000 if'))
