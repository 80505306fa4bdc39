"""Behaviour-preserving edits of bdld: every check has to stay quiet on them.

    python gen/refactors.py [NAME ...] [-- Cxx ...]      (works on scratch clones)
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
A = "bdld/actions/"

R = {}


def ref(name, props, *edits):
    R[name] = (props, edits)


ref("od-vector-noise", "C01 C07 C08 C11 C12 C14 C17 C18 C21", (A + "overdamped_ld.py", """        for p in self.particles:
            p.pos += self.dt * p.forces + self.noise_factor * self.rng.standard_normal(
                self.pot.n_dim
            )
""", """        noise = self.rng.standard_normal((len(self.particles), self.pot.n_dim))
        for p, xi in zip(self.particles, self.noise_factor * noise):
            p.pos = p.pos + self.dt * p.forces + xi
"""))
ref("bp-helper", "C01 C07 C08 C11 C12 C14 C17 C21", (A + "bussi_parinello_ld.py", """            p.mom = self.c1 * p.mom + p.c2 * self.rng.standard_normal(self.pot.n_dim)
            # first part of velocity verlet
            p.mom += 0.5 * p.forces * self.dt
            p.pos += (p.mom / p.mass) * self.dt
""", """            self._thermostat(p)
            # first part of velocity verlet
            p.mom += 0.5 * self.dt * p.forces
            p.pos += self.dt * p.mom / p.mass
"""), (A + "bussi_parinello_ld.py", """            # second part of thermostat
            p.mom = self.c1 * p.mom + p.c2 * self.rng.standard_normal(self.pot.n_dim)
""", """            # second part of thermostat
            self._thermostat(p)

    def _thermostat(self, p: BpldParticle) -> None:
        \"\"\"Perform a single thermostat step\"\"\"
        noise = np.array([self.rng.standard_normal() for _ in range(self.pot.n_dim)])
        p.mom = noise * p.c2 + p.mom * self.c1
"""))
ref("bp-normal", "C11 C07", (A + "bussi_parinello_ld.py", "p.c2 * self.rng.standard_normal(self.pot.n_dim)", "self.rng.normal(0.0, p.c2, self.pot.n_dim)"))
ref("valid-data-gather", "C01 C02 C03 C04 C05 C18 C19", (A + "action.py", """    # omit already written points
    first_element = already_written
""", """    steps = [
        t for t in range(last_write + update_stride, step + 1, update_stride)
        if t % stride == 0
    ]
    return data[[(t // update_stride - 1) % data.shape[0] for t in steps]]
    # omit already written points
    first_element = already_written
"""))
ref("traj-write", "C01 C03 C16 C17 C19", (A + "trajectory_action.py", """                if self.store_momentum:
                    save_data = np.c_[save_times, save_pos[:, i], save_momentum[:, i]]
                else:
                    save_data = np.c_[save_times, save_pos[:, i]]
                with open(filename, "ab") as f:
                    np.savetxt(
                        f,
                        save_data,
                        delimiter=" ",
                        newline="\\n",
                        fmt=self.write_fmt,
                    )
                self.last_write = step
""", """                columns = [save_times, save_pos[:, i]]
                if self.store_momentum:
                    columns.append(save_momentum[:, i])
                with open(filename, "a") as f:
                    for row in np.hstack(columns):
                        f.write(" ".join(self.write_fmt % v for v in row) + "\\n")
            self.last_write = step
"""))
ref("bd-set-and-direct", "C07 C08 C09 C10 C22", (A + "birth_death.py", """            dup_list: List[int] = []
            kill_list: List[int] = []
""", """            overwritten = set()
            event_list = []
"""), (A + "birth_death.py", """                if i not in kill_list:  # the move was accepted from the old beta!
                    rand_other = self.random_other(num_part, i)
                    if beta[i] > 0:
                        kill_list.append(i)
                        dup_list.append(rand_other)
                        self.stats.kill_count += 1
                    else:  # beta[i] < 0
                        kill_list.append(rand_other)
                        dup_list.append(i)
                        self.stats.dup_count += 1

            # perform all events in bulk
            event_list = list(zip(dup_list, kill_list))
            self.perform_moves(event_list)
""", """                if i in overwritten:
                    continue
                other = self.random_other(num_part, i)
                if beta[i] > 0:
                    dup, kill = other, i
                    self.stats.kill_count += 1
                else:
                    dup, kill = i, other
                    self.stats.dup_count += 1
                overwritten.add(kill)
                event_list.append((dup, kill))
                self.perform_moves([(dup, kill)])
"""))
ref("bd-rejection-partner", "C07 C08 C09 C10 C17 C22", (A + "birth_death.py", """        num = self.rng.integers(num_part - 1)
        if num >= excl:
            num += 1
        return num
""", """        while True:
            num = int(self.rng.integers(0, num_part))
            if num != excl:
                return num
"""), (A + "birth_death.py", "            self.rng.shuffle(event_particles)\n", "            event_particles = self.rng.permutation(event_particles)\n"))
ref("bd-choice-partner", "C07 C08 C09 C10", (A + "birth_death.py", """        num = self.rng.integers(num_part - 1)
        if num >= excl:
            num += 1
        return num
""", """        return int(self.rng.choice([i for i in range(num_part) if i != excl]))
"""), (A + "birth_death.py", "rand = self.rng.random(num_part)  # rng for all at once", "rand = np.array([self.rng.random() for _ in range(num_part)])"))
ref("bd-uniform", "C07 C08 C09 C10 C22 C17", (A + "birth_death.py", "rand = self.rng.random(num_part)  # rng for all at once", "rand = self.rng.uniform(0.0, 1.0, num_part)"),
    (A + "birth_death.py", "prob = 1 - np.exp(-np.abs(beta) * self.dt * self.rate_fac)", "prob = -np.expm1(-np.abs(beta) * self.dt * self.rate_fac)"))
ref("bd-density", "C08 C09 C10 C22", (A + "birth_death.py", """    if len(pos) <= 10000:  # pdist matrix with maximum 10e8 float64 values
        return _walker_density_pdist(pos, bw)
    else:
        return _walker_density_manual(pos, bw)
""", """    diff = (pos[:, np.newaxis, :] - pos[np.newaxis, :, :]) / bw
    norm = np.prod(np.sqrt(2 * np.pi) * bw)
    return np.exp(-0.5 * np.sum(diff**2, axis=-1)).sum(axis=1) / (len(pos) * norm)
"""))
ref("bd-rates", "C08 C09 C10 C22", (A + "birth_death.py", """            ene = np.array([p.energy for p in self.particles])
            beta += ene * self.inv_kt
            beta -= np.mean(beta[beta != -np.inf])
""", """            beta = beta + np.array([p.energy / self.kt for p in self.particles])
            finite = np.isfinite(beta)
            beta = beta - beta[finite].sum() / finite.sum()
"""))
ref("bd-copy", "C07 C08 C11", (A + "birth_death.py", """            self.particles[kill] = copy.deepcopy(self.particles[dup])
""", """            new = copy.copy(self.particles[dup])
            new.pos = np.copy(new.pos)
            new.mom = np.copy(new.mom)
            new.forces = np.copy(new.forces)
            self.particles[kill] = new
"""))
ref("bd-recalc-loop", "C08 C09 C10", (A + "birth_death.py", """            particle_indices = np.arange(num_part)
            self.rng.shuffle(particle_indices)
            event_list = []
            for i in particle_indices:
""", """            event_list = []
            for i in self.rng.permutation(num_part):
                i = int(i)
                beta = self.calc_betas()
"""))
ref("stats-text", "C03 C10 C16 C19", (A + "birth_death.py", """                with open(self.stats_filename, "ab") as f:
                    np.savetxt(
                        f,
                        stats,
                        delimiter=" ",
                        newline="\\n",
                        fmt="%d",
                    )
""", """                with open(self.stats_filename, "a") as f:
                    f.write(" ".join(str(int(v)) for v in stats[0]) + "\\n")
"""))
ref("hist-digitize", "C04 C05 C19", ("bdld/histogram.py", """        tmp_histo, _ = np.histogramdd(data, bins=self.bins)
        self.data += tmp_histo
""", """        data = np.asarray(data, dtype=float).reshape(-1, self.n_dim)
        for point in data:
            index = []
            for x, edges in zip(point, self.bins):
                if x < edges[0] or x > edges[-1]:
                    break
                k = int(np.searchsorted(edges, x, side="right")) - 1
                index.append(min(k, len(edges) - 2))
            else:
                self.data[tuple(index)] += 1
"""))
ref("hist-centers", "C04 C05 C19", ("bdld/histogram.py", """        return [
            np.array(
                [(bins_x[i] + bins_x[i + 1]) / 2 for i in range(0, len(bins_x) - 1)]
            )
            for bins_x in self.bins
        ]
""", """        return [0.5 * (edges[:-1] + edges[1:]) for edges in self.bins]
"""))
ref("fes-masked", "C05 C03 C19", (A + "fes_action.py", """    fes = np.where(
        histo.data == 0, np.inf, -kt * np.log(histo.data, where=(histo.data != 0))
    )
    if mintozero:
        minimum = np.min(fes)
        if minimum != np.inf:  # otherwise all values become nan
            fes -= np.min(fes)
""", """    fes = np.full(histo.data.shape, np.inf)
    filled = histo.data > 0
    fes[filled] = -kt * np.log(histo.data[filled])
    if mintozero and filled.any():
        fes = fes - fes[filled].min()
"""))
ref("df-counts", "C05 C02", (A + "delta_f_action.py", """    delta_f = [
        -kt * np.log(state_probs[i] / state_probs[0])
        for i in range(1, len(state_probs))
    ]
    return delta_f
""", """    logs = np.log(np.array(state_probs))
    return list(kt * (logs[0] - logs[1:]))
"""))
ref("pd-all", "C06 C02 C05", ("bdld/tools.py", """        inside = True
        for i in range(n_dim):  # 'bitwise and' over all dimensions
            inside = inside & (pos[:, i] >= state[i][0]) & (pos[:, i] <= state[i][1])
        inside_list.append(inside)
""", """        lower = np.array([r[0] for r in state[:n_dim]])
        upper = np.array([r[1] for r in state[:n_dim]])
        inside_list.append(np.all((lower <= pos) & (pos <= upper), axis=1))
"""))
ref("pd-buffer", "C02 C03 C06 C19", (A + "particle_distribution.py", """            row = (step % self.write_stride) // self.stride - 1
            self.counts[row, 0] = step
            self.counts[row, 1:] = self.count_particles()
""", """            values = [step] + list(self.count_particles())
            index = (step - 1) % self.write_stride // self.stride
            self.counts[index] = values
"""))
ref("poly-loops", "C11 C12 C13 C08 C14", ("bdld/potential/polynomial.py", """        return self.polyval(*pos, self.coeffs)
""", """        res = 0.0
        for idx, c in np.ndenumerate(self.coeffs):
            res += c * np.prod([float(x) ** int(k) for x, k in zip(pos, idx)])
        return res
"""), ("bdld/potential/polynomial.py", """        return np.array([-self.polyval(*pos, self.der[d]) for d in range(self.n_dim)])
""", """        force = np.zeros(self.n_dim)
        for idx, c in np.ndenumerate(self.coeffs):
            for d in range(self.n_dim):
                if idx[d] == 0:
                    continue
                term = c * idx[d]
                for e, x in enumerate(pos):
                    term *= x ** (idx[e] - (1 if e == d else 0))
                force[d] -= term
        return force
"""))
ref("mb-vector", "C13", ("bdld/potential/mueller_brown.py", """        pot = 0.0
        x = pos[0]
        y = pos[1]
        for i in range(4):
            pot += self.A[i] * np.exp(
                a[i] * (x - x0[i]) ** 2
                + b[i] * (x - x0[i]) * (y - y0[i])
                + c[i] * (y - y0[i]) ** 2
            )
        pot += pot_shift
        return pot
""", """        dx = pos[0] - x0
        dy = pos[1] - y0
        return np.sum(self.A * np.exp(a * dx**2 + b * dx * dy + c * dy**2)) + pot_shift
"""))
ref("boundary-loops", "C12 C11", ("bdld/potential/potential.py", """                pos[i] = start + (x - start) % (end - start)
""", """                length = end - start
                while pos[i] < start:
                    pos[i] += length
                while pos[i] > end:
                    pos[i] -= length
"""), ("bdld/potential/potential.py", """            if x < self.ranges[i][0]:
                pos[i] = self.ranges[i][0]
                mom[i] = -mom[i]
            elif x > self.ranges[i][1]:
                pos[i] = self.ranges[i][1]
                mom[i] = -mom[i]
""", """            clipped = min(max(x, self.ranges[i][0]), self.ranges[i][1])
            if clipped != x:
                pos[i] = clipped
                mom[i] *= -1
"""))
ref("grid-product", "C20 C19 C22 C13", ("bdld/grid.py", """        return np.stack(np.meshgrid(*self.axes(), indexing="ij"), axis=-1).reshape(
            np.prod(self.n_points), self.n_dim
        )
""", """        import itertools

        return np.array(list(itertools.product(*self.axes()))).reshape(-1, self.n_dim)
"""), ("bdld/grid.py", """            if not (self.n_points == other.n_points) or not (
                self.ranges == other.ranges
            ):
""", """            if not self._same_points(other):
"""))
ref("grid-rgi", "C20 C22", ("bdld/grid.py", """        return sp_interpolate.griddata(
            self.points(), self.data.flatten(), points, method, fill_value
        )
""", """        if method != "linear":
            return sp_interpolate.griddata(
                self.points(), self.data.flatten(), points, method, fill_value
            )
        pts = np.asarray(points, dtype=float)
        if self.n_dim == 1:
            flat = pts.reshape(-1)
            res = np.interp(flat, self.axes()[0], self.data, fill_value, fill_value)
            return res.reshape(pts.shape)
        return sp_interpolate.griddata(
            self.points(), self.data.flatten(), points, method, fill_value
        )
"""))
ref("main-loop", "C01 C03 C10 C15 C17 C18", ("bdld/main.py", """    for step in range(1, n_steps + 1):
        for action in actions_list:
            action.run(step)

    print("Simulation finished, performing final actions")
    for action in actions_list:
        action.final_run(n_steps)
""", """    run_actions(actions_list, n_steps)
"""), ("bdld/main.py", """def setup_potential(options: Dict) -> Potential:
""", """def run_actions(actions_list: List[Action], n_steps: int) -> None:
    \"\"\"Run all actions for the given number of steps and finish them\"\"\"
    step = 0
    while step < n_steps:
        step += 1
        for action in actions_list:
            action.run(step)

    print("Simulation finished, performing final actions")
    for action in actions_list:
        action.final_run(step)


def setup_potential(options: Dict) -> Potential:
"""))
ref("init-batch", "C14 C17", ("bdld/main.py", """            pos = [rng.uniform(start, end) for start, end in ld.pot.ranges]
            ld.add_particle(pos, mass)
""", """            lower, upper = np.array(ld.pot.ranges, dtype=float).T
            ld.add_particle(rng.uniform(lower, upper), mass)
"""), ("bdld/main.py", """            ld.add_particle(rng.choice(init_pos_choices, axis=0), mass)
""", """            index = rng.integers(len(init_pos_choices))
            ld.add_particle(init_pos_choices[index], mass)
"""))
ref("parser-table", "C15", ("bdld/inputparser.py", """        if infile.has_section("birth-death"):
            self.parse_birth_death(infile["birth-death"])
        if infile.has_section("trajectories"):
            self.parse_trajectories(infile["trajectories"])
        if infile.has_section("histogram"):
            self.parse_histogram(infile["histogram"])
        if infile.has_section("fes"):
            self.parse_fes(infile["fes"])
        if infile.has_section("delta-f"):
            self.parse_delta_f(infile["delta-f"])
        if infile.has_section("particle-distribution"):
            self.parse_particle_distribution(infile["particle-distribution"])
""", """        optional = {
            "particle-distribution": self.parse_particle_distribution,
            "trajectories": self.parse_trajectories,
            "histogram": self.parse_histogram,
            "fes": self.parse_fes,
            "delta-f": self.parse_delta_f,
            "birth-death": self.parse_birth_death,
        }
        for name, parse in optional.items():
            if name in infile:
                parse(infile[name])
"""))
ref("list-ops", "C21 C07 C14", (A + "overdamped_ld.py", """        if overwrite:
            self.particles[partnum] = p
        else:
            if partnum == -1:
                self.particles.append(p)
            else:
                self.particles.insert(partnum, p)
""", """        if overwrite:
            self.particles[partnum] = p
            return
        index = len(self.particles) if partnum == -1 else partnum
        self.particles.insert(index, p)
"""), (A + "overdamped_ld.py", "        del self.particles[partnum]\n", "        self.particles.pop(partnum)\n"))
ref("kde-order", "C08 C09 C22", (A + "birth_death.py", "    return np.mean(gauss, axis=0)\n", "    return gauss.sum(axis=1) / len(pos)\n"))


def run(name, only):
    props, edits = R[name]
    props = [p for p in props.split() if not only or p in only]
    t = tempfile.mkdtemp(prefix="bdldref_")
    res = []
    try:
        subprocess.run(["git", "clone", "-q", REPO, t + "/r"], check=True)
        for f, a, b in edits:
            p = os.path.join(t, "r", f)
            s = open(p).read()
            assert a in s, (name, f, a)
            open(p, "w").write(s.replace(a, b))
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "test", "--ignore=test/test_action.py",
                            "--ignore=test/test_birth_death.py", "--ignore=test/test_grid.py", "--ignore=test/test_potential.py"],
                           cwd=t + "/r", capture_output=True, text=True)
        assert "2 passed" in r.stdout, r.stdout[-500:]
        for c in props:
            r = subprocess.run(["/opt/venv/bin/python", "harness/check.py", c], cwd=ROOT, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=t + "/r", VERIF_TIER="quick"))
            res.append((c, r.returncode, "" if r.returncode == 0 else (r.stdout + r.stderr)[-700:]))
            print("quiet" if r.returncode == 0 else "ALARM(%d)" % r.returncode, name, c, res[-1][2], flush=True)
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    a = sys.argv[1:]
    only = a[a.index("--") + 1:] if "--" in a else []
    names = a[:a.index("--")] if "--" in a else a
    for n in R:
        if not names or any(n.startswith(x) for x in names):
            run(n, only)
