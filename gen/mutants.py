#!/usr/bin/env python3
"""Edits that break a property (no demonstrations), to look for gaps of the checks.

usage: mutants.py [ID..]   scratch clone of /repo per edit, the property's quick check on it
"""
import os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "bdld/actions/"
M = []


def m(id, prop, *edits):
    M.append((id, prop, edits))


m("f32pos", "C01", (A + "trajectory_action.py", "self.positions = np.empty((self.write_stride, n_particles, ld.pot.n_dim))",
                    "self.positions = np.empty((self.write_stride, n_particles, ld.pot.n_dim), dtype=np.float32)"))
m("f32part", "C11", ("bdld/particle.py", "self.pos = np.array(pos, dtype=float)", "self.pos = np.array(pos, dtype=np.float32)"))
m("f32part21", "C21", ("bdld/particle.py", "self.pos = np.array(pos, dtype=float)", "self.pos = np.array(pos, dtype=np.float32)"))
m("shortcut", "C01", (A + "action.py", "if stride == update_stride and already_written == 0 and last_element == 0", "if stride == update_stride and last_element == 0"))
m("hist8", "C04", ("bdld/histogram.py", "self.data += tmp_histo", "self.data += tmp_histo.astype(np.uint8)"))
m("resetsorted", "C04", (A + "histogram_action.py", "        if step in self.reset:\n", "        if self.reset and step == self.reset[0]:\n            self.reset = self.reset[1:]\n"))
m("seqcopy8", "C08", (A + "birth_death.py", "        for dup, kill in event_list:\n            self.particles[kill] = copy.deepcopy(self.particles[dup])",
                      "        copies = [copy.deepcopy(self.particles[dup]) for dup, _ in event_list]\n        for new, (_, kill) in zip(copies, event_list):\n            self.particles[kill] = new"))
m("dens3d", "C08", (A + "birth_death.py", "gauss = squareform(np.prod(gauss_per_dim, axis=0))", "gauss = squareform(gauss_per_dim[0] * gauss_per_dim[1])"))
m("densman", "C08", (A + "birth_death.py", "density[i] = np.mean(kernel_values)", "density[i] = np.mean(np.delete(kernel_values, i))"))
m("killrecent", "C08", (A + "birth_death.py", "if i not in kill_list:", "if i not in kill_list[-3:]:"))
m("clip", "C08", (A + "birth_death.py", "prob = 1 - np.exp(-np.abs(beta) * self.dt * self.rate_fac)\n            event", "prob = 1 - np.exp(-np.minimum(np.abs(beta), 6.0) * self.dt * self.rate_fac)\n            event"))
m("clipre", "C08", (A + "birth_death.py", "prob = 1 - np.exp(-np.abs(beta[i]) * self.dt * self.rate_fac)", "prob = 1 - np.exp(-min(np.abs(beta[i]), 6.0) * self.dt * self.rate_fac)"))
m("partner64", "C09", (A + "birth_death.py", "num = self.rng.integers(num_part - 1)", "num = self.rng.integers(min(num_part - 1, 64))"))
m("c1lin", "C11", (A + "bussi_parinello_ld.py", "np.exp(-0.5 * friction * dt)", "np.exp(-0.5 * friction * dt) if friction * dt > 0.02 else 1 - 0.5 * friction * dt"))
m("absmom", "C12", ("bdld/potential/potential.py", "                pos[i] = self.ranges[i][0]\n                mom[i] = -mom[i]", "                pos[i] = self.ranges[i][0]\n                mom[i] = abs(mom[i])"))
m("perend", "C12", ("bdld/potential/potential.py", "if x < start or x > end:", "if x < start or x >= end:"))
m("mbeval", "C13", ("bdld/potential/mueller_brown.py", "                -self.A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1\n            )\n        pot += pot_shift", "                -self.A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1\n            )\n        force[1] += 0.1 * np.exp(-x * x)\n        pot += pot_shift"))
m("der6", "C13", ("bdld/potential/polynomial.py", "            poly.polyder(self.coeffs, axis=d) for d in range(self.n_dim)", "            poly.polyder(self.coeffs[:7], axis=d) for d in range(self.n_dim)"))
m("poszip", "C14", ("bdld/main.py", "ld.add_particle(rng.choice(init_pos_choices, axis=0), mass)", "ld.add_particle([rng.choice(c) for c in zip(*init_pos_choices)], mass)"))
m("diag", "C14", ("bdld/main.py", "            pos = [rng.uniform(start, end) for start, end in ld.pot.ranges]", "            u = rng.random()\n            pos = [start + u * (end - start) for start, end in ld.pot.ranges]"))
m("round2", "C14", ("bdld/main.py", "int(round(frac * options[\"number\"], 9))", "int(round(frac * options[\"number\"], 1))"))
m("fft", "C22", (A + "birth_death.py", "mode=conv_mode, method=\"direct\")", "mode=conv_mode, method=\"auto\")"))
m("nearest", "C22", (A + "birth_death.py", "                beta += self.approx_grid.interpolate(pos, \"linear\", 0.0).reshape(", "                beta += self.approx_grid.interpolate(pos, \"nearest\", 0.0).reshape("))
m("sparse21", "C22", (A + "birth_death.py", "grid.sparsify(conv, [101] * conv.n_dim, \"linear\")", "grid.sparsify(conv, [21] * conv.n_dim, \"linear\")"))
m("trapz", "C22", (A + "birth_death.py", "return nd_trapz(nd_trapz(data, dx=dx[-1]), dx[:-1])", "return nd_trapz(nd_trapz(data, dx=dx[-1]), dx[1:])"))
m("densekt", "C22", ("bdld/main.py", "eq_density = bd_prob_density(ld.pot, bd_bw, ld.kt)", "eq_density = bd_prob_density(ld.pot, bd_bw, min(ld.kt, 1.0))"))
m("kern2", "C22", (A + "birth_death.py", "np.exp(-np.sum(dist**2 / (2 * bw**2), axis=1))", "np.exp(-np.sum(dist**2, axis=1) / (2 * bw[0] * bw[-1]))"))
m("sparsedim", "C20", ("bdld/grid.py", "n if n <= max_points[i] else max_points[i]", "min(n, max(max_points))"))
m("interp1000", "C20", ("bdld/grid.py", "        return sp_interpolate.griddata(", "        if np.prod(self.n_points) > 200:\n            method = \"nearest\"\n        return sp_interpolate.griddata("))
m("gridcache", "C20", ("bdld/grid.py", "        return np.stack(np.meshgrid(*self.axes(), indexing=\"ij\"), axis=-1).reshape(\n            np.prod(self.n_points), self.n_dim\n        )",
   "        key = tuple(map(tuple, self.ranges)) + tuple(sorted(self.n_points))\n        if key not in _points:\n            _points[key] = np.stack(\n                np.meshgrid(*self.axes(), indexing=\"ij\"), axis=-1\n            ).reshape(np.prod(self.n_points), self.n_dim)\n        return _points[key]"),
   ("bdld/grid.py", "class Grid:", "_points = {}\n\n\nclass Grid:"))
m("convcell", "C20", ("bdld/grid.py", "conv = signal.convolve(g1.data, g2.data, mode=mode, method=method) * np.prod(\n        g1.stepsizes\n    )", "conv = (\n        signal.convolve(g1.data, g2.data, mode=mode, method=method)\n        * g1.stepsizes[0] ** n_dim\n    )"))
m("plotbefore", "C23", (A + "fes_action.py", "        if self.stride and step % self.stride == 0:\n            self.fes = calculate_fes(self.histo_action.histo, self.kt)\n        if self.write_stride and step % self.write_stride == 0:\n            self.write(step)\n        if self.plot_stride and step % self.plot_stride == 0:\n            self.plot(step)",
   "        if self.stride and step % self.stride == 0:\n            if self.plot_stride and step % self.plot_stride == 0:\n                self.plot(step)\n            self.fes = calculate_fes(self.histo_action.histo, self.kt)\n        elif self.plot_stride and step % self.plot_stride == 0:\n            self.plot(step)\n        if self.write_stride and step % self.write_stride == 0:\n            self.write(step)"))
m("plotdom", "C23", (A + "fes_action.py", "            vmin, vmax = plot_domain\n", "            vmin, vmax = 0, plot_domain[1]\n"))
m("plotmax", "C23", (A + "fes_action.py", "ylim = np.where(np.isinf(fes), 0, fes).max()", "ylim = np.median(fes[np.isfinite(fes)]) * 2 if np.isfinite(fes).any() else 1"))
m("plotextent", "C23", (A + "fes_action.py", "extent=(axes[0][0], axes[0][-1], axes[-1][0], axes[-1][-1]),", "extent=(axes[0][0], axes[0][-1], axes[0][0], axes[0][-1]),"))
m("plotorigin", "C23", (A + "fes_action.py", "origin=\"lower\"", "origin=\"upper\""))
m("plotref", "C23", ("bdld/potential/potential.py", "            fes -= np.min(fes)\n", "            fes -= fes[0] if fes[0] < fes[-1] else fes[-1]\n"))
m("plotfinal", "C23", (A + "fes_action.py", "        self.write()\n        self.plot()", "        self.write()\n        if not self.plot_stride or step % self.plot_stride:\n            self.plot()"))
m("pdwrap", "C18", (A + "particle_distribution.py", "        pos = np.array([p.pos for p in self.particles])\n", "        for p in self.particles:\n            p.pos += 0.0 if p.pos[0] < 3 else 2.0**-20\n        pos = np.array([p.pos for p in self.particles])\n"))
m("dflog", "C05", (A + "delta_f_action.py", "probabilities = np.exp(-fes / float(kt))", "probabilities = np.exp(-np.minimum(fes, 6 * kt) / float(kt)) * np.isfinite(fes)"))
m("feskt", "C05", (A + "fes_action.py", "self.kt = kt or self.histo_action.traj_action.ld.kt", "self.kt = self.histo_action.traj_action.ld.kt or kt"))
m("pdone", "C06", ("bdld/tools.py", "    n_dim = pos.shape[-1]\n", "    n_dim = min(pos.shape[-1], 2)\n"))
m("stat255", "C10", (A + "birth_death.py", "            curr_kill_attempts = np.count_nonzero(beta > 0)", "            curr_kill_attempts = int(np.sum(beta > 0, dtype=np.uint8))"))
m("statprint", "C10", (A + "birth_death.py", "        if not self.stats_stride:\n            self.stats.print(step)", "        if not self.stats_stride or step < self.stats_stride:\n            self.stats.print(step)"))
m("seedhash", "C17", ("bdld/main.py", "options[\"seed\"] + 1000 if options[\"seed\"] is not None else None", "options[\"seed\"] + 1000 + hash(str(bd_bw)) % 2 if options[\"seed\"] is not None else None"))
m("ldseedlen", "C17", ("bdld/main.py", "        rng = np.random.default_rng(options[\"seed\"])\n        for _ in range(options[\"number\"]):\n            pos = [rng", "        rng = np.random.default_rng(options[\"seed\"])\n        if options[\"number\"] > 10:\n            rng = np.random.default_rng()\n        for _ in range(options[\"number\"]):\n            pos = [rng"))
m("hdr3", "C19", (A + "histogram_action.py", "constants[f\"{fields[i]}_n_bins\"] = n_bins[i]", "constants[f\"{fields[i]}_n_bins\"] = n_bins[min(i, 1)]"))
m("write3d", "C19", ("bdld/grid.py", "np.c_[self.points(), self.data.reshape(-1)]", "np.c_[self.points(), self.data.reshape(-1, order=\"F\")]"))
m("massadd", "C21", (A + "bussi_parinello_ld.py", "p.c2 = np.sqrt((1 - self.c1 * self.c1) * p.mass * self.kt)\n        if overwrite:\n            self.particles[partnum] = p", "if overwrite:\n            p.c2 = self.particles[partnum].c2\n            self.particles[partnum] = p"),)
m("strict15", "C15", ("bdld/inputparser.py", "val = [self.keytype[0](x) for x in val.split(\",\")]", "val = [self.keytype[0](x) for x in val.split(\",\") if x.strip()]"))
m("int15", "C15", ("bdld/inputparser.py", "                val = section.getint(self.key)", "                val = int(float(section.get(self.key)))"))
m("df2", "C15", ("bdld/main.py", "    if len(state_ranges) < 2:", "    if len(state_ranges) < 1:"))
m("df_first", "C02", (A + "delta_f_action.py", "        if self.write_stride and step % self.write_stride == 0:\n            self.write(step)", "        if self.write_stride and step % self.write_stride == 0 and step > self.stride:\n            self.write(step)"))
m("crashfes", "C03", (A + "fes_action.py", "        if self.write_stride and step % self.write_stride == 0:\n            self.write(step)", "        if self.write_stride and step % self.write_stride == 0 and step >= 2 * self.stride:\n            self.write(step)"))


import mutants2
mutants2.add(m)
import mutants3
mutants3.add(m)


def main():
    sel = sys.argv[1:]
    if sel[:1] == ["--from"]:
        k = [x[0] for x in M].index(sel[1])
        sel = [x[0] for x in M[k:]]
    for id, prop, edits in M:
        if sel and id not in sel:
            continue
        with tempfile.TemporaryDirectory(prefix="bdldmut_") as t:
            r = t + "/r"
            subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
            bad = False
            for f, old, new in edits:
                s = open(r + "/" + f).read()
                if s.count(old) != 1:
                    print(id, "EDIT matches", s.count(old), f, flush=True)
                    bad = True
                    break
                open(r + "/" + f, "w").write(s.replace(old, new))
            if bad:
                continue
            p = subprocess.run(["/opt/venv/bin/python", ROOT + "/harness/check.py", prop], cwd=ROOT, text=True,
                               env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            v = [l for l in p.stdout.split("\n") if l.startswith("  ")][:1] if p.returncode == 1 else p.stdout.strip().split("\n")[-1:]
            print(id, prop, {0: "MISSED", 1: "caught"}.get(p.returncode, "ERROR"), (v or [""])[0][:150], flush=True)


if __name__ == "__main__":
    main()
