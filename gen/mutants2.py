"""Second batch of edits for mutants.py (imported by it)."""
A = "bdld/actions/"
B = A + "birth_death.py"


def add(m):
    m("rowpad", "C01", (A + "trajectory_action.py", "row = (step % self.write_stride) - 1  # saving starts at step 1", "row = (step - 1) % self.write_stride if step < 1000 else (step % self.write_stride)"))
    m("momround", "C01", (A + "trajectory_action.py", "self.momentum[row] = [p.mom for p in self.ld.particles]", "self.momentum[row] = [p.mom for p in self.ld.particles] if step > 1 else 0.0"))
    m("namepad", "C01", (A + "trajectory_action.py", 'f"{filename}.{i}" for i in range(n_particles)]', 'f"{filename}.{i % 64}" for i in range(n_particles)]'))
    m("write0", "C01", (A + "trajectory_action.py", "        if self.filenames:\n            save_times", "        if self.filenames and (step - self.last_write) >= self.stride:\n            save_times"))
    m("pdint", "C02", (A + "particle_distribution.py", "            self.counts = np.empty(\n                (self.write_stride // self.stride, len(self.states) + 1)\n            )", "            self.counts = np.empty(\n                (self.write_stride // self.stride, len(self.states) + 1), dtype=np.int16\n            )"))
    m("dffinal", "C02", (A + "delta_f_action.py", "        self.write(step)\n\n    def write", "        if not self.stride or step > self.last_write + 1:\n            self.write(step)\n\n    def write"))
    m("keepopen", "C03", (A + "delta_f_action.py", '            with open(self.filename, "ab") as f:\n                np.savetxt(\n                    f,\n                    save_data,\n                    delimiter=" ",\n                    newline="\\n",\n                    fmt=self.write_fmt,\n                )', '            if not hasattr(self, "_f"):\n                self._f = open(self.filename, "ab")\n            np.savetxt(\n                self._f,\n                save_data,\n                delimiter=" ",\n                newline="\\n",\n                fmt=self.write_fmt,\n            )\n            if step % self.write_stride or not self.stride:\n                self._f.flush()'))
    m("trajearly", "C03", (A + "trajectory_action.py", "        if step % self.write_stride == 0:\n            self.write(step)\n\n    def final", "        if step % self.write_stride == 0 and step > self.write_stride:\n            self.write(step)\n\n    def final"))
    m("histskip", "C03", (A + "histogram_action.py", "        if self.write_stride and step % self.write_stride == 0:\n            self.write(step)", "        if self.write_stride and step % self.write_stride == 0 and self.histo.data.any():\n            self.write(step)"))
    m("histstride", "C04", (A + "histogram_action.py", "            self.last_update = step\n        if self.write_stride", "            self.last_update = step - step % self.stride\n        if self.write_stride"))
    m("histhalf", "C04", ("bdld/histogram.py", "tmp_histo, _ = np.histogramdd(data, bins=self.bins)", "tmp_histo, _ = np.histogramdd(np.asarray(data, dtype=np.float32), bins=self.bins)"))
    m("resetfinal", "C04", (A + "histogram_action.py", "        if step in self.reset:\n", "        if step in self.reset[:8]:\n"))
    m("resetpend", "C04", (A + "histogram_action.py", "            self.histo.clear()", "            self.histo.clear()\n            self.last_update = step"))
    m("fesnan", "C05", (A + "delta_f_action.py", "state_probs = [np.sum(probabilities[m]) for m in masks]", "state_probs = [np.sum(probabilities[m][probabilities[m] > 1e-3]) for m in masks]"))
    m("df3", "C05", (A + "delta_f_action.py", "-kt * np.log(state_probs[i] / state_probs[0])", "-kt * np.log(state_probs[i] / state_probs[0 if i < 3 else 1])"))
    m("pdtol", "C06", ("bdld/tools.py", "(pos[:, i] <= state[i][1])", "(pos[:, i] <= state[i][1] + 1e-9)"))
    m("pdsum", "C06", (A + "particle_distribution.py", "counts = [sum(state_bools) for state_bools in bool_lists]", "counts = [np.sum(state_bools, dtype=np.int8) for state_bools in bool_lists]"))
    m("pdstale", "C06", (A + "particle_distribution.py", "self.counts[row, 1:] = self.count_particles()", "self.counts[row, 1:] = self.count_particles() if row or step == self.stride else self.counts[row - 1, 1:]"))
    m("copymass", "C07", (B, "self.particles[kill] = copy.deepcopy(self.particles[dup])", "mass = self.particles[kill].mass\n            self.particles[kill] = copy.deepcopy(self.particles[dup])\n            self.particles[kill].mass = mass"))
    m("momzero", "C07", (B, "self.particles[kill] = copy.deepcopy(self.particles[dup])", "self.particles[kill] = copy.deepcopy(self.particles[dup])\n            if len(event_list) > 3:\n                self.particles[kill].mom *= 1 - 1e-7"))
    m("two", "C07", (B, "if num_part < 2:", "if num_part < 1:"))
    m("rc_dt", "C08", (B, "prob = 1 - np.exp(-np.abs(beta[i]) * self.dt * self.rate_fac)", "prob = 1 - np.exp(-np.abs(beta[i]) * self.dt * min(self.rate_fac, 1.0))"))
    m("rc_beta", "C08", (B, "                    event_list.append(curr_event)\n                    beta = self.calc_betas()", "                    event_list.append(curr_event)\n                    if len(event_list) % 4:\n                        beta = self.calc_betas()"))
    m("ktone", "C08", (B, "beta += ene * self.inv_kt", "beta += ene * self.inv_kt if self.kt > 0.1 else ene"))
    m("killset", "C08", (B, "                    else:  # beta[i] < 0\n                        kill_list.append(rand_other)", "                    else:  # beta[i] < 0\n                        if rand_other in dup_list:\n                            continue\n                        kill_list.append(rand_other)"))
    m("shuf", "C09", (B, "self.rng.shuffle(event_particles)", "self.rng.shuffle(event_particles[: 2 * (len(event_particles) // 2)])"))
    m("shufrec", "C09", (B, "self.rng.shuffle(particle_indices)", "particle_indices = np.roll(particle_indices, self.rng.integers(num_part))"))
    m("wrapb", "C09", (B, "        num = self.rng.integers(num_part - 1)\n        if num >= excl:\n            num += 1", "        num = (excl + self.rng.integers(1, num_part)) % num_part if num_part < 5 else (excl + self.rng.integers(1, num_part - (excl == 0))) % num_part"))
    m("statcum", "C10", (B, "            else:  # calculate percentages and ratios and write to output", "            else:  # calculate percentages and ratios and write to output\n                reset = step >= 8 * (self._n if hasattr(self, '_n') else 1)"))
    m("stat_rec", "C10", (B, "                    elif beta[i] < 0:\n                        curr_event = (i, rand_other)\n                        self.stats.dup_count += 1", "                    elif beta[i] < 0:\n                        curr_event = (i, rand_other)\n                        self.stats.dup_count += rand_other not in [e[1] for e in event_list]"))
    m("bdfirst", "C10", (B, "if step % self.stride == 0:\n            self.do", "if step % self.stride == 0 and (step > 1 or self.stride > 1):\n            self.do"))
    m("statpr", "C10", (B, "f\"{self.kill_count}/{self.kill_attempts} ({kill_perc:.4}%)\"", "f\"{self.kill_count}/{self.dup_attempts} ({kill_perc:.4}%)\""))
    m("bpclip", "C11", (A + "bussi_parinello_ld.py", "p.pos += (p.mom / p.mass) * self.dt", "p.pos += np.clip(p.mom / p.mass * self.dt, -1.0, 1.0)"))
    m("perround", "C12", ("bdld/potential/potential.py", "pos[i] = start + (x - start) % (end - start)", "pos[i] = x + (end - start) if x < start else x - (end - start)\n                pos[i] = min(max(pos[i], start), end)"))
    m("reflow", "C12", ("bdld/potential/potential.py", "            elif x > self.ranges[i][1]:\n                pos[i] = self.ranges[i][1]\n                mom[i] = -mom[i]", "            elif x > self.ranges[i][1]:\n                pos[i] = self.ranges[i][1]\n                mom[i] = -mom[i] if mom[i] > 0 else mom[i]"))
    m("coefint", "C13", ("bdld/potential/polynomial.py", "self.coeffs: np.ndarray = np.array(coeffs)", "self.coeffs: np.ndarray = np.atleast_1d(np.trim_zeros(coeffs, 'b') if np.ndim(coeffs) == 1 else coeffs)"))
    m("densclip", "C13", ("bdld/potential/potential.py", "prob = np.exp(-fes / kt)", "prob = np.exp(-fes / kt)\n        prob.data = np.maximum(prob.data, 1e-6)"))
    m("pos10", "C14", ("bdld/main.py", "        for i, pos in enumerate(init_pos_choices):\n            for _ in range", "        init_pos_choices = [p for _, p in sorted((str(i), p) for i, p in enumerate(init_pos_choices, 1))]\n        for i, pos in enumerate(init_pos_choices):\n            for _ in range"))
    m("fracint", "C14", ("bdld/main.py", 'int(round(frac * options["number"], 9))', 'int(round(frac, 6) * options["number"])'))
    m("rglob", "C14", ("bdld/main.py", "pos = [rng.uniform(start, end) for start, end in ld.pot.ranges]", "pos = [rng.uniform(min(start, 0.0) if start > -1 else start, end) for start, end in ld.pot.ranges]"))
    m("alias14", "C14", ("bdld/particle.py", "self.pos = np.array(pos, dtype=float)", "self.pos = np.asarray(pos, dtype=float)"), ("bdld/main.py", "                ld.add_particle(pos, mass)\n    print()", "                ld.add_particle(np_pos, mass)\n    print()"), ("bdld/main.py", "        for i, pos in enumerate(init_pos_choices):\n", "        for i, pos in enumerate(init_pos_choices):\n            np_pos = np.array(pos)\n"))
    m("nsteps0", "C15", ("bdld/inputparser.py", 'InputOption("n_steps", int, True, Input.positive)', 'InputOption("n_steps", int, True, Input.positive_or_zero)'))
    m("cond0", "C15", ("bdld/inputparser.py", "        if self.condition:\n            if not", "        if self.condition and val:\n            if not"))
    m("bw15", "C15", ("bdld/inputparser.py", 'InputOption("kernel-bandwidth", [float], True, Input.all_positive)', 'InputOption("kernel-bandwidth", [float], True)'))
    m("plot15", "C15", (A + "fes_action.py", "        if self.plot_stride:\n            if not self.stride:\n                e = \"Specifying a plot_stride but no stride makes no sense\"\n                raise ValueError(e)\n", "        if self.plot_stride and self.stride:\n"))
    m("bckonce", "C16", (A + "fes_action.py", "            backup_if_exists(filename)\n", "            if not step:\n                backup_if_exists(filename)\n"))
    m("bckhist", "C16", (A + "histogram_action.py", "            backup_if_exists(filename)\n", "            if step != self.write_stride:\n                backup_if_exists(filename)\n"))
    m("trajbck", "C16", (A + "trajectory_action.py", "                initialize_file(fname, ifields)", "                if i < 10:\n                    initialize_file(fname, ifields)\n                else:\n                    with open(fname, 'w') as f:\n                        f.write('#! FIELDS ' + ' '.join(ifields) + '\\n')"))
    m("bdseed", "C17", ("bdld/main.py", 'options["seed"] + 1000 if options["seed"] is not None else None', 'options["seed"] + 1000 if options["seed"] is not None and approx_variant == ApproxVariant.orig else None'))
    m("ldseedbig", "C17", (A + "bussi_parinello_ld.py", "np.random.default_rng(seed)", "np.random.default_rng(seed if seed is None or seed < 2**32 else None)"))
    m("odseed", "C17", (A + "overdamped_ld.py", "np.random.default_rng(seed)", "np.random.default_rng(seed or None)"))
    m("trajorder", "C18", ("bdld/main.py", "        if config.birth_death:\n            actions_dict[\"birth-death\"] = setup_birth_death(config.birth_death, ld)\n        if config.trajectories:\n            actions_dict[\"trajectories\"] = setup_trajectories(config.trajectories, ld)", "        if config.birth_death:\n            actions_dict[\"birth-death\"] = setup_birth_death(config.birth_death, ld)\n        if config.trajectories:\n            actions_dict[\"trajectories\"] = setup_trajectories(config.trajectories, ld)\n            if config.trajectories[\"momentum\"]:\n                for p in ld.particles:\n                    p.mom = p.mom + 1e-8"))
    m("statrng", "C18", (B, "            self.stats.print(step)\n\n    def final_run", "            self.stats.print(step)\n            self.rng.random()\n\n    def final_run"))
    m("histsort", "C18", (A + "histogram_action.py", "            self.histo.add(data.reshape(-1, data.shape[-1]))\n            self.last_update = step\n        if self.write", "            self.histo.add(data.reshape(-1, data.shape[-1]))\n            self.last_update = step\n            if self.stride > 2:\n                self.traj_action.ld.particles.sort(key=lambda p: p.pos[0])\n        if self.write"))
    m("hdrtime", "C19", (A + "delta_f_action.py", 'f"delta_f.1-{i}" for i in range(2, len(self.masks) + 1)]', 'f"delta_f.1-{i}" for i in range(2, min(len(self.masks), 9) + 1)]'))
    m("fmt3d", "C19", ("bdld/grid.py", "                np.c_[self.points(), self.data.reshape(-1)],\n                fmt=fmt,", "                np.c_[self.points(), self.data.reshape(-1)],\n                fmt=\"%14.9f\","))
    m("fesnb", "C19", (A + "fes_action.py", "constants[f\"{fields[i]}_min\"] = h_grid.ranges[i][0]", "constants[f\"{fields[i]}_min\"] = h_grid.histo_ranges[i][0]"))
    m("opinpl", "C20", ("bdld/grid.py", "new_grid.data = oper(self.data, other.data)", "new_grid.data = oper(self.data, other.data) if oper is not operator.sub else np.subtract(self.data, other.data, out=self.data)"))
    m("refuse", "C20", ("bdld/grid.py", "            if not (self.n_points == other.n_points) or not (\n                self.ranges == other.ranges\n            ):", "            if not (self.n_points == other.n_points) and not (\n                self.ranges == other.ranges\n            ):"))
    m("shrink", "C20", ("bdld/grid.py", "np.floor(n_steps) if shrink", "np.floor(n_steps + 0.1) if shrink"))
    m("axesint", "C20", ("bdld/grid.py", "np.linspace(*self.ranges[i], self.n_points[i])", "np.arange(self.n_points[i]) * self.stepsizes[0] + self.ranges[i][0]"))
    m("valid3", "C20", ("bdld/grid.py", "offset = (gs.n_points[dim] - 1) / 2 * stepsizes[dim]", "offset = (gs.n_points[dim] - 1) // 2 * stepsizes[dim]"))
    m("rem21", "C21", (A + "overdamped_ld.py", "        del self.particles[partnum]", "        self.particles.remove(self.particles[partnum]) if partnum >= 0 else self.particles.pop()"))
    m("app21", "C21", (A + "bussi_parinello_ld.py", "            if partnum == -1:", "            if partnum == -1 or partnum >= len(self.particles) - 1:"))
    m("dim21", "C21", (A + "bussi_parinello_ld.py", "if len(pos) != self.pot.n_dim:", "if len(pos) < self.pot.n_dim:"))
    m("shortname", "C22", (B, 'elif label in ["multiplicative", "mult"]', 'elif label in ["multiplicative", "mul"]'))
    m("addint", "C22", (B, "integral_term = nd_trapz(log_term.data * eq_density.data, conv.stepsizes)", "integral_term = np.mean(log_term.data)"))
    m("meanfirst", "C22", (B, "            beta += self.approx_grid.interpolate(pos, \"linear\", 0.0).reshape(len(pos))\n            beta -= np.mean(beta[beta != -np.inf])", "            beta -= np.mean(beta[beta != -np.inf])\n            beta += self.approx_grid.interpolate(pos, \"linear\", 0.0).reshape(len(pos))"))
    m("bwswap", "C22", (B, "kernel_ranges = [(-x, x) for x in 5 * bw]", "kernel_ranges = [(-x, x) for x in 5 * bw[::-1]]"))
    m("plotsplit", "C23", (A + "fes_action.py", "root, ext = os.path.splitext(self.plot_filename)", "root, _, ext = self.plot_filename.partition(\".\")\n                ext = \".\" + ext if ext else \"\""))
    m("plotax", "C23", (A + "fes_action.py", "                self.fes.axes(),\n", "                self.histo_action.histo.bins,\n"))
    m("plotT", "C23", (A + "fes_action.py", "fes.T,  # imshow", "(fes.T if fes.shape[0] != fes.shape[1] else fes),  # imshow"))
    m("plotlim", "C23", (A + "fes_action.py", "ax.set_ylim([-0.05 * ylim, 1.05 * ylim])", "ax.set_ylim([0.05 * ylim, 1.05 * ylim])"))
