From 2c8697ed26aab794d136e397b944e0499075e5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 01/34] fix: histogram starts empty (value used to create the
 bins was counted)

---
 bdld/histogram.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bdld/histogram.py b/bdld/histogram.py
index b2f86a9..74a52e1 100644
--- a/bdld/histogram.py
+++ b/bdld/histogram.py
@@ -46,6 +46,7 @@ class Histogram(grid.Grid):
             bins=self.n_points,
             range=self.histo_ranges,
         )
+        self.clear()  # the value used to create the bins is not part of the data
         self.ranges = [
             (a[0], a[-1]) for a in self.axes()
         ]  # ranges of points in underlying grid
-- 
2.43.0


From 1b5b297da4ae2e4caf63c3db4e207a3da2ae048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 02/34] fix: histogram counts every trajectory sample exactly
 once

---
 bdld/actions/histogram_action.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/bdld/actions/histogram_action.py b/bdld/actions/histogram_action.py
index e616625..c9044e2 100644
--- a/bdld/actions/histogram_action.py
+++ b/bdld/actions/histogram_action.py
@@ -95,6 +95,7 @@ class HistogramAction(Action):
                 f"Saving histogram every {self.write_stride} time steps to '{filename}'"
             )
         self.update_stride = traj_action.write_stride
+        self.last_update: int = 0
         print()
 
     def run(self, step: int):
@@ -106,6 +107,7 @@ class HistogramAction(Action):
             data = self.get_traj_data(step)
             # flatten the first 2 dimensions (combine all times)
             self.histo.add(data.reshape(-1, data.shape[-1]))
+            self.last_update = step
         if self.write_stride and step % self.write_stride == 0:
             self.write(step)
         if step in self.reset:
@@ -120,26 +122,23 @@ class HistogramAction(Action):
         data = self.get_traj_data(step)
         # flatten the first 2 dimensions (combine all times)
         self.histo.add(data.reshape(-1, data.shape[-1]))
+        self.last_update = step
         if self.filename:
             self.write()
 
     def get_traj_data(self, step: int) -> np.ndarray:
-        """Get the right data from the trajectory array
+        """Get the data that was not yet added from the trajectory array
+
+        This must not depend on when (or if) the trajectory was written to file
 
         :param step: current simulation step
         """
-        # take into account that the traj might have been written this step
-        last_write = (
-            self.traj_action.last_write
-            if self.traj_action.last_write != step
-            else self.traj_action.last_write - self.traj_action.write_stride
-        )
         return get_valid_data(
             self.traj_action.positions,
             step,
             self.stride,
             1,  # assumes that traj data is stored even if not written
-            last_write,
+            self.last_update,
         )
 
     def write(self, step: int = None):
-- 
2.43.0


From 8f17b4ca76d7d8c21b451935d6b57deb78980b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 03/34] fix: recalculate-probabilities mode killed and
 duplicated the wrong particle

---
 bdld/actions/birth_death.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/birth_death.py b/bdld/actions/birth_death.py
index 690140b..7fa222d 100644
--- a/bdld/actions/birth_death.py
+++ b/bdld/actions/birth_death.py
@@ -208,10 +208,10 @@ class BirthDeath(Action):
                 if rand[i] <= prob:
                     rand_other = self.random_other(num_part, i)
                     if beta[i] > 0:
-                        curr_event = (i, rand_other)
+                        curr_event = (rand_other, i)
                         self.stats.kill_count += 1
                     elif beta[i] < 0:
-                        curr_event = (rand_other, i)
+                        curr_event = (i, rand_other)
                         self.stats.dup_count += 1
                     self.perform_moves([curr_event])
                     event_list.append(curr_event)
-- 
2.43.0


From 0eb256bc826668b42f95f49be0b0ff26e4f16c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 04/34] fix: birth-death with a single particle must not crash

---
 bdld/actions/birth_death.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bdld/actions/birth_death.py b/bdld/actions/birth_death.py
index 7fa222d..96c8755 100644
--- a/bdld/actions/birth_death.py
+++ b/bdld/actions/birth_death.py
@@ -161,6 +161,8 @@ class BirthDeath(Action):
         :return event_list: List with Tuples (dup_i, kill_i) of the accepted events
         """
         num_part = len(self.particles)
+        if num_part < 2:  # there is no other particle to replace or be replaced by
+            return []
 
         beta = self.calc_betas()  # initial calculation of betas
         rand = self.rng.random(num_part)  # rng for all at once
-- 
2.43.0


From 3e8eee405885c79da2be9eac651c97fbbbb2b1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 05/34] fix: seed 0 of birth-death is a seed

---
 bdld/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/main.py b/bdld/main.py
index 5e4e45f..0c881f4 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -267,7 +267,7 @@ def setup_birth_death(options: Dict, ld: BussiParinelloLD) -> BirthDeath:
         options["recalculate-probabilities"],
         approx_variant,
         eq_density,
-        options["seed"] + 1000 if options["seed"] else None,
+        options["seed"] + 1000 if options["seed"] is not None else None,
         options["stats-stride"],
         options["stats-filename"],
     )
-- 
2.43.0


From 307d6b28e243030ed805bcf638c8e51490102400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 06/34] fix: grid points of 3d grids are in row-major order

---
 bdld/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/grid.py b/bdld/grid.py
index 637f5b3..137d140 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -145,7 +145,7 @@ class Grid:
 
     def points(self) -> np.ndarray:
         """Return all grid points as a array of shape (n_points, dim) in row-major order"""
-        return np.array(np.meshgrid(*self.axes())).T.reshape(
+        return np.stack(np.meshgrid(*self.axes(), indexing="ij"), axis=-1).reshape(
             np.prod(self.n_points), self.n_dim
         )
 
-- 
2.43.0


From c7e459254d070fc3cea53d439fc6d3c7c9c7f96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 07/34] fix: delta-f works in more than one dimension

---
 bdld/actions/delta_f_action.py | 2 +-
 bdld/main.py                   | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index 45bb8e0..c9c1d9a 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -157,7 +157,7 @@ def calculate_delta_f(fes: np.ndarray, kt: float, masks: List[np.ndarray]):
     :return delta_F: a list of doubles containing the free energy difference to the first state
     :raises IndexError: if the dimensions of the FES and any of the masks do not match
     """
-    probabilities = np.exp(-fes / float(kt)).reshape((-1))
+    probabilities = np.exp(-fes / float(kt))
     state_probs = [np.sum(probabilities[m]) for m in masks]
     delta_f = [
         -kt * np.log(state_probs[i] / state_probs[0])
diff --git a/bdld/main.py b/bdld/main.py
index 0c881f4..d37e10f 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -359,7 +359,10 @@ def setup_delta_f(options: Dict, fes_action: FesAction) -> DeltaFAction:
         raise ValueError(e_msg)
 
     fes_points = fes_action.histo_action.histo.points()
-    masks = pos_inside_ranges(fes_points, state_ranges)
+    masks = [
+        mask.reshape(fes_action.fes.data.shape)
+        for mask in pos_inside_ranges(fes_points, state_ranges)
+    ]
 
     return DeltaFAction(
         fes_action,
-- 
2.43.0


From b1657b01df6e350a2fd1eaeeed4029c24e560e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 08/34] fix: scaling a Mueller-Brown potential must not change
 other instances

---
 bdld/potential/mueller_brown.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/bdld/potential/mueller_brown.py b/bdld/potential/mueller_brown.py
index 774c08f..3da3a58 100644
--- a/bdld/potential/mueller_brown.py
+++ b/bdld/potential/mueller_brown.py
@@ -45,9 +45,7 @@ class MuellerBrownPotential(Potential):
         self.n_dim = 2
         self.ranges = [(-1.5, 1.5), (-0.5, 2.5)]
         self.scaling_factor = scaling_factor or 1.0
-        if scaling_factor:
-            global A
-            A *= self.scaling_factor
+        self.A = A * self.scaling_factor
 
     def __str__(self) -> str:
         """Give out coefficients"""
@@ -72,12 +70,12 @@ class MuellerBrownPotential(Potential):
                 + b[i] * (x - x0[i]) * (y - y0[i])
                 + c[i] * (y - y0[i]) ** 2
             )
-            pot += A[i] * exp_tmp1
+            pot += self.A[i] * exp_tmp1
             force[0] += (
-                -A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
             )
             force[1] += (
-                -A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
             )
         pot += pot_shift
         return (pot, force)
@@ -92,7 +90,7 @@ class MuellerBrownPotential(Potential):
         x = pos[0]
         y = pos[1]
         for i in range(4):
-            pot += A[i] * np.exp(
+            pot += self.A[i] * np.exp(
                 a[i] * (x - x0[i]) ** 2
                 + b[i] * (x - x0[i]) * (y - y0[i])
                 + c[i] * (y - y0[i]) ** 2
@@ -116,9 +114,9 @@ class MuellerBrownPotential(Potential):
                 + c[i] * (y - y0[i]) ** 2
             )
             force[0] += (
-                -A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
             )
             force[1] += (
-                -A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
             )
         return force
-- 
2.43.0


From 3e51bd7baad0c23065a7dcb51bc0435d2c7c38be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 09/34] fix: periodic boundary moves particles inside however
 far they were outside

---
 bdld/potential/potential.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bdld/potential/potential.py b/bdld/potential/potential.py
index cd7d69a..ab01bc9 100644
--- a/bdld/potential/potential.py
+++ b/bdld/potential/potential.py
@@ -173,7 +173,6 @@ class Potential:
         :param mom: momentum of particle per direction (not actually changed)
         """
         for i, x in enumerate(pos):
-            if x < self.ranges[i][0]:
-                pos[i] += self.ranges[i][1] - self.ranges[i][0]
-            elif x > self.ranges[i][1]:
-                pos[i] -= self.ranges[i][1] - self.ranges[i][0]
+            start, end = self.ranges[i]
+            if x < start or x > end:
+                pos[i] = start + (x - start) % (end - start)
-- 
2.43.0


From eadcee2c54519ec62a46d15815b9efd0e9c7ec97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 10/34] fix: reject potentials with more than 3 dimensions

---
 bdld/inputparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 1b41d9c..fa4e435 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -121,7 +121,7 @@ class Input:
         lambda lst: all(x > 0 for x in lst), "all values must be greater than zero"
     )
     positive_or_zero = Condition(lambda x: x >= 0, "must be greater or equal than zero")
-    at_most_3dim = Condition(lambda x: x > 0 & x < 4, "must be between 1 and 3")
+    at_most_3dim = Condition(lambda x: 0 < x < 4, "must be between 1 and 3")
 
     # @staticmethod
     # def match_dimensions(n_dim: int) -> Condition:
-- 
2.43.0


From 33fbbb6781261a2e7db699f254e9c826851a9f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 11/34] fix: header of delta-f and particle-distribution names
 the time column

---
 bdld/actions/delta_f_action.py        | 2 +-
 bdld/actions/particle_distribution.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index c9c1d9a..5278e16 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -82,7 +82,7 @@ class DeltaFAction(Action):
             if ref:
                 for i, val in enumerate(self.ref_values):
                     constants[f"ref_{fields[i]}"] = val
-            initialize_file(self.filename, fields, constants)
+            initialize_file(self.filename, ["time"] + fields, constants)
             stride_str = (
                 f"of every {make_ordinal(self.stride)} time step "
                 if self.stride
diff --git a/bdld/actions/particle_distribution.py b/bdld/actions/particle_distribution.py
index da5bc1d..3029dcc 100644
--- a/bdld/actions/particle_distribution.py
+++ b/bdld/actions/particle_distribution.py
@@ -71,7 +71,7 @@ class ParticleDistributionAction(Action):
             constants = OrderedDict()  # add state ranges to file header
             for i, state in enumerate(self.states):
                 constants[f"state_{i}"] = str(state)
-            initialize_file(self.filename, fields, constants)
+            initialize_file(self.filename, ["timestep"] + fields, constants)
             stride_str = (
                 f"of every {make_ordinal(self.stride)} time step "
                 if self.stride
-- 
2.43.0


From bdb8d3bd6b37d54f4766de7cce76452725a6b072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 12/34] fix: exactly distributable fractions of particles are
 distributed exactly

---
 bdld/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bdld/main.py b/bdld/main.py
index d37e10f..e523811 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -205,7 +205,10 @@ def init_particles(options: Dict, ld: LdType) -> None:
         normalized_fractions = np.array(options["fractions"]) / np.sum(
             options["fractions"]
         )
-        counts = [int(frac * options["number"]) for frac in normalized_fractions]
+        # round to avoid losing a particle to floating point errors (e.g. 0.29 * 100)
+        counts = [
+            int(round(frac * options["number"], 9)) for frac in normalized_fractions
+        ]
         counts[0] += options["number"] - np.sum(counts)  # rounding offset
         init_pos_choices = cast(
             List[List[float]], inputparser.get_all_numbered_values(options, "pos")
-- 
2.43.0


From a43712b58e902ae9072f722ac8162447d6e32b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 13/34] fix: report unparsable options and missing sections as
 input errors

---
 bdld/inputparser.py | 13 ++++++++++---
 bdld/main.py        |  4 ++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index fa4e435..f2078e9 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -100,7 +100,14 @@ class InputOption:
         # parsing of lists is a bit more complicated
         if isinstance(self.keytype, list):
             val = section.get(self.key)
-            val = [self.keytype[0](x) for x in val.split(",")]
+            try:
+                val = [self.keytype[0](x) for x in val.split(",")]
+            except ValueError as e:
+                raise OptionError(
+                    f"could not be converted to list of {self.keytype[0].__name__}",
+                    self.key,
+                    section.name,
+                ) from e
         if self.condition:
             if not self.condition.function(val):
                 raise OptionError(self.condition.desc, self.key, section.name)
@@ -334,7 +341,7 @@ class Input:
     def parse_fes(self, section: configparser.SectionProxy) -> None:
         """Define and parse the fes section"""
         if not self.histogram:
-            raise configparser.NoSectionError("histogram")
+            raise SectionError("histogram")
         options = [
             InputOption("kt", float, True, Input.positive),
             InputOption("stride", int, False, Input.positive),
@@ -351,7 +358,7 @@ class Input:
     def parse_delta_f(self, section: configparser.SectionProxy) -> None:
         """Define and parse if delta f should be calculated section"""
         if not self.fes:
-            raise configparser.NoSectionError("fes")
+            raise SectionError("fes")
         options = [
             InputOption("stride", int, False, Input.positive),
             InputOption("filename", str, False),
diff --git a/bdld/main.py b/bdld/main.py
index e523811..a962c1e 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -244,9 +244,9 @@ def setup_birth_death(options: Dict, ld: BussiParinelloLD) -> BirthDeath:
         if options[key]:
             try:
                 approx_variant = ApproxVariant.from_str(options[key])
-            except KeyError as err:
+            except TypeError as err:
                 e = "The specified {} could not be understood".format(key)
-                raise inputparser.OptionError(e, "birth-death", key) from err
+                raise inputparser.OptionError(e, key, "birth-death") from err
             return approx_variant
         return None
 
-- 
2.43.0


From ea9a594614064c5cd6b15eebc0c16108f03f7a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 14/34] fix: reject unknown boundary conditions instead of
 using none

---
 bdld/inputparser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index f2078e9..949f6c3 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -244,7 +244,13 @@ class Input:
                 "type",
                 section.name,
             )
-        options.append(InputOption("boundary-condition", str, False))
+        boundary_conditions = ["periodic", "reflective"]
+        allowed_boundary_condition = Condition(
+            lambda x: x in boundary_conditions, f"must be one of {boundary_conditions}"
+        )
+        options.append(
+            InputOption("boundary-condition", str, False, allowed_boundary_condition)
+        )
         self.potential = self.parse_section(section, options)
 
     def parse_particles(self, section: configparser.SectionProxy) -> None:
-- 
2.43.0


From 8d77a746beb0e59be32e333a030c146d0a530044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 15/34] fix: accept coeffs-file for 1d polynomials and require
 any coefficients

---
 bdld/inputparser.py | 3 ++-
 bdld/main.py        | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 949f6c3..ba34b63 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -220,7 +220,8 @@ class Input:
                 options = [
                     type_option,
                     n_dim_option,
-                    InputOption("coeffs", [float], False),
+                    InputOption("coeffs", [float], "coeffs-file" not in section),
+                    InputOption("coeffs-file", str, False),
                     InputOption("min", float, True),
                     InputOption("max", float, True),
                 ]
diff --git a/bdld/main.py b/bdld/main.py
index a962c1e..186c8d0 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -128,9 +128,12 @@ def setup_potential(options: Dict) -> Potential:
     if options["type"] == "polynomial":
         if options["n_dim"] == 1:
             ranges = [(options["min"], options["max"])]
-            pot: Potential = potential.polynomial.PolynomialPotential(
-                options["coeffs"], ranges
-            )
+            coeffs = options["coeffs"]
+            if coeffs is None:
+                coeffs = potential.polynomial.coefficients_from_file(
+                    options["coeffs-file"], options["n_dim"]
+                )
+            pot: Potential = potential.polynomial.PolynomialPotential(coeffs, ranges)
         else:
             ranges = list(zip(options["min"], options["max"]))
             coeffs = potential.polynomial.coefficients_from_file(
-- 
2.43.0


From 33425af3cded4d4308bbdfb77b2d1af77184c324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 16/34] fix: read coefficient files with a single row or
 free-form extra columns

---
 bdld/potential/polynomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/potential/polynomial.py b/bdld/potential/polynomial.py
index dc5279e..0f04c0e 100644
--- a/bdld/potential/polynomial.py
+++ b/bdld/potential/polynomial.py
@@ -96,7 +96,8 @@ def coefficients_from_file(filename: str, n_dim: int) -> np.ndarray:
     :param filename: path to file holding the coefficients
     :param n_dim: dimensions of potential
     """
-    file_data = np.genfromtxt(filename)
+    # usecols: ignore remaining columns, atleast_2d: file might have only one row
+    file_data = np.atleast_2d(np.genfromtxt(filename, usecols=range(n_dim + 1)))
 
     # highest polynomial order per dimension
     shape = [int(max(file_data[:, i])) + 1 for i in range(n_dim)]
-- 
2.43.0


From 944d09d108c80b4da3d58b762385a719009aff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 17/34] fix: allow c-style format specifiers for the fmt
 options

---
 bdld/inputparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index ba34b63..16ea0b9 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -160,7 +160,7 @@ class Input:
             pass
 
         print(f"Parsing input from file '{self.filename}'\n")
-        infile = configparser.ConfigParser()
+        infile = configparser.ConfigParser(interpolation=None)  # '%' is used in fmt
         infile.read(self.filename)
 
         for required_sec in ["ld", "potential", "particles"]:
-- 
2.43.0


From b5a446f55ec976f63428ab044ec5f8979cb77e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 18/34] fix: use the kt option of the fes section

---
 bdld/actions/delta_f_action.py | 4 ++--
 bdld/actions/fes_action.py     | 4 +++-
 bdld/main.py                   | 1 +
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index 5278e16..0bdea0d 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -67,8 +67,8 @@ class DeltaFAction(Action):
         else:  # just store one data set
             self.delta_f = np.empty((len(self.masks)))
 
-        # copy temp and timestep from LD
-        self.kt = self.fes_action.histo_action.traj_action.ld.kt
+        # copy temp from FES and timestep from LD
+        self.kt = self.fes_action.kt
         self.dt = self.fes_action.histo_action.traj_action.ld.dt
 
         if ref:
diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index c3df662..1e4dc4b 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -41,6 +41,7 @@ class FesAction(Action):
         plot_domain: Optional[Tuple[float, float]] = None,
         plot_title: str = None,
         ref: Optional[np.ndarray] = None,
+        kt: Optional[float] = None,
     ) -> None:
         """Set up fes calculation for a Histogram
 
@@ -59,6 +60,7 @@ class FesAction(Action):
         :param plot_filename: filename for plot, optional
         :param plot_domain: specify domain for plots, optional
         :param ref: reference fes for plot, optional
+        :param kt: thermal energy, default is the one of the Langevin dynamics
         :raise ValueError: if a write_stride but no stride is passed
         :raise ValueError: if a write_stride but no filename is passed
         :raise ValueError: if a plot_stride but no stride is passed
@@ -66,7 +68,7 @@ class FesAction(Action):
         """
         print("Setting up FES calculation for the histogram\n" + "Parameters:")
         self.histo_action = histo_action
-        self.kt = self.histo_action.traj_action.ld.kt
+        self.kt = kt or self.histo_action.traj_action.ld.kt
         print(f"  kt = {self.kt}")
         # set up grid by running analysis to have dimensions and allow checks on shape
         self.fes = calculate_fes(self.histo_action.histo, self.kt)
diff --git a/bdld/main.py b/bdld/main.py
index 186c8d0..697cf84 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -352,6 +352,7 @@ def setup_fes(options: Dict, histo_action: HistogramAction) -> FesAction:
         options["plot-domain"],
         options["plot-title"],
         ref,
+        options["kt"],
     )
 
 
-- 
2.43.0


From 81fb50a771d9face5e1607359e4dc1696745e5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:49 +0000
Subject: [PATCH 19/34] fix: reject states whose dimensions do not match the
 potential

---
 bdld/inputparser.py |  2 +-
 bdld/main.py        | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 16ea0b9..6039172 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -482,7 +482,7 @@ def min_max_to_ranges(
     try:
         n_dim = len(min_list[0])  # TypeError if not list
         for i, _ in enumerate(min_list):
-            if len(min_list[i]) != len(max_list[i]) != n_dim:
+            if not len(min_list[i]) == len(max_list[i]) == n_dim:
                 raise ValueError(f"Dimensions of min/max {i} are inconsistent")
     except TypeError:  # elements are not lists
         for min_max_i in min_list + max_list:
diff --git a/bdld/main.py b/bdld/main.py
index 697cf84..17af5ba 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -361,6 +361,7 @@ def setup_delta_f(options: Dict, fes_action: FesAction) -> DeltaFAction:
     min_list = inputparser.get_all_numbered_values(options, "state", "-min")
     max_list = inputparser.get_all_numbered_values(options, "state", "-max")
     state_ranges = inputparser.min_max_to_ranges(min_list, max_list)
+    check_state_dimensions(state_ranges, fes_action.fes.n_dim, "delta-f")
     if len(state_ranges) < 2:
         e_msg = "You need to specify at least 2 states for delta F calculations"
         raise ValueError(e_msg)
@@ -388,6 +389,7 @@ def setup_particle_distribution(
     min_list = inputparser.get_all_numbered_values(options, "state", "-min")
     max_list = inputparser.get_all_numbered_values(options, "state", "-max")
     state_ranges = inputparser.min_max_to_ranges(min_list, max_list)
+    check_state_dimensions(state_ranges, ld.pot.n_dim, "particle-distribution")
 
     return ParticleDistributionAction(
         ld.particles,  # type: ignore
@@ -399,6 +401,16 @@ def setup_particle_distribution(
     )
 
 
+def check_state_dimensions(state_ranges: List, n_dim: int, section: str) -> None:
+    """Raise OptionError if the states do not have the dimensions of the potential"""
+    if any(len(state) != n_dim for state in state_ranges):
+        raise inputparser.OptionError(
+            f"dimensions of states do not match potential (should be {n_dim} values)",
+            "statex-min / statex-max",
+            section,
+        )
+
+
 def init_logger(level_str: str) -> logging.Logger:
     """Set up logger with specified level
 
-- 
2.43.0


From 01a7507e96a4444dbe3b6cc252461ec817eea1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:49 +0000
Subject: [PATCH 20/34] fix: write grids with more than 2 dimensions to file

---
 bdld/grid.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bdld/grid.py b/bdld/grid.py
index 137d140..c6167ba 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -210,6 +210,16 @@ class Grid:
                 fmt,
                 header,
             )
+        else:
+            np.savetxt(
+                filename,
+                np.c_[self.points(), self.data.reshape(-1)],
+                fmt=fmt,
+                header=header,
+                delimiter=" ",
+                newline="\n",
+                comments="",
+            )
 
 
 def convolve(g1: Grid, g2: Grid, mode: str = "valid", method: str = "auto") -> Grid:
-- 
2.43.0


From ee81ed989625c8e552338922917f299d87098b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:25 +0000
Subject: [PATCH 21/34] fix: use the documented amplitude -170 of the
 Mueller-Brown potential

The third amplitude was -175, in contradiction to the docstring and the cited
publication.
---
 bdld/potential/mueller_brown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/potential/mueller_brown.py b/bdld/potential/mueller_brown.py
index 3da3a58..74e301c 100644
--- a/bdld/potential/mueller_brown.py
+++ b/bdld/potential/mueller_brown.py
@@ -6,7 +6,7 @@ import numpy as np
 from bdld.potential.potential import Potential
 
 # coefficients
-A = np.array([-200.0, -100.0, -175.0, 15.0])
+A = np.array([-200.0, -100.0, -170.0, 15.0])
 a = np.array([-1.0, -1.0, -6.5, 0.7])
 b = np.array([0.0, 0.0, 11.0, 0.6])
 c = np.array([-10.0, -10.0, -6.5, 0.7])
-- 
2.43.0


From bc77a9ecc55e62cf75bb7abcd1d60e58010ab8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:54 +0000
Subject: [PATCH 22/34] fix: do not write records again if the run ends between
 two updates

With n_steps shortly after a multiple of the write-stride (by less than the
stride) the complete buffer of particle-distribution and delta-f was written a
second time (or uninitialised data if nothing was stored yet).
---
 bdld/actions/action.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bdld/actions/action.py b/bdld/actions/action.py
index 8ae81e7..94f477e 100644
--- a/bdld/actions/action.py
+++ b/bdld/actions/action.py
@@ -63,6 +63,9 @@ def get_valid_data(
     :param update_stride: number of time steps between data points
     :param last_write: when the data was last written (needs to be less than write_stride ago)
     """
+    # there are no data points for steps between the updates
+    step -= step % update_stride
+    last_write -= last_write % update_stride
     if step == last_write:  # manual check because already_written is 0 due to modulo
         return data[:0]  # empty view
 
-- 
2.43.0


From 8432aa2e9b3cd2905c8086e75c980ac0d2e76359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:05 +0000
Subject: [PATCH 23/34] fix: refuse min / max options with the wrong number of
 values instead of truncating them

---
 bdld/inputparser.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 6039172..0ca8d4a 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -130,9 +130,12 @@ class Input:
     positive_or_zero = Condition(lambda x: x >= 0, "must be greater or equal than zero")
     at_most_3dim = Condition(lambda x: 0 < x < 4, "must be between 1 and 3")
 
-    # @staticmethod
-    # def match_dimensions(n_dim: int) -> Condition:
-    # return Condition(lambda x: x == n_dim, f"wrong dimensions (must be {n_dim})")
+    @staticmethod
+    def match_dimensions(n_dim: int) -> Condition:
+        """Condition that a list has one value per dimension"""
+        return Condition(
+            lambda lst: len(lst) == n_dim, f"wrong dimensions (must be {n_dim} values)"
+        )
 
     def __init__(self, filename: str) -> None:
         self.filename = filename
@@ -230,8 +233,8 @@ class Input:
                     type_option,
                     n_dim_option,
                     InputOption("coeffs-file", str, True),
-                    InputOption("min", [float], True),
-                    InputOption("max", [float], True),
+                    InputOption("min", [float], True, Input.match_dimensions(n_dim)),
+                    InputOption("max", [float], True, Input.match_dimensions(n_dim)),
                 ]
         elif pot_type == "mueller-brown":
             options = [
@@ -338,9 +341,10 @@ class Input:
                 InputOption("bins", int, True, Input.positive),
             ]
         else:
+            match_dim = Input.match_dimensions(cast(int, self.potential["n_dim"]))
             options += [
-                InputOption("min", [float], True),
-                InputOption("max", [float], True),
+                InputOption("min", [float], True, match_dim),
+                InputOption("max", [float], True, match_dim),
                 InputOption("bins", [int], True, Input.all_positive),
             ]
         self.histogram = self.parse_section(section, options)
-- 
2.43.0


From 5be8007bd6b204991314f8d455880a4cf841c9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:23 +0000
Subject: [PATCH 24/34] fix: refuse positions with the wrong number of values
 also if no particle starts there

---
 bdld/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bdld/main.py b/bdld/main.py
index 17af5ba..ef4d8e1 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -219,6 +219,10 @@ def init_particles(options: Dict, ld: LdType) -> None:
         if len(init_pos_choices) != len(counts):
             e = "fractions in [particles]: number of positions and fractions do not match"
             raise ValueError(e)
+        # also needed for positions without particles
+        if any(len(pos) != ld.pot.n_dim for pos in init_pos_choices):
+            e = f"pos in [particles]: positions do not have {ld.pot.n_dim} values"
+            raise ValueError(e)
         for i, pos in enumerate(init_pos_choices):
             for _ in range(counts[i]):
                 ld.add_particle(pos, mass)
-- 
2.43.0


From cb591a6c55bb35203eddec9bcc6448802cc9d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:14 +0000
Subject: [PATCH 25/34] fix: do not remove a point when shrinking a grid whose
 stepsize fits exactly

---
 bdld/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/grid.py b/bdld/grid.py
index c6167ba..6a36ccc 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -320,7 +320,8 @@ def from_stepsizes(
             stepsizes = [stepsizes] * grid.n_dim
     grid.stepsizes = copy.deepcopy(stepsizes)
     for i, r in enumerate(ranges):
-        n_points_tmp = int(np.ceil((r[1] - r[0]) / stepsizes[i])) + 1 - int(shrink)
+        n_steps = (r[1] - r[0]) / stepsizes[i]
+        n_points_tmp = int(np.floor(n_steps) if shrink else np.ceil(n_steps)) + 1
         grid.ranges.append((float(r[0]), r[0] + stepsizes[i] * (n_points_tmp - 1)))
         grid.n_points.append(n_points_tmp)
     return grid
-- 
2.43.0


From 1a9eecc38b9cd0013972b3c6635987ae93caeb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:24 +0000
Subject: [PATCH 26/34] fix: show 2d free energy surfaces with the first
 coordinate horizontally

---
 bdld/actions/fes_action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index 1e4dc4b..45f392d 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -253,7 +253,7 @@ def plot_fes(
             vmin = None
             vmax = None
         img = ax.imshow(
-            fes,
+            fes.T,  # imshow expects the first coordinate as columns
             origin="lower",
             extent=(axes[0][0], axes[0][-1], axes[-1][0], axes[-1][-1]),
             vmin=vmin,
-- 
2.43.0


From d410589430d639d91cb4f91bc489e1f220ee8262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:24 +0000
Subject: [PATCH 27/34] fix: keep the file extension of plots written during
 the run

---
 bdld/actions/fes_action.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index 45f392d..3ff03e7 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -5,6 +5,7 @@ Also holds functions for calculating and plotting the FES
 
 from collections import OrderedDict
 import logging
+import os
 from typing import List, Optional, Tuple
 
 import numpy as np
@@ -163,14 +164,16 @@ class FesAction(Action):
     def plot(self, step: int = None) -> None:
         """Plot fes with reference and optionally save to file
 
-        If a step is specified it will be appended to the filename, i.e. it is written
-        to a new file. It will also be used for the plot title
+        If a step is specified it will be appended to the filename (before an extension),
+        i.e. it is written to a new file. It will also be used for the plot title
 
         :param step: current simulation step, optional
         """
         if self.plot_filename:
             if step:
-                plot_filename = f"{self.plot_filename}_{step}"
+                # keep a file extension, it determines the format of the plot
+                root, ext = os.path.splitext(self.plot_filename)
+                plot_filename = f"{root}_{step}{ext}"
                 plot_title = f"{self.plot_title}_{step}"
             else:
                 plot_filename = self.plot_filename
-- 
2.43.0


From e3dac1d7885cb4bffae5b2326b4d71682d01034e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:41 +0000
Subject: [PATCH 28/34] fix: normalize the probability density of potentials
 with large constants

---
 bdld/potential/potential.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bdld/potential/potential.py b/bdld/potential/potential.py
index ab01bc9..c779af7 100644
--- a/bdld/potential/potential.py
+++ b/bdld/potential/potential.py
@@ -92,6 +92,8 @@ class Potential:
             raise ValueError("Dimension of grid_points do not match potential")
         fes = grid.from_npoints(ranges, grid_points)
         fes.set_from_func(self.energy)
+        # shift to minimum zero: the constant cancels, but exp() could over- or underflow
+        fes -= np.min(fes.data)
         prob = np.exp(-fes / kt)
         # normalize with volume element from stepsizes
         prob /= np.sum(prob.data) * np.prod(prob.stepsizes)
-- 
2.43.0


From cb470380977a439b4b0752c736e9437efac6a668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:41 +0000
Subject: [PATCH 29/34] fix: finite additive correction where the equilibrium
 density vanishes

---
 bdld/actions/birth_death.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/birth_death.py b/bdld/actions/birth_death.py
index 96c8755..a88f7bd 100644
--- a/bdld/actions/birth_death.py
+++ b/bdld/actions/birth_death.py
@@ -531,8 +531,12 @@ def calc_additive_correction(
         dens_smaller = conv.copy_empty()
         dens_smaller.data = eq_density.interpolate(dens_smaller.points(), "linear")
         eq_density = dens_smaller
-    log_term = np.log(conv / eq_density)
-    integral_term = nd_trapz(log_term.data * eq_density.data, conv.stepsizes)
+    with np.errstate(divide="ignore", over="ignore", invalid="ignore"):
+        log_term = np.log(conv / eq_density)
+        integrand = log_term.data * eq_density.data
+    # far away from the minima the density vanishes: no contribution to the average
+    integrand[~np.isfinite(log_term.data)] = 0.0
+    integral_term = nd_trapz(integrand, conv.stepsizes)
     correction = -log_term + integral_term
     if any(n > 101 for n in correction.n_points):
         correction = grid.sparsify(correction, [101] * correction.n_dim, "linear")
-- 
2.43.0


From 30153de7de1e3fa5b502399ee23470b3749ce83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:41 +0000
Subject: [PATCH 30/34] fix: number of grid points for decimal stepsizes that
 fit exactly

---
 bdld/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/grid.py b/bdld/grid.py
index 6a36ccc..388f50f 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -320,7 +320,8 @@ def from_stepsizes(
             stepsizes = [stepsizes] * grid.n_dim
     grid.stepsizes = copy.deepcopy(stepsizes)
     for i, r in enumerate(ranges):
-        n_steps = (r[1] - r[0]) / stepsizes[i]
+        # rounding: an exactly fitting stepsize must not gain or lose a point
+        n_steps = round((r[1] - r[0]) / stepsizes[i], 9)
         n_points_tmp = int(np.floor(n_steps) if shrink else np.ceil(n_steps)) + 1
         grid.ranges.append((float(r[0]), r[0] + stepsizes[i] * (n_points_tmp - 1)))
         grid.n_points.append(n_points_tmp)
-- 
2.43.0


From 0a18c4f15f0b9d4df23d0a5ef68cdc3f029b2cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:41 +0000
Subject: [PATCH 31/34] fix: refuse negative seeds with a message naming the
 option

---
 bdld/inputparser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 0ca8d4a..6e15a09 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -195,7 +195,7 @@ class Input:
             type_option,
             InputOption("timestep", float, True, Input.positive_or_zero),
             InputOption("n_steps", int, True, Input.positive),
-            InputOption("seed", int, False),
+            InputOption("seed", int, False, Input.positive_or_zero),
         ]
         if ld_type == "bussi-parinello":
             options += [
@@ -262,7 +262,7 @@ class Input:
         options = [
             InputOption("number", int, True, Input.positive),
             InputOption("mass", float, False, Input.positive, 1.0),
-            InputOption("seed", int, False),
+            InputOption("seed", int, False, Input.positive_or_zero),
         ]
 
         # a bit more logic because the variants require different options
@@ -303,7 +303,7 @@ class Input:
             InputOption("recalculate-probabilities", bool, False, None, False),
             InputOption("stats-stride", int, False, Input.positive),
             InputOption("stats-filename", str, False),
-            InputOption("seed", int, False),
+            InputOption("seed", int, False, Input.positive_or_zero),
         ]
 
         if self.potential["n_dim"] == 1:
-- 
2.43.0


From 7266ef6b502cbe328527d6b76bcf6805875adff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:41 +0000
Subject: [PATCH 32/34] fix: refuse fractions that are negative or all zero

---
 bdld/inputparser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 6e15a09..d167650 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -130,6 +130,11 @@ class Input:
     positive_or_zero = Condition(lambda x: x >= 0, "must be greater or equal than zero")
     at_most_3dim = Condition(lambda x: 0 < x < 4, "must be between 1 and 3")
 
+    fractions = Condition(
+        lambda lst: all(x >= 0 for x in lst) and sum(lst) > 0,
+        "values must not be negative and have a positive sum",
+    )
+
     @staticmethod
     def match_dimensions(n_dim: int) -> Condition:
         """Condition that a list has one value per dimension"""
@@ -287,7 +292,7 @@ class Input:
                 options.append(InputOption(f"pos{i+1}", [float], True))
 
         if init_dist == "fractions-pos":
-            options.append(InputOption("fractions", [float], True))
+            options.append(InputOption("fractions", [float], True, Input.fractions))
 
         self.particles = self.parse_section(section, options)
 
-- 
2.43.0


From daa6f42de2189f5f1e484794290ec23a835b109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:41 +0000
Subject: [PATCH 33/34] fix: refuse a plot-domain that is not a pair of values

---
 bdld/inputparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index d167650..3158073 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -358,6 +358,7 @@ class Input:
         """Define and parse the fes section"""
         if not self.histogram:
             raise SectionError("histogram")
+        min_max = Condition(lambda lst: len(lst) == 2, "must be 2 values (min, max)")
         options = [
             InputOption("kt", float, True, Input.positive),
             InputOption("stride", int, False, Input.positive),
@@ -366,7 +367,7 @@ class Input:
             InputOption("fmt", str, False),
             InputOption("plot-stride", int, False),
             InputOption("plot-filename", str, False),
-            InputOption("plot-domain", [float], False),
+            InputOption("plot-domain", [float], False, min_max),
             InputOption("plot-title", str, False),
         ]
         self.fes = self.parse_section(section, options)
-- 
2.43.0


From 977718f3f73d4d3b38eaf7c57c12c0fcb880aec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:41 +0000
Subject: [PATCH 34/34] fix: refuse a fmt that cannot format numbers before
 starting the run

---
 bdld/inputparser.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 3158073..4abb0d3 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -135,6 +135,10 @@ class Input:
         "values must not be negative and have a positive sum",
     )
 
+    number_format = Condition(
+        lambda fmt: can_format_numbers(fmt), "cannot be used to format numbers"
+    )
+
     @staticmethod
     def match_dimensions(n_dim: int) -> Condition:
         """Condition that a list has one value per dimension"""
@@ -326,7 +330,7 @@ class Input:
             InputOption("stride", int, False, Input.positive),
             InputOption("momentum", bool, False),
             InputOption("write-stride", int, False, Input.positive),
-            InputOption("fmt", str, False),
+            InputOption("fmt", str, False, Input.number_format),
         ]
         self.trajectories = self.parse_section(section, options)
 
@@ -337,7 +341,7 @@ class Input:
             InputOption("reset", [int], False, Input.all_positive),
             InputOption("filename", str, False, None),
             InputOption("write-stride", int, False, Input.positive),
-            InputOption("fmt", str, False),
+            InputOption("fmt", str, False, Input.number_format),
         ]
         if self.potential["n_dim"] == 1:
             options += [
@@ -364,7 +368,7 @@ class Input:
             InputOption("stride", int, False, Input.positive),
             InputOption("filename", str, False),
             InputOption("write-stride", int, False, Input.positive),
-            InputOption("fmt", str, False),
+            InputOption("fmt", str, False, Input.number_format),
             InputOption("plot-stride", int, False),
             InputOption("plot-filename", str, False),
             InputOption("plot-domain", [float], False, min_max),
@@ -380,7 +384,7 @@ class Input:
             InputOption("stride", int, False, Input.positive),
             InputOption("filename", str, False),
             InputOption("write-stride", int, False, Input.positive),
-            InputOption("fmt", str, False),
+            InputOption("fmt", str, False, Input.number_format),
         ] + numbered_state_options(section)
 
         self.delta_f = self.parse_section(section, options)
@@ -391,7 +395,7 @@ class Input:
             InputOption("stride", int, False, Input.positive),
             InputOption("filename", str, False),
             InputOption("write-stride", int, False, Input.positive),
-            InputOption("fmt", str, False),
+            InputOption("fmt", str, False, Input.number_format),
         ] + numbered_state_options(section)
         self.particle_distribution = self.parse_section(section, options)
 
@@ -411,6 +415,19 @@ class Input:
         return parsed_options
 
 
+def can_format_numbers(fmt: str) -> bool:
+    """Check if output with the format string is possible
+
+    :param fmt: format for a single number or for all numbers of a line
+    """
+    n_values = fmt.count("%")
+    try:
+        fmt % ((1.0,) * n_values)
+    except (TypeError, ValueError):
+        return False
+    return n_values > 0 or not fmt  # empty: default format
+
+
 # helper functions to transform the options
 def get_all_numbered_values(
     section: Union[configparser.SectionProxy, Dict[str, OptionType]],
-- 
2.43.0

