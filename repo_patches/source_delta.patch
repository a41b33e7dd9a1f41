From f22e2d013fbd1700acff90c1fa5be5585ba8d275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:21 +0000
Subject: [PATCH 01/29] fix: CuckooSearch repairs each nest separately so
 index-based repair functions work

---
 src/niapy/algorithms/basic/cs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/cs.py b/src/niapy/algorithms/basic/cs.py
index 5828e42..6b3d854 100644
--- a/src/niapy/algorithms/basic/cs.py
+++ b/src/niapy/algorithms/basic/cs.py
@@ -96,14 +96,14 @@ class CuckooSearch(Algorithm):
     def get_cuckoos(self, population, best_x, task):
         step_size = levy_flight(self.rng, size=population.shape) * (population - best_x)
         new_population = population + step_size * self.standard_normal(population.shape)
-        return task.repair(new_population, rng=self.rng)
+        return np.apply_along_axis(task.repair, 1, new_population, rng=self.rng)
 
     def empty_nests(self, population, task):
         abandoned = self.random(population.shape) > self.pa
         i = self.rng.permutation(self.population_size)
         j = self.rng.permutation(self.population_size)
         step_size = self.random() * (population[i] - population[j])
-        return task.repair(population + step_size * abandoned, rng=self.rng)
+        return np.apply_along_axis(task.repair, 1, population + step_size * abandoned, rng=self.rng)
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of CuckooSearch algorithm.
-- 
2.43.0


From 823c5199a0b029d9fae6b760588bafeb0b0cb731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:21 +0000
Subject: [PATCH 02/29] fix: pass the algorithm's seeded generator to every
 bound repair

---
 src/niapy/algorithms/basic/ba.py         |  2 +-
 src/niapy/algorithms/basic/bea.py        |  2 +-
 src/niapy/algorithms/basic/bfo.py        |  2 +-
 src/niapy/algorithms/basic/cso.py        |  4 ++--
 src/niapy/algorithms/basic/es.py         |  2 +-
 src/niapy/algorithms/basic/fa.py         |  2 +-
 src/niapy/algorithms/basic/loa.py        | 14 +++++++-------
 src/niapy/algorithms/basic/mbo.py        |  6 ++++--
 src/niapy/algorithms/basic/pso.py        |  6 +++---
 src/niapy/algorithms/modified/ilshade.py |  2 +-
 src/niapy/algorithms/modified/jde.py     |  2 +-
 src/niapy/algorithms/modified/plba.py    |  2 +-
 src/niapy/algorithms/modified/shade.py   |  2 +-
 13 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/src/niapy/algorithms/basic/ba.py b/src/niapy/algorithms/basic/ba.py
index 76ce334..4657136 100644
--- a/src/niapy/algorithms/basic/ba.py
+++ b/src/niapy/algorithms/basic/ba.py
@@ -162,7 +162,7 @@ class BatAlgorithm(Algorithm):
             numpy.ndarray: New solution based on global best individual.
 
         """
-        return task.repair(best + 0.1 * self.standard_normal(task.dimension) * loudness)
+        return task.repair(best + 0.1 * self.standard_normal(task.dimension) * loudness, rng=self.rng)
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of Bat Algorithm.
diff --git a/src/niapy/algorithms/basic/bea.py b/src/niapy/algorithms/basic/bea.py
index ba9022d..3325caf 100644
--- a/src/niapy/algorithms/basic/bea.py
+++ b/src/niapy/algorithms/basic/bea.py
@@ -136,7 +136,7 @@ class BeesAlgorithm(Algorithm):
         ind = self.integers(task.dimension)
         y = x.copy()
         y[ind] = x[ind] + self.uniform(-ngh, ngh)
-        y = task.repair(y)
+        y = task.repair(y, rng=self.rng)
         y_fitness = task.eval(y)
         return y, y_fitness
 
diff --git a/src/niapy/algorithms/basic/bfo.py b/src/niapy/algorithms/basic/bfo.py
index 9a17344..cd422bc 100644
--- a/src/niapy/algorithms/basic/bfo.py
+++ b/src/niapy/algorithms/basic/bfo.py
@@ -250,7 +250,7 @@ class BacterialForagingOptimization(Algorithm):
 
             m = 0
             while True:
-                population[i] = task.repair(population[i] + self.step_size * step_direction)
+                population[i] = task.repair(population[i] + self.step_size * step_direction, rng=self.rng)
                 population_fitness[i] = task.eval(population[i])
 
                 if population_fitness[i] < best_fitness:
diff --git a/src/niapy/algorithms/basic/cso.py b/src/niapy/algorithms/basic/cso.py
index 738123f..ca2504c 100644
--- a/src/niapy/algorithms/basic/cso.py
+++ b/src/niapy/algorithms/basic/cso.py
@@ -194,7 +194,7 @@ class CatSwarmOptimization(Algorithm):
                 cat_copies[j][to_vary_indexes] += cat_copies[j][to_vary_indexes] * self.srd
             else:
                 cat_copies[j][to_vary_indexes] -= cat_copies[j][to_vary_indexes] * self.srd
-            cat_copies[j] = task.repair(cat_copies[j])
+            cat_copies[j] = task.repair(cat_copies[j], rng=self.rng)
             cat_copies_fs.append(task.eval(cat_copies[j]))
         if self.spc:
             cat_copies.append(cat.copy())
@@ -233,7 +233,7 @@ class CatSwarmOptimization(Algorithm):
         """
         new_velocity = np.clip(velocity + (self.random(len(velocity)) * self.c1 * (xb - cat)),
                                -self.max_velocity, self.max_velocity)
-        cat_new = task.repair(cat + new_velocity)
+        cat_new = task.repair(cat + new_velocity, rng=self.rng)
         return cat_new, task.eval(cat_new), new_velocity
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
diff --git a/src/niapy/algorithms/basic/es.py b/src/niapy/algorithms/basic/es.py
index 5696272..508b607 100644
--- a/src/niapy/algorithms/basic/es.py
+++ b/src/niapy/algorithms/basic/es.py
@@ -568,7 +568,7 @@ class EvolutionStrategyML(EvolutionStrategyMpL):
 
         """
         cn = objects_to_array(
-            [IndividualES(x=self.mutate_rand(c, task), task=task, rand=self.rng) for _ in range(self.lam)])
+            [IndividualES(x=self.mutate_rand(c, task), task=task, rng=self.rng) for _ in range(self.lam)])
         c = self.new_pop(cn)
         fc = np.asarray([x.f for x in c])
         best_x, best_fitness = self.get_best(c, fc, best_x, best_fitness)
diff --git a/src/niapy/algorithms/basic/fa.py b/src/niapy/algorithms/basic/fa.py
index b488d80..0c7d705 100644
--- a/src/niapy/algorithms/basic/fa.py
+++ b/src/niapy/algorithms/basic/fa.py
@@ -168,7 +168,7 @@ class FireflyAlgorithm(Algorithm):
                     beta = self.beta0 * np.exp(-self.gamma * r ** 2)
                     steps = alpha * (self.random(task.dimension) - 0.5) * task.range
                     population[i] += beta * (population[j] - population[i]) + steps
-                    population[i] = task.repair(population[i])
+                    population[i] = task.repair(population[i], rng=self.rng)
                     population_fitness[i] = task.eval(population[i])
                     best_x, best_fitness = self.get_best(population, population_fitness, best_x, best_fitness)
 
diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 19c621f..86edbe0 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -342,7 +342,7 @@ class LionOptimizationAlgorithm(Algorithm):
         if hunters:
             prey_x /= len(hunters)
 
-        return task.repair(prey_x), group_fitness, hunters
+        return task.repair(prey_x, rng=self.rng), group_fitness, hunters
 
     def _move_opposition(self, lion, prey_x, task):
         for i in range(task.dimension):
@@ -352,7 +352,7 @@ class LionOptimizationAlgorithm(Algorithm):
             elif opposite > prey_x[i]:
                 lion.current_x[i] = self.uniform(prey_x[i], opposite)
 
-        lion.current_x = task.repair(lion.current_x)
+        lion.current_x = task.repair(lion.current_x, rng=self.rng)
         lion.current_f = task.eval(lion.current_x)
 
     def _move_center(self, lion, prey_x, task):
@@ -362,7 +362,7 @@ class LionOptimizationAlgorithm(Algorithm):
             elif lion.current_x[i] > prey_x[i]:
                 lion.current_x[i] = self.uniform(prey_x[i], lion.current_x[i])
 
-        lion.current_x = task.repair(lion.current_x)
+        lion.current_x = task.repair(lion.current_x, rng=self.rng)
         lion.current_f = task.eval(lion.current_x)
 
     def _move_hunter(self, lion, prey_x, left, right, center, task):
@@ -380,7 +380,7 @@ class LionOptimizationAlgorithm(Algorithm):
 
             improvement = 1 - lion.f / lion.previous_iter_best_f
             prey_x = prey_x + self.random() * improvement * (prey_x - lion.current_x)
-            return task.repair(prey_x)
+            return task.repair(prey_x, rng=self.rng)
 
         return prey_x
 
@@ -480,7 +480,7 @@ class LionOptimizationAlgorithm(Algorithm):
                     + rnd_u * np.tan(angle) * d * r_two
                 )
 
-                lion.current_x = task.repair(lion.current_x)
+                lion.current_x = task.repair(lion.current_x, rng=self.rng)
                 lion.current_f = task.eval(lion.current_x)
 
                 if lion.current_f < lion.f:
@@ -530,7 +530,7 @@ class LionOptimizationAlgorithm(Algorithm):
                     angle = self.uniform(-np.pi / 6, np.pi / 6)
 
                     lion.current_x += x * d * np.tan(angle)
-                    lion.current_x = task.repair(lion.current_x)
+                    lion.current_x = task.repair(lion.current_x, rng=self.rng)
                     lion.current_f = task.eval(lion.current_x)
 
                     if lion.current_f < lion.f:
@@ -602,7 +602,7 @@ class LionOptimizationAlgorithm(Algorithm):
             cub.has_improved = True
             cub.gender = gender
 
-            cub.evaluate(task)
+            cub.evaluate(task, rng=self.rng)
             cub.current_x = x.copy()
             cub.current_f = cub.f
             cub.previous_iter_best_f = cub.f + 1
diff --git a/src/niapy/algorithms/basic/mbo.py b/src/niapy/algorithms/basic/mbo.py
index 2072c0e..f572355 100644
--- a/src/niapy/algorithms/basic/mbo.py
+++ b/src/niapy/algorithms/basic/mbo.py
@@ -258,10 +258,12 @@ class MonarchButterflyOptimization(Algorithm):
         elite = np.copy(population[:self.keep])
         max_t = task.max_iters if not np.isinf(task.max_iters) else task.max_evals / self.population_size
         population = np.apply_along_axis(task.repair, 1,
-                                         self.migration_operator(task.dimension, self.np1, self.np2, population))
+                                         self.migration_operator(task.dimension, self.np1, self.np2, population),
+                                         rng=self.rng)
         population = np.apply_along_axis(task.repair, 1,
                                          self.adjusting_operator(task.iters, max_t, task.dimension, self.np1, self.np2,
-                                                                 population, current_best))
+                                                                 population, current_best),
+                                         rng=self.rng)
         population_fitness, population = self.evaluate_and_sort(task, population)
         current_best = population[0]
         population[-self.keep:] = elite
diff --git a/src/niapy/algorithms/basic/pso.py b/src/niapy/algorithms/basic/pso.py
index ae8bce4..d84b08f 100644
--- a/src/niapy/algorithms/basic/pso.py
+++ b/src/niapy/algorithms/basic/pso.py
@@ -207,7 +207,7 @@ class ParticleSwarmAlgorithm(Algorithm):
         """
         return self.repair(
             w * v + self.c1 * self.random(task.dimension) * (pb - p) + self.c2 * self.random(task.dimension) * (gb - p),
-            min_velocity, max_velocity)
+            min_velocity, max_velocity, rng=self.rng)
 
     def run_iteration(self, task, pop, fpop, xb, fxb, **params):
         r"""Core function of Particle Swarm Optimization algorithm.
@@ -937,7 +937,7 @@ class MutatedCenterUnifiedParticleSwarmOptimization(MutatedCenterParticleSwarmOp
         return self.repair(
             w * v + self.c1 * self.random(task.dimension) * (pb - p) * r3 + self.c2 * self.random(task.dimension) * (
                         gb - p) * (1 - r3),
-            min_velocity, max_velocity)
+            min_velocity, max_velocity, rng=self.rng)
 
 
 class ComprehensiveLearningParticleSwarmOptimizer(ParticleSwarmAlgorithm):
@@ -1096,7 +1096,7 @@ class ComprehensiveLearningParticleSwarmOptimizer(ParticleSwarmAlgorithm):
             numpy.ndarray: Updated velocity of particle.
 
         """
-        return self.repair(w * v + self.c * self.random(task.dimension) * (pb - p), min_velocity, max_velocity)
+        return self.repair(w * v + self.c * self.random(task.dimension) * (pb - p), min_velocity, max_velocity, rng=self.rng)
 
     def run_iteration(self, task, pop, fpop, xb, fxb, **params):
         r"""Core function of algorithm.
diff --git a/src/niapy/algorithms/modified/ilshade.py b/src/niapy/algorithms/modified/ilshade.py
index de3d7b2..0145dff 100644
--- a/src/niapy/algorithms/modified/ilshade.py
+++ b/src/niapy/algorithms/modified/ilshade.py
@@ -213,7 +213,7 @@ class ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution(SuccessHistoryAdap
             new_pop[i].x = cross_curr2pbest1(pop, i, xi.differential_weight, xi.crossover_probability, self.rng,
                                              p_num, archive, arc_ind_cnt, task)  # trial vectors are created
         for xi in new_pop:
-            xi.evaluate(task, rng=self.random)
+            xi.evaluate(task, rng=self.rng)
 
         return new_pop
 
diff --git a/src/niapy/algorithms/modified/jde.py b/src/niapy/algorithms/modified/jde.py
index ecd7d95..56092be 100644
--- a/src/niapy/algorithms/modified/jde.py
+++ b/src/niapy/algorithms/modified/jde.py
@@ -174,7 +174,7 @@ class SelfAdaptiveDifferentialEvolution(DifferentialEvolution):
         for i, e in enumerate(new_pop):
             new_pop[i].x = self.strategy(new_pop, i, e.differential_weight, e.crossover_probability, rng=self.rng, x_b=xb)
         for e in new_pop:
-            e.evaluate(task, rng=self.random)
+            e.evaluate(task, rng=self.rng)
         return new_pop
 
 
diff --git a/src/niapy/algorithms/modified/plba.py b/src/niapy/algorithms/modified/plba.py
index 8c65ec9..793d5d9 100644
--- a/src/niapy/algorithms/modified/plba.py
+++ b/src/niapy/algorithms/modified/plba.py
@@ -104,7 +104,7 @@ class ParameterFreeBatAlgorithm(Algorithm):
             numpy.ndarray: New solution based on global best individual.
 
         """
-        return task.repair(best + 0.001 * self.normal(0, 1, task.dimension))
+        return task.repair(best + 0.001 * self.normal(0, 1, task.dimension), rng=self.rng)
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of Parameter-free Bat Algorithm.
diff --git a/src/niapy/algorithms/modified/shade.py b/src/niapy/algorithms/modified/shade.py
index deefd65..d628432 100644
--- a/src/niapy/algorithms/modified/shade.py
+++ b/src/niapy/algorithms/modified/shade.py
@@ -279,7 +279,7 @@ class SuccessHistoryAdaptiveDifferentialEvolution(DifferentialEvolution):
             new_pop[i].x = cross_curr2pbest1(pop, i, xi.differential_weight, xi.crossover_probability, self.rng,
                                              p_num, archive, arc_ind_cnt, task)  # trial vectors are created
         for xi in new_pop:
-            xi.evaluate(task, rng=self.random)
+            xi.evaluate(task, rng=self.rng)
 
         return new_pop
 
-- 
2.43.0


From c77060af451c36f00137f58201088b3cb8b91895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:11 +0000
Subject: [PATCH 03/29] fix: CoralReefsOptimization depredation removes whole
 corals

np.delete without an axis flattened the reef, so the next iteration failed.
---
 src/niapy/algorithms/basic/cro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/cro.py b/src/niapy/algorithms/basic/cro.py
index 93c2b92..43ea76d 100644
--- a/src/niapy/algorithms/basic/cro.py
+++ b/src/niapy/algorithms/basic/cro.py
@@ -273,7 +273,7 @@ class CoralReefsOptimization(Algorithm):
 
         """
         depredation_index = np.argsort(reef_fitness)[::-1][:self.num_depredation]
-        return np.delete(reef, depredation_index), np.delete(reef_fitness, depredation_index)
+        return np.delete(reef, depredation_index, 0), np.delete(reef_fitness, depredation_index)
 
     def settling(self, reef, reef_fitness, new_reef, new_reef_fitness, best_x, best_fitness, task):
         r"""Operator for setting reefs.
-- 
2.43.0


From 23082dba6c85a7239e6ba79136075a48199729e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:45 +0000
Subject: [PATCH 04/29] fix: NelderMeadMethod repairs reflected, expanded,
 contracted and shrunk points

They were evaluated without being confined to the search box.
---
 src/niapy/algorithms/other/nmm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/other/nmm.py b/src/niapy/algorithms/other/nmm.py
index b8c7409..b7cd956 100644
--- a/src/niapy/algorithms/other/nmm.py
+++ b/src/niapy/algorithms/other/nmm.py
@@ -140,25 +140,26 @@ class NelderMeadMethod(Algorithm):
 
         """
         x0 = np.sum(population[:-1], axis=0) / (len(population) - 1)
-        xr = x0 + self.alpha * (x0 - population[-1])
+        xr = task.repair(x0 + self.alpha * (x0 - population[-1]), rng=self.rng)
         rs = task.eval(xr)
         if population_fitness[0] >= rs < population_fitness[-2]:
             population[-1], population_fitness[-1] = xr, rs
             return population, population_fitness
         if rs < population_fitness[0]:
-            xe = x0 + self.gamma * (x0 - population[-1])
+            xe = task.repair(x0 + self.gamma * (x0 - population[-1]), rng=self.rng)
             re = task.eval(xe)
             if re < rs:
                 population[-1], population_fitness[-1] = xe, re
             else:
                 population[-1], population_fitness[-1] = xr, rs
             return population, population_fitness
-        xc = x0 + self.rho * (x0 - population[-1])
+        xc = task.repair(x0 + self.rho * (x0 - population[-1]), rng=self.rng)
         rc = task.eval(xc)
         if rc < population_fitness[-1]:
             population[-1], population_fitness[-1] = xc, rc
             return population, population_fitness
         new_population = population[0] + self.sigma * (population[1:] - population[0])
+        new_population = np.apply_along_axis(task.repair, 1, new_population, rng=self.rng)
         new_population_fitness = np.apply_along_axis(task.eval, 1, new_population)
         population[1:], population_fitness[1:] = new_population, new_population_fitness
         return population, population_fitness
-- 
2.43.0


From 195bde131fece85cf3268cc5989d11adbf3b0ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:03 +0000
Subject: [PATCH 05/29] fix: MantisSearchAlgorithm keeps its population in the
 real search space

With normalize_space the initial population was returned in normalized
coordinates (so the initial best point did not match its fitness), and
without reflection the normalized points were repaired with the real
bounds and then evaluated outside the box. The initial population was
also evaluated twice, discarding the first evaluation.
---
 src/niapy/algorithms/basic/mshoa.py | 42 +++++++----------------------
 1 file changed, 10 insertions(+), 32 deletions(-)

diff --git a/src/niapy/algorithms/basic/mshoa.py b/src/niapy/algorithms/basic/mshoa.py
index 6c35dbf..ac85879 100644
--- a/src/niapy/algorithms/basic/mshoa.py
+++ b/src/niapy/algorithms/basic/mshoa.py
@@ -289,15 +289,6 @@ class MantisSearchAlgorithm(Algorithm):
         """
         pop, fpop, d = super().init_population(task)
 
-        # Optional normalization: convert to normalized space if enabled
-        if self.normalize_space:
-            pop = self._normalize_from_real(pop, task.lower, task.upper)
-            # Convert back to real space for initial evaluation
-            pop_real = self._normalize_to_real(pop, task.lower, task.upper)
-            fpop = np.apply_along_axis(task.eval, 1, pop_real)
-        else:
-            fpop = np.apply_along_axis(task.eval, 1, pop)
-
         # Initialize PTI vector: round(1 + 2 * rand) gives values {1, 2, 3}
         pti = np.round(1 + 2 * self.random(self.population_size)).astype(int)
         d['pti'] = pti
@@ -416,7 +407,7 @@ class MantisSearchAlgorithm(Algorithm):
             # Reflection-based boundary handling
             for i in range(self.population_size):
                 pop_new[i] = self._reflect_repair(pop_new[i], lower_work, upper_work)
-        else:
+        elif not self.normalize_space:
             # Standard repair
             pop_new = np.apply_along_axis(task.repair, 1, pop_new, rng=self.rng)
 
@@ -426,22 +417,18 @@ class MantisSearchAlgorithm(Algorithm):
                 lambda z: self._normalize_to_real(z, task.lower, task.upper),
                 1, pop_new
             )
-            fpop = np.apply_along_axis(task.eval, 1, pop_real)
+            if not self.use_reflection:
+                # Standard repair works with the bounds of the real space
+                pop_real = np.apply_along_axis(task.repair, 1, pop_real, rng=self.rng)
+                pop_new = self._normalize_from_real(pop_real, task.lower, task.upper)
         else:
-            fpop = np.apply_along_axis(task.eval, 1, pop_new)
+            pop_real = pop_new
+        fpop = np.apply_along_axis(task.eval, 1, pop_real)
 
         # Update global best if better solution found
         best_idx = np.argmin(fpop)
         if fpop[best_idx] < fxb:
-            if self.normalize_space:
-                # Update normalized best
-                xb_normalized = pop_new[best_idx].copy()
-                # Also update real-space best for return
-                xb = self._normalize_to_real(xb_normalized, task.lower, task.upper)
-                xb_work = xb_normalized
-            else:
-                xb = pop_new[best_idx].copy()
-                xb_work = xb.copy()
+            xb = pop_real[best_idx].copy()
             fxb = fpop[best_idx]
 
         # Use working population for PTI calculation
@@ -489,17 +476,8 @@ class MantisSearchAlgorithm(Algorithm):
             pti_dist = dict(zip(unique.tolist(), counts.tolist()))
             logger.debug(f"PTI distribution: {pti_dist}")
 
-        # Return population in the correct space
-        # If normalization is enabled, convert back to real space for return
-        if self.normalize_space:
-            pop_return = np.apply_along_axis(
-                lambda z: self._normalize_to_real(z, task.lower, task.upper),
-                1, pop_new
-            )
-        else:
-            pop_return = pop_new
-
-        return pop_return, fpop, xb, fxb, {'pti': pti}
+        # Return population in the real space
+        return pop_real, fpop, xb, fxb, {'pti': pti}
 
 
 # Alias for backward compatibility
-- 
2.43.0


From b8b8b100eea9f3502300c1bcc77143c242c2eace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:06 +0000
Subject: [PATCH 06/29] fix: callbacks appended to an attached CallbackList are
 attached to its algorithm

---
 src/niapy/callbacks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/callbacks.py b/src/niapy/callbacks.py
index 656adbf..48e2eec 100644
--- a/src/niapy/callbacks.py
+++ b/src/niapy/callbacks.py
@@ -126,5 +126,7 @@ class CallbackList(Callback):
         """
         if isinstance(callback, Callback):
             self.callbacks.append(callback)
+            if self.algorithm is not None:
+                callback.set_algorithm(self.algorithm)
         else:
             raise ValueError('Callback must be an instance of `Callback`')
-- 
2.43.0


From 388061216f7605c057314b54a4e5ea901d5b87db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:17 +0000
Subject: [PATCH 07/29] fix: a completed run clears the exception of an earlier
 failed run

bad_run() kept reporting a bad run after a later successful one.
---
 src/niapy/algorithms/algorithm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/algorithm.py b/src/niapy/algorithms/algorithm.py
index f1a7f97..c250883 100644
--- a/src/niapy/algorithms/algorithm.py
+++ b/src/niapy/algorithms/algorithm.py
@@ -305,6 +305,7 @@ class Algorithm:
             * :func:`niapy.algorithms.Algorithm.run_iteration`
 
         """
+        self.exception = None
         try:
             self.callbacks.before_run()
             pop, fpop, params = self.init_population(task)
-- 
2.43.0


From c92148788727a8f2a3008d569dae1ecc1618881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:17 +0000
Subject: [PATCH 08/29] fix: record improvements in the problem's own direction

For maximization fitness_evals held negated values, so the two
convergence curves disagreed.
---
 src/niapy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/task.py b/src/niapy/task.py
index d3ed498..ee89779 100644
--- a/src/niapy/task.py
+++ b/src/niapy/task.py
@@ -147,7 +147,7 @@ class Task:
         if x_f < self.x_f * self.optimization_type.value:
             self.x_f = x_f * self.optimization_type.value
             self.n_evals.append(self.evals)
-            self.fitness_evals.append(x_f)
+            self.fitness_evals.append(self.x_f)
             if self.enable_logging:
                 logger.info('evals:%d => %s' % (self.evals, self.x_f))
         return x_f
-- 
2.43.0


From de93d12f5f295cab347e6b9d9217eed7d5d66b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:42 +0000
Subject: [PATCH 09/29] fix: an unevaluated Individual has the worst fitness in
 both directions

---
 src/niapy/algorithms/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/algorithm.py b/src/niapy/algorithms/algorithm.py
index c250883..f62e8c8 100644
--- a/src/niapy/algorithms/algorithm.py
+++ b/src/niapy/algorithms/algorithm.py
@@ -361,7 +361,7 @@ class Individual:
             e (Optional[bool]): True to evaluate the individual on initialization. Default value is True.
 
         """
-        self.f = task.optimization_type.value * np.inf if task is not None else np.inf
+        self.f = np.inf
         if x is not None:
             self.x = x if isinstance(x, np.ndarray) else np.asarray(x)
         elif task is not None:
-- 
2.43.0


From 90161d1b1af1f64caed7e2205844e5cfa20202c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:42 +0000
Subject: [PATCH 10/29] fix: Individual.copy keeps the fitness

---
 src/niapy/algorithms/algorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/algorithm.py b/src/niapy/algorithms/algorithm.py
index f62e8c8..001e7e1 100644
--- a/src/niapy/algorithms/algorithm.py
+++ b/src/niapy/algorithms/algorithm.py
@@ -409,7 +409,9 @@ class Individual:
             Individual: Copy of self.
 
         """
-        return Individual(x=self.x.copy(), e=False, f=self.f)
+        individual = Individual(x=self.x.copy(), e=False)
+        individual.f = self.f
+        return individual
 
     def __eq__(self, other):
         r"""Compare the individuals for equalities.
-- 
2.43.0


From 0d9f2c4b3c3c4058414189ea6fffc20c906df6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:25 +0000
Subject: [PATCH 11/29] fix: BareBonesFireworksAlgorithm reports one point and
 one fitness as its best

---
 src/niapy/algorithms/basic/fwa.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/niapy/algorithms/basic/fwa.py b/src/niapy/algorithms/basic/fwa.py
index be7b7f6..b8a2eb1 100644
--- a/src/niapy/algorithms/basic/fwa.py
+++ b/src/niapy/algorithms/basic/fwa.py
@@ -150,13 +150,14 @@ class BareBonesFireworksAlgorithm(Algorithm):
         sparks = np.apply_along_axis(task.repair, 1, sparks, self.rng)
         sparks_fitness = np.apply_along_axis(task.eval, 1, sparks)
         best_index = np.argmin(sparks_fitness)
-        if sparks_fitness[best_index] < population_fitness:
-            population = sparks[best_index]
-            population_fitness = sparks_fitness[best_index]
+        if sparks_fitness[best_index] < population_fitness[0]:
+            population = sparks[best_index:best_index + 1]
+            population_fitness = sparks_fitness[best_index:best_index + 1]
             amplitude = self.amplification_coefficient * amplitude
         else:
             amplitude = self.reduction_coefficient * amplitude
-        return population, population_fitness, population.copy(), population_fitness, {'amplitude': amplitude}
+        best_x, best_fitness = self.get_best(population, population_fitness, best_x, best_fitness)
+        return population, population_fitness, best_x, best_fitness, {'amplitude': amplitude}
 
 
 class FireworksAlgorithm(Algorithm):
-- 
2.43.0


From 3108615f5f47201dc13c2a05d11939fa46a3a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:25 +0000
Subject: [PATCH 12/29] fix: DynamicFireworksAlgorithm keeps a private copy of
 its best firework

---
 src/niapy/algorithms/basic/fwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/fwa.py b/src/niapy/algorithms/basic/fwa.py
index b8a2eb1..b7f8434 100644
--- a/src/niapy/algorithms/basic/fwa.py
+++ b/src/niapy/algorithms/basic/fwa.py
@@ -724,7 +724,7 @@ class DynamicFireworksAlgorithmGauss(EnhancedFireworksAlgorithm):
         if xnb_f[ib_f] <= xb_f:
             xb, xb_f = xnb[ib_f], xnb_f[ib_f]
         if xb_f >= xcb_f:
-            xb, xb_f, amplitude_cf = xcb, xcb_f, amplitude_cf * self.amplification_coeff
+            xb, xb_f, amplitude_cf = xcb.copy(), xcb_f, amplitude_cf * self.amplification_coeff
         else:
             amplitude_cf = amplitude_cf * self.reduction_coeff
         return xb, xb_f, amplitude_cf
-- 
2.43.0


From cfc98fa630dbf93221b2bd0dcae2d8fe7dcbe884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:25 +0000
Subject: [PATCH 13/29] fix: RandomSearch returns the initial candidate it
 evaluated

---
 src/niapy/algorithms/other/rs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/rs.py b/src/niapy/algorithms/other/rs.py
index 0a3fd63..4cc09bc 100644
--- a/src/niapy/algorithms/other/rs.py
+++ b/src/niapy/algorithms/other/rs.py
@@ -109,7 +109,8 @@ class RandomSearch(Algorithm):
                     self.candidates.append(x)
                     break
 
-        x_fit = task.eval(self.candidates[0])
+        x = self.candidates[0]
+        x_fit = task.eval(x)
         return x, x_fit, {}
 
     def run_iteration(self, task, x, x_fit, best_x, best_fitness, **params):
-- 
2.43.0


From 39fcdf951b2c0adfc47d684146fa445b2db4dafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:25 +0000
Subject: [PATCH 14/29] fix: ComprehensiveLearningParticleSwarmOptimizer gives
 unevaluated particles the worst fitness

---
 src/niapy/algorithms/basic/pso.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/algorithms/basic/pso.py b/src/niapy/algorithms/basic/pso.py
index d84b08f..252386b 100644
--- a/src/niapy/algorithms/basic/pso.py
+++ b/src/niapy/algorithms/basic/pso.py
@@ -1157,6 +1157,8 @@ class ComprehensiveLearningParticleSwarmOptimizer(ParticleSwarmAlgorithm):
                     personal_best[i], personal_best_fitness[i] = pop[i].copy(), fpop[i]
                     if fpop[i] < fxb:
                         xb, fxb = pop[i].copy(), fpop[i]
+            else:
+                fpop[i] = np.inf
         return pop, fpop, xb, fxb, {'personal_best': personal_best, 'personal_best_fitness': personal_best_fitness,
                                     'min_velocity': min_velocity,
                                     'max_velocity': max_velocity, 'v': v, 'flag': flag, 'pc': pc}
-- 
2.43.0


From 1a533c11184755958b7a399550af58878e9d6dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:25 +0000
Subject: [PATCH 15/29] fix: mts_ls1v1 updates the current fitness when it
 finds a new global best

---
 src/niapy/algorithms/other/mts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index b484daa..a0ffc52 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -118,7 +118,7 @@ def mts_ls1v1(current_x, current_fitness, best_x, best_fitness, improve, search_
         new_fitness = task.eval(current_x)
         if new_fitness < best_fitness:
             grade, best_x, best_fitness = grade + bonus1, current_x.copy(), new_fitness
-        elif new_fitness == current_fitness:
+        if new_fitness == current_fitness:
             current_x[i] = x_old
         elif new_fitness > current_fitness:
             current_x[i] = x_old + 0.5 * search_range[i]
@@ -126,7 +126,7 @@ def mts_ls1v1(current_x, current_fitness, best_x, best_fitness, improve, search_
             new_fitness = task.eval(current_x)
             if new_fitness < best_fitness:
                 grade, best_x, best_fitness = grade + bonus1, current_x.copy(), new_fitness
-            elif new_fitness >= current_fitness:
+            if new_fitness >= current_fitness:
                 current_x[i] = x_old
             else:
                 grade, improve, current_fitness = grade + bonus2, True, new_fitness
-- 
2.43.0


From 91dcf1b68938cd0340adc13a051082ef76a03665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:34 +0000
Subject: [PATCH 16/29] fix: ParticleSwarmAlgorithm, ParticleSwarmOptimization
 and ILSHADE list their own class names

---
 src/niapy/algorithms/basic/pso.py        | 4 ++--
 src/niapy/algorithms/modified/ilshade.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/basic/pso.py b/src/niapy/algorithms/basic/pso.py
index 252386b..3602ce9 100644
--- a/src/niapy/algorithms/basic/pso.py
+++ b/src/niapy/algorithms/basic/pso.py
@@ -52,7 +52,7 @@ class ParticleSwarmAlgorithm(Algorithm):
 
     """
 
-    Name = ['WeightedVelocityClampingParticleSwarmAlgorithm', 'WVCPSO']
+    Name = ['ParticleSwarmAlgorithm', 'WeightedVelocityClampingParticleSwarmAlgorithm', 'WVCPSO']
 
     @staticmethod
     def info():
@@ -284,7 +284,7 @@ class ParticleSwarmOptimization(ParticleSwarmAlgorithm):
 
     """
 
-    Name = ['ParticleSwarmAlgorithm', 'PSO']
+    Name = ['ParticleSwarmOptimization', 'PSO']
 
     @staticmethod
     def info():
diff --git a/src/niapy/algorithms/modified/ilshade.py b/src/niapy/algorithms/modified/ilshade.py
index 0145dff..ecfb6b4 100644
--- a/src/niapy/algorithms/modified/ilshade.py
+++ b/src/niapy/algorithms/modified/ilshade.py
@@ -73,7 +73,7 @@ class ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution(SuccessHistoryAdap
 
     """
     
-    Name = ['ImprovedLsprSuccessHistoryAdaptiveDifferentialEvolution', 'ILSHADE']
+    Name = ['ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution', 'ILSHADE']
 
     @staticmethod
     def info():
-- 
2.43.0


From c8dbd5c6b4296b5a7960ac3e8d6a1b5cad10300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:34 +0000
Subject: [PATCH 17/29] fix: register MantisSearchAlgorithm and
 ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution with the factory

---
 src/niapy/util/factory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/util/factory.py b/src/niapy/util/factory.py
index 8b6f4eb..7776167 100644
--- a/src/niapy/util/factory.py
+++ b/src/niapy/util/factory.py
@@ -152,6 +152,7 @@ def _algorithm_options():
         "HarrisHawksOptimization": basic_algorithms.HarrisHawksOptimization,
         "ClonalSelectionAlgorithm": basic_algorithms.ClonalSelectionAlgorithm,
         "LionOptimizationAlgorithm": basic_algorithms.LionOptimizationAlgorithm,
+        "MantisSearchAlgorithm": basic_algorithms.MantisSearchAlgorithm,
         "HybridBatAlgorithm": modified_algorithms.HybridBatAlgorithm,
         "AdaptiveBatAlgorithm": modified_algorithms.AdaptiveBatAlgorithm,
         "SelfAdaptiveBatAlgorithm": modified_algorithms.SelfAdaptiveBatAlgorithm,
@@ -169,6 +170,7 @@ def _algorithm_options():
         "MultiStrategySelfAdaptiveDifferentialEvolution": modified_algorithms.MultiStrategySelfAdaptiveDifferentialEvolution,
         "SuccessHistoryAdaptiveDifferentialEvolution": modified_algorithms.SuccessHistoryAdaptiveDifferentialEvolution,
         "LpsrSuccessHistoryAdaptiveDifferentialEvolution": modified_algorithms.LpsrSuccessHistoryAdaptiveDifferentialEvolution,
+        "ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution": modified_algorithms.ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution,
         "NelderMeadMethod": other_algorithms.NelderMeadMethod,
         "HillClimbAlgorithm": other_algorithms.HillClimbAlgorithm,
         "SimulatedAnnealing": other_algorithms.SimulatedAnnealing,
-- 
2.43.0


From c60df36ce555840944b1a99e2e401e6c2e5c3d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:56 +0000
Subject: [PATCH 18/29] fix: make the command line's default problem Ackley, as
 documented

The default was the first exported name, the abstract class Problem, which
cannot be instantiated.
---
 src/niapy/util/argparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/util/argparser.py b/src/niapy/util/argparser.py
index 175dc29..9481e4a 100644
--- a/src/niapy/util/argparser.py
+++ b/src/niapy/util/argparser.py
@@ -80,7 +80,7 @@ def get_argparser():
     """
     parser, problem_names = ArgumentParser(description='Runner example.'), _get_problem_names()
     parser.add_argument('-a', '--algorithm', dest='algo', default='jDE', type=str)
-    parser.add_argument('-p', '--problem', dest='problem', nargs='*', default=problem_names[0], choices=problem_names, type=str)
+    parser.add_argument('-p', '--problem', dest='problem', nargs='*', default='Ackley', choices=problem_names, type=str)
     parser.add_argument('-d', '--dimension', dest='dimension', default=10, type=int)
     parser.add_argument('--max-evals', dest='max_evals', default=np.inf, type=int)
     parser.add_argument('--max-iters', dest='max_iters', default=np.inf, type=int)
-- 
2.43.0


From 45ed4638eea66cdf0ae7e1dd065b98e0a69a9540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:25 +0000
Subject: [PATCH 19/29] fix: let Runner take a single algorithm or problem name

The default arguments are plain strings; iterating over them asked for the
algorithm 'A' and Runner().run() raised KeyError.
---
 src/niapy/runner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/runner.py b/src/niapy/runner.py
index 0cd3319..958a716 100644
--- a/src/niapy/runner.py
+++ b/src/niapy/runner.py
@@ -49,8 +49,8 @@ class Runner:
         self.dimension = dimension
         self.max_evals = max_evals
         self.runs = runs
-        self.algorithms = algorithms
-        self.problems = problems
+        self.algorithms = [algorithms] if isinstance(algorithms, str) else algorithms
+        self.problems = [problems] if isinstance(problems, str) else problems
         self.results = {}
 
     def task_factory(self, name):
-- 
2.43.0


From 75a32c4cb8dfd42a70745e1c8fbd7d74d562b543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:31 +0000
Subject: [PATCH 20/29] fix: give set_parameters the defaults of the
 constructors

BatAlgorithm, FlowerPollinationAlgorithm, CuckooSearch, FishSchoolSearch,
DynNpDifferentialEvolution, MultiStrategyDifferentialEvolution and the
DE/MTS hybrids changed options the caller had left out.
---
 src/niapy/algorithms/basic/ba.py     | 2 +-
 src/niapy/algorithms/basic/cs.py     | 2 +-
 src/niapy/algorithms/basic/de.py     | 4 ++--
 src/niapy/algorithms/basic/fpa.py    | 2 +-
 src/niapy/algorithms/basic/fss.py    | 2 +-
 src/niapy/algorithms/modified/hde.py | 3 ++-
 6 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/niapy/algorithms/basic/ba.py b/src/niapy/algorithms/basic/ba.py
index 4657136..8052791 100644
--- a/src/niapy/algorithms/basic/ba.py
+++ b/src/niapy/algorithms/basic/ba.py
@@ -84,7 +84,7 @@ class BatAlgorithm(Algorithm):
         self.min_frequency = min_frequency
         self.max_frequency = max_frequency
 
-    def set_parameters(self, population_size=20, loudness=1.0, pulse_rate=1.0, alpha=0.97, gamma=0.1, min_frequency=0.0,
+    def set_parameters(self, population_size=40, loudness=1.0, pulse_rate=1.0, alpha=0.97, gamma=0.1, min_frequency=0.0,
                        max_frequency=2.0, **kwargs):
         r"""Set the parameters of the algorithm.
 
diff --git a/src/niapy/algorithms/basic/cs.py b/src/niapy/algorithms/basic/cs.py
index 6b3d854..2a47dd8 100644
--- a/src/niapy/algorithms/basic/cs.py
+++ b/src/niapy/algorithms/basic/cs.py
@@ -71,7 +71,7 @@ class CuckooSearch(Algorithm):
         super().__init__(population_size, *args, **kwargs)
         self.pa = pa
 
-    def set_parameters(self, population_size=50, pa=0.2, **kwargs):
+    def set_parameters(self, population_size=25, pa=0.25, **kwargs):
         r"""Set the arguments of an algorithm.
 
         Args:
diff --git a/src/niapy/algorithms/basic/de.py b/src/niapy/algorithms/basic/de.py
index 31a0eab..8fc14c5 100644
--- a/src/niapy/algorithms/basic/de.py
+++ b/src/niapy/algorithms/basic/de.py
@@ -488,7 +488,7 @@ class DynNpDifferentialEvolution(DifferentialEvolution):
             * :func:`niapy.algorithms.basic.DifferentialEvolution.set_parameters`
 
         """
-        super().set_parameters(**kwargs)
+        super().set_parameters(population_size=kwargs.pop('population_size', 10), **kwargs)
         self.p_max = p_max
         self.rp = rp
 
@@ -923,7 +923,7 @@ class MultiStrategyDifferentialEvolution(DifferentialEvolution):
             * :func:`niapy.algorithms.basic.DifferentialEvolution.set_parameters`
 
         """
-        super().set_parameters(strategy=multi_mutations, **kwargs)
+        super().set_parameters(population_size=kwargs.pop('population_size', 40), strategy=multi_mutations, **kwargs)
         self.strategies = strategies
 
     def get_parameters(self):
diff --git a/src/niapy/algorithms/basic/fpa.py b/src/niapy/algorithms/basic/fpa.py
index 1a34c25..cf4f581 100644
--- a/src/niapy/algorithms/basic/fpa.py
+++ b/src/niapy/algorithms/basic/fpa.py
@@ -70,7 +70,7 @@ class FlowerPollinationAlgorithm(Algorithm):
         super().__init__(population_size, *args, **kwargs)
         self.p = p
 
-    def set_parameters(self, population_size=25, p=0.8, **kwargs):
+    def set_parameters(self, population_size=20, p=0.8, **kwargs):
         r"""Set core parameters of FlowerPollinationAlgorithm algorithm.
 
         Args:
diff --git a/src/niapy/algorithms/basic/fss.py b/src/niapy/algorithms/basic/fss.py
index db73791..f88e556 100644
--- a/src/niapy/algorithms/basic/fss.py
+++ b/src/niapy/algorithms/basic/fss.py
@@ -115,7 +115,7 @@ class FishSchoolSearch(Algorithm):
         self.w_scale = w_scale
 
     def set_parameters(self, population_size=30, step_individual_init=0.1, step_individual_final=0.0001,
-                       step_volitive_init=0.01, step_volitive_final=0.001, min_w=1.0, w_scale=5000.0, **kwargs):
+                       step_volitive_init=0.01, step_volitive_final=0.001, min_w=1.0, w_scale=500.0, **kwargs):
         r"""Set core arguments of FishSchoolSearch algorithm.
 
         Args:
diff --git a/src/niapy/algorithms/modified/hde.py b/src/niapy/algorithms/modified/hde.py
index 62f6d20..c643dea 100644
--- a/src/niapy/algorithms/modified/hde.py
+++ b/src/niapy/algorithms/modified/hde.py
@@ -102,6 +102,7 @@ class DifferentialEvolutionMTS(DifferentialEvolution, MultipleTrajectorySearch):
             :func:`niapy.algorithms.basic.de.DifferentialEvolution.set_parameters`
 
         """
+        kwargs.setdefault('population_size', 40)
         MultipleTrajectorySearch.set_parameters(self, **kwargs)
         DifferentialEvolution.set_parameters(self, individual_type=kwargs.pop('individual_type', MtsIndividual),
                                              **kwargs)
@@ -231,7 +232,7 @@ class DynNpDifferentialEvolutionMTS(DifferentialEvolutionMTS, DynNpDifferentialE
         """Initialize DynNpDifferentialEvolutionMTS."""
         super().__init__(*args, **kwargs)
 
-    def set_parameters(self, p_max=10, rp=3, **kwargs):
+    def set_parameters(self, p_max=50, rp=3, **kwargs):
         r"""Set core parameters or DynNpDifferentialEvolutionMTS algorithm.
 
         Args:
-- 
2.43.0


From a48405363be1bc2211110106293f220c6f9b1f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:31 +0000
Subject: [PATCH 21/29] fix: do not pass self twice in set_parameters of
 EvolutionStrategyMp1 and CoralReefsOptimization

Both raised TypeError (multiple values for an argument) on every call.
---
 src/niapy/algorithms/basic/cro.py | 2 +-
 src/niapy/algorithms/basic/es.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/cro.py b/src/niapy/algorithms/basic/cro.py
index 43ea76d..5ac22ba 100644
--- a/src/niapy/algorithms/basic/cro.py
+++ b/src/niapy/algorithms/basic/cro.py
@@ -197,7 +197,7 @@ class CoralReefsOptimization(Algorithm):
             * :func:`niapy.algorithms.Algorithm.set_parameters`
 
         """
-        super().set_parameters(self, population_size=population_size, **kwargs)
+        super().set_parameters(population_size=population_size, **kwargs)
         self.phi = phi
         self.k = k
         self.crossover_rate = crossover_rate
diff --git a/src/niapy/algorithms/basic/es.py b/src/niapy/algorithms/basic/es.py
index 508b607..c17a493 100644
--- a/src/niapy/algorithms/basic/es.py
+++ b/src/niapy/algorithms/basic/es.py
@@ -284,7 +284,7 @@ class EvolutionStrategyMp1(EvolutionStrategy1p1):
 
         """
         mu = kwargs.pop('mu', 40)
-        super().set_parameters(self, mu=mu, **kwargs)
+        super().set_parameters(mu=mu, **kwargs)
 
 
 class EvolutionStrategyMpL(EvolutionStrategy1p1):
-- 
2.43.0


From b9a2f91e1699b6fd7bf68ada344e34d4f403b413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:31 +0000
Subject: [PATCH 22/29] fix: MultipleTrajectorySearchV1.set_parameters dropped
 its options

All six named options were accepted and ignored, the defaults were set.
---
 src/niapy/algorithms/other/mts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index a0ffc52..4390d40 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -653,4 +653,7 @@ class MultipleTrajectorySearchV1(MultipleTrajectorySearch):
 
         """
         kwargs.pop('num_searches_best', None)
-        super().set_parameters(num_searches_best=0, local_searches=(mts_ls1v1, mts_ls2), **kwargs)
+        kwargs.pop('local_searches', None)
+        super().set_parameters(population_size=population_size, num_tests=num_tests, num_searches=num_searches,
+                               num_searches_best=0, num_enabled=num_enabled, bonus1=bonus1, bonus2=bonus2,
+                               local_searches=(mts_ls1v1, mts_ls2), **kwargs)
-- 
2.43.0


From acee5690090acee7cc77ed6ae5f4cbe77e40dca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:07 +0000
Subject: [PATCH 23/29] fix: report every option in get_parameters

GSOv2 (alpha), GSOv3 (beta1), HSABA (strategy), SimulatedAnnealing
(cooling_method) and AnarchicSocietyOptimization (d, dn) left options out.
---
 src/niapy/algorithms/basic/gso.py      | 22 ++++++++++++++++++++++
 src/niapy/algorithms/modified/hsaba.py |  3 ++-
 src/niapy/algorithms/other/aso.py      |  2 ++
 src/niapy/algorithms/other/sa.py       |  3 ++-
 4 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/gso.py b/src/niapy/algorithms/basic/gso.py
index 772e239..a08baf2 100644
--- a/src/niapy/algorithms/basic/gso.py
+++ b/src/niapy/algorithms/basic/gso.py
@@ -372,6 +372,17 @@ class GlowwormSwarmOptimizationV2(GlowwormSwarmOptimization):
         super().set_parameters(**kwargs)
         self.alpha = alpha
 
+    def get_parameters(self):
+        r"""Get algorithms parameters values.
+
+        Returns:
+            Dict[str, Any]: Algorithm parameters.
+
+        """
+        d = super().get_parameters()
+        d.update({'alpha': self.alpha})
+        return d
+
     def range_update(self, range_, neighbors, sensing_range):
         """Update range."""
         return self.alpha + (sensing_range - self.alpha) / (1 + self.beta * np.sum(neighbors))
@@ -442,6 +453,17 @@ class GlowwormSwarmOptimizationV3(GlowwormSwarmOptimization):
         super().set_parameters(**kwargs)
         self.beta1 = beta1
 
+    def get_parameters(self):
+        r"""Get algorithms parameters values.
+
+        Returns:
+            Dict[str, Any]: Algorithm parameters.
+
+        """
+        d = super().get_parameters()
+        d.update({'beta1': self.beta1})
+        return d
+
     def range_update(self, range_, neighbors, sensing_range):
         """Update range."""
         return range_ + (self.beta * np.sum(neighbors)) if np.sum(neighbors) < self.nt else (-self.beta1 * np.sum(neighbors))
diff --git a/src/niapy/algorithms/modified/hsaba.py b/src/niapy/algorithms/modified/hsaba.py
index cc93b42..2fc21ba 100644
--- a/src/niapy/algorithms/modified/hsaba.py
+++ b/src/niapy/algorithms/modified/hsaba.py
@@ -105,7 +105,8 @@ class HybridSelfAdaptiveBatAlgorithm(SelfAdaptiveBatAlgorithm):
         d = super().get_parameters()
         d.update({
             'differential_weight': self.differential_weight,
-            'crossover_probability': self.crossover_probability
+            'crossover_probability': self.crossover_probability,
+            'strategy': self.strategy
         })
         return d
 
diff --git a/src/niapy/algorithms/other/aso.py b/src/niapy/algorithms/other/aso.py
index 6c5d83e..e828022 100644
--- a/src/niapy/algorithms/other/aso.py
+++ b/src/niapy/algorithms/other/aso.py
@@ -370,6 +370,8 @@ class AnarchicSocietyOptimization(Algorithm):
             'alpha': self.alpha,
             'gamma': self.gamma,
             'theta': self.theta,
+            'd': self.d,
+            'dn': self.dn,
             'nl': self.nl,
             'f': self.f,
             'cr': self.cr,
diff --git a/src/niapy/algorithms/other/sa.py b/src/niapy/algorithms/other/sa.py
index 4e27e5a..feea8d4 100644
--- a/src/niapy/algorithms/other/sa.py
+++ b/src/niapy/algorithms/other/sa.py
@@ -151,7 +151,8 @@ class SimulatedAnnealing(Algorithm):
             'delta': self.delta,
             'delta_temperature': self.delta_temperature,
             'starting_temperature': self.starting_temperature,
-            'epsilon': self.epsilon
+            'epsilon': self.epsilon,
+            'cooling_method': self.cooling_method
         })
         return d
 
-- 
2.43.0


From 0f6a7863f13dcd5d92c7b3fc2919e0d59edcf9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:16 +0000
Subject: [PATCH 24/29] fix: accept individual_type in set_parameters of
 CamelAlgorithm and LionOptimizationAlgorithm

The constructors take it, set_parameters raised TypeError (multiple values).
---
 src/niapy/algorithms/basic/ca.py  | 2 +-
 src/niapy/algorithms/basic/loa.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/ca.py b/src/niapy/algorithms/basic/ca.py
index e0b0b35..6d244bb 100644
--- a/src/niapy/algorithms/basic/ca.py
+++ b/src/niapy/algorithms/basic/ca.py
@@ -236,7 +236,7 @@ class CamelAlgorithm(Algorithm):
             * :func:`niapy.algorithms.Algorithm.set_parameters`
 
         """
-        super().set_parameters(population_size=population_size, individual_type=Camel,
+        super().set_parameters(population_size=population_size, individual_type=kwargs.pop('individual_type', Camel),
                                initialization_function=kwargs.pop('initialization_function', self.init_pop), **kwargs)
         self.burden_factor = burden_factor
         self.death_rate = death_rate
diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 86edbe0..e65cba2 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -217,7 +217,7 @@ class LionOptimizationAlgorithm(Algorithm):
         super().set_parameters(
             population_size,
             *args,
-            individual_type=Lion,
+            individual_type=kwargs.pop("individual_type", Lion),
             initialization_function=kwargs.pop(
                 "initialization_function", default_individual_init
             ),
-- 
2.43.0


From f171f19ba6a36e8fc46869a0293b2b742f3e6056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:48 +0000
Subject: [PATCH 25/29] fix: reset the step counters of BFO at the start of
 every run

---
 src/niapy/algorithms/basic/bfo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/basic/bfo.py b/src/niapy/algorithms/basic/bfo.py
index cd422bc..bf9c04b 100644
--- a/src/niapy/algorithms/basic/bfo.py
+++ b/src/niapy/algorithms/basic/bfo.py
@@ -180,6 +180,7 @@ class BacterialForagingOptimization(Algorithm):
 
         """
         pop, fpop, d = super().init_population(task)
+        self.i = self.j = self.k = 0
         d.update({
             'cost': np.zeros(self.population_size, dtype=np.float64),
             'health': np.zeros(self.population_size, dtype=np.float64)
-- 
2.43.0


From 472cc6524f894b0a2644e491fb9810e3a514edb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:30 +0000
Subject: [PATCH 26/29] fix: do not wait for a second food source in ABC when
 there is only one

---
 src/niapy/algorithms/basic/abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/abc.py b/src/niapy/algorithms/basic/abc.py
index 2d1ecb8..6e60803 100644
--- a/src/niapy/algorithms/basic/abc.py
+++ b/src/niapy/algorithms/basic/abc.py
@@ -195,7 +195,7 @@ class ArtificialBeeColonyAlgorithm(Algorithm):
                 solution = copy.deepcopy(population[s])
                 param2change = int(self.random() * task.dimension)
                 neighbor = int(self.food_number * self.random())
-                while neighbor == s:
+                while neighbor == s and self.food_number > 1:
                     neighbor = int(self.food_number * self.random())
                 solution.x[param2change] = population[s].x[param2change] + self.uniform(-1, 1) * (
                         population[s].x[param2change] - population[neighbor].x[param2change])
-- 
2.43.0


From 40b12d520640e7a9a281f4b45b62f926654813e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:33 +0000
Subject: [PATCH 27/29] fix: keep the onlooker phase of ABC going when no food
 source has a finite fitness

---
 src/niapy/algorithms/basic/abc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/abc.py b/src/niapy/algorithms/basic/abc.py
index 6e60803..9915b30 100644
--- a/src/niapy/algorithms/basic/abc.py
+++ b/src/niapy/algorithms/basic/abc.py
@@ -123,7 +123,8 @@ class ArtificialBeeColonyAlgorithm(Algorithm):
 
         """
         probs = np.asarray([1.0 / (foods[i].f + 0.01) for i in range(self.food_number)])
-        return probs / np.sum(probs)
+        total = np.sum(probs)
+        return probs / total if total != 0 else np.full(self.food_number, 1.0 / self.food_number)
 
     def init_population(self, task):
         r"""Initialize the starting population.
-- 
2.43.0


From 36420006108f033d34d2fd3b462cf9c47881cd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:19 +0000
Subject: [PATCH 28/29] fix: let HybridBatAlgorithm use strategies that take no
 best individual

local_search handed the best individual to the strategy by position, so every
strategy but cross_best1 and cross_best2 raised a TypeError.
---
 src/niapy/algorithms/modified/hba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/modified/hba.py b/src/niapy/algorithms/modified/hba.py
index c047ba2..729edbb 100644
--- a/src/niapy/algorithms/modified/hba.py
+++ b/src/niapy/algorithms/modified/hba.py
@@ -116,4 +116,4 @@ class HybridBatAlgorithm(BatAlgorithm):
             numpy.ndarray: New solution based on global best individual.
 
         """
-        return task.repair(self.strategy(population, i, self.differential_weight, self.crossover_probability, self.rng, best), rng=self.rng)
+        return task.repair(self.strategy(population, i, self.differential_weight, self.crossover_probability, self.rng, x_b=best), rng=self.rng)
-- 
2.43.0


From 528004faf1a715e75727963ba34a43e65dc28ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:29 +0000
Subject: [PATCH 29/29] fix: keep the MTS local search 3 from moving the
 position it has accepted

mts_ls3 kept the array it goes on changing as the current position, so the
position returned was not the one its fitness belongs to.
---
 src/niapy/algorithms/other/mts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index 4390d40..df02e4d 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -262,7 +262,7 @@ def mts_ls3(current_x, current_fitness, best_x, best_fitness, improve, search_ra
                 best_x, best_fitness, grade = x_new.copy(), x_new_fitness, grade + bonus1
             else:
                 grade += bonus2
-            current_x, current_fitness, improve = x_new, x_new_fitness, True
+            current_x, current_fitness, improve = x_new.copy(), x_new_fitness, True
     return current_x, current_fitness, best_x, best_fitness, improve, grade, search_range
 
 
-- 
2.43.0

