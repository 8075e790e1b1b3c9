From 09b36b977f64aa34a2c17c6001e31e553f00da5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 01/13] fix: crossover strategies no longer panic on empty
 genomes

Random pivots, ranges and points cannot be drawn for a genome without genes;
the offspring of two empty genomes is the empty genome.
---
 src/operators/crossover.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/operators/crossover.rs b/src/operators/crossover.rs
index ef05a53..b7ed294 100644
--- a/src/operators/crossover.rs
+++ b/src/operators/crossover.rs
@@ -71,6 +71,10 @@ impl CrossoverStrategy {
         parent2: &[G],
         rng: &mut R,
     ) -> Vec<G> {
+        if parent1.is_empty() && parent2.is_empty() {
+            return Vec::new();
+        }
+
         match self {
             Self::GeneralizedPartition2 => {
                 generalized_partition_2_crossover(parent1, parent2, |_, partitions| {
-- 
2.43.0


From 4b797f7a688981379b042dbcced8f5b634033e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 02/13] fix: GPX2 panics on parents of different lengths like
 all other crossovers

---
 src/operators/crossover.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/operators/crossover.rs b/src/operators/crossover.rs
index b7ed294..6acfa47 100644
--- a/src/operators/crossover.rs
+++ b/src/operators/crossover.rs
@@ -131,6 +131,9 @@ impl CrossoverStrategy {
 /// # Note
 /// GPX2 is applicable to permutation-based problems.
 ///
+/// # Panics
+/// This method will panic if the parent genomes have different lengths.
+///
 /// # Example
 /// ```
 /// use rusty_genes::*;
@@ -162,6 +165,8 @@ where
     G: Copy + PartialOrd + Eq + Hash,
     F: FnMut(Option<&G>, &[Vec<G>]) -> usize,
 {
+    assert!(parent1.len() == parent2.len());
+
     let mut offspring = Vec::with_capacity(parent1.len());
 
     let mut genes_in_selected_partition = HashSet::with_capacity(offspring.len());
-- 
2.43.0


From ee3a787d63364c43ba57c87af8f06c115d1241e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 03/13] fix: order crossover handles an empty range

With an empty range the filling loop stopped at once, leaving duplicates of the
first gene, or never stopped when the range was at the end of the genome.
---
 src/operators/crossover.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/operators/crossover.rs b/src/operators/crossover.rs
index 6acfa47..042a9d2 100644
--- a/src/operators/crossover.rs
+++ b/src/operators/crossover.rs
@@ -499,6 +499,11 @@ where
         return parent1.to_vec();
     }
 
+    // An empty range keeps nothing of parent1
+    if range.is_empty() {
+        return parent2.to_vec();
+    }
+
     let p1 = range.start;
     let p2 = range.end;
     let mut genome = vec![parent1[0]; n];
-- 
2.43.0


From ddd7cf9491a75ffaa5a9b55dd8cb7158189fccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 04/13] fix: insertion mutation moves genes in both directions

The two positions were sorted before use, so a gene could only ever be moved
towards the start of the genome and the first gene was never picked.
---
 src/operators/mutation.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/operators/mutation.rs b/src/operators/mutation.rs
index 20d6a72..cf760ad 100644
--- a/src/operators/mutation.rs
+++ b/src/operators/mutation.rs
@@ -204,11 +204,12 @@ pub fn insertion_mutation<G, R: Rng>(genome: &mut [G], rng: &mut R) {
         return;
     }
 
-    let (mut p1, mut p2) = random_pair(n, rng);
-    if p1 > p2 {
-        std::mem::swap(&mut p1, &mut p2);
+    let (to, from) = random_pair(n, rng);
+    if to < from {
+        genome[to..=from].rotate_right(1);
+    } else {
+        genome[from..=to].rotate_left(1);
     }
-    genome[p1..=p2].rotate_right(1);
 }
 
 /// Selects a gene from a random position in the genome and copies it to another position, replacing
-- 
2.43.0


From 65930334b3f791ffd94a101070499bf81264c1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 05/13] fix: common neighbors of genomes with two genes

The length check of the second genome was off by one, so two genomes of two
genes had no common neighbors and the result depended on the argument order.
---
 src/operators.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/operators.rs b/src/operators.rs
index 2c09bc9..fe3f613 100644
--- a/src/operators.rs
+++ b/src/operators.rs
@@ -137,7 +137,7 @@ pub fn common_neighbors<G>(genome1: &[G], genome2: &[G]) -> Vec<(G, G)>
 where
     G: Copy + PartialOrd + Eq + Hash,
 {
-    if genome1.len() < 2 || genome2.len() <= 2 {
+    if genome1.len() < 2 || genome2.len() < 2 {
         return Vec::new();
     }
 
@@ -171,6 +171,11 @@ where
             ))),
     );
 
+    // The first and the last of two genes are the same neighbors as the first and the second
+    if genome1.len() == 2 {
+        neighbors1.pop();
+    }
+
     neighbors1.retain(|neighbor| neighbors2.contains(neighbor));
     neighbors1
 }
-- 
2.43.0


From 1cae73b323fdf4ff59cbc88fb8f230f00f7c2755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 06/13] fix: Boltzmann selection at low temperatures

exp(fitness / temperature) overflows (or vanishes for every individual) once the
temperature has cooled down, after which the least fit individual was selected
every time. Scaling relative to the best fitness leaves the probabilities as
they are and cannot overflow.
---
 src/operators/selection.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/operators/selection.rs b/src/operators/selection.rs
index abdaa27..513781d 100644
--- a/src/operators/selection.rs
+++ b/src/operators/selection.rs
@@ -241,6 +241,7 @@ where
 pub struct BoltzmannSelection {
     temperature: f64,
     cooling_rate: f64,
+    max_fitness: f64,
     total_scaled_fitness: f64,
 }
 
@@ -254,6 +255,7 @@ impl BoltzmannSelection {
         Self {
             temperature,
             cooling_rate,
+            max_fitness: 0.0,
             total_scaled_fitness: 0.0,
         }
     }
@@ -282,10 +284,11 @@ impl BoltzmannSelection {
         self.cooling_rate = cooling_rate
     }
 
-    /// Calculates the Boltzmann scaled fitness of an individual.
+    /// Calculates the Boltzmann scaled fitness of an individual, relative to the scaled fitness
+    /// of the fittest individual so that it can neither overflow nor vanish for all individuals.
     #[inline]
     fn scaled_fitness<I: Individual>(&self, individual: &I) -> f64 {
-        (individual.fitness() / self.temperature).exp()
+        ((individual.fitness() - self.max_fitness) / self.temperature).exp()
     }
 }
 
@@ -297,6 +300,7 @@ where
     #[inline]
     fn prepare(&mut self, population: &Population<I>) {
         self.temperature *= self.cooling_rate;
+        self.max_fitness = population.fittest().fitness();
         self.total_scaled_fitness = population
             .par_iter()
             .map(|i| self.scaled_fitness(i))
-- 
2.43.0


From 00459eb9eed51faa289966d0f1a6e8414145d0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 07/13] fix: linear selection with a bias of one or close to it

A bias of one divided zero by zero and always selected the fittest individual,
and rounding could put the index below zero, which panicked.
---
 src/operators/selection.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/operators/selection.rs b/src/operators/selection.rs
index 513781d..69ab933 100644
--- a/src/operators/selection.rs
+++ b/src/operators/selection.rs
@@ -468,14 +468,15 @@ where
 
     #[inline]
     fn select<'a>(&self, population: &'a Population<I>, rng: &mut R) -> (usize, &'a I) {
-        let index = population.len()
-            - ((population.len() as f64)
-                * (self.bias
-                    - ((self.bias * self.bias - 4.0 * (self.bias - 1.0) * rng.gen::<f64>())
-                        .sqrt()))
-                / 2.0
-                / (self.bias - 1.0)) as usize
-            - 1;
+        let n = population.len();
+        let target = rng.gen::<f64>();
+
+        // The relative distance from the fittest individual, which is the smaller root of
+        // `bias * x - (bias - 1) * x * x = target`, in a form that is exact for any bias
+        let discriminant = self.bias * self.bias - 4.0 * (self.bias - 1.0) * target;
+        let distance = 2.0 * target / (self.bias + discriminant.max(0.0).sqrt());
+
+        let index = n - 1 - ((n as f64 * distance) as usize).min(n - 1);
         (index, &population[index])
     }
 }
-- 
2.43.0


From b97b2f0b0d4bd7b277c12c780c70464f96e73807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 08/13] fix: populations no longer keep duplicates among
 fitness ties

Only neighbors were compared after sorting by fitness, so equal individuals
separated by a different one of the same fitness were both kept.
---
 src/population.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/population.rs b/src/population.rs
index d96fb99..feee654 100644
--- a/src/population.rs
+++ b/src/population.rs
@@ -129,7 +129,7 @@ impl<I: Individual> From<Population<I>> for Vec<I> {
 #[inline]
 fn sort_dedup_and_collect_stats<I: Individual>(individuals: &mut Vec<I>) -> PopulatedStats {
     individuals.par_sort_unstable_by(compare_fitness);
-    individuals.dedup();
+    dedup_sorted(individuals);
     individuals
         .iter()
         .map(|i| i.fitness())
@@ -137,3 +137,22 @@ fn sort_dedup_and_collect_stats<I: Individual>(individuals: &mut Vec<I>) -> Popu
         .try_into()
         .unwrap()
 }
+
+/// Removes duplicates from a list of individuals that is sorted by fitness score.
+///
+/// Equal individuals have equal fitness scores, but they are not necessarily next to each other:
+/// different individuals of the same fitness score can be in between.
+fn dedup_sorted<I: Individual>(individuals: &mut Vec<I>) {
+    let mut len = 0;
+    let mut run_start = 0;
+    for index in 0..individuals.len() {
+        if len != 0 && individuals[len - 1].fitness() != individuals[index].fitness() {
+            run_start = len;
+        }
+        if !individuals[run_start..len].contains(&individuals[index]) {
+            individuals.swap(len, index);
+            len += 1;
+        }
+    }
+    individuals.truncate(len);
+}
-- 
2.43.0


From 71d77f05a9792ffdef2342f9d4e27a44d7de835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 09/13] fix: a single missing offspring joins the new
 population

---
 src/algorithms.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/algorithms.rs b/src/algorithms.rs
index bea0880..a25ecdd 100644
--- a/src/algorithms.rs
+++ b/src/algorithms.rs
@@ -219,8 +219,10 @@ pub trait EvolutionAlgorithm<M: EvolutionModel> {
             0 => {}
             1 => {
                 let mut rng = rng_pool.pull(M::rng);
-                self.model()
-                    .breed(population, breeding_parameters, &mut *rng);
+                offspring.push(
+                    self.model()
+                        .breed(population, breeding_parameters, &mut *rng),
+                );
             }
             size => {
                 offspring.par_extend(rayon::iter::repeatn(self.model(), size).map_init(
-- 
2.43.0


From 3b921bb2d68ee915baaf0a50dc6b1cd31a192809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 10/13] fix: runs return the best individual of all generations

---
 src/evolution.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/evolution.rs b/src/evolution.rs
index 5fae56e..de15733 100644
--- a/src/evolution.rs
+++ b/src/evolution.rs
@@ -57,8 +57,7 @@ where
             parameters.initial_population_size(),
             args,
         );
-        self.evolve_population(individuals, parameters, progress)
-            .take_fittest()
+        self.evolve_fittest(individuals, parameters, progress)
     }
 
     /// Runs the evolutionary algorithm with an initial population based on a single individual.
@@ -100,8 +99,29 @@ where
             parameters.initial_population_size(),
             individual,
         );
-        self.evolve_population(individuals, parameters, progress)
-            .take_fittest()
+        self.evolve_fittest(individuals, parameters, progress)
+    }
+
+    /// Runs the evolutionary algorithm on a given population, and returns the fittest individual among
+    /// all generations. Without elitism, it is not necessarily in the last generation.
+    fn evolve_fittest<F>(
+        &self,
+        initial_population: Vec<M::Individual>,
+        parameters: &A::Parameters,
+        mut progress: F,
+    ) -> M::Individual
+    where
+        F: FnMut(&Population<M::Individual>) -> bool,
+    {
+        let mut fittest: Option<M::Individual> = None;
+        let population = self.evolve_population(initial_population, parameters, |population| {
+            let candidate = population.fittest();
+            if !matches!(&fittest, Some(best) if best.fitness() >= candidate.fitness()) {
+                fittest = Some(candidate.clone());
+            }
+            progress(population)
+        });
+        fittest.unwrap_or_else(|| population.take_fittest())
     }
 
     /// Runs the evolutionary algorithm on a given population.
-- 
2.43.0


From d1117c50f6de753f794c19b93f8392392ae6d836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 11/13] fix: adaptive rates without diversity are not NaN

---
 src/algorithms/aga.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/aga.rs b/src/algorithms/aga.rs
index 17464f7..0069c13 100644
--- a/src/algorithms/aga.rs
+++ b/src/algorithms/aga.rs
@@ -203,7 +203,13 @@ impl<M: EvolutionModel> EvolutionAlgorithm<M> for AdaptiveGeneticAlgorithm<M> {
                 self.breeding.mutation_rate = self.mutation_rate_range.start;
             }
             n if self.adjustment_interval != 0 && n % self.adjustment_interval == 0 => {
-                let diversity = (population.stats().std() / self.reference_std).clamp(0.0, 1.0);
+                let std = population.stats().std();
+                let diversity = if std > 0.0 {
+                    (std / self.reference_std).clamp(0.0, 1.0)
+                } else {
+                    // The reference may be zero too
+                    0.0
+                };
 
                 self.breeding.crossover_rate = interpolate_f64(
                     self.crossover_rate_range.start,
-- 
2.43.0


From e1bdb2f5e41983e9e3c963ffaab8bf57b126a342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 12/13] fix: adaptive rates stay numbers when fitness
 deviations are infinite

---
 src/algorithms/aga.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/aga.rs b/src/algorithms/aga.rs
index 0069c13..0931948 100644
--- a/src/algorithms/aga.rs
+++ b/src/algorithms/aga.rs
@@ -205,7 +205,8 @@ impl<M: EvolutionModel> EvolutionAlgorithm<M> for AdaptiveGeneticAlgorithm<M> {
             n if self.adjustment_interval != 0 && n % self.adjustment_interval == 0 => {
                 let std = population.stats().std();
                 let diversity = if std > 0.0 {
-                    (std / self.reference_std).clamp(0.0, 1.0)
+                    // Unlike `clamp`, `min` turns the NaN of two infinite deviations into a number
+                    (std / self.reference_std).min(1.0)
                 } else {
                     // The reference may be zero too
                     0.0
-- 
2.43.0


From 3b3415568e8ae3540bd75bddb6530a231a87bdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:45 +0000
Subject: [PATCH 13/13] fix: common neighbors of genes that are not totally
 ordered

---
 src/operators.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/operators.rs b/src/operators.rs
index fe3f613..a59be6a 100644
--- a/src/operators.rs
+++ b/src/operators.rs
@@ -176,7 +176,8 @@ where
         neighbors1.pop();
     }
 
-    neighbors1.retain(|neighbor| neighbors2.contains(neighbor));
+    // Genes that are not comparable may be paired in either order
+    neighbors1.retain(|&(a, b)| neighbors2.contains(&(a, b)) || neighbors2.contains(&(b, a)));
     neighbors1
 }
 
-- 
2.43.0

