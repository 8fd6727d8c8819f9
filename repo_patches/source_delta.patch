From c46e8b3dd9be9207dbdb3ebae533d9008a6b6afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 01/23] fix: align buffered candles to their bucket after gaps
 and for week/month

---
 juno/src/utils/buffered_candle.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/juno/src/utils/buffered_candle.rs b/juno/src/utils/buffered_candle.rs
index b50ef9a..947b691 100644
--- a/juno/src/utils/buffered_candle.rs
+++ b/juno/src/utils/buffered_candle.rs
@@ -51,7 +51,7 @@ impl BufferedCandle {
                 None
             }
             Some(ref mut buffer_candle) => {
-                if candle.time >= buffer_candle.time + self.buffer_interval {
+                if candle.time.floor(self.buffer_interval) > buffer_candle.time {
                     Some(*buffer_candle)
                 } else {
                     *buffer_candle += candle;
@@ -60,13 +60,17 @@ impl BufferedCandle {
             }
         };
 
-        let is_last = (candle.time + self.interval) % self.buffer_interval == 0;
+        let candle_end = candle.time + self.interval;
+        let is_last = candle_end.floor(self.buffer_interval) == candle_end;
 
         if let Some(ret) = ret {
             if is_last {
                 panic!("too many missing candles");
             }
-            self.buffer_candle = Some(*candle);
+            self.buffer_candle = Some(Candle {
+                time: candle.time.floor(self.buffer_interval),
+                ..*candle
+            });
             Some(Cow::Owned(ret))
         } else if is_last {
             Some(Cow::Owned(self.buffer_candle.take().unwrap()))
-- 
2.43.0


From 7518891004912e75de7a1baf93492964102b6ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:46 +0000
Subject: [PATCH 02/23] fix: Ema2 produces its first value when it reports
 maturity

---
 juno/src/indicators/ema2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno/src/indicators/ema2.rs b/juno/src/indicators/ema2.rs
index d834e41..1fa6a1c 100644
--- a/juno/src/indicators/ema2.rs
+++ b/juno/src/indicators/ema2.rs
@@ -47,6 +47,8 @@ impl MA for Ema2 {
     }
 
     fn update(&mut self, price: f64) {
+        self.t = min(self.t + 1, self.t2);
+
         if self.t <= self.t1 {
             self.sma.update(price);
         }
@@ -56,8 +58,6 @@ impl MA for Ema2 {
         } else if self.t >= self.t2 {
             self.value = (price - self.value) * self.a + self.value;
         }
-
-        self.t = min(self.t + 1, self.t2)
     }
 
     fn value(&self) -> f64 {
-- 
2.43.0


From 526ced1fe88c11afe5befbe260152ca32b092438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:46 +0000
Subject: [PATCH 03/23] fix: Stoch no longer turns NaN for good after a flat
 price window

---
 juno/src/indicators/stoch.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/juno/src/indicators/stoch.rs b/juno/src/indicators/stoch.rs
index 874f630..8895a1a 100644
--- a/juno/src/indicators/stoch.rs
+++ b/juno/src/indicators/stoch.rs
@@ -58,7 +58,12 @@ impl Stoch {
         if self.t >= self.t1 {
             let max_high = self.k_high_window.iter().cloned().fold(f64::MIN, f64::max);
             let min_low = self.k_low_window.iter().cloned().fold(f64::MAX, f64::min);
-            let fast_k = 100.0 * (close - min_low) / (max_high - min_low);
+            let range = max_high - min_low;
+            let fast_k = if range > 0.0 {
+                100.0 * (close - min_low) / range
+            } else {
+                0.0
+            };
 
             self.k_sma.update(fast_k);
 
-- 
2.43.0


From a37fe8af55b9d85846c2a3170baa3a66755cd94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:46 +0000
Subject: [PATCH 04/23] fix: DX no longer turns NaN when there is no
 directional movement

---
 juno/src/indicators/dx.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/juno/src/indicators/dx.rs b/juno/src/indicators/dx.rs
index 90d2080..bf757ad 100644
--- a/juno/src/indicators/dx.rs
+++ b/juno/src/indicators/dx.rs
@@ -32,7 +32,12 @@ impl DX {
         self.dm.update(high, low);
 
         if self.t >= self.t1 {
-            self.value = self.dm.diff() / self.dm.sum() * 100.0;
+            let sum = self.dm.sum();
+            self.value = if sum > 0.0 {
+                self.dm.diff() / sum * 100.0
+            } else {
+                0.0
+            };
         }
     }
 }
-- 
2.43.0


From cc64b465c6882830c34c1105d0e85b71a1ca0b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:12 +0000
Subject: [PATCH 05/23] fix: Adx counts flat DX values and reports its real
 maturity

---
 juno/src/indicators/adx.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/juno/src/indicators/adx.rs b/juno/src/indicators/adx.rs
index 8747c9f..b7780dc 100644
--- a/juno/src/indicators/adx.rs
+++ b/juno/src/indicators/adx.rs
@@ -3,7 +3,6 @@ use super::{
     smma::{Smma, SmmaParams},
     MA,
 };
-use std::cmp::max;
 
 pub struct Adx {
     pub value: f64,
@@ -21,7 +20,7 @@ impl Adx {
     }
 
     pub fn maturity(&self) -> u32 {
-        max(self.dx.maturity(), self.smma.maturity())
+        self.dx.maturity() + self.smma.maturity() - 1
     }
 
     pub fn mature(&self) -> bool {
@@ -30,11 +29,9 @@ impl Adx {
 
     pub fn update(&mut self, high: f64, low: f64) {
         self.dx.update(high, low);
-        self.value = if self.dx.value == 0.0 {
-            0.0
-        } else {
+        if self.dx.mature() {
             self.smma.update(self.dx.value);
-            self.smma.value
+            self.value = self.smma.value;
         }
     }
 }
-- 
2.43.0


From 0c4b43be137aa03a5c8ea713063738018cabe987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:31 +0000
Subject: [PATCH 06/23] fix: DI is zero rather than NaN while there is no true
 range

---
 juno/src/indicators/di.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/juno/src/indicators/di.rs b/juno/src/indicators/di.rs
index 070e06e..1647cf7 100644
--- a/juno/src/indicators/di.rs
+++ b/juno/src/indicators/di.rs
@@ -48,16 +48,24 @@ impl DI {
         }
 
         if self.t == self.t2 {
-            self.plus_value = 100.0 * self.dm.plus_value / self.atr;
-            self.minus_value = 100.0 * self.dm.minus_value / self.atr;
+            self.set_values();
         } else if self.t >= self.t3 {
             self.atr = self.atr * self.per + calc_truerange(self.prev_close, high, low);
-            self.plus_value = 100.0 * self.dm.plus_value / self.atr;
-            self.minus_value = 100.0 * self.dm.minus_value / self.atr;
+            self.set_values();
         }
 
         self.prev_close = close;
     }
+
+    fn set_values(&mut self) {
+        if self.atr > 0.0 {
+            self.plus_value = 100.0 * self.dm.plus_value / self.atr;
+            self.minus_value = 100.0 * self.dm.minus_value / self.atr;
+        } else {
+            self.plus_value = 0.0;
+            self.minus_value = 0.0;
+        }
+    }
 }
 
 fn calc_truerange(prev_close: f64, high: f64, low: f64) -> f64 {
-- 
2.43.0


From bd66a09d5a6bd43044bda4b068cd4cdcef196803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:31 +0000
Subject: [PATCH 07/23] fix: ceil of an exact month start is that month start

---
 juno/src/primitives/timestamp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/juno/src/primitives/timestamp.rs b/juno/src/primitives/timestamp.rs
index c57e649..8b12e79 100644
--- a/juno/src/primitives/timestamp.rs
+++ b/juno/src/primitives/timestamp.rs
@@ -72,6 +72,9 @@ impl Timestamp {
             return Self(ceil_multiple_offset(self.0, interval.0, WEEK_OFFSET_MS));
         }
         if interval == Interval::MONTH_MS {
+            if self.floor(interval) == *self {
+                return *self;
+            }
             let dt = datetime_utcfromtimestamp_ms(self.0);
             let (mut year, mut month, _) = dt.to_calendar_date();
             if month == Month::December {
-- 
2.43.0


From 6f459b14772652b8178d0f85a6ccc55e250ca893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:45 +0000
Subject: [PATCH 08/23] fix: unknown or overflowing interval text is a parse
 error, not a panic

---
 juno/src/primitives/interval.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/juno/src/primitives/interval.rs b/juno/src/primitives/interval.rs
index 733750a..46c5c02 100644
--- a/juno/src/primitives/interval.rs
+++ b/juno/src/primitives/interval.rs
@@ -35,13 +35,11 @@ static INTERVAL_FACTOR_MAP: Lazy<HashMap<&'static str, u64>> =
 
 static INTERVAL_GROUP_RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"(\d+[a-zA-Z]+)").unwrap());
 
-fn calc_interval_group(group: &str) -> u64 {
-    for (i, c) in group.chars().enumerate() {
-        if c.is_alphabetic() {
-            return group[0..i].parse::<u64>().unwrap() * INTERVAL_FACTOR_MAP[&group[i..]];
-        }
-    }
-    panic!("Invalid interval group: {group}");
+fn calc_interval_group(group: &str) -> Option<u64> {
+    let unit_start = group.find(|c: char| c.is_ascii_alphabetic())?;
+    let (count, unit) = group.split_at(unit_start);
+    let factor = INTERVAL_FACTOR_MAP.get(unit)?;
+    count.parse::<u64>().ok()?.checked_mul(*factor)
 }
 
 #[derive(Debug, Default, Clone, Copy, Hash, PartialEq, Eq, PartialOrd, Ord, Serialize)]
@@ -87,11 +85,13 @@ impl FromStr for Interval {
     type Err = super::ParseError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Self(
-            INTERVAL_GROUP_RE
-                .find_iter(s)
-                .fold(0, |acc, group| acc + calc_interval_group(group.as_str())),
-        ))
+        INTERVAL_GROUP_RE
+            .find_iter(s)
+            .try_fold(0u64, |acc, group| {
+                acc.checked_add(calc_interval_group(group.as_str())?)
+            })
+            .map(Self)
+            .ok_or(Self::Err {})
     }
 }
 
-- 
2.43.0


From db75a012b64f5043c7d3fe8f684499db5789c5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:17 +0000
Subject: [PATCH 09/23] fix: risk ratios are zero instead of NaN or infinite
 when there is no risk

---
 juno/src/statistics/extended.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/juno/src/statistics/extended.rs b/juno/src/statistics/extended.rs
index 0964c04..37a6260 100644
--- a/juno/src/statistics/extended.rs
+++ b/juno/src/statistics/extended.rs
@@ -177,7 +177,7 @@ fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
         0.0
     } else {
         let annualized_volatility = SQRT_365 * std_deviation(&g_returns);
-        annualized_return / annualized_volatility
+        calculate_ratio(annualized_return, annualized_volatility)
     };
 
     // Sortino ratio.
@@ -190,13 +190,7 @@ fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
             .filter(|&v| v < 0.0)
             .collect::<Vec<f64>>();
         let annualized_downside_risk = SQRT_365 * std_deviation(&neg_g_returns);
-        // If there are no neg returns, sortino ratio becomes infinite. We will consider it to be
-        // 0.0 instead because that is usually a bad run anyway.
-        if annualized_downside_risk == 0.0 {
-            0.0
-        } else {
-            annualized_return / annualized_downside_risk
-        }
+        calculate_ratio(annualized_return, annualized_downside_risk)
     };
 
     assert!(sharpe_ratio.is_finite());
@@ -212,6 +206,17 @@ fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
     }
 }
 
+// If there is no risk (for example, no neg returns), the ratio becomes infinite or undefined. We
+// will consider it to be 0.0 instead because that is usually a bad run anyway.
+fn calculate_ratio(annualized_return: f64, annualized_risk: f64) -> f64 {
+    let ratio = annualized_return / annualized_risk;
+    if ratio.is_finite() {
+        ratio
+    } else {
+        0.0
+    }
+}
+
 // fn calculate_alpha_beta(benchmark_g_returns: &[f64], portfolio_stats: &Statistics) -> (f64, f64) {
 //     assert!(benchmark_g_returns.len() == portfolio_stats.g_returns.len());
 
@@ -295,7 +300,7 @@ pub fn get_sharpe_ratio(
             / length as f64;
         let std_dev = variance.sqrt();
         let annualized_volatility = SQRT_365 * std_dev;
-        annualized_return / annualized_volatility
+        calculate_ratio(annualized_return, annualized_volatility)
     };
 
     debug_assert!(sharpe_ratio.is_finite());
@@ -373,11 +378,7 @@ pub fn get_sortino_ratio(
             / len_neg_g_returns as f64;
         let std_dev = variance.sqrt();
         let annualized_downside_risk = SQRT_365 * std_dev;
-        if annualized_downside_risk == 0.0 {
-            0.0
-        } else {
-            annualized_return / annualized_downside_risk
-        }
+        calculate_ratio(annualized_return, annualized_downside_risk)
     };
 
     debug_assert!(sortino_ratio.is_finite());
-- 
2.43.0


From 37c847123b1a11db508ae5e4d7ad3d6d316022e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 10/23] fix: evolve runs the requested number of generations,
 also when it is zero

---
 juno/src/genetics/algorithm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index 5898ad2..be195cc 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -67,7 +67,9 @@ where
 
         let mut rng = StdRng::seed_from_u64(seed);
 
-        let mut generations: Vec<Generation<TE::Chromosome>> = Vec::with_capacity(generations);
+        let num_generations = generations;
+        let mut generations: Vec<Generation<TE::Chromosome>> =
+            Vec::with_capacity(num_generations + 1);
 
         let mut timings = Timings::default();
 
@@ -84,7 +86,7 @@ where
 
         let mut offsprings = Vec::with_capacity(population_size);
 
-        for gen in 1..=generations.capacity() {
+        for gen in 1..=num_generations {
             let mut timings = Timings::default();
 
             self.run_generation(
-- 
2.43.0


From 72b490f2a5c8d516c1dcfa5497db44b43a00c9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 11/23] fix: small populations with a single offspring no
 longer panic

---
 juno/src/genetics/algorithm.rs   | 6 ++++++
 juno/src/genetics/reinsertion.rs | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index be195cc..cd16499 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -138,6 +138,12 @@ where
             // TODO: Ugly.
             // If is last, we wrap around and take the first offspring to pair.
             let is_last = i == offsprings.len() - 1;
+            if is_last && i == 0 {
+                // Nobody to pair with.
+                self.mutation
+                    .mutate(rng, &mut offsprings[0].chromosome, ctx);
+                break;
+            }
             let (chromosome1, chromosome2) = if is_last {
                 let (a, b) = offsprings.split_at_mut(i);
                 (&mut b[0].chromosome, &mut a[0].chromosome)
diff --git a/juno/src/genetics/reinsertion.rs b/juno/src/genetics/reinsertion.rs
index 9aa9e12..072575d 100644
--- a/juno/src/genetics/reinsertion.rs
+++ b/juno/src/genetics/reinsertion.rs
@@ -102,7 +102,7 @@ impl Reinsertion for FitnessReinsertion {
         population_size: usize,
         _ctx: &T::Context,
     ) {
-        debug_assert!(offsprings.len() > population_size);
+        debug_assert!(offsprings.len() >= population_size);
 
         // Offsprings are assumed to be ordered by fitness desc.
         let diff = offsprings.len() - population_size;
-- 
2.43.0


From bf7b7cefe8981eb726a29c281af32585ec691a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 12/23] fix: evaluate individuals which are generated during
 reinsertion

---
 juno/src/genetics/algorithm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index cd16499..d2b2f5a 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -171,7 +171,12 @@ where
         self.evaluate_and_sort_by_fitness_desc(offsprings, timings);
         // reinsert
         self.reinsertion
-            .reinsert(rng, parents, offsprings, population_size, ctx)
+            .reinsert(rng, parents, offsprings, population_size, ctx);
+        // Individuals generated during reinsertion have not been evaluated yet.
+        if let Some(i) = offsprings.iter().position(|ind| ind.fitness == f64::MIN) {
+            self.evaluation.evaluate(&mut offsprings[i..]);
+            offsprings.sort_by(Individual::fitness_desc);
+        }
     }
 
     fn evaluate_and_sort_by_fitness_desc(
-- 
2.43.0


From b9c2b9a245bb9a193bd649d78fb1b99e7ea66d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 13/23] fix: tournament selection accepts valid rates and picks
 the fittest

---
 juno/src/genetics/selection.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/juno/src/genetics/selection.rs b/juno/src/genetics/selection.rs
index 625b786..277e8fc 100644
--- a/juno/src/genetics/selection.rs
+++ b/juno/src/genetics/selection.rs
@@ -51,7 +51,7 @@ pub struct TournamentSelection {
 
 impl TournamentSelection {
     pub fn new(tournament_size_rate: f32, allow_winner_compete_next_tournament: bool) -> Self {
-        assert!(0.0 > tournament_size_rate && tournament_size_rate < 1.0);
+        assert!(0.0 < tournament_size_rate && tournament_size_rate < 1.0);
         // TODO: Implement.
         assert!(allow_winner_compete_next_tournament);
         Self {
@@ -81,13 +81,14 @@ impl Selection for TournamentSelection {
     ) {
         debug_assert!(self.allow_winner_compete_next_tournament || rate <= 1.0);
 
-        let tournament_size = (parents.len() as f32 * self.tournament_size_rate) as usize;
+        let tournament_size =
+            ((parents.len() as f32 * self.tournament_size_rate) as usize).max(1);
 
         let count = (parents.len() as f32 * rate) as usize;
         for _ in 0..count {
             let tournament = parents.choose_multiple(rng, tournament_size);
             let winner = tournament
-                .max_by(|ind1, ind2| Individual::fitness_desc(ind1, ind2))
+                .min_by(|ind1, ind2| Individual::fitness_desc(ind1, ind2))
                 .unwrap();
             offsprings.push(winner.clone());
         }
-- 
2.43.0


From 2de568684688e2be4ef13a48ccb0fc907e19836f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 14/23] fix: seeded easing choices are the same in every
 process

---
 juno/src/easing.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/juno/src/easing.rs b/juno/src/easing.rs
index ea73c10..db82335 100644
--- a/juno/src/easing.rs
+++ b/juno/src/easing.rs
@@ -87,7 +87,12 @@ static EASINGS: Lazy<EasingMap> = Lazy::new(|| {
     .collect()
 });
 
-static EASING_CHOICES: Lazy<Vec<Easing>> = Lazy::new(|| EASINGS.keys().copied().collect());
+static EASING_CHOICES: Lazy<Vec<Easing>> = Lazy::new(|| {
+    let mut choices = EASINGS.keys().copied().collect::<Vec<_>>();
+    // Map order differs between processes. Sort so that seeded choices are reproducible.
+    choices.sort_by_key(|&easing| easing as usize);
+    choices
+});
 
 pub trait EasingExt {
     fn gen_easing(&mut self) -> Easing;
-- 
2.43.0


From dbcf437aaa65b2432c8ed50feed464c2e69967cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:41 +0000
Subject: [PATCH 15/23] fix: optimize reports real generation numbers

---
 juno_axum/src/routes/optimize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno_axum/src/routes/optimize.rs b/juno_axum/src/routes/optimize.rs
index 9d75a2c..24003bf 100644
--- a/juno_axum/src/routes/optimize.rs
+++ b/juno_axum/src/routes/optimize.rs
@@ -157,7 +157,8 @@ fn par_optimize(
     let gen_stats = evolution
         .generations
         .into_iter()
-        .filter(|gen| {
+        .enumerate()
+        .filter(|(_, gen)| {
             let mut pass = false;
             for (best_ind, best_fitness) in gen.hall_of_fame.iter().zip(best_fitnesses.iter_mut()) {
                 if best_fitness.is_nan() || best_ind.fitness > *best_fitness {
@@ -167,7 +168,6 @@ fn par_optimize(
             }
             pass
         })
-        .enumerate()
         .map(|(nr, gen)| {
             let hall_of_fame: Vec<_> = gen
                 .hall_of_fame
-- 
2.43.0


From 0fc7e0a483cbb1f5baf622874f1f5b403e542a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:41 +0000
Subject: [PATCH 16/23] fix: missing spans never reach outside of the requested
 range

---
 juno/src/utils/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/juno/src/utils/mod.rs b/juno/src/utils/mod.rs
index 3e2e436..5c04adb 100644
--- a/juno/src/utils/mod.rs
+++ b/juno/src/utils/mod.rs
@@ -60,10 +60,11 @@ pub fn generate_missing_spans(
 
     // Spans are ordered by start_date. Spans do not overlap with each other.
     for &(existing_start, existing_end) in existing_spans {
+        let existing_start = u64::min(existing_start, end);
         if existing_start > missing_start {
             result.push((missing_start, existing_start));
         }
-        missing_start = existing_end;
+        missing_start = u64::max(missing_start, existing_end);
     }
 
     if missing_start < missing_end {
-- 
2.43.0


From e3d56f0038b41fe887c4d97bc0cf2b17a3410d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:41 +0000
Subject: [PATCH 17/23] fix: FourWeekRule waits for its moving average to
 mature

---
 juno/src/strategies/four_week_rule.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/juno/src/strategies/four_week_rule.rs b/juno/src/strategies/four_week_rule.rs
index ba83253..d9735a9 100644
--- a/juno/src/strategies/four_week_rule.rs
+++ b/juno/src/strategies/four_week_rule.rs
@@ -10,7 +10,7 @@ use indicators::EmaParams;
 use juno_derive::*;
 use rand::prelude::*;
 use serde::{Deserialize, Serialize};
-use std::cmp::min;
+use std::cmp::{max, min};
 
 #[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize)]
 pub struct FourWeekRuleParams {
@@ -51,12 +51,14 @@ pub struct FourWeekRule {
 
 impl FourWeekRule {
     pub fn new(params: &FourWeekRuleParams, _meta: &StrategyMeta) -> Self {
+        let ma = params.ma.construct();
+        let t1 = max(params.period + 1, ma.maturity());
         Self {
             prices: BoundedVecDeque::new(params.period as usize),
-            ma: params.ma.construct(),
+            ma,
             advice: Advice::None,
             t: 0,
-            t1: params.period + 1,
+            t1,
         }
     }
 }
-- 
2.43.0


From 6965cad2996f31b70c63a7854a287758bc7960a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:41 +0000
Subject: [PATCH 18/23] fix: Size filter treats zero max and step as unlimited
 everywhere

---
 juno/src/filters.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/juno/src/filters.rs b/juno/src/filters.rs
index 2ba584e..5003539 100644
--- a/juno/src/filters.rs
+++ b/juno/src/filters.rs
@@ -57,12 +57,20 @@ impl Size {
         if size < self.min {
             return 0.0;
         }
-        size = f64::min(size, self.max);
-        (size / self.step).ceil() * self.step
+        if self.max > 0.0 {
+            size = f64::min(size, self.max);
+        }
+        if self.step > 0.0 {
+            size = (size / self.step).ceil() * self.step;
+        }
+
+        size
     }
 
     pub fn valid(&self, size: f64) -> bool {
-        size >= self.min && size <= self.max && (size - self.min) % self.step == 0.0
+        (self.min == 0.0 || size >= self.min)
+            && (self.max == 0.0 || size <= self.max)
+            && (self.step == 0.0 || (size - self.min) % self.step == 0.0)
     }
 }
 
-- 
2.43.0


From cb6d4f77a1233404fea2e14e2465232093fe8c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 19/23] fix: the last page of a range that is no multiple of
 the interval is not dropped

---
 juno/src/utils/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/juno/src/utils/mod.rs b/juno/src/utils/mod.rs
index 5c04adb..f2685eb 100644
--- a/juno/src/utils/mod.rs
+++ b/juno/src/utils/mod.rs
@@ -75,9 +75,8 @@ pub fn generate_missing_spans(
 }
 
 pub fn page(start: u64, end: u64, interval: u64, limit: u64) -> impl Iterator<Item = (u64, u64)> {
-    let total_size = (end - start) / interval;
     let max_count = limit * interval;
-    let page_size = (total_size as f64 / limit as f64).ceil() as u64;
+    let page_size = ((end - start) as f64 / max_count as f64).ceil() as u64;
     (0..page_size).map(move |i| {
         let page_start = start + i * max_count;
         let page_end = u64::min(page_start + max_count, end);
-- 
2.43.0


From 98686c29b8feb4828680550caef2d7b11115cf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:14 +0000
Subject: [PATCH 20/23] fix: times before 1970 are a parse error, not a far
 future

---
 juno/src/primitives/timestamp.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/juno/src/primitives/timestamp.rs b/juno/src/primitives/timestamp.rs
index 8b12e79..18108b7 100644
--- a/juno/src/primitives/timestamp.rs
+++ b/juno/src/primitives/timestamp.rs
@@ -107,20 +107,19 @@ impl FromStr for Timestamp {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         Err(())
             .or_else(|_| {
-                OffsetDateTime::parse(s, &Rfc3339)
-                    .map(|x| (x.unix_timestamp_nanos() / 1_000_000) as u64)
+                OffsetDateTime::parse(s, &Rfc3339).map(|x| x.unix_timestamp_nanos() / 1_000_000)
             })
             .or_else(|_| {
                 Date::parse(s, &DATE_FORMAT).map(|x| {
-                    (x.with_hms(0, 0, 0)
+                    x.with_hms(0, 0, 0)
                         .unwrap()
                         .assume_offset(UtcOffset::UTC)
                         .unix_timestamp_nanos()
-                        / 1_000_000) as u64
+                        / 1_000_000
                 })
             })
-            .map(Self)
             .map_err(|_| Self::Err {})
+            .and_then(|ms| u64::try_from(ms).map(Self).map_err(|_| Self::Err {}))
     }
 }
 
-- 
2.43.0


From 18b71895fc64a6e734ff44530a679d57fd97a574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:38 +0000
Subject: [PATCH 21/23] fix: ceil to a week works for the days before the first
 Monday

---
 juno/src/math.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/juno/src/math.rs b/juno/src/math.rs
index ff83f03..c066c36 100644
--- a/juno/src/math.rs
+++ b/juno/src/math.rs
@@ -3,6 +3,9 @@ pub fn ceil_multiple(value: u64, multiple: u64) -> u64 {
 }
 
 pub fn ceil_multiple_offset(value: u64, multiple: u64, offset: u64) -> u64 {
+    if value < offset {
+        return offset - floor_multiple(offset - value, multiple);
+    }
     ceil_multiple(value - offset, multiple) + offset
 }
 
-- 
2.43.0


From d1154b76292eff6b7dd80849f7acbaf964bd50dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:17 +0000
Subject: [PATCH 22/23] fix: Ema of period one honours its smoothing

---
 juno/src/indicators/ema.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/juno/src/indicators/ema.rs b/juno/src/indicators/ema.rs
index 515f418..4807d93 100644
--- a/juno/src/indicators/ema.rs
+++ b/juno/src/indicators/ema.rs
@@ -1,6 +1,6 @@
 use super::MA;
 use serde::{Deserialize, Serialize};
-use std::cmp::min;
+use std::cmp::{max, min};
 
 #[derive(Clone, Copy, Debug, Deserialize, Serialize)]
 pub struct EmaParams {
@@ -45,7 +45,8 @@ impl MA for Ema {
     }
 
     fn update(&mut self, price: f64) {
-        self.t = min(self.t + 1, self.t1);
+        // Counted to two at least, as the first update differs from the following ones.
+        self.t = min(self.t + 1, max(self.t1, 2));
         self.value = match self.t {
             1 => price,
             _ => (price - self.value) * self.a + self.value,
-- 
2.43.0


From 3184f46642b03aab6a67dc470b37d1a2ae5bdc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:02 +0000
Subject: [PATCH 23/23] fix: answer a request whose computation panics with an
 error reply

A request for a symbol or asset the data lacks, or with settings the computation cannot be done with, panicked in the handler task and the connection was dropped without a response.
---
 juno_axum/src/routes/backtest.rs | 8 +++++---
 juno_axum/src/routes/optimize.rs | 8 ++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/juno_axum/src/routes/backtest.rs b/juno_axum/src/routes/backtest.rs
index 3bac6dc..f3748a0 100644
--- a/juno_axum/src/routes/backtest.rs
+++ b/juno_axum/src/routes/backtest.rs
@@ -56,7 +56,8 @@ async fn post(
 
     // Backtest in parallel.
     info!("backtesting");
-    let backtest_result = tokio_rayon::spawn(move || {
+    // Spawned as a task of its own, so that a panic becomes an error instead of a dropped connection.
+    let backtest_result = tokio::spawn(tokio_rayon::spawn(move || {
         par_backtest(
             exchange_info,
             candles,
@@ -65,8 +66,9 @@ async fn post(
             args.trading,
             args.quote,
         )
-    })
-    .await;
+    }))
+    .await
+    .map_err(anyhow::Error::from)?;
 
     Ok((StatusCode::OK, Json(backtest_result)))
 }
diff --git a/juno_axum/src/routes/optimize.rs b/juno_axum/src/routes/optimize.rs
index 24003bf..e3b7847 100644
--- a/juno_axum/src/routes/optimize.rs
+++ b/juno_axum/src/routes/optimize.rs
@@ -103,8 +103,12 @@ async fn post(
 
     // Optimize in parallel.
     info!("optimizing");
-    let optimize_result =
-        tokio_rayon::spawn(move || par_optimize(&args, &exchange_info, &candles, &prices)).await;
+    // Spawned as a task of its own, so that a panic becomes an error instead of a dropped connection.
+    let optimize_result = tokio::spawn(tokio_rayon::spawn(move || {
+        par_optimize(&args, &exchange_info, &candles, &prices)
+    }))
+    .await
+    .map_err(anyhow::Error::from)?;
 
     Ok((StatusCode::OK, Json(optimize_result)))
 }
-- 
2.43.0

