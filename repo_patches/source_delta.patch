From a88bba688cf79a3ecebf196ad272913bd0cd4c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:00 +0000
Subject: [PATCH 001/135] fix: keep NaN in the inf distance, so that rows with
 missing features are never neighbors

---
 src/utils/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 360da3c..e62486b 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -334,7 +334,15 @@ impl<T: Float + DistanceOps + 'static> DIST<T> {
                 .iter()
                 .copied()
                 .zip(a2.iter().copied())
-                .fold(T::zero(), |acc, (x, y)| acc.max((x - y).abs())),
+                .fold(T::zero(), |acc, (x, y)| {
+                    // Unlike max, this keeps NaN
+                    let d = (x - y).abs();
+                    if d > acc || d.is_nan() {
+                        d
+                    } else {
+                        acc
+                    }
+                }),
 
             DIST::ANY(func) => func(a1, a2),
         }
-- 
2.43.0


From d17f5a2ed49deed8a5fd1bea14925ffe93ebe349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 002/135] fix: KDTree.within and within_count return their
 result for a radius array of length 1

---
 python/polars_ds/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/spatial.py b/python/polars_ds/spatial.py
index 4210de1..9b78d91 100644
--- a/python/polars_ds/spatial.py
+++ b/python/polars_ds/spatial.py
@@ -152,7 +152,9 @@ class KDTree:
         elif isinstance(r, np.ndarray):
             rad = np.ravel(r)
             if len(rad) == 1:
-                self.within(X, rad[0], sort, parallel)
+                return self.within(
+                    X, float(rad[0]), sort=sort, return_dist=return_dist, parallel=parallel
+                )
             else:
                 if return_dist:
                     return self.kdt.within_with_dist_vec_r(X, rad, sort, parallel)
@@ -185,7 +187,7 @@ class KDTree:
         elif isinstance(r, np.ndarray):
             rad = np.ravel(r)
             if len(rad) == 1:
-                self.within_count(X, rad[0], parallel)
+                return self.within_count(X, float(rad[0]), parallel)
             else:
                 return self.kdt.within_count_vec_r(X, rad, parallel)
         else:
-- 
2.43.0


From 95c6454f17fd9ae95fcf2d5734f728cc78ba85c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 003/135] fix: string comparisons with a null scalar give null
 instead of panicking

---
 src/str_ext/fuzz.rs          | 11 +++++++-
 src/str_ext/hamming.rs       | 33 ++++++++++++++++++++--
 src/str_ext/jaro.rs          | 22 +++++++++++++--
 src/str_ext/lcs_seq.rs       | 22 +++++++++++++--
 src/str_ext/levenshtein.rs   | 55 ++++++++++++++++++++++++++++++++----
 src/str_ext/osa.rs           | 22 +++++++++++++--
 src/str_ext/overlap.rs       | 11 +++++++-
 src/str_ext/sorensen_dice.rs | 11 +++++++-
 src/str_ext/str_jaccard.rs   | 11 +++++++-
 src/str_ext/tversky.rs       | 11 +++++++-
 10 files changed, 190 insertions(+), 19 deletions(-)

diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 48f92bc..724515b 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -20,7 +20,16 @@ fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => {
+                return Ok(Series::full_null(
+                    ca1.name().clone(),
+                    ca1.len(),
+                    &DataType::Float64,
+                ))
+            }
+        };
         let batched = RatioBatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
diff --git a/src/str_ext/hamming.rs b/src/str_ext/hamming.rs
index a7642c4..c02d5bf 100644
--- a/src/str_ext/hamming.rs
+++ b/src/str_ext/hamming.rs
@@ -29,7 +29,16 @@ fn pl_hamming(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => {
+                return Ok(Series::full_null(
+                    ca1.name().clone(),
+                    ca1.len(),
+                    &DataType::UInt32,
+                ))
+            }
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: UInt32Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -119,7 +128,16 @@ fn pl_hamming_padded(inputs: &[Series], context: CallerContext) -> PolarsResult<
     let can_parallel = parallel && !context.parallel();
     let padding = hamming::Args::default().pad(true);
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => {
+                return Ok(Series::full_null(
+                    ca1.name().clone(),
+                    ca1.len(),
+                    &DataType::UInt32,
+                ))
+            }
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: UInt32Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -176,7 +194,16 @@ fn pl_hamming_filter(inputs: &[Series], context: CallerContext) -> PolarsResult<
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => {
+                return Ok(Series::full_null(
+                    ca1.name().clone(),
+                    ca1.len(),
+                    &DataType::Boolean,
+                ))
+            }
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: BooleanChunked = if can_parallel {
             POOL.install(|| {
diff --git a/src/str_ext/jaro.rs b/src/str_ext/jaro.rs
index 441c64c..37d047f 100644
--- a/src/str_ext/jaro.rs
+++ b/src/str_ext/jaro.rs
@@ -33,7 +33,16 @@ fn pl_jaro(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => {
+                return Ok(Series::full_null(
+                    ca1.name().clone(),
+                    ca1.len(),
+                    &DataType::Float64,
+                ))
+            }
+        };
         let batched = jaro::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -55,7 +64,16 @@ fn pl_jw(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => {
+                return Ok(Series::full_null(
+                    ca1.name().clone(),
+                    ca1.len(),
+                    &DataType::Float64,
+                ))
+            }
+        };
         let batched = jaro_winkler::BatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
diff --git a/src/str_ext/lcs_seq.rs b/src/str_ext/lcs_seq.rs
index e09424f..f0691b1 100644
--- a/src/str_ext/lcs_seq.rs
+++ b/src/str_ext/lcs_seq.rs
@@ -23,7 +23,16 @@ fn pl_lcs_seq(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => {
+                return Ok(Series::full_null(
+                    ca1.name().clone(),
+                    ca1.len(),
+                    &DataType::UInt32,
+                ))
+            }
+        };
         let batched = lcs_seq::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -43,7 +52,16 @@ fn pl_lcs_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => {
+                return Ok(Series::full_null(
+                    ca1.name().clone(),
+                    ca1.len(),
+                    &DataType::Float64,
+                ))
+            }
+        };
         let batched = lcs_seq::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/levenshtein.rs b/src/str_ext/levenshtein.rs
index 4a56040..df63472 100644
--- a/src/str_ext/levenshtein.rs
+++ b/src/str_ext/levenshtein.rs
@@ -50,7 +50,16 @@ fn pl_levenshtein(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => {
+                return Ok(Series::full_null(
+                    ca1.name().clone(),
+                    ca1.len(),
+                    &DataType::UInt32,
+                ))
+            }
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -72,7 +81,16 @@ fn pl_levenshtein_filter(inputs: &[Series], context: CallerContext) -> PolarsRes
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => {
+                return Ok(Series::full_null(
+                    ca1.name().clone(),
+                    ca1.len(),
+                    &DataType::Boolean,
+                ))
+            }
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         let out: BooleanChunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -135,7 +153,16 @@ fn pl_levenshtein_sim(inputs: &[Series], context: CallerContext) -> PolarsResult
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => {
+                return Ok(Series::full_null(
+                    ca1.name().clone(),
+                    ca1.len(),
+                    &DataType::Float64,
+                ))
+            }
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -155,7 +182,16 @@ fn pl_d_levenshtein(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => {
+                return Ok(Series::full_null(
+                    ca1.name().clone(),
+                    ca1.len(),
+                    &DataType::UInt32,
+                ))
+            }
+        };
         let batched = damerau_levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -180,7 +216,16 @@ fn pl_d_levenshtein_sim(inputs: &[Series], context: CallerContext) -> PolarsResu
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => {
+                return Ok(Series::full_null(
+                    ca1.name().clone(),
+                    ca1.len(),
+                    &DataType::Float64,
+                ))
+            }
+        };
         let batched = damerau_levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/osa.rs b/src/str_ext/osa.rs
index 3496955..37a7ff7 100644
--- a/src/str_ext/osa.rs
+++ b/src/str_ext/osa.rs
@@ -23,7 +23,16 @@ fn pl_osa(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => {
+                return Ok(Series::full_null(
+                    ca1.name().clone(),
+                    ca1.len(),
+                    &DataType::UInt32,
+                ))
+            }
+        };
         let batched = osa::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -43,7 +52,16 @@ fn pl_osa_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => {
+                return Ok(Series::full_null(
+                    ca1.name().clone(),
+                    ca1.len(),
+                    &DataType::Float64,
+                ))
+            }
+        };
         let batched = osa::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/overlap.rs b/src/str_ext/overlap.rs
index 67e4580..ded993a 100644
--- a/src/str_ext/overlap.rs
+++ b/src/str_ext/overlap.rs
@@ -32,7 +32,16 @@ fn pl_overlap_coeff(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => {
+                return Ok(Series::full_null(
+                    ca1.name().clone(),
+                    ca1.len(),
+                    &DataType::Float64,
+                ))
+            }
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/sorensen_dice.rs b/src/str_ext/sorensen_dice.rs
index f3e9a79..fa76a69 100644
--- a/src/str_ext/sorensen_dice.rs
+++ b/src/str_ext/sorensen_dice.rs
@@ -32,7 +32,16 @@ fn pl_sorensen_dice(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => {
+                return Ok(Series::full_null(
+                    ca1.name().clone(),
+                    ca1.len(),
+                    &DataType::Float64,
+                ))
+            }
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/str_jaccard.rs b/src/str_ext/str_jaccard.rs
index 891e723..f8ba9cf 100644
--- a/src/str_ext/str_jaccard.rs
+++ b/src/str_ext/str_jaccard.rs
@@ -33,7 +33,16 @@ fn pl_str_jaccard(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap(); // .unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => {
+                return Ok(Series::full_null(
+                    ca1.name().clone(),
+                    ca1.len(),
+                    &DataType::Float64,
+                ))
+            }
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/tversky.rs b/src/str_ext/tversky.rs
index 936f7ff..fcdd012 100644
--- a/src/str_ext/tversky.rs
+++ b/src/str_ext/tversky.rs
@@ -41,7 +41,16 @@ fn pl_tversky_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => {
+                return Ok(Series::full_null(
+                    ca1.name().clone(),
+                    ca1.len(),
+                    &DataType::Float64,
+                ))
+            }
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
-- 
2.43.0


From 0e713459662986c3d9e7aebb995baf7516a2ebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 004/135] fix: str_lcs_seq(return_sim=True) calls the function
 that exists

---
 python/polars_ds/exprs/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index f8c7f46..83a9406 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -594,7 +594,7 @@ def str_lcs_seq(
     """
     if return_sim:
         return pl_plugin(
-            symbol="pl_lcs_seq_sim",
+            symbol="pl_lcs_sim",
             args=[str_to_expr(c), str_to_expr(other), pl.lit(parallel, pl.Boolean)],
         )
     else:
-- 
2.43.0


From 484e2ded950222e904ac90b81ef10cd8648e00f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 005/135] fix: str_fuzz declares the Float64 type it returns

---
 src/str_ext/fuzz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 724515b..7dfc812 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -12,7 +12,7 @@ use pyo3_polars::{
 };
 use rapidfuzz::fuzz::{ratio, RatioBatchComparator};
 
-#[polars_expr(output_type=UInt32)]
+#[polars_expr(output_type=Float64)]
 fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
-- 
2.43.0


From a781874bc8850dd2e9b16931003c759db6959737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 006/135] fix: str_nearest does not treat null as the empty
 string

---
 src/str_ext/nearest_str.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/str_ext/nearest_str.rs b/src/str_ext/nearest_str.rs
index 2ad6c07..309ebdb 100644
--- a/src/str_ext/nearest_str.rs
+++ b/src/str_ext/nearest_str.rs
@@ -17,7 +17,7 @@ fn levenshtein_nearest<'a>(s: &'a StringChunked, cutoff: usize, word: String) ->
     let mut actual_cutoff = levenshtein::Args::default().score_cutoff(cutoff);
     let mut nearest_str: Option<&str> = None;
     for arr in s.downcast_iter() {
-        for w in arr.values_iter() {
+        for w in arr.iter().flatten() {
             if let Some(d) = batched.distance_with_args(w.chars(), &actual_cutoff) {
                 if d == 0 {
                     return Some(w);
@@ -39,7 +39,7 @@ fn hamming_nearest<'a>(s: &'a StringChunked, cutoff: usize, word: String) -> Opt
     let mut nearest_str: Option<&str> = None;
 
     for arr in s.downcast_iter() {
-        for w in arr.values_iter() {
+        for w in arr.iter().flatten() {
             if let Ok(ss) = batched.distance_with_args(w.chars(), &actual_cutoff) {
                 if let Some(d) = ss {
                     if d == 0 {
-- 
2.43.0


From 37e81d0243f1a20a1d7e2116eeed71358fd8259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 007/135] fix: str_fuzz with a scalar or a single row returns
 the ratio, not the LCS similarity

---
 src/str_ext/fuzz.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 7dfc812..06a9087 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -10,7 +10,7 @@ use pyo3_polars::{
         POOL,
     },
 };
-use rapidfuzz::fuzz::{ratio, RatioBatchComparator};
+use rapidfuzz::{distance::indel, fuzz::ratio};
 
 #[polars_expr(output_type=Float64)]
 fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
@@ -30,21 +30,22 @@ fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
                 ))
             }
         };
-        let batched = RatioBatchComparator::new(r.chars());
+        // rapidfuzz's RatioBatchComparator returns the LCS similarity, not the ratio
+        let batched = indel::BatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
             let chunks_iter = splits.into_par_iter().map(|(offset, len)| {
                 let s1 = ca1.slice(offset as i64, len);
                 let out: Float64Chunked = s1.apply_nonnull_values_generic(DataType::Float64, |s| {
-                    batched.similarity(s.chars())
+                    batched.normalized_similarity(s.chars())
                 });
                 out.downcast_iter().cloned().collect::<Vec<_>>()
             });
             let chunks = POOL.install(|| chunks_iter.collect::<Vec<_>>());
             Float64Chunked::from_chunk_iter(ca1.name().clone(), chunks.into_iter().flatten())
         } else {
-            ca1.apply_nonnull_values_generic(DataType::Float64, |s| batched.similarity(s.chars()))
+            ca1.apply_nonnull_values_generic(DataType::Float64, |s| batched.normalized_similarity(s.chars()))
         };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
-- 
2.43.0


From d6f197eabed1306998e02c5e2ec39863f42c52d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 008/135] fix: similar_to_vocab(metric='jw') does not pass an
 argument str_jw does not have

---
 python/polars_ds/exprs/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index 83a9406..6ac3745 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -696,7 +696,7 @@ def similar_to_vocab(
     elif metric == "osa":
         sims = [str_osa(c, pl.lit(w, dtype=pl.String), return_sim=True) for w in vocab]
     elif metric == "jw":
-        sims = [str_jw(c, pl.lit(w, dtype=pl.String), return_sim=True) for w in vocab]
+        sims = [str_jw(c, pl.lit(w, dtype=pl.String)) for w in vocab]
     else:
         raise ValueError(f"Unknown metric: {metric}")
 
-- 
2.43.0


From 4fa387ef1d6ebd956e9f6bd74ae3ef63ea8c151c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 009/135] fix: str_tokenize(stem=True) removes stop words and
 duplicate stems as documented

---
 python/polars_ds/exprs/string.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index 6ac3745..25a5eb1 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -270,7 +270,9 @@ def str_tokenize(c: str | pl.Expr, pattern: str = r"(?u)\b\w\w+\b", stem: bool =
     """
     out = str_to_expr(c).str.extract_all(pattern)
     if stem:
-        return out.list.eval(str_snowball(pl.element(), True).drop_nulls())
+        stemmed = str_snowball(pl.element(), True)
+        # Stop words are mapped to the empty string
+        return out.list.eval(stemmed.filter(stemmed != "").unique(maintain_order=True))
     return out
 
 
-- 
2.43.0


From 68a4c0d8d081580a5dddbfc9030e68e47202b507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 010/135] fix: recursive_lin_reg with dropped rows predicts
 from the row's own features

---
 src/num_ext/linear_regression.rs     | 2 +-
 src/num_ext/linear_regression_f32.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 8e5a4cb..0e918bd 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -914,7 +914,7 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
                 for should_keep in mask.into_no_null_iter().skip(m) {
                     if should_keep {
                         let coefficients = &coeffs[i];
-                        let row = x.get(i..i + 1, ..);
+                        let row = x.get(n - 1 + i..n + i, ..);
                         let pred = *(row * coefficients).get(0, 0);
                         let coef = coefficients.col_as_slice(0);
                         builder.append_slice(coef);
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 7526fea..a4a1a2c 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -862,7 +862,7 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
                 for should_keep in mask.into_no_null_iter().skip(m) {
                     if should_keep {
                         let coefficients = &coeffs[i];
-                        let row = x.get(i..i + 1, ..);
+                        let row = x.get(n - 1 + i..n + i, ..);
                         let pred = *(row * coefficients).get(0, 0);
                         let coef = coefficients.col_as_slice(0);
                         builder.append_slice(coef);
-- 
2.43.0


From 95c46c4a80c9385097b1d13b0bc1b4f6ee3c794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 011/135] fix: lin_reg_w_rcond compares singular values, not
 their squares, with the cut-off

---
 src/linalg/lr_solvers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index e5e0161..fc39703 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -217,7 +217,11 @@ pub fn faer_solve_lstsq_rcond<T: RealField + Float>(
     let mut s_inv = Mat::<T>::zeros(n, n);
     unsafe {
         for (i, v) in s.iter().copied().enumerate() {
-            *s_inv.get_mut_unchecked(i, i) = if v >= threshold { v.recip() } else { T::zero() };
+            *s_inv.get_mut_unchecked(i, i) = if singular_values[i] >= threshold {
+                v.recip()
+            } else {
+                T::zero()
+            };
         }
     }
 
-- 
2.43.0


From d23a9d28542831ff35a5a2a79620a8c1310edb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 012/135] fix: lin_reg_report's r2 and adj_r2 use the total sum
 of squares of the fitted rows and do not count the bias as a predictor

---
 python/polars_ds/exprs/expr_linear.py |  4 +--
 src/num_ext/linear_regression.rs      | 48 +++++++++++++++------------
 src/num_ext/linear_regression_f32.rs  | 48 +++++++++++++++------------
 3 files changed, 56 insertions(+), 44 deletions(-)

diff --git a/python/polars_ds/exprs/expr_linear.py b/python/polars_ds/exprs/expr_linear.py
index c25cfb3..c4caf70 100644
--- a/python/polars_ds/exprs/expr_linear.py
+++ b/python/polars_ds/exprs/expr_linear.py
@@ -585,13 +585,13 @@ def lin_reg_report(
 
     t = lr_formula(target)
     if weights is None:
-        cols = [t.var(), t]
+        cols = [t]
         cols.extend(lr_formula(z) for z in x)
         symbol = _lin_reg_expr_symbol("pl_lin_reg_report")
 
     else:
         w = lr_formula(weights)
-        cols = [w.cast(pl.Float64).rechunk(), t.var(), t]
+        cols = [w.cast(pl.Float64).rechunk(), t]
         cols.extend(lr_formula(z) for z in x)
         symbol = _lin_reg_expr_symbol("pl_wls_report")
 
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 0e918bd..941fdca 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -579,15 +579,12 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     let se_type = StandardError::from(kwargs.std_err);
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
-    // index 0 is y_var, 1 is target y. Skip
-    let binding = inputs[0].cast(&DataType::Float64)?;
-    let y_var = binding.f64().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f64::NAN);
+    // index 0 is target y. Skip
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
-        inputs.len().abs_diff(2) + (has_bias) as usize,
+        inputs.len().abs_diff(1) + (has_bias) as usize,
     );
-    for s in inputs[2..].iter().map(|s| s.name()) {
+    for s in inputs[1..].iter().map(|s| s.name()) {
         name_builder.append_value(s);
     }
     if has_bias {
@@ -595,7 +592,7 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     }
     // Copy data
     // Target y is at index 0
-    match series_to_mat_for_lstsq(&inputs[1..], has_bias, null_policy) {
+    match series_to_mat_for_lstsq(inputs, has_bias, null_policy) {
         Ok((mat, _)) => {
             let ncols = mat.ncols() - 1;
             let nrows = mat.nrows();
@@ -615,10 +612,16 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
             let res = y - x * &coeffs;
 
             // r2, adj_r2
-            let nf64 = nrows as f64;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf64);
+            let y_mean = y.col(0).iter().sum::<f64>() / nrows as f64;
+            let total = y
+                .col(0)
+                .iter()
+                .fold(0f64, |acc, v| acc + (v - y_mean).powi(2));
+            let ratio = res.col(0).squared_norm_l2() / total;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / (dof - 1.0));
+            // The bias is not one of the predictors that the adjustment counts
+            let adj_dof = if has_bias { dof } else { dof - 1.0 };
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / adj_dof);
 
             // std err
             let std_err = match se_type {
@@ -740,23 +743,20 @@ fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
     let binding = inputs[0].cast(&DataType::Float64)?;
     let weights = binding.f64().unwrap();
     let weights = weights.cont_slice().unwrap();
-    let binding2 = inputs[1].cast(&DataType::Float64)?;
-    let y_var = binding2.f64().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f64::NAN);
-    // index 0 is weights, 1 is y_var, 2 is target y. Skip them
+    // index 0 is weights, 1 is target y. Skip them
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
-        inputs.len().abs_diff(3) + (has_bias) as usize,
+        inputs.len().abs_diff(2) + (has_bias) as usize,
     );
-    for s in inputs[3..].iter().map(|s| s.name()) {
+    for s in inputs[2..].iter().map(|s| s.name()) {
         name_builder.append_value(s);
     }
     if has_bias {
         name_builder.append_value("__bias__");
     }
     // Copy data
-    // Target y is at index 2, weights at index 0
-    match series_to_mat_for_lstsq(&inputs[2..], has_bias, null_policy) {
+    // Target y is at index 1, weights at index 0
+    match series_to_mat_for_lstsq(&inputs[1..], has_bias, null_policy) {
         Ok((mat, _)) => {
             let ncols = mat.ncols() - 1;
             let nrows = mat.nrows();
@@ -784,10 +784,16 @@ fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
                 (0..y.nrows()).fold(0., |acc, i| acc + weights[i] * res.get(i, 0).powi(2)) / dof;
 
             // r2, adj_r2
-            let nf64 = nrows as f64;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf64);
+            let y_mean = y.col(0).iter().sum::<f64>() / nrows as f64;
+            let total = y
+                .col(0)
+                .iter()
+                .fold(0f64, |acc, v| acc + (v - y_mean).powi(2));
+            let ratio = res.col(0).squared_norm_l2() / total;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / (dof - 1.0));
+            // The bias is not one of the predictors that the adjustment counts
+            let adj_dof = if has_bias { dof } else { dof - 1.0 };
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / adj_dof);
 
             // std err
             let std_err = (0..ncols)
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index a4a1a2c..1c2fa7c 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -528,15 +528,12 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
     let se_type = StandardError::from(kwargs.std_err);
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
-    // index 0 is y_var, 1 is target y. Skip
-    let binding = inputs[0].cast(&DataType::Float32)?;
-    let y_var = binding.f32().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f32::NAN);
+    // index 0 is target y. Skip
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
-        inputs.len().abs_diff(2) + (has_bias) as usize,
+        inputs.len().abs_diff(1) + (has_bias) as usize,
     );
-    for s in inputs[2..].iter().map(|s| s.name()) {
+    for s in inputs[1..].iter().map(|s| s.name()) {
         name_builder.append_value(s);
     }
     if has_bias {
@@ -544,7 +541,7 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
     }
     // Copy data
     // Target y is at index 0
-    match series_to_mat_for_lstsq_f32(&inputs[1..], has_bias, null_policy) {
+    match series_to_mat_for_lstsq_f32(inputs, has_bias, null_policy) {
         Ok((mat, _)) => {
             let ncols = mat.ncols() - 1;
             let nrows = mat.nrows();
@@ -564,10 +561,16 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
             let res = y - x * &coeffs;
 
             // r2, adj_r2
-            let nf32 = nrows as f32;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf32);
+            let y_mean = y.col(0).iter().sum::<f32>() / nrows as f32;
+            let total = y
+                .col(0)
+                .iter()
+                .fold(0f32, |acc, v| acc + (v - y_mean).powi(2));
+            let ratio = res.col(0).squared_norm_l2() / total;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / (dof - 1.0));
+            // The bias is not one of the predictors that the adjustment counts
+            let adj_dof = if has_bias { dof } else { dof - 1.0 };
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / adj_dof);
 
             // std err
             let std_err = match se_type {
@@ -688,23 +691,20 @@ fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     let binding = inputs[0].cast(&DataType::Float32)?;
     let weights = binding.f32().unwrap();
     let weights = weights.cont_slice().unwrap();
-    let binding2 = inputs[1].cast(&DataType::Float32)?;
-    let y_var = binding2.f32().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f32::NAN);
-    // index 0 is weights, 1 is y_var, 2 is target y. Skip them
+    // index 0 is weights, 1 is target y. Skip them
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
-        inputs.len().abs_diff(3) + (has_bias) as usize,
+        inputs.len().abs_diff(2) + (has_bias) as usize,
     );
-    for s in inputs[3..].iter().map(|s| s.name()) {
+    for s in inputs[2..].iter().map(|s| s.name()) {
         name_builder.append_value(s);
     }
     if has_bias {
         name_builder.append_value("__bias__");
     }
     // Copy data
-    // Target y is at index 2, weights at index 0
-    match series_to_mat_for_lstsq_f32(&inputs[2..], has_bias, null_policy) {
+    // Target y is at index 1, weights at index 0
+    match series_to_mat_for_lstsq_f32(&inputs[1..], has_bias, null_policy) {
         Ok((mat, _)) => {
             let ncols = mat.ncols() - 1;
             let nrows = mat.nrows();
@@ -732,10 +732,16 @@ fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
                 (0..y.nrows()).fold(0., |acc, i| acc + weights[i] * res.get(i, 0).powi(2)) / dof;
 
             // r2, adj_r2
-            let nf32 = nrows as f32;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf32);
+            let y_mean = y.col(0).iter().sum::<f32>() / nrows as f32;
+            let total = y
+                .col(0)
+                .iter()
+                .fold(0f32, |acc, v| acc + (v - y_mean).powi(2));
+            let ratio = res.col(0).squared_norm_l2() / total;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / (dof - 1.0));
+            // The bias is not one of the predictors that the adjustment counts
+            let adj_dof = if has_bias { dof } else { dof - 1.0 };
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / adj_dof);
 
             // std err
             let std_err = (0..ncols)
-- 
2.43.0


From 61386ec3dc2f4079f5857b242bcf2a68925bc2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 013/135] fix: an unfitted LR, ElasticNet or OnlineLR with a
 bias reports that it is not fitted instead of panicking

---
 src/linalg/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 36f3899..14de2c9 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -107,7 +107,7 @@ pub trait LinearRegression<T: RealField + Float> {
     fn has_bias(&self) -> bool;
 
     fn bias(&self) -> T {
-        if self.has_bias() {
+        if self.has_bias() && self.is_fit() {
             let n = self.fitted_values().nrows() - 1;
             *self.fitted_values().get(n, 0)
         } else {
@@ -118,7 +118,7 @@ pub trait LinearRegression<T: RealField + Float> {
     /// Returns a copy of the coefficients
 
     fn coefficients(&self) -> MatRef<T> {
-        if self.has_bias() {
+        if self.has_bias() && self.is_fit() {
             let n = self.fitted_values().nrows() - 1;
             self.fitted_values().get(0..n, ..)
         } else {
@@ -142,7 +142,7 @@ pub trait LinearRegression<T: RealField + Float> {
     }
 
     fn is_fit(&self) -> bool {
-        !(self.coefficients().shape() == (0, 0))
+        !(self.fitted_values().shape() == (0, 0))
     }
 
     fn coeffs_as_vec(&self) -> Result<Vec<T>, LinalgErrors> {
-- 
2.43.0


From 0074df5145fc930f8e14eff4e071b9252e0c5a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 014/135] fix: LR.bias and OnlineLR.bias return the bias

---
 python/polars_ds/linear_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index 62900cf..b3beef6 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -187,7 +187,7 @@ class LR:
         return self._lr.coeffs
 
     def bias(self) -> float:
-        self._lr.bias
+        return self._lr.bias
 
     def fit(self, X: np.ndarray, y: np.ndarray, null_policy: NullPolicy = "ignore") -> Self:
         """
@@ -574,7 +574,7 @@ class OnlineLR:
         return self._lr.coeffs
 
     def bias(self) -> float:
-        self._lr.bias
+        return self._lr.bias
 
     def inv(self) -> np.ndarray:
         """
-- 
2.43.0


From 6d96929af978ad1d4f0c594015a944bd671aac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 015/135] fix: OnlineLR.from_coeffs_bias_inverse accepts the
 inverse of a fit with a bias

---
 python/polars_ds/linear_models.py | 2 +-
 src/linalg/lr_online_solvers.rs   | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index b3beef6..6ec4090 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -547,7 +547,7 @@ class OnlineLR:
             2D NumPy matrix representing the inverse of XtX in a regression problem.
         """
         coefficients = np.ascontiguousarray(coeffs, dtype=np.float64).flatten()
-        lr = cls(has_bias=(bias > 0.0), lambda_=0.0)
+        lr = cls(has_bias=(bias != 0.0), lambda_=0.0)
         lr._lr.set_coeffs_bias_inverse(coefficients, bias, inv)
         return lr
 
diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 6538a96..5c80bc2 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -38,10 +38,12 @@ impl<T: RealField + Float> OnlineLR<T> {
         bias: T,
         inv: MatRef<T>,
     ) -> Result<(), LinalgErrors> {
-        if coeffs.len() != inv.ncols() {
+        // With a bias, the inverse has one more row and column for the constant feature
+        let has_bias = bias.abs() > T::epsilon() || inv.ncols() == coeffs.len() + 1;
+        if coeffs.len() + has_bias as usize != inv.ncols() || inv.nrows() != inv.ncols() {
             Err(LinalgErrors::DimensionMismatch)
         } else {
-            self.has_bias = bias.abs() > T::epsilon();
+            self.has_bias = has_bias;
             if self.has_bias {
                 self.coefficients = Mat::from_fn(coeffs.len() + 1, 1, |i, _| {
                     if i < coeffs.len() {
-- 
2.43.0


From d09794a47b830d1af7506eb4145d3e21b4957e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 016/135] fix: rolling_lin_reg adds the new row before removing
 the old one, so that windows as long as the number of coefficients work

---
 src/linalg/lr_online_solvers.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 5c80bc2..ba5c115 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -209,13 +209,14 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     coefficients.push(online_lr.fitted_values().to_owned());
 
     for j in n..xn {
-        let remove_x = x.get(j - n..j - n + 1, ..);
-        let remove_y = y.get(j - n..j - n + 1, ..);
-        online_lr.update(remove_x, remove_y, T::one().neg());
-
+        // Add first. If we remove first, then the problem can become singular in between
         let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
         let next_y = y.get(j..j + 1, ..); // 1 by 1
         online_lr.update(next_x, next_y, T::one());
+
+        let remove_x = x.get(j - n..j - n + 1, ..);
+        let remove_y = y.get(j - n..j - n + 1, ..);
+        online_lr.update(remove_x, remove_y, T::one().neg());
         coefficients.push(online_lr.fitted_values().to_owned());
     }
     coefficients
-- 
2.43.0


From c3fdfe139ca008d8102663e20b85aacfdb68e795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 017/135] fix: rolling_lin_reg with skipped rows fits again
 after a window that did not determine the coefficients

---
 src/linalg/lr_online_solvers.rs | 100 +++++++++++++++-----------------
 1 file changed, 47 insertions(+), 53 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index ba5c115..9892175 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -241,71 +241,65 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
     // Vector of matrix of size m x 1
     let mut coefficients = Vec::with_capacity(xn - n + 1); // xn >= n is checked in Python
 
-    // Initialize the problem.
-    let mut non_null_cnt_in_window = 0;
-    let mut left = 0;
-    let mut right = n;
+    // The number of rows that determine the coefficients. With fewer, the inverse does not exist,
+    // so it cannot be updated and the problem has to be fitted again.
+    let n_needed = if lambda > T::zero() { 1 } else { ncols };
+    let is_valid = |i: usize| {
+        !(x.get(i, ..).iter().any(|x| is_nan(x)) || y.get(i, ..).iter().any(|y| is_nan(y)))
+    };
+
+    let mut non_null_cnt_in_window = (0..n).filter(|i| is_valid(*i)).count();
+    // Whether online_lr has been fitted and covers exactly the non-null rows of the window
+    let mut is_current = false;
     let mut x_slice: Vec<T> = Vec::with_capacity(n * ncols);
     let mut y_slice: Vec<T> = Vec::with_capacity(n);
 
     // This is because if add_bias, the 1 is added to
     // all data already. No need to let OnlineLR add the 1 for the user.
     let mut online_lr = OnlineLR::new(lambda, false);
-    while right <= xn {
-        // Somewhat redundant here.
-        non_null_cnt_in_window = 0;
-        x_slice.clear();
-        y_slice.clear();
-        for i in left..right {
-            let x_i = x.get(i, ..);
-            let y_i = y.get(i, ..);
-
-            if !(x_i.iter().any(|x| is_nan(x)) || y_i.iter().any(|y| is_nan(y))) {
-                non_null_cnt_in_window += 1;
-                x_slice.extend(x_i.iter());
-                y_slice.extend(y_i.iter());
+    for right in n..xn + 1 {
+        let left = right - n;
+        if right > n {
+            // The window moves by one row: right - 1 comes in, left - 1 goes out.
+            let is_added = is_valid(right - 1);
+            let is_removed = is_valid(left - 1);
+            non_null_cnt_in_window += is_added as usize;
+            non_null_cnt_in_window -= is_removed as usize;
+            is_current = is_current && non_null_cnt_in_window >= n_needed;
+            if is_current && is_added {
+                online_lr.update_unchecked(
+                    x.get(right - 1..right, ..), // 1 by m, m = # of columns
+                    y.get(right - 1..right, ..), // 1 by 1
+                    T::one(),
+                );
+            }
+            if is_current && is_removed {
+                online_lr.update_unchecked(
+                    x.get(left - 1..left, ..),
+                    y.get(left - 1..left, ..),
+                    T::one().neg(),
+                );
             }
-        }
-        if non_null_cnt_in_window >= m {
-            let x0 = MatRef::from_row_major_slice(&x_slice, y_slice.len(), ncols);
-            // faer::mat::from_row_major_slice(&x_slice, y_slice.len(), ncols);
-            let y0 = MatRef::from_column_major_slice(&y_slice, y_slice.len(), 1);
-            // faer::mat::from_row_major_slice(&y_slice, y_slice.len(), 1);
-            online_lr.fit_unchecked(x0, y0);
-            coefficients.push(online_lr.fitted_values().to_owned());
-            break;
-        } else {
-            left += 1;
-            right += 1;
-            coefficients.push(Mat::with_capacity(0, 0));
-        }
-    }
-
-    if right >= xn {
-        return coefficients;
-    }
-    // right < xn, the problem must have been initialized (inv and weights are defined.)
-    for j in right..xn {
-        let remove_x = x.get(j - n..j - n + 1, ..);
-        let remove_y = y.get(j - n..j - n + 1, ..);
-
-        if !(has_nan(remove_x) | has_nan(remove_y)) {
-            non_null_cnt_in_window -= 1; // removed one non-null column
-            online_lr.update_unchecked(remove_x, remove_y, T::one().neg()); // No need to check for nan
         }
 
-        let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
-        let next_y = y.get(j..j + 1, ..); // 1 by 1
-        if !(has_nan(next_x) | has_nan(next_y)) {
-            non_null_cnt_in_window += 1;
-            online_lr.update_unchecked(next_x, next_y, T::one()); // No need to check for nan
+        if non_null_cnt_in_window < m {
+            coefficients.push(Mat::with_capacity(0, 0));
+            continue;
         }
 
-        if non_null_cnt_in_window >= m {
-            coefficients.push(online_lr.fitted_values().to_owned());
-        } else {
-            coefficients.push(Mat::with_capacity(0, 0));
+        if !is_current {
+            x_slice.clear();
+            y_slice.clear();
+            for i in (left..right).filter(|i| is_valid(*i)) {
+                x_slice.extend(x.get(i, ..).iter());
+                y_slice.extend(y.get(i, ..).iter());
+            }
+            let x0 = MatRef::from_row_major_slice(&x_slice, y_slice.len(), ncols);
+            let y0 = MatRef::from_column_major_slice(&y_slice, y_slice.len(), 1);
+            online_lr.fit_unchecked(x0, y0);
+            is_current = non_null_cnt_in_window >= n_needed;
         }
+        coefficients.push(online_lr.fitted_values().to_owned());
     }
     coefficients
 }
-- 
2.43.0


From be96929d4d2634df13e7a6340190d2214a608b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:34 +0000
Subject: [PATCH 018/135] fix: recursive and rolling ridge regressions do not
 penalize the bias, as lin_reg does not

---
 src/linalg/lr_online_solvers.rs      | 10 +++++++---
 src/num_ext/linear_regression.rs     |  6 +++---
 src/num_ext/linear_regression_f32.rs |  6 +++---
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 9892175..75a1f3a 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -160,6 +160,7 @@ pub fn faer_recursive_lstsq<T: RealField + Float>(
     y: MatRef<T>,
     n: usize,
     lambda: T,
+    has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     // x: size xn x m
@@ -173,7 +174,8 @@ pub fn faer_recursive_lstsq<T: RealField + Float>(
     // This is because if add_bias, the 1 is added to
     // all data already. No need to let OnlineLR add the 1 for the user.
     let mut online_lr = OnlineLR::new(lambda, false);
-    online_lr.fit_unchecked(x0, y0); // safe because things are checked in plugin / python functions.
+    // safe because things are checked in plugin / python functions. The bias is not penalized.
+    (online_lr.inv, online_lr.coefficients) = faer_qr_lstsq_with_inv(x0, y0, lambda, has_bias);
     coefficients.push(online_lr.fitted_values().to_owned());
     for j in n..xn {
         let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
@@ -192,6 +194,7 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     y: MatRef<T>,
     n: usize,
     lambda: T,
+    has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     // x: size xn x m
@@ -205,7 +208,7 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     // This is because if add_bias, the 1 is added to
     // all data already. No need to let OnlineLR add the 1 for the user.
     let mut online_lr = OnlineLR::new(lambda, false);
-    online_lr.fit_unchecked(x0, y0);
+    (online_lr.inv, online_lr.coefficients) = faer_qr_lstsq_with_inv(x0, y0, lambda, has_bias);
     coefficients.push(online_lr.fitted_values().to_owned());
 
     for j in n..xn {
@@ -232,6 +235,7 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
     n: usize,
     m: usize,
     lambda: T,
+    has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     let ncols = x.ncols();
@@ -296,7 +300,7 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
             }
             let x0 = MatRef::from_row_major_slice(&x_slice, y_slice.len(), ncols);
             let y0 = MatRef::from_column_major_slice(&y_slice, y_slice.len(), 1);
-            online_lr.fit_unchecked(x0, y0);
+            (online_lr.inv, online_lr.coefficients) = faer_qr_lstsq_with_inv(x0, y0, lambda, has_bias);
             is_current = non_null_cnt_in_window >= n_needed;
         }
         coefficients.push(online_lr.fitted_values().to_owned());
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 941fdca..524e911 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -886,7 +886,7 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
 
-            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda);
+            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda, has_bias);
             let mut builder: ListPrimitiveChunkedBuilder<Float64Type> =
                 ListPrimitiveChunkedBuilder::new(
                     "coeffs".into(),
@@ -985,9 +985,9 @@ fn pl_rolling_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult<S
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
             let coeffs = if should_skip {
-                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda)
+                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda, has_bias)
             } else {
-                faer_rolling_lstsq(x, y, n, kwargs.lambda)
+                faer_rolling_lstsq(x, y, n, kwargs.lambda, has_bias)
             };
 
             let mut builder: ListPrimitiveChunkedBuilder<Float64Type> =
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 1c2fa7c..e2090cf 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -834,7 +834,7 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
 
-            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda as f32);
+            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda as f32, has_bias);
             let mut builder: ListPrimitiveChunkedBuilder<Float32Type> =
                 ListPrimitiveChunkedBuilder::new(
                     "coeffs".into(),
@@ -933,9 +933,9 @@ fn pl_rolling_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResu
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
             let coeffs = if should_skip {
-                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda as f32)
+                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda as f32, has_bias)
             } else {
-                faer_rolling_lstsq(x, y, n, kwargs.lambda as f32)
+                faer_rolling_lstsq(x, y, n, kwargs.lambda as f32, has_bias)
             };
 
             let mut builder: ListPrimitiveChunkedBuilder<Float32Type> =
-- 
2.43.0


From fa1206aa9d218bfea72463f6dea0f568212fa551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:34 +0000
Subject: [PATCH 019/135] fix: the bias column does not replace a feature named
 "literal"

---
 src/num_ext/linear_regression.rs     | 4 ++--
 src/num_ext/linear_regression_f32.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 524e911..43fe4ed 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -151,7 +151,7 @@ fn series_to_mat_for_lstsq(
     }
     // Add a constant column if has_bias
     if has_bias {
-        df = df.lazy().with_column(lit(1f64)).collect()?;
+        df = df.lazy().with_column(lit(1f64).alias("__bias__")).collect()?;
     }
 
     // In mask, true means not null.
@@ -274,7 +274,7 @@ fn series_to_mat_for_multi_lstsq(
     }?;
 
     if has_bias {
-        df = df.lazy().with_column(lit(1f64)).collect()?;
+        df = df.lazy().with_column(lit(1f64).alias("__bias__")).collect()?;
     }
 
     if df.is_empty() {
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index e2090cf..8437a8a 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -93,7 +93,7 @@ fn series_to_mat_for_lstsq_f32(
     }
     // Add a constant column if has_bias
     if has_bias {
-        df = df.lazy().with_column(lit(1f32)).collect()?;
+        df = df.lazy().with_column(lit(1f32).alias("__bias__")).collect()?;
     }
 
     // In mask, true means not null.
@@ -216,7 +216,7 @@ fn series_to_mat_for_multi_lstsq_f32(
     }?;
 
     if has_bias {
-        df = df.lazy().with_column(lit(1f32)).collect()?;
+        df = df.lazy().with_column(lit(1f32).alias("__bias__")).collect()?;
     }
 
     if df.is_empty() {
-- 
2.43.0


From 6a838d9252e00a1e3be5f6637a9a16f404338cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 020/135] fix: recursive, rolling and report regressions
 declare the field names they return

---
 src/num_ext/linear_regression.rs     | 18 +++++++++++++-----
 src/num_ext/linear_regression_f32.rs | 18 +++++++++++++-----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 43fe4ed..ab43941 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -52,10 +52,10 @@ pub(crate) struct SWWLstsqKwargs {
     pub(crate) min_size: usize,
 }
 
-fn report_output(_: &[Field]) -> PolarsResult<Field> {
+fn report_fields(std_err: PlSmallStr) -> PolarsResult<Field> {
     let features = Field::new("features".into(), DataType::String); // index of feature
     let beta = Field::new("beta".into(), DataType::Float64); // estimated value for this coefficient
-    let stderr = Field::new("std_err".into(), DataType::Float64); // Std Err for this coefficient
+    let stderr = Field::new(std_err, DataType::Float64); // Std Err for this coefficient
     let t = Field::new("t".into(), DataType::Float64); // t value for this coefficient
     let p = Field::new("p>|t|".into(), DataType::Float64); // p value for this coefficient
     let ci_lower = Field::new("0.025".into(), DataType::Float64); // CI lower bound at 0.025
@@ -66,6 +66,14 @@ fn report_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new("lin_reg_report".into(), DataType::Struct(v)))
 }
 
+fn report_output(_: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
+    report_fields(StandardError::from(kwargs.std_err).into())
+}
+
+fn wls_report_output(_: &[Field]) -> PolarsResult<Field> {
+    report_fields("std_err".into())
+}
+
 fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
     let pred = Field::new("pred".into(), DataType::Float64);
     let residue = Field::new("resid".into(), DataType::Float64);
@@ -75,7 +83,7 @@ fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
 
 fn coeff_pred_output(_: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float64)));
-    let pred = Field::new("prediction".into(), DataType::Float64);
+    let pred = Field::new("pred".into(), DataType::Float64);
     let v: Vec<Field> = vec![coeffs, pred];
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
@@ -573,7 +581,7 @@ fn pl_lstsq_pred(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func_with_kwargs=report_output)]
 fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let se_type = StandardError::from(kwargs.std_err);
@@ -734,7 +742,7 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func=wls_report_output)]
 fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 8437a8a..a354fe3 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -27,10 +27,10 @@ use polars::prelude as pl;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-fn report_output(_: &[Field]) -> PolarsResult<Field> {
+fn report_fields(std_err: PlSmallStr) -> PolarsResult<Field> {
     let features = Field::new("features".into(), DataType::String); // index of feature
     let beta = Field::new("beta".into(), DataType::Float32); // estimated value for this coefficient
-    let stderr = Field::new("std_err".into(), DataType::Float32); // Std Err for this coefficient
+    let stderr = Field::new(std_err, DataType::Float32); // Std Err for this coefficient
     let t = Field::new("t".into(), DataType::Float32); // t value for this coefficient
     let p = Field::new("p>|t|".into(), DataType::Float32); // p value for this coefficient
     let ci_lower = Field::new("0.025".into(), DataType::Float32); // CI lower bound at 0.025
@@ -41,6 +41,14 @@ fn report_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new("lin_reg_report".into(), DataType::Struct(v)))
 }
 
+fn report_output(_: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
+    report_fields(StandardError::from(kwargs.std_err).into())
+}
+
+fn wls_report_output(_: &[Field]) -> PolarsResult<Field> {
+    report_fields("std_err".into())
+}
+
 fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
     let pred = Field::new("pred".into(), DataType::Float32);
     let residue = Field::new("resid".into(), DataType::Float32);
@@ -50,7 +58,7 @@ fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
 
 fn coeff_pred_output(_: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float32)));
-    let pred = Field::new("prediction".into(), DataType::Float32);
+    let pred = Field::new("pred".into(), DataType::Float32);
     let v: Vec<Field> = vec![coeffs, pred];
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
@@ -522,7 +530,7 @@ fn pl_lstsq_pred_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func_with_kwargs=report_output)]
 fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let se_type = StandardError::from(kwargs.std_err);
@@ -682,7 +690,7 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func=wls_report_output)]
 fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
-- 
2.43.0


From ebd26417fb20a7973d618bb4c0ca9c0ec6bb44b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 021/135] fix: multi-target lin_reg declares the struct it
 returns

---
 src/num_ext/linear_regression.rs     | 28 +++++++++++++++++++++++-----
 src/num_ext/linear_regression_f32.rs | 28 +++++++++++++++++++++++-----
 2 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index ab43941..40a08f6 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -98,6 +98,27 @@ fn coeff_singular_values_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
 
+fn multi_coeff_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let v = fields[..kwargs.last_target_idx]
+        .iter()
+        .map(|f| Field::new(f.name().clone(), DataType::List(Box::new(DataType::Float64))))
+        .collect::<Vec<_>>();
+    Ok(Field::new("coeffs".into(), DataType::Struct(v)))
+}
+
+fn multi_pred_residue_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let v = fields[..kwargs.last_target_idx]
+        .iter()
+        .flat_map(|f| {
+            [
+                Field::new(format!("{}_pred", f.name()).into(), DataType::Float64),
+                Field::new(format!("{}_resid", f.name()).into(), DataType::Float64),
+            ]
+        })
+        .collect::<Vec<_>>();
+    Ok(Field::new("all_preds".into(), DataType::Struct(v)))
+}
+
 fn coeff_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
         "coeffs".into(),
@@ -352,9 +373,7 @@ fn pl_lstsq(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     }
 }
 
-// Strictly speaking, this output type is not correct. Should be struct of last_target_idx many
-// coeff_outputs
-#[polars_expr(output_type_func=coeff_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_coeff_output)]
 fn pl_lstsq_multi(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
@@ -402,8 +421,7 @@ fn pl_lstsq_multi(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<S
     Ok(df_out.into_struct("coeffs".into()).into_series())
 }
 
-// Strictly speaking, this output type is not correct.
-#[polars_expr(output_type_func=pred_residue_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_pred_residue_output)]
 fn pl_lstsq_multi_pred(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index a354fe3..2976f09 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -73,6 +73,27 @@ fn coeff_singular_values_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
 
+fn multi_coeff_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let v = fields[..kwargs.last_target_idx]
+        .iter()
+        .map(|f| Field::new(f.name().clone(), DataType::List(Box::new(DataType::Float32))))
+        .collect::<Vec<_>>();
+    Ok(Field::new("coeffs".into(), DataType::Struct(v)))
+}
+
+fn multi_pred_residue_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let v = fields[..kwargs.last_target_idx]
+        .iter()
+        .flat_map(|f| {
+            [
+                Field::new(format!("{}_pred", f.name()).into(), DataType::Float32),
+                Field::new(format!("{}_resid", f.name()).into(), DataType::Float32),
+            ]
+        })
+        .collect::<Vec<_>>();
+    Ok(Field::new("all_preds".into(), DataType::Struct(v)))
+}
+
 fn coeff_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
         "coeffs".into(),
@@ -294,9 +315,7 @@ fn pl_lstsq_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
     }
 }
 
-// Strictly speaking, this output type is not correct. Should be struct of last_target_idx many
-// coeff_outputs
-#[polars_expr(output_type_func=coeff_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_coeff_output)]
 fn pl_lstsq_multi_f32(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
@@ -348,8 +367,7 @@ fn pl_lstsq_multi_f32(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResu
     Ok(df_out.into_struct("coeffs".into()).into_series())
 }
 
-// Strictly speaking, this output type is not correct.
-#[polars_expr(output_type_func=pred_residue_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_pred_residue_output)]
 fn pl_lstsq_multi_pred_f32(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
-- 
2.43.0


From 07ff07ecb0b29c7e927fe7fc1b1e866085933601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 022/135] fix: coordinate descent does not stop while the bias
 still changes

---
 src/linalg/lr_solvers.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index fc39703..17fc905 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -361,6 +361,8 @@ pub fn faer_coordinate_descent<T: RealField + Float>(
             let xx = unsafe { x.get_unchecked(.., 0..n1) };
             let bb = unsafe { beta.get_unchecked(0..n1, ..) };
             let ss = (y - xx * bb).as_ref().sum() / m;
+            // The bias is a coordinate too. The others are not optimal until it has settled.
+            max_change = (ss - *unsafe { beta.get_unchecked(n1, 0) }).abs().max(max_change);
             *unsafe { beta.get_mut_unchecked(n1, 0) } = ss;
         }
         converge = max_change < tol;
-- 
2.43.0


From f906e3a83a3d36b66f0c7b25e8677dd0f2b66596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 023/135] fix: an all-zero feature gets a zero Lasso
 coefficient instead of making every output NaN

---
 src/linalg/lr_solvers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index 17fc905..4bb4c8a 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -351,7 +351,12 @@ pub fn faer_coordinate_descent<T: RealField + Float>(
             let main_update = *xty.get(j, 0) - *(xtx_j * &beta).get(0, 0);
 
             // update beta(j, 0).
-            let after = soft_threshold_l1(main_update, lambda_l1) / norms[j];
+            // (A feature that is always 0 keeps coefficient 0)
+            let after = if norms[j] > T::zero() {
+                soft_threshold_l1(main_update, lambda_l1) / norms[j]
+            } else {
+                T::zero()
+            };
             *unsafe { beta.get_mut_unchecked(j, 0) } = after;
             max_change = (after - before).abs().max(max_change);
         }
-- 
2.43.0


From 47be0be9537fa2f77966550ab9671910df637a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 024/135] fix: integrate_trapz accepts an x column stored in
 several chunks

---
 src/num_ext/trapz.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/num_ext/trapz.rs b/src/num_ext/trapz.rs
index 2ac4cb5..916359e 100644
--- a/src/num_ext/trapz.rs
+++ b/src/num_ext/trapz.rs
@@ -32,12 +32,14 @@ fn pl_trapz(inputs: &[Series]) -> PolarsResult<Series> {
         return Ok(ca.into_series());
     }
 
+    let y = y.rechunk();
     let y = y.cont_slice()?;
     if x.len() == 1 && y.len() > 1 {
         let dx = x.get(0).unwrap();
         let ca = Float64Chunked::from_slice("".into(), &[trapz_dx(y, dx)]);
         Ok(ca.into_series())
     } else if x.len() == y.len() {
+        let x = x.rechunk();
         let x = x.cont_slice()?;
         let ca = Float64Chunked::from_slice("".into(), &[trapz(y, x)]);
         Ok(ca.into_series())
-- 
2.43.0


From 0bdd5fd27a8085745ce5947e9e631ec03f7b9709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 025/135] fix: singular_values(as_explained_var=True) divides
 by the number of samples minus one, not of features

---
 python/polars_ds/exprs/num.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 843b783..94b65cf 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -298,9 +298,13 @@ def singular_values(
 
     out = pl_plugin(symbol="pl_singular_values", args=actual_inputs, returns_scalar=True)
     if as_explained_var:
-        out = out.list.eval(pl.element().pow(2) / (pl.count() - 1))
+        out = out.list.eval(pl.element().pow(2))
     if as_ratio:
         out = out.list.eval(pl.element() / pl.element().sum())
+    elif as_explained_var:
+        # Rows with nulls are dropped
+        n_samples = pl.all_horizontal(f.is_not_null() for f in feats).sum().cast(pl.Float64)
+        out = out / (n_samples - 1)
 
     return out
 
-- 
2.43.0


From bccc210296436974951f803076ef6f226221a7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 026/135] fix: singular_values of several features works in
 group_by

---
 python/polars_ds/exprs/num.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 94b65cf..7d2e481 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -296,7 +296,12 @@ def singular_values(
     else:
         actual_inputs = feats
 
-    out = pl_plugin(symbol="pl_singular_values", args=actual_inputs, returns_scalar=True)
+    out = pl_plugin(
+        symbol="pl_singular_values",
+        args=actual_inputs,
+        returns_scalar=True,
+        pass_name_to_apply=True,
+    )
     if as_explained_var:
         out = out.list.eval(pl.element().pow(2))
     if as_ratio:
-- 
2.43.0


From 34c2ecf84ff4d00267ffcdbb7ce760276be942d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 027/135] fix: pca and principal_components work with fewer
 rows than features

---
 src/num_ext/pca.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/num_ext/pca.rs b/src/num_ext/pca.rs
index 42ad686..83d8951 100644
--- a/src/num_ext/pca.rs
+++ b/src/num_ext/pca.rs
@@ -96,7 +96,7 @@ fn pl_principal_components(inputs: &[Series]) -> PolarsResult<Series> {
         let compute = ComputeSvdVectors::Thin;
         let dim = Ord::min(mat.nrows(), mat.ncols());
         let mut s = Col::<f64>::zeros(dim);
-        let mut v = Mat::<f64>::zeros(dim, dim);
+        let mut v = Mat::<f64>::zeros(n, dim);
         let par = Par::rayon(0);
         faer::linalg::svd::svd(
             mat,
@@ -139,7 +139,7 @@ fn pl_pca(inputs: &[Series]) -> PolarsResult<Series> {
     let dim = Ord::min(mat.nrows(), mat.ncols());
     let mut s = vec![0f64; dim];
     let cs = ColMut::from_slice_mut(&mut s);
-    let mut v = Mat::<f64>::zeros(dim, dim);
+    let mut v = Mat::<f64>::zeros(n, dim);
     let par = Par::rayon(0);
     let compute = ComputeSvdVectors::Thin;
 
@@ -164,9 +164,9 @@ fn pl_pca(inputs: &[Series]) -> PolarsResult<Series> {
     let mut builder: PrimitiveChunkedBuilder<Float64Type> =
         PrimitiveChunkedBuilder::new("singular_value".into(), dim);
     let mut list_builder: ListPrimitiveChunkedBuilder<Float64Type> =
-        ListPrimitiveChunkedBuilder::new("weight_vector".into(), dim, dim, DataType::Float64);
+        ListPrimitiveChunkedBuilder::new("weight_vector".into(), dim, dim * n, DataType::Float64);
 
-    for i in 0..v.nrows() {
+    for i in 0..dim {
         builder.append_value(s[i]);
         list_builder.append_slice(v.col_as_slice(i));
     }
-- 
2.43.0


From 6e58df337559e0d88700bcc0ddf2a07a4734b8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 028/135] fix: the ROC and precision-recall curves end where
 nothing is predicted as positive, so tied top scores count

---
 src/num_ext/tp_fp.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 3bf7de3..725d678 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -123,10 +123,11 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
     let y = tpr.f64().unwrap();
     let x = fpr.f64().unwrap();
 
-    let y = y.cont_slice()?; // Zero copy
-    let x = x.cont_slice()?; // Zero copy
+    // The curve ends at (0, 0), where nothing is predicted as positive
+    let y = [y.cont_slice()?, &[0.]].concat();
+    let x = [x.cont_slice()?, &[0.]].concat();
 
-    let auc = -super::trapz::trapz(y, x);
+    let auc = -super::trapz::trapz(&y, &x);
     let auc: Series = Series::from_vec("roc_auc".into(), vec![auc]);
 
     // Average Precision
@@ -234,10 +235,11 @@ fn pl_roc_auc(inputs: &[Series]) -> PolarsResult<Series> {
     let y = tpr.f64().unwrap();
     let x = fpr.f64().unwrap();
 
-    let y = y.cont_slice()?;
-    let x = x.cont_slice()?;
+    // The curve ends at (0, 0), where nothing is predicted as positive
+    let y = [y.cont_slice()?, &[0.]].concat();
+    let x = [x.cont_slice()?, &[0.]].concat();
 
-    let auc = -super::trapz::trapz(y, x);
+    let auc = -super::trapz::trapz(&y, &x);
     Ok(Series::from_vec("roc_auc".into(), vec![auc]))
 }
 
-- 
2.43.0


From c8cb0feea7f89c3b3270e35ed4b26f1327630afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 029/135] fix: query_binary_metrics with a threshold above
 every score does not panic

---
 src/num_ext/tp_fp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 725d678..9b6107a 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -140,7 +140,8 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
 
     // Precision & Recall & F
     let recall = y[index];
-    let precision = precision[index];
+    // No score reaches the threshold: nothing is predicted as positive
+    let precision = precision.get(index).copied().unwrap_or(f64::NAN);
     let f: f64 = 2.0 * (precision * recall) / (precision + recall);
     let recall: Series = Series::from_vec("recall".into(), vec![recall]);
     let precision: Series = Series::from_vec("precision".into(), vec![precision]);
-- 
2.43.0


From b9fbcb2561149cf2cf585221f8d846947f5bca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 030/135] fix: query_mcc does not overflow for large counts

---
 src/num_ext/tp_fp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 9b6107a..8c8a73b 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -210,7 +210,7 @@ fn pl_mcc(inputs: &[Series]) -> PolarsResult<Series> {
     let n0_ = (n01 + n00) as f64;
     let n_0 = (n10 + n00) as f64;
 
-    let phi = ((n11 * n00) as f64 - (n10 * n01) as f64) / (n1_ * n_1 * n0_ * n_0).sqrt();
+    let phi = (n11 as f64 * n00 as f64 - n10 as f64 * n01 as f64) / (n1_ * n_1 * n0_ * n_0).sqrt();
     Ok(Series::from_iter([phi]))
 }
 
-- 
2.43.0


From e2eed3f8160d464ac5dea513128ac1c358030d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 031/135] fix: query_adj_r2 uses n - p - 1 residual degrees of
 freedom for p explanatory variables

---
 python/polars_ds/exprs/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 54070b0..0d4891e 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -95,7 +95,7 @@ def query_adj_r2(actual: str | pl.Expr, pred: str | pl.Expr, p: int) -> pl.Expr:
     ss_res = diff.dot(diff)
     diff2 = actual_expr - actual_expr.mean()
     ss_tot = diff2.dot(diff2)
-    df_res = actual_expr.len() - p
+    df_res = actual_expr.len() - p - 1
     df_tot = actual_expr.len() - 1
     return 1.0 - (ss_res / df_res) / (ss_tot / df_tot)
 
-- 
2.43.0


From bb6c583c4b219a10d48384fea003a564611b3d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 032/135] fix: calculate_ndcg uses the group column it is given

---
 python/polars_ds/exprs/metrics.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 0d4891e..5919de9 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -725,7 +725,7 @@ def calculate_ndcg(df, relevance_col, score_col, group_col, k=None, ignore_ties=
         >>> print(ndcg)  # Shows the mean NDCG@10 across all users
     """
 
-    ignore_flag = df.group_by("example_id").len().with_columns(pl.when(pl.col('len')==1).then(1).otherwise(0).alias('is_single_candidate'))
+    ignore_flag = df.group_by(group_col).len().with_columns(pl.when(pl.col('len')==1).then(1).otherwise(0).alias('is_single_candidate'))
     if ignore_ties:
         dcg_per_group = _get_dcg_score_with_ties(df, relevance_col, group_col, sort_by_column=score_col, k=k)
     else:
@@ -736,8 +736,8 @@ def calculate_ndcg(df, relevance_col, score_col, group_col, k=None, ignore_ties=
                                                    group_col, sort_by_column=relevance_col, k=k)
     ideal_dcg_per_group = ideal_dcg_per_group.rename({"discounted_relevance": "discounted_ideal_relevance"})
     
-    ndcg_df = dcg_per_group.join(ideal_dcg_per_group, on ='example_id')
-    ndcg_df = ndcg_df.join(ignore_flag, on='example_id')
+    ndcg_df = dcg_per_group.join(ideal_dcg_per_group, on =group_col)
+    ndcg_df = ndcg_df.join(ignore_flag, on=group_col)
     
     ndcg_df = ndcg_df.with_columns((pl.col('discounted_relevance')/pl.col('discounted_ideal_relevance')).alias('ndcg'))
     
@@ -845,20 +845,20 @@ def _get_dcg_score_with_ties(df, relevance_col, group_col, sort_by_column, k):
     df = _get_rank_discount_at_k(df, k, group_col)
 
     df = df.with_columns((pl.col(relevance_col) * pl.col("discount")).alias("discounted_relevance"))
-    df = df.with_columns(pl.col('discount').cum_sum().over('example_id').flatten().alias('discount_cumsum'))
+    df = df.with_columns(pl.col('discount').cum_sum().over(group_col).flatten().alias('discount_cumsum'))
     df = df.with_columns(
             pl.col(sort_by_column)
             .rank(method='min', descending=True)
-            .over('example_id')
+            .over(group_col)
             .alias("rank_groups")
         )
 
-    df_diff = df.group_by('example_id', 'rank_groups').agg(pl.col('discount_cumsum').last(), 
+    df_diff = df.group_by(group_col, 'rank_groups').agg(pl.col('discount_cumsum').last(), 
                                                         pl.col(relevance_col).sum(),
                                                           pl.len().alias('num_rows')).sort('rank_groups')
-    df_diff.sort('example_id', 'rank_groups')
+    df_diff.sort(group_col, 'rank_groups')
 
-    df_diff = df_diff.group_by('example_id').agg(pl.col('discount_cumsum').diff().alias('discount_diff'), 
+    df_diff = df_diff.group_by(group_col).agg(pl.col('discount_cumsum').diff().alias('discount_diff'), 
                                                  pl.col(relevance_col), 
                                                  pl.col('discount_cumsum'),
                                                  pl.col('rank_groups'), 
-- 
2.43.0


From 408b710b1901b234b4023e53f9dfb1e1b967ffad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 033/135] fix: binary metrics and the ROC curve return the
 struct they declare for any numeric scores and without positives

---
 src/num_ext/tp_fp.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 8c8a73b..b12875b 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -9,7 +9,7 @@ fn combo_output(_: &[Field]) -> PolarsResult<Field> {
     let precision = Field::new("precision".into(), DataType::Float64);
     let recall = Field::new("recall".into(), DataType::Float64);
     let f = Field::new("f".into(), DataType::Float64);
-    let avg_precision = Field::new("avg_precision".into(), DataType::Float64);
+    let avg_precision = Field::new("average_precision".into(), DataType::Float64);
     let v: Vec<Field> = vec![precision, recall, f, avg_precision, roc_auc];
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
@@ -45,7 +45,7 @@ fn tp_fp_frame(
     // Start computing
     let n = predicted.len() as u32;
     let df = df!(
-        "threshold" => predicted,
+        "threshold" => predicted.cast(&DataType::Float64)?,
         "actual" => actual
     )?;
 
@@ -98,7 +98,10 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
 
     let positive_count = actual.sum::<u32>().unwrap_or(0);
     if positive_count == 0 {
-        return Ok(Series::from_iter([f64::NAN]));
+        let nans = ["precision", "recall", "f", "average_precision", "roc_auc"]
+            .map(|name| Series::from_vec(name.into(), vec![f64::NAN]));
+        let out = StructChunked::from_series("metrics".into(), 1, nans.iter())?;
+        return Ok(out.into_series());
     }
 
     let mut binding = tp_fp_frame(predicted, actual, positive_count, true)?.collect()?;
@@ -163,12 +166,17 @@ fn pl_tpr_fpr(inputs: &[Series]) -> PolarsResult<Series> {
     let positive_cnt = actual.sum::<u32>().unwrap_or(0);
 
     if positive_cnt == 0 {
+        let threshold = Series::from_vec("threshold".into(), vec![f64::NAN]);
         let tpr = Series::from_vec("tpr".into(), vec![f64::NAN]);
         let fpr = Series::from_vec("fpr".into(), vec![f64::NAN]);
         let ca = StructChunked::from_columns(
             "tpr_fpr".into(),
             1,
-            &[tpr.into_column(), fpr.into_column()],
+            &[
+                threshold.into_column(),
+                tpr.into_column(),
+                fpr.into_column(),
+            ],
         )?;
         Ok(ca.into_series())
     } else {
-- 
2.43.0


From 9fff817cd2dcbdf36f5dc7dd109c2452c40b307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 034/135] fix: query_confusion_matrix divides counts as floats,
 not as integers

---
 src/num_ext/tp_fp.rs | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index b12875b..b71f363 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -334,19 +334,23 @@ fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
 
     let df = DataFrame::new(vec![tn, fp, fn_, tp])?;
 
+    // The counts as floats, because integer columns would be divided as integers. A division by 0 is NaN.
+    let cnt = |name: &str| col(name).cast(DataType::Float64);
+    let div = |a: Expr, b: Expr| when(b.clone().eq(lit(0.0))).then(lit(f64::NAN)).otherwise(a / b);
+
     let result = df
         .lazy()
         .with_columns([
-            (col("tp") + col("fn")).alias("p"),
-            (col("fp") + col("tn")).alias("n"),
+            (cnt("tp") + cnt("fn")).alias("p"),
+            (cnt("fp") + cnt("tn")).alias("n"),
         ])
         .with_columns([
-            (col("tp") / col("p")).alias("tpr"),
-            (col("fp") / col("n")).alias("fpr"),
-            (col("tp") / (col("tp") + col("fp"))).alias("precision"),
-            (col("fn") / (col("fn") + col("tn"))).alias("false_omission_rate"),
-            (col("p") / (col("p") + col("n"))).alias("prevalence"),
-            (col("tp") / (col("tp") + col("fn") + col("fp"))).alias("threat_score"),
+            div(cnt("tp"), col("p")).alias("tpr"),
+            div(cnt("fp"), col("n")).alias("fpr"),
+            div(cnt("tp"), cnt("tp") + cnt("fp")).alias("precision"),
+            div(cnt("fn"), cnt("fn") + cnt("tn")).alias("false_omission_rate"),
+            div(col("p"), col("p") + col("n")).alias("prevalence"),
+            div(cnt("tp"), cnt("tp") + cnt("fn") + cnt("fp")).alias("threat_score"),
         ])
         .with_columns([
             (lit(1) - col("tpr")).alias("fnr"),
@@ -355,22 +359,28 @@ fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
             (lit(1) - col("precision")).alias("fdr"),
         ])
         .with_columns([
-            (col("tpr") / col("fpr")).alias("plr"),
-            (col("fnr") / col("tnr")).alias("nlr"),
+            div(col("tpr"), col("fpr")).alias("plr"),
+            div(col("fnr"), col("tnr")).alias("nlr"),
             (col("tpr") + col("tnr") - lit(1)).alias("informedness"),
             (col("precision") - col("false_omission_rate")).alias("markedness"),
-            (((col("tpr") * col("fpr")).sqrt() - col("fpr")) / (col("tpr") - col("fpr")))
-                .alias("prevalence_threshold"),
+            div(
+                (col("tpr") * col("fpr")).sqrt() - col("fpr"),
+                col("tpr") - col("fpr"),
+            )
+            .alias("prevalence_threshold"),
             ((col("tpr") + col("tnr")) / lit(2)).alias("balanced_accuracy"),
-            ((lit(2) * col("precision") * col("tpr")) / (col("precision") + col("tpr")))
-                .alias("f1"),
+            div(
+                lit(2) * col("precision") * col("tpr"),
+                col("precision") + col("tpr"),
+            )
+            .alias("f1"),
             ((col("precision") * col("tpr")).sqrt()).alias("folkes_mallows_index"),
             ((col("tpr") * col("tnr") * col("precision") * col("npv")).sqrt()
                 - (col("fnr") * col("fpr") * col("false_omission_rate") * col("fdr")).sqrt())
             .alias("mcc"),
-            ((col("tp") + col("tn")) / (col("p") + col("n"))).alias("acc"),
+            div(cnt("tp") + cnt("tn"), col("p") + col("n")).alias("acc"),
         ])
-        .with_columns([(col("plr") / col("nlr")).alias("dor")])
+        .with_columns([div(col("plr"), col("nlr")).alias("dor")])
         .select(&[
             col("tp"),
             col("tn"),
@@ -398,7 +408,6 @@ fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
             col("npv"),
             col("dor"),
         ])
-        .fill_null(f64::NAN) // In Rust dividing by 0 results in Null for some reason.
         .collect()?;
 
     let out = result.into_struct("confusion_matrix".into());
-- 
2.43.0


From 9d12dd722c8eeaf56a26c350a75065ee7c17b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 035/135] fix: normal_test keeps the sign of the cube root in
 the kurtosis statistic

---
 src/stats/normal_test.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stats/normal_test.rs b/src/stats/normal_test.rs
index fca4eab..cdd3ca8 100644
--- a/src/stats/normal_test.rs
+++ b/src/stats/normal_test.rs
@@ -45,7 +45,8 @@ fn kurtosis_test_statistic(kur: f64, n: usize) -> f64 {
         f64::NAN
     } else {
         let term1 = 1. - tmp;
-        let term2 = ((1. - 2. / a) / denom.abs()).cbrt();
+        // keep the sign of denom
+        let term2 = denom.signum() * ((1. - 2. / a) / denom.abs()).cbrt();
         let z = (term1 - term2) / tmp.sqrt();
         z
     }
-- 
2.43.0


From 7c49a44d2a8f0b79bc0297c73b3113b81af9bf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 036/135] fix: mann_whitney_u tie correction counts the last
 run of ties

---
 src/stats/mann_whitney_u.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stats/mann_whitney_u.rs b/src/stats/mann_whitney_u.rs
index 1d3c390..a503c4f 100644
--- a/src/stats/mann_whitney_u.rs
+++ b/src/stats/mann_whitney_u.rs
@@ -18,7 +18,8 @@ fn mann_whitney_tie_sum(ranks: &Float64Chunked) -> f64 {
             rank_cnt = 1.0;
         }
     }
-    accumulant
+    // the last run of ties
+    accumulant + rank_cnt * (rank_cnt + 1.0) * (rank_cnt - 1.0)
 }
 
 #[polars_expr(output_type_func=simple_stats_output)]
@@ -52,7 +53,7 @@ fn pl_mann_whitney_u(inputs: &[Series]) -> PolarsResult<Series> {
     };
 
     let p = if std_ == 0. {
-        0.
+        1. // everything is tied
     } else {
         // -0.5 is some continuity adjustment. See Scipy's impl
         (factor * normal::sf_unchecked(u, mean + 0.5, std_)).clamp(0., 1.)
-- 
2.43.0


From 5f5a59c8e43878b6e54dd8d437c20966a7553dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 037/135] fix: mann_whitney_u returns a scalar in group_by

---
 python/polars_ds/exprs/stats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 64e6daf..87a81c4 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -331,6 +331,7 @@ def mann_whitney_u(
     return pl_plugin(
         symbol="pl_mann_whitney_u",
         args=[u1, u2, mean, ranks.sort(), pl.lit(alternative, dtype=pl.String)],
+        returns_scalar=True,
     )
 
 
-- 
2.43.0


From 1c71e696811f8bee3cd8f517c5141d1b29188972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 038/135] fix: ks_2samp accepts samples of exactly 30 values,
 as documented

---
 src/stats/ks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats/ks.rs b/src/stats/ks.rs
index a930f11..7b9ee69 100644
--- a/src/stats/ks.rs
+++ b/src/stats/ks.rs
@@ -63,7 +63,7 @@ fn pl_ks_2samp(inputs: &[Series]) -> PolarsResult<Series> {
     let alpha = inputs[2].f64()?;
     let alpha = alpha.get(0).unwrap();
 
-    if (s1.len() <= 30) || (s2.len() <= 30) {
+    if (s1.len() < 30) || (s2.len() < 30) {
         generic_stats_output(0f64, f64::NAN)
     } else {
         let v1 = s1.cont_slice().unwrap();
-- 
2.43.0


From 715b930519ed117b70123eae87e889f42a4f5bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 039/135] fix: chi2 of a variable with a single level has
 p-value 1, not an error

---
 src/stats/chi2.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stats/chi2.rs b/src/stats/chi2.rs
index e82dffa..fb88cc9 100644
--- a/src/stats/chi2.rs
+++ b/src/stats/chi2.rs
@@ -60,6 +60,8 @@ fn _chi2_pvalue(stats: f64, dof: usize) -> PolarsResult<f64> {
     // The p value for chi2
     let p = if stats.is_nan() {
         f64::NAN
+    } else if dof == 0 {
+        1. // one of the variables has a single level
     } else {
         let (shape, rate) = (dof as f64 / 2., 0.5);
         let p = gamma::sf(stats, shape, rate).map_err(|e| PolarsError::ComputeError(e.into()));
-- 
2.43.0


From 9ceeb664dd636c56dcbb2e53226bc07ea3612ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:44 +0000
Subject: [PATCH 040/135] fix: weighted_hmean uses the weights

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 87a81c4..c16b0f7 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -732,7 +732,7 @@ def weighted_hmean(
     """
     w = str_to_expr(weights)
     x = str_to_expr(var)
-    dot = x.dot(pl.lit(1.0, dtype=pl.Float32) / x)
+    dot = w.dot(1.0 / x)
     if is_normalized:
         return 1.0 / dot
     else:
-- 
2.43.0


From 97eab7b6fc8d509967f45e6adcd700278c6ce98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:44 +0000
Subject: [PATCH 041/135] fix: weighted_corr normalizes by the variance of y

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index c16b0f7..b0bcf8f 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -876,7 +876,7 @@ def weighted_corr(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Expr) ->
     w = str_to_expr(weights)
     numerator = weighted_cov(xx, yy, w)
     sxx = w.dot((xx - weighted_mean(xx, w, False)).pow(2))
-    syy = w.dot((xx - weighted_mean(yy, w, False)).pow(2))
+    syy = w.dot((yy - weighted_mean(yy, w, False)).pow(2))
     return numerator * w.sum() / (sxx * syy).sqrt()
 
 
-- 
2.43.0


From 6057b32640649d0490e8c16606bb003bb3f0fb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:44 +0000
Subject: [PATCH 042/135] fix: cosine_sim divides by the product of the norms

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index b0bcf8f..e1cc094 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -894,7 +894,7 @@ def cosine_sim(x: str | pl.Expr, y: str | pl.Expr) -> pl.Expr:
     xx, yy = str_to_expr(x), str_to_expr(y)
     x2 = xx.dot(xx).sqrt()
     y2 = yy.dot(yy).sqrt()
-    return xx.dot(yy) / (x2 * y2).sqrt()
+    return xx.dot(yy) / (x2 * y2)
 
 
 def weighted_cosine_sim(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Expr) -> pl.Expr:
-- 
2.43.0


From e04f32df0ca5f9cbb5370ffcd9f4b5d0ca999d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 043/135] fix: gmean and weighted_gmean call Expr.log, Expr.ln
 does not exist

---
 python/polars_ds/exprs/stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index e1cc094..607c0e0 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -748,7 +748,7 @@ def gmean(var: str | pl.Expr) -> pl.Expr:
     var
         The variable
     """
-    return str_to_expr(var).ln().mean().exp()
+    return str_to_expr(var).log().mean().exp()
 
 
 def weighted_gmean(
@@ -768,9 +768,9 @@ def weighted_gmean(
     """
     x, w = str_to_expr(var), str_to_expr(weights)
     if is_normalized:
-        return (x.ln().dot(w)).exp()
+        return (x.log().dot(w)).exp()
     else:
-        return (x.ln().dot(w) / (w.sum())).exp()
+        return (x.log().dot(w) / (w.sum())).exp()
 
 
 def weighted_mean(
-- 
2.43.0


From 8eb9ed37c2acde3ca5f50b8812ddced8e992e887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 044/135] fix: weighted_cosine_sim does not overflow on integer
 columns

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 607c0e0..e7da4ee 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -921,7 +921,7 @@ def weighted_cosine_sim(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Ex
     w = str_to_expr(weights)
     wx2 = xx.pow(2).dot(w)
     wy2 = yy.pow(2).dot(w)
-    return (w * xx).dot(yy) / (wx2 * wy2).sqrt()
+    return (w * xx).dot(yy) / (wx2.sqrt() * wy2.sqrt())
 
 
 def kendall_tau(x: str | pl.Expr, y: str | pl.Expr) -> pl.Expr:
-- 
2.43.0


From 4a1922f733bda1f4d048131588cf64d2cc9cc5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 045/135] fix: psi does not panic on new data above a repeated
 baseline maximum

---
 src/num_ext/psi.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index d80790f..ec78f3f 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -105,13 +105,17 @@ fn pl_psi_report(inputs: &[Series]) -> PolarsResult<Series> {
 
     let binding = new.rechunk();
     let data_new = binding.cont_slice().unwrap();
-    let binding = brk.rechunk();
-    let ref_brk = binding.cont_slice().unwrap();
-    let binding = cnt.rechunk();
-    let ref_cnt = binding.cont_slice().unwrap();
+    let mut ref_brk = brk.into_no_null_iter().collect::<Vec<_>>();
+    let mut ref_cnt = cnt.into_no_null_iter().collect::<Vec<_>>();
+    // When the maximum of the baseline is repeated, the last bin of the quantile cut can be empty,
+    // and is missing here
+    if ref_brk.last() != Some(&f64::INFINITY) {
+        ref_brk.push(f64::INFINITY);
+        ref_cnt.push(0);
+    }
 
-    let new_cnt = psi_with_bps_helper(data_new, ref_brk);
-    let psi_report = psi_frame(ref_brk, "<=", ref_cnt, &new_cnt)?.collect()?;
+    let new_cnt = psi_with_bps_helper(data_new, &ref_brk);
+    let psi_report = psi_frame(&ref_brk, "<=", &ref_cnt, &new_cnt)?.collect()?;
 
     Ok(psi_report.into_struct("".into()).into_series())
 }
-- 
2.43.0


From bf5f01c29edc6a70a768af5085538da9ea876489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 046/135] fix: psi_discrete treats null as one category

---
 src/num_ext/psi.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index ec78f3f..921b4e6 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -138,7 +138,10 @@ fn pl_psi_discrete_report(inputs: &[Series]) -> PolarsResult<Series> {
             df2.lazy(),
             [col("actual_cat")],
             [col("baseline_cat")],
-            JoinArgs::new(JoinType::Full),
+            JoinArgs {
+                join_nulls: true,
+                ..JoinArgs::new(JoinType::Full)
+            },
         )
         .with_columns([
             col("baseline_cnt").fill_null(0),
-- 
2.43.0


From c542228e63c2adc4ef6e6460845f9071934f506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 047/135] fix: psi_w_breakpoints accepts integer data and
 breakpoints

---
 python/polars_ds/exprs/num.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 7d2e481..c11bbcb 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -593,10 +593,14 @@ def psi_w_breakpoints(
     if len(breakpoints) == 0:
         raise ValueError("Breakpoints is empty.")
 
-    bp = breakpoints + [float("inf")]
+    bp = [float(b) for b in breakpoints] + [float("inf")]
     return pl_plugin(
         symbol="pl_psi_w_bps",
-        args=[x.rechunk(), y.rechunk(), pl.Series(values=bp)],
+        args=[
+            x.cast(pl.Float64).rechunk(),
+            y.cast(pl.Float64).rechunk(),
+            pl.Series(values=bp, dtype=pl.Float64),
+        ],
         changes_length=True,
     ).alias("psi_report")
 
-- 
2.43.0


From 683e73102ab0a00a6ca37997feb09b3943c025f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:11 +0000
Subject: [PATCH 048/135] fix: jaccard_col does not count the values under
 nulls

---
 src/num_ext/jaccard.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/num_ext/jaccard.rs b/src/num_ext/jaccard.rs
index d3c139a..a9b2980 100644
--- a/src/num_ext/jaccard.rs
+++ b/src/num_ext/jaccard.rs
@@ -92,15 +92,12 @@ fn pl_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
     let count_null = inputs[2].bool()?;
     let count_null = count_null.get(0).unwrap_or(false);
 
-    let (s1, s2) = (inputs[0].clone(), inputs[1].clone());
+    // If null counts as an element, it adds to the sets that have it
+    let null1 = (count_null && inputs[0].has_nulls()) as usize;
+    let null2 = (count_null && inputs[1].has_nulls()) as usize;
+    let (s1, s2) = (inputs[0].drop_nulls(), inputs[1].drop_nulls());
 
-    let adj = if count_null {
-        (s1.has_nulls() && s2.has_nulls()) as usize // adjust for null
-    } else {
-        0
-    };
-
-    // All computation below assumes the input has no nulls, that is why we have the adj
+    // All computation below assumes the input has no nulls, that is why we drop them
 
     // God, help me with this unholy mess,
     let (len1, len2, intersection_size) = if s1.dtype().is_integer() && s1.dtype() != s2.dtype() {
@@ -221,7 +218,7 @@ fn pl_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
         ));
     };
 
-    let adjusted = intersection_size + adj;
-    let out = adjusted as f64 / (len1 + len2).abs_diff(adjusted) as f64;
+    let adjusted = intersection_size + (null1 & null2);
+    let out = adjusted as f64 / (len1 + null1 + len2 + null2).abs_diff(adjusted) as f64;
     Ok(Series::from_iter([out]))
 }
-- 
2.43.0


From 1c92d1e21b39a7d18412d5ac5a365ad16e85dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:11 +0000
Subject: [PATCH 049/135] fix: fract of an integer column keeps nulls

---
 src/num_ext/float_extras.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/float_extras.rs b/src/num_ext/float_extras.rs
index c9b56fe..b86f8e2 100644
--- a/src/num_ext/float_extras.rs
+++ b/src/num_ext/float_extras.rs
@@ -200,7 +200,8 @@ fn pl_fract(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
 
     if s.dtype().is_integer() {
-        Ok(Series::from_vec(s.name().clone(), vec![0f32; s.len()]))
+        // 0 everywhere, and null stays null
+        s.cast(&DataType::Float32)?.f32().map(|ca| ca.apply_values(|_| 0f32).into_series())
     } else {
         if s.dtype() == &DataType::Float64 {
             let ca = s.f64().unwrap();
-- 
2.43.0


From fb06b9dbcd4a50a14f1f73103b011cfdd0f19c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:11 +0000
Subject: [PATCH 050/135] fix: woe and info_value drop the targets of the rows
 they drop

---
 python/polars_ds/exprs/num.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index c11bbcb..8286a55 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -629,9 +629,10 @@ def woe(x: str | pl.Expr, target: str | pl.expr | Iterable[float], n_bins: int =
     if isinstance(target, (str, pl.Expr)):
         t = str_to_expr(target)
     else:
-        t = pl.Series(values=target)
+        t = pl.lit(pl.Series(values=target))
     xx = str_to_expr(x)
     valid = xx.filter(xx.is_finite())
+    t = t.filter(xx.is_finite())
     brk = valid.qcut(n_bins, left_closed=False, allow_duplicates=True).cast(pl.String)
     return pl_plugin(symbol="pl_woe_discrete", args=[brk, t], changes_length=True)
 
@@ -699,9 +700,10 @@ def info_value(
     if isinstance(target, (str, pl.Expr)):
         t = str_to_expr(target)
     else:
-        t = pl.Series(values=target)
+        t = pl.lit(pl.Series(values=target))
     xx = str_to_expr(x)
     valid = xx.filter(xx.is_finite())
+    t = t.filter(xx.is_finite())
     brk = valid.qcut(n_bins, left_closed=False, allow_duplicates=True).cast(pl.String)
     out = pl_plugin(symbol="pl_iv", args=[brk, t], changes_length=True)
     return out.struct.field("iv").sum() if return_sum else out
-- 
2.43.0


From 863b31dad9fe1b0f4abfa799c882aa1bfddac09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:27 +0000
Subject: [PATCH 051/135] fix: declare the f32 output of the float functions on
 integer columns

---
 src/num_ext/float_extras.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/num_ext/float_extras.rs b/src/num_ext/float_extras.rs
index b86f8e2..a40a40e 100644
--- a/src/num_ext/float_extras.rs
+++ b/src/num_ext/float_extras.rs
@@ -8,6 +8,14 @@ use num::traits::Float;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
+/// Integers are computed as f32
+fn float_extras_output(fields: &[Field]) -> PolarsResult<Field> {
+    FieldsMapper::new(fields).map_dtype(|dtype| match dtype {
+        DataType::Float64 => DataType::Float64,
+        _ => DataType::Float32,
+    })
+}
+
 fn logit<T: Float>(x: T) -> T {
     if x.is_zero() {
         T::neg_infinity()
@@ -64,7 +72,7 @@ fn cast_and_apply_diagamma<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float6
 //     ca.cast_and_apply_in_place(f64::signum)
 // }
 
-#[polars_expr(output_type_func=float_output)]
+#[polars_expr(output_type_func=float_extras_output)]
 fn pl_logit(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
 
@@ -91,7 +99,7 @@ fn pl_logit(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type_func=float_output)]
+#[polars_expr(output_type_func=float_extras_output)]
 fn pl_expit(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
     match s.dtype() {
@@ -117,7 +125,7 @@ fn pl_expit(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type_func=float_output)]
+#[polars_expr(output_type_func=float_extras_output)]
 fn pl_gamma(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
     match s.dtype() {
@@ -143,7 +151,7 @@ fn pl_gamma(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type_func=float_output)]
+#[polars_expr(output_type_func=float_extras_output)]
 fn pl_exp2(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
     match s.dtype() {
@@ -195,7 +203,7 @@ fn pl_trunc(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type_func=float_output)]
+#[polars_expr(output_type_func=float_extras_output)]
 fn pl_fract(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
 
@@ -217,7 +225,7 @@ fn pl_fract(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type_func=float_output)]
+#[polars_expr(output_type_func=float_extras_output)]
 fn pl_next_up(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
 
@@ -244,7 +252,7 @@ fn pl_next_up(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type_func=float_output)]
+#[polars_expr(output_type_func=float_extras_output)]
 fn pl_next_down(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
 
-- 
2.43.0


From 29a3c6094b8acd1303b4e14f23193977106c6702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:27 +0000
Subject: [PATCH 052/135] fix: declare the fields of the psi_discrete report

---
 src/num_ext/psi.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index 921b4e6..40aa2da 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -11,6 +11,17 @@ fn psi_report_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new("psi_report".into(), DataType::Struct(v)))
 }
 
+fn psi_discrete_report_output(fields: &[Field]) -> PolarsResult<Field> {
+    let v: Vec<Field> = vec![
+        Field::new("baseline_category".into(), fields[2].dtype().clone()),
+        Field::new("actual_category".into(), fields[0].dtype().clone()),
+        Field::new("baseline_pct".into(), DataType::Float64),
+        Field::new("actual_pct".into(), DataType::Float64),
+        Field::new("psi_bin".into(), DataType::Float64),
+    ];
+    Ok(Field::new("psi_report".into(), DataType::Struct(v)))
+}
+
 /// Computes counts in each bucket given by the breakpoints in
 /// a PSI computation. This returns the count for the first series
 /// and the count for the second series.
@@ -121,7 +132,7 @@ fn pl_psi_report(inputs: &[Series]) -> PolarsResult<Series> {
 }
 
 /// Discrete PSI report
-#[polars_expr(output_type_func=psi_report_output)]
+#[polars_expr(output_type_func=psi_discrete_report_output)]
 fn pl_psi_discrete_report(inputs: &[Series]) -> PolarsResult<Series> {
     let df1 = df!(
         "actual_cat" => &inputs[0], // data cats
-- 
2.43.0


From af371a4a61fb275b2a7ac7be90dad128def2a050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:53 +0000
Subject: [PATCH 053/135] fix: gcd and lcm with a null scalar are null instead
 of a panic

---
 src/num_ext/gcd_lcm.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/num_ext/gcd_lcm.rs b/src/num_ext/gcd_lcm.rs
index 30532dd..471175e 100644
--- a/src/num_ext/gcd_lcm.rs
+++ b/src/num_ext/gcd_lcm.rs
@@ -8,8 +8,10 @@ fn pl_gcd(inputs: &[Series]) -> PolarsResult<Series> {
     let ca1 = inputs[0].i32()?;
     let ca2 = inputs[1].i32()?;
     if ca2.len() == 1 {
-        let b = ca2.get(0).unwrap();
-        let out: Int32Chunked = ca1.apply_values(|a| num::integer::gcd(a, b));
+        let out: Int32Chunked = match ca2.get(0) {
+            Some(b) => ca1.apply_values(|a| num::integer::gcd(a, b)),
+            None => Int32Chunked::full_null(ca1.name().clone(), ca1.len()),
+        };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
         let out: Int32Chunked = binary_elementwise_values(ca1, ca2, num::integer::gcd);
@@ -26,8 +28,10 @@ fn pl_lcm(inputs: &[Series]) -> PolarsResult<Series> {
     let ca1 = inputs[0].i32()?;
     let ca2 = inputs[1].i32()?;
     if ca2.len() == 1 {
-        let b = ca2.get(0).unwrap();
-        let out: Int32Chunked = ca1.apply_values(|a| num::integer::lcm(a, b));
+        let out: Int32Chunked = match ca2.get(0) {
+            Some(b) => ca1.apply_values(|a| num::integer::lcm(a, b)),
+            None => Int32Chunked::full_null(ca1.name().clone(), ca1.len()),
+        };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
         let out: Int32Chunked = binary_elementwise_values(ca1, ca2, num::integer::lcm);
-- 
2.43.0


From d799da11b66f0869cc583dfeac229584875618f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:53 +0000
Subject: [PATCH 054/135] fix: haversine to a null point is null instead of a
 panic

---
 src/num_ext/haversine.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/haversine.rs b/src/num_ext/haversine.rs
index 16130ff..eccd6cb 100644
--- a/src/num_ext/haversine.rs
+++ b/src/num_ext/haversine.rs
@@ -14,8 +14,10 @@ where
     T::Native: Float,
 {
     if (y_lat.len() == y_long.len()) && (y_lat.len() == 1) {
-        let e_lat = y_lat.get(0).unwrap();
-        let e_long = y_long.get(0).unwrap();
+        let (e_lat, e_long) = match (y_lat.get(0), y_long.get(0)) {
+            (Some(e_lat), Some(e_long)) => (e_lat, e_long),
+            _ => return Ok(ChunkedArray::full_null(x_lat.name().clone(), x_lat.len())),
+        };
         let out: ChunkedArray<T> = x_lat
             .into_iter()
             .zip(x_long.into_iter())
-- 
2.43.0


From 858347ccf04fe544003d95290a881ecd872f135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:28 +0000
Subject: [PATCH 055/135] fix: haversine of antipodal points is not NaN

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index e62486b..d0299a4 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -253,7 +253,7 @@ pub fn haversine_elementwise<T: Float>(start_lat: T, start_long: T, end_lat: T,
 
     let a = ((d_lat / two).sin()) * ((d_lat / two).sin())
         + ((d_lon / two).sin()) * ((d_lon / two).sin()) * (lat1.cos()) * (lat2.cos());
-    let c = two * ((a.sqrt()).atan2((one - a).sqrt()));
+    let c = two * ((a.sqrt()).atan2((one - a).max(T::zero()).sqrt()));
     r_in_km * c
 }
 
-- 
2.43.0


From 886c6e924ce6fe0f55aa49dfa0131c78f922242a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 056/135] fix: psi_discrete pairs every category with its own
 count

---
 python/polars_ds/exprs/num.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 8286a55..9b8cc07 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -523,7 +523,7 @@ def psi_discrete(
     """
     if isinstance(new, (str, pl.Expr)):
         new_ = str_to_expr(new)
-        temp = new_.value_counts().struct.rename_fields(["", "count"])
+        temp = new_.value_counts().sort().struct.rename_fields(["", "count"])
         new_cnt = temp.struct.field("count")
         new_cat = temp.struct.field("")
     else:
@@ -534,7 +534,7 @@ def psi_discrete(
 
     if isinstance(baseline, (str, pl.Expr)):
         base = str_to_expr(baseline)
-        temp = base.value_counts().struct.rename_fields(["", "count"])
+        temp = base.value_counts().sort().struct.rename_fields(["", "count"])
         ref_cnt = temp.struct.field("count")
         ref_cat = temp.struct.field("")
     else:
-- 
2.43.0


From 64c06ffa225a61503133f06455f62c25b652d109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 057/135] fix: query_similar_count accepts f32 series

---
 python/polars_ds/exprs/ts_features.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index be1d257..299b13f 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -275,12 +275,12 @@ def query_similar_count(
     if len(q) <= 1:
         raise ValueError("Length of the query should be > 1.")
 
-    t = str_to_expr(target)
+    t = str_to_expr(target).cast(pl.Float64)
     kwargs = {"threshold": threshold, "parallel": parallel}
     if metric == "sql2":
         result = pl_plugin(
             symbol="pl_subseq_sim_cnt_l2",
-            args=[t.cast(pl.Float64).rechunk(), q],
+            args=[t.rechunk(), q],
             kwargs=kwargs,
             returns_scalar=True,
         )
@@ -292,7 +292,7 @@ def query_similar_count(
         )
         qq = pl.lit(q)
         args = [
-            t.cast(pl.Float64).rechunk(),
+            t.rechunk(),
             ((qq - qq.mean()) / qq.std()).rechunk(),
             rolling_mean.rechunk(),
             rolling_var.rechunk(),
-- 
2.43.0


From 36de9635777798840728a02147e9a56412ec19ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 058/135] fix: sample and approximate entropy accept f32 series

---
 python/polars_ds/exprs/ts_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index 299b13f..c0fba34 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -546,7 +546,7 @@ def query_sample_entropy(
     if m <= 1:
         raise ValueError("Input `m` must be > 1.")
 
-    t = str_to_expr(ts)
+    t = str_to_expr(ts).cast(pl.Float64)
     r = ratio * t.std(ddof=0)
     rows = t.len() - m + 1
 
@@ -606,7 +606,7 @@ def query_approx_entropy(
     if filtering_level <= 0 or m <= 1:
         raise ValueError("Filter level must be positive and m must be > 1.")
 
-    t = str_to_expr(ts)
+    t = str_to_expr(ts).cast(pl.Float64)
     if scale_by_std:
         r: pl.Expr = filtering_level * t.std()
     else:
-- 
2.43.0


From 3f921f1392ab627ce2968d488f6847e1418d55d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 059/135] fix: c3 and time reversal asymmetry do not overflow
 on integer series

---
 python/polars_ds/exprs/ts_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index c0fba34..de4b9ed 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -349,7 +349,7 @@ def query_c3_stats(x: str | pl.Expr, lag: int) -> pl.Expr:
     https://arxiv.org/pdf/chao-dyn/9909043
     """
     two_lags = 2 * lag
-    xx = str_to_expr(x)
+    xx = str_to_expr(x).cast(pl.Float64)
     return ((xx.mul(xx.shift(lag)).mul(xx.shift(two_lags))).sum()).truediv(xx.len() - two_lags)
 
 
@@ -384,7 +384,7 @@ def query_time_reversal_asymmetry_stats(x: str | pl.Expr, n_lags: int) -> pl.Exp
     Queries the Time Reversal Asymmetry Statistic, which is the average of
     (L^2(x) * L(x) - L(x) * x^2), where L is the lag operator.
     """
-    y = str_to_expr(x)
+    y = str_to_expr(x).cast(pl.Float64)
     one_lag = y.shift(-n_lags)
     two_lag = y.shift(-2 * n_lags)  # Nulls won't be in the mean calculation
     return (one_lag * (two_lag + y) * (two_lag - y)).mean()
-- 
2.43.0


From 94ef4e29ab0f48bba21fa3281bf08380a3920ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 060/135] fix: query_auto_corr divides by the length of its
 input

---
 python/polars_ds/exprs/ts_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index de4b9ed..b95d2e2 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -409,7 +409,7 @@ def query_auto_corr(x: str | pl.Expr, lag: int, ddof: int = 0, normalize: bool =
     if normalize:
         x_m = xx - xx.mean()
         var = xx.var(ddof=ddof)
-        n = pl.len()
+        n = xx.len()
         n_minus_lag = pl.when(n < lag).then(float("nan")).otherwise(n - lag)
         return x_m.dot(x_m.shift(-lag)) / (n_minus_lag * var)
     else:
-- 
2.43.0


From 94143a93f2c672e2a47d1cf5a37fdf7a39a5fb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 061/135] fix: query_transfer_entropy slices by the length of
 its input

---
 python/polars_ds/exprs/ts_features.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index b95d2e2..5ac028f 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -725,9 +725,10 @@ def query_transfer_entropy(
         raise ValueError("Input `lag` must be >= 1.")
 
     xx = str_to_expr(x)
-    x1 = xx.slice(0, pl.len() - lag)
-    x2 = xx.slice(lag, pl.len() - lag)  # (equivalent to slice(lag, None), but will break in v1.0)
-    s = str_to_expr(source).slice(0, pl.len() - lag)
+    n = xx.len() - lag
+    x1 = xx.slice(0, n)
+    x2 = xx.slice(lag, n)  # (equivalent to slice(lag, None), but will break in v1.0)
+    s = str_to_expr(source).slice(0, n)
     return query_cond_indep(x2, s, x1, k=k, parallel=parallel)
 
 
-- 
2.43.0


From f3e1361c468ade595feaefd6398acd0b8dedd8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 062/135] fix: query_permute_entropy embeds with the delay tau

---
 python/polars_ds/exprs/ts_features.py | 29 ++++++++-------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index 5ac028f..eba0fa1 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -763,24 +763,11 @@ def query_permute_entropy(
         raise ValueError("Input `tau` has to be >= 1.")
 
     t = str_to_expr(ts)
-    if tau == 1:  # Fast track the most common use case
-        return (
-            pl.concat_list(t, *(t.shift(-i) for i in range(1, n_dims)))
-            .head(t.len() - n_dims + 1)
-            .list.eval(pl.element().arg_sort())
-            .value_counts()  # groupby and count, but returns a struct
-            .struct.field("count")  # extract the field named "count"
-            .entropy(base=base, normalize=True)
-        )
-    else:
-        return (
-            pl.concat_list(
-                t.gather_every(tau),
-                *(t.shift(-i).gather_every(tau) for i in range(1, n_dims)),
-            )
-            .slice(0, length=(t.len() // tau) + 1 - (n_dims // tau))
-            .list.eval(pl.element().arg_sort())
-            .value_counts()
-            .struct.field("count")
-            .entropy(base=base, normalize=True)
-        )
+    return (
+        pl.concat_list(t, *(t.shift(-i * tau) for i in range(1, n_dims)))
+        .head(t.len() - (n_dims - 1) * tau)
+        .list.eval(pl.element().arg_sort())
+        .value_counts()  # groupby and count, but returns a struct
+        .struct.field("count")  # extract the field named "count"
+        .entropy(base=base, normalize=True)
+    )
-- 
2.43.0


From 9d076196dac57db77633c239d1098f6dc7743108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 063/135] fix: first digit counts do not include the values
 under nulls

---
 src/num_ext/benford.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/benford.rs b/src/num_ext/benford.rs
index dfcee45..d4e62d1 100644
--- a/src/num_ext/benford.rs
+++ b/src/num_ext/benford.rs
@@ -18,7 +18,8 @@ fn first_digit<T: Integer + Copy>(u: T) -> T {
 #[polars_expr(output_type_func=list_u32_output)]
 fn pl_benford_law(inputs: &[Series]) -> PolarsResult<Series> {
     let mut out = [0; 10];
-    let s = &inputs[0];
+    // Values under nulls must not be counted
+    let s = inputs[0].drop_nulls();
     match s.dtype() {
         DataType::UInt8 => {
             let ss = s.u8().unwrap();
-- 
2.43.0


From 747109ca5b54280653a0c4a8560289250216289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:24 +0000
Subject: [PATCH 064/135] fix: query_similar_count with sqzl2 runs in group_by

---
 python/polars_ds/exprs/ts_features.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index eba0fa1..d040c6b 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -290,10 +290,9 @@ def query_similar_count(
             t.rolling_var(window_size=len(q)).slice(len(q) - 1, None).fill_nan(1e-10),
             pl.lit(1e-10, dtype=pl.Float64),
         )
-        qq = pl.lit(q)
         args = [
             t.rechunk(),
-            ((qq - qq.mean()) / qq.std()).rechunk(),
+            (q - q.mean()) / q.std(),
             rolling_mean.rechunk(),
             rolling_var.rechunk(),
         ]
-- 
2.43.0


From 23e00fd58f996b133895cc590b75a9cc2af03198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 065/135] fix: random expressions are not declared elementwise

---
 python/polars_ds/exprs/stats.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index e7da4ee..2b86f70 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -399,7 +399,6 @@ def perturb(
     return pl_plugin(
         symbol="pl_perturb",
         args=[str_to_expr(x), lo, hi, pl.lit(seed, dtype=pl.UInt64)],
-        is_elementwise=True,
     )
 
 
@@ -429,7 +428,6 @@ def jitter(x: str | pl.Expr, std: float | pl.Expr = 1.0, seed: int | None = None
     return pl_plugin(
         symbol="pl_jitter",
         args=[str_to_expr(x), s, pl.lit(seed, dtype=pl.UInt64)],
-        is_elementwise=True,
     )
 
 
@@ -511,7 +509,6 @@ def random(
     return pl_plugin(
         symbol="pl_random",
         args=[len_, lo, up, pl.lit(seed, pl.UInt64)],
-        is_elementwise=True,
     )
 
 
@@ -571,7 +568,6 @@ def random_int(
             hi,
             pl.lit(seed, pl.UInt64),
         ],
-        is_elementwise=True,
     )
 
 
@@ -608,7 +604,6 @@ def random_str(
             pl.lit(ma, pl.UInt32),
             pl.lit(seed, pl.UInt64),
         ],
-        is_elementwise=True,
     )
 
 
@@ -640,7 +635,6 @@ def random_binomial(
             pl.lit(p, pl.Float64),
             pl.lit(seed, pl.UInt64),
         ],
-        is_elementwise=True,
     )
 
 
@@ -666,7 +660,6 @@ def random_exp(
             pl.lit(lambda_, pl.Float64),
             pl.lit(seed, pl.UInt64),
         ],
-        is_elementwise=True,
     )
 
 
@@ -698,7 +691,6 @@ def random_normal(
             pl.lit(std, pl.Float64) if isinstance(std, float) else std,
             pl.lit(seed, pl.UInt64),
         ],
-        is_elementwise=True,
     )
 
 
-- 
2.43.0


From 815ff358a34192964e8bc8f54e2166de7ab3e8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 066/135] fix: random_binomial passes n as UInt32

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 2b86f70..e77f3bd 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -631,7 +631,7 @@ def random_binomial(
         symbol="pl_rand_binomial",
         args=[
             pl.lit(length, pl.UInt32) if isinstance(length, int) else length,
-            pl.lit(n, pl.Int32),
+            pl.lit(n, pl.UInt32),
             pl.lit(p, pl.Float64),
             pl.lit(seed, pl.UInt64),
         ],
-- 
2.43.0


From 526435a6a460f44e3d7f6b28e4aed6e51fa380ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 067/135] fix: random and random_normal accept integer
 parameters

---
 python/polars_ds/exprs/stats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index e77f3bd..b1c71fb 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -503,8 +503,8 @@ def random(
     length
         Custom length. Note length needs to match with other columns in the context.
     """
-    lo = pl.lit(lower, pl.Float64) if isinstance(lower, float) else lower
-    up = pl.lit(upper, pl.Float64) if isinstance(upper, float) else upper
+    lo = pl.lit(lower, pl.Float64) if isinstance(lower, (int, float)) else lower.cast(pl.Float64)
+    up = pl.lit(upper, pl.Float64) if isinstance(upper, (int, float)) else upper.cast(pl.Float64)
     len_ = pl.lit(length, pl.UInt32) if isinstance(length, int) else length
     return pl_plugin(
         symbol="pl_random",
@@ -687,8 +687,8 @@ def random_normal(
         symbol="pl_rand_normal",
         args=[
             pl.lit(length, pl.UInt32) if isinstance(length, int) else length,
-            pl.lit(mean, pl.Float64) if isinstance(mean, float) else mean,
-            pl.lit(std, pl.Float64) if isinstance(std, float) else std,
+            pl.lit(mean, pl.Float64) if isinstance(mean, (int, float)) else mean.cast(pl.Float64),
+            pl.lit(std, pl.Float64) if isinstance(std, (int, float)) else std.cast(pl.Float64),
             pl.lit(seed, pl.UInt64),
         ],
     )
-- 
2.43.0


From f7d178adee875dbe71cca1d251e2a05d17004f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 068/135] fix: jitter accepts an integer standard deviation

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index b1c71fb..6431696 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -415,7 +415,7 @@ def jitter(x: str | pl.Expr, std: float | pl.Expr = 1.0, seed: int | None = None
     seed
         A random seed
     """
-    if isinstance(std, float):
+    if isinstance(std, (int, float)):
         if std < 0:
             raise ValueError("Standard deviation must be positive.")
         elif std == 0:
-- 
2.43.0


From c85cb50e1d2b2cb7329f37a0a3e5029cc7981de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 069/135] fix: perturb by an epsilon of 0 changes nothing
 instead of a panic

---
 python/polars_ds/exprs/stats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 6431696..2153c7f 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -388,6 +388,9 @@ def perturb(
         raise ValueError("Input `epsilon should be a valid finite value.`")
 
     ep = abs(epsilon)
+    if ep == 0.0:
+        return str_to_expr(x)
+
     if positive:
         lo = pl.lit(0.0, dtype=pl.Float64)
         hi = pl.lit(ep, dtype=pl.Float64)
-- 
2.43.0


From d4ad0a1c294ccc4b031550a2138f6a0d9ddfa31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 070/135] fix: random_int accepts expressions as bounds

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 2153c7f..b092bdc 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -557,7 +557,7 @@ def random_int(
     length
         Custom length. Note length needs to match with other columns in the context.
     """
-    if lower == upper:
+    if isinstance(lower, int) and isinstance(upper, int) and lower == upper:
         raise ValueError("Input `lower` must be smaller than `higher`")
 
     lo = pl.lit(lower, pl.Int32) if isinstance(lower, int) else lower.cast(pl.Int32)
-- 
2.43.0


From 9d87d03cc6d995849643341e352f55713c4f140d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 071/135] fix: random_str is declared as a String column

---
 src/stats/sample.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats/sample.rs b/src/stats/sample.rs
index e95c2db..d3eacb0 100644
--- a/src/stats/sample.rs
+++ b/src/stats/sample.rs
@@ -184,7 +184,7 @@ fn pl_rand_normal(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type=String)]
 fn pl_rand_str(inputs: &[Series]) -> PolarsResult<Series> {
     let len = inputs[0].u32()?;
     let len = len.get(0).unwrap() as usize;
-- 
2.43.0


From f41af1e5ed7c0b9139f2772ef0d32b7e1c261eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 072/135] fix: downsample keeps the rows whose condition is
 null

The condition is not true there, so those rows are not part of the subset to thin.
---
 python/polars_ds/sample_and_split/sample_and_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 5a0c40c..042c84e 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -157,7 +157,7 @@ def downsample(
     >>>     [(pl.col("y").is_between(1, 2, closed="both"), 0.5)]
     >>> )
     """
-    all_filters = ((_sampler_expr(r, seed).over(c) | (~c)) for c, r in conditions)
+    all_filters = ((_sampler_expr(r, seed).over(c) | (~c).fill_null(True)) for c, r in conditions)
     return df.lazy().filter(pl.lit(True).and_(*all_filters)).collect()
 
 
-- 
2.43.0


From 2d0020bebe38e7fa1c6aff751dd821f5ec06be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 073/135] fix: random_cols uses its seed

---
 python/polars_ds/sample_and_split/sample_and_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 042c84e..aa36884 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -193,7 +193,7 @@ def random_cols(
     if pool_size < k:
         raise ValueError("Not enough columns to select from.")
 
-    n = random.randrange(0, math.comb(pool_size, k))
+    n = random.Random(seed).randrange(0, math.comb(pool_size, k))
     rand_cols = next(islice(to_sample, n, None), None)
     return out + list(rand_cols)
 
-- 
2.43.0


From 090c838a2fa83652bd9f25c8ead39cea2e8095a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 074/135] fix: split_by_ratio returns an empty frame for a side
 without rows

It raised a KeyError, e.g. for a single row.
---
 python/polars_ds/sample_and_split/sample_and_split.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index aa36884..d5cddcf 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -233,10 +233,9 @@ def split_by_ratio(
                     "__tt"
                 )
             )
-            .partition_by("__tt", as_dict=True)
         )
-        train = frames[(True,)].select(pl.col("*").exclude(["__id", "__tt"]))
-        test = frames[(False,)].select(pl.col("*").exclude(["__id", "__tt"]))
+        train = frames.filter(pl.col("__tt")).select(pl.col("*").exclude(["__id", "__tt"]))
+        test = frames.filter(~pl.col("__tt")).select(pl.col("*").exclude(["__id", "__tt"]))
         return [train, test]
     else: # Should work with iterable (with a length), not just list
         if len(split_ratio) == 1:
-- 
2.43.0


From a85b45f391fa6d6326466c6c9e05d47ce4e487d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 075/135] fix: split_by_ratio accepts ratios whose float sum is
 1 up to rounding

[0.01, 0.29, 0.70] was rejected.
---
 python/polars_ds/sample_and_split/sample_and_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index d5cddcf..034676a 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -241,7 +241,7 @@ def split_by_ratio(
         if len(split_ratio) == 1:
             return split_by_ratio(df, split_ratio[0], seed)
         else:
-            if sum(split_ratio) != 1:
+            if not math.isclose(sum(split_ratio), 1.0):
                 raise ValueError("Sum of the ratios is not 1.")
 
             df_eager = (
-- 
2.43.0


From 4cac5b66c1346c9e4429e90e933ae29485f1d362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 076/135] fix: split_by_ratio with a list of ratios does not
 drop rows

int(n * ratio) per part lost up to one row for every part.
---
 python/polars_ds/sample_and_split/sample_and_split.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 034676a..422c2a4 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -254,12 +254,16 @@ def split_by_ratio(
 
             n = len(df_eager)
             start = 0
+            cumulative = 0.0
             dfs = []
             for v in split_ratio:
-                length = int(n * v)
+                cumulative += v
+                end = min(round(n * cumulative), n)
                 dfs.append(
-                    df_eager.slice(start, length=length).select(pl.col("*").exclude(["__id", "__tt"]))
+                    df_eager.slice(start, length=end - start).select(
+                        pl.col("*").exclude(["__id", "__tt"])
+                    )
                 )
-                start += length
+                start = end
 
             return dfs
-- 
2.43.0


From 6f6c4fdfcf1ff7432d42c2300889eb8a4504e5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 077/135] fix: nan_to_null step works

Polars expressions have no nan_to_null method; every use raised AttributeError.
---
 python/polars_ds/modeling/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index cfea244..0aa3cff 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -433,7 +433,7 @@ class Blueprint:
         """
         Maps NaN values in all columns to null.
         """
-        self._steps.append(PipelineStep(cs.float().nan_to_null(), PLContext.WITH_COLUMNS))
+        self._steps.append(PipelineStep(cs.float().fill_nan(None), PLContext.WITH_COLUMNS))
         return self
 
     def int_to_float(self, f32: bool = True) -> Self:
-- 
2.43.0


From cd0ba0d5543ed84d617b77d4e62c2d1f22cbd6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 078/135] fix: imputing the mode works

mode() is not a list, so every mode imputation raised a SchemaError; and null is not a value to impute with.
---
 python/polars_ds/modeling/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index bf139cc..7b1f98d 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -44,7 +44,7 @@ def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean"
         temp = df.lazy().select(pl.col(cols).median()).collect().row(0)
         return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
     elif method == "mode":
-        temp = df.lazy().select(pl.col(cols).mode().list.first()).collect().row(0)
+        temp = df.lazy().select(pl.col(cols).drop_nulls().mode().first()).collect().row(0)
         return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
     else:
         raise ValueError(f"Unknown impute method: `{method}`")
@@ -98,7 +98,7 @@ def conditional_impute(
             df.lazy()
             .select(
                 *(
-                    pl.col(c).filter(rules_dict[c].not_()).mode().list.first()
+                    pl.col(c).filter(rules_dict[c].not_()).drop_nulls().mode().first()
                     for c in rules_dict.keys()
                 )
             )
-- 
2.43.0


From b5287a7c93909aadfda615fb56c996af82cc1520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 079/135] fix: conditional_impute of a string column imputes
 the mode, not a column of that name

---
 python/polars_ds/modeling/transforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 7b1f98d..be25150 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -81,7 +81,7 @@ def conditional_impute(
             .row(0)
         )
         return [
-            pl.when(rules_dict[c]).then(m).otherwise(pl.col(c)).alias(c) for c, m in zip(cols, temp)
+            pl.when(rules_dict[c]).then(pl.lit(m)).otherwise(pl.col(c)).alias(c) for c, m in zip(cols, temp)
         ]
     elif method == "median":
         temp = (
@@ -91,7 +91,7 @@ def conditional_impute(
             .row(0)
         )
         return [
-            pl.when(rules_dict[c]).then(m).otherwise(pl.col(c)).alias(c) for c, m in zip(cols, temp)
+            pl.when(rules_dict[c]).then(pl.lit(m)).otherwise(pl.col(c)).alias(c) for c, m in zip(cols, temp)
         ]
     elif method == "mode":
         temp = (
@@ -106,7 +106,7 @@ def conditional_impute(
             .row(0)
         )
         return [
-            pl.when(rules_dict[c]).then(m).otherwise(pl.col(c)).alias(c) for c, m in zip(cols, temp)
+            pl.when(rules_dict[c]).then(pl.lit(m)).otherwise(pl.col(c)).alias(c) for c, m in zip(cols, temp)
         ]
     else:
         raise ValueError(f"Unknown impute method: `{method}`")
-- 
2.43.0


From d2971879f673d218171e49200bca6959af35b4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 080/135] fix: min_max scaling of small or unsigned integers
 does not wrap around

Int8 values -100 and 100 were scaled with 100 - (-100) computed in Int8; unsigned values below the learned minimum wrapped too.
---
 python/polars_ds/modeling/transforms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index be25150..627daf7 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -210,8 +210,12 @@ def scale(
             .row(0)
         )
         n = len(cols)
+        # Differences of small integers may not fit in their own type
+        mins = [
+            pl.lit(m, dtype=pl.Int64) if isinstance(m, int) and m < 2**63 else m for m in temp[:n]
+        ]
         # If input is constant, this will return all NaNs.
-        return [(pl.col(c) - temp[i]) / (temp[n + i] - temp[i]) for i, c in enumerate(cols)]
+        return [(pl.col(c) - mins[i]) / (temp[n + i] - temp[i]) for i, c in enumerate(cols)]
     elif method == "abs_max":
         temp = (
             df.lazy()
-- 
2.43.0


From 2ad91fddf89089a63323101c223a7c74e1ce1108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 081/135] fix: abs_max scaling of the smallest integer does not
 wrap around

abs(-128) was computed in Int8.
---
 python/polars_ds/modeling/transforms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 627daf7..7eface6 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -219,7 +219,12 @@ def scale(
     elif method == "abs_max":
         temp = (
             df.lazy()
-            .select(pl.max_horizontal(pl.col(c).min().abs(), pl.col(c).max().abs()) for c in cols)
+            .select(
+                pl.max_horizontal(
+                    pl.col(c).min().cast(pl.Float64).abs(), pl.col(c).max().cast(pl.Float64).abs()
+                ).alias(c)
+                for c in cols
+            )
             .collect()
             .row(0)
         )
-- 
2.43.0


From 27ed0220e55fb5d86bbee37f11298d3b4756f791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 082/135] fix: target_encode accepts categorical columns

The plugin cannot receive them, it panicked.
---
 python/polars_ds/exprs/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 9b8cc07..b36a66d 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -1009,7 +1009,7 @@ def target_encode(
         t = pl.lit(pl.Series(values=target))
     return pl_plugin(
         symbol="pl_target_encode",
-        args=[str_to_expr(s), t, t.mean()],
+        args=[str_to_expr(s).cast(pl.String), t, t.mean()],
         kwargs={"min_samples_leaf": float(min_samples_leaf), "smoothing": smoothing},
         changes_length=True,
     )
-- 
2.43.0


From 9b7d73c5b2a8ff82a2f7faa500684f50808b147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 083/135] fix: the select step accepts column names

---
 python/polars_ds/modeling/pipeline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index 0aa3cff..cb295bb 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -535,6 +535,10 @@ class Blueprint:
         cols
             Any Polars expression that can be understood as columns.
         """
+        if isinstance(cols, str) or (
+            isinstance(cols, list) and all(isinstance(c, str) for c in cols)
+        ):
+            cols = pl.col(cols)
         self._steps.append(PipelineStep(cols, PLContext.SELECT))
         return self
 
-- 
2.43.0


From f824c72b71ae1ba3cc386a81e7ca827e3d93d318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 084/135] fix: the rename step keeps columns whose name is also
 a new name

{a: b, b: a} lost both columns.
---
 python/polars_ds/modeling/pipeline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index cb295bb..c9794a3 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -646,13 +646,14 @@ class Blueprint:
         rename_dict
             The name mapping
         """
-        old = list(rename_dict.keys())
+        new = set(rename_dict.values())
+        old = [k for k in rename_dict.keys() if k not in new]
         self._steps.append(
             PipelineStep(
                 [pl.col(k).alias(v) for k, v in rename_dict.items()], PLContext.WITH_COLUMNS
             )
         )
-        return self.drop(old)
+        return self.drop(old) if len(old) > 0 else self
 
     def one_hot_encode(
         self,
-- 
2.43.0


From 3b51b4578f27eff13ff2a709ddda9dde965ca9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 085/135] fix: the input feature check knows lowercase and
 uppercase pipelines

The frame the pipeline was fitted on was rejected, because its names were compared with the renamed ones.
---
 python/polars_ds/modeling/pipeline.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index c9794a3..3213380 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -92,6 +92,14 @@ class Pipeline:
 
         return text
 
+    def _rename_incoming(self, df: PolarsFrame) -> pl.LazyFrame:
+        if self.lowercase:
+            return df.lazy().select(pl.all().name.to_lowercase())
+        elif self.uppercase:
+            return df.lazy().select(pl.all().name.to_uppercase())
+        else:
+            return df.lazy()
+
     def _generate_lazy_plan(self, df: PolarsFrame) -> pl.LazyFrame:
         """
         Generates a lazy plan for the incoming df
@@ -102,14 +110,7 @@ class Pipeline:
             If none, create the plan for the df that the pipe is initialized with. Otherwise,
             create the plan for the incoming df.
         """
-        if self.lowercase:
-            plan = df.lazy().select(pl.all().name.to_lowercase())
-        else:
-            if self.uppercase:
-                plan = df.lazy().select(pl.all().name.to_uppercase())
-            else:
-                plan = df.lazy()
-
+        plan = self._rename_incoming(df)
         for step in self.transforms:
             plan = step.apply_df(plan)
         return plan
@@ -237,7 +238,7 @@ class Pipeline:
             the target.
         """
         if self.ensure_features_in:
-            columns = df.lazy().collect_schema().names()
+            columns = self._rename_incoming(df).collect_schema().names()
             extras = [c for c in columns if c not in self.feature_names_in_]
             missing = [c for c in self.feature_names_in_ if c not in columns]
             if len(extras) > 0 or len(missing) > 0:
-- 
2.43.0


From a47591a62487c079fc0e508e08d6296f9958c89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 086/135] fix: the drop and one_hot_encode steps accept
 expressions

exclude() takes no expressions, so one_hot_encode(cs.string()) and drop(cs.string()) raised a TypeError.
one_hot_encode does not drop the target or excluded columns, which it does not encode.
---
 python/polars_ds/modeling/_structures.py | 15 ++++++++-------
 python/polars_ds/modeling/pipeline.py    | 20 +++++++++++++++++---
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/python/polars_ds/modeling/_structures.py b/python/polars_ds/modeling/_structures.py
index 6517347..ae8b14a 100644
--- a/python/polars_ds/modeling/_structures.py
+++ b/python/polars_ds/modeling/_structures.py
@@ -9,11 +9,19 @@ from typing import List, Sequence, Dict
 from polars._typing import IntoExprColumn
 
 
+class PLContext(Enum):
+    SELECT = "select"
+    WITH_COLUMNS = "with_columns"
+    SQL = "sql"
+    FILTER = "filter"
+
+
 @dataclass
 class FitStep:  # Not a FittedStep
     func: FitTransformFunc
     cols: IntoExprColumn | None
     exclude: List[str]
+    context: PLContext = PLContext.WITH_COLUMNS
 
     # Here we allow IntoExprColumn as input so that users can use selectors, or other polars expressions
     # to specify input columns, which adds flexibility.
@@ -30,13 +38,6 @@ class FitStep:  # Not a FittedStep
             return self.func(df, real_cols)
 
 
-class PLContext(Enum):
-    SELECT = "select"
-    WITH_COLUMNS = "with_columns"
-    SQL = "sql"
-    FILTER = "filter"
-
-
 class PipelineStep:
     def __init__(self, action: str | pl.Expr | Sequence[pl.Expr], context: str | PLContext):
         self.context = context if isinstance(context, PLContext) else PLContext(context)
diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index 3213380..c1cb53e 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -635,9 +635,22 @@ class Blueprint:
         cols
             Any Polars expression that can be understood as columns.
         """
+        if isinstance(cols, pl.Expr):
+            return self._drop_fitted(cols, [])
         self._steps.append(PipelineStep(pl.all().exclude(cols), PLContext.SELECT))
         return self
 
+    def _drop_fitted(self, cols: IntoExprColumn, exclude: List[str]) -> Self:
+        """
+        Drops the columns that the expression stands for at this step of the fit, apart from `exclude`.
+        """
+        self._steps.append(
+            FitStep(
+                lambda _, real_cols: pl.all().exclude(real_cols), cols, exclude, PLContext.SELECT
+            )
+        )
+        return self
+
     def rename(self, rename_dict: Dict[str, str]) -> Self:
         """
         Renames the columns by the mapping.
@@ -689,7 +702,7 @@ class Blueprint:
             )
         )
         if drop_cols:
-            return self.drop(cols)
+            return self._drop_fitted(cols, self.exclude)
         return self
 
     def rank_hot_encode(
@@ -935,8 +948,9 @@ class Blueprint:
             if isinstance(step, FitStep):  # Need fitting
                 df_temp = df_lazy.collect()
                 exprs = step.fit(df_temp)
-                transforms.append(PipelineStep(exprs, PLContext.WITH_COLUMNS))
-                df_lazy = df_temp.lazy().with_columns(exprs)
+                fitted_step = PipelineStep(exprs, step.context)
+                transforms.append(fitted_step)
+                df_lazy = fitted_step.apply_df(df_temp.lazy())
             elif isinstance(step, PipelineStep):
                 transforms.append(step)
                 df_lazy = step.apply_df(df_lazy)
-- 
2.43.0


From 1700f63ccc2a0c590bbc6534bf0f62b0b8460946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:27 +0000
Subject: [PATCH 087/135] fix: target encoding of several columns at once works

All results were called target_encoded, which is an error for two columns.
---
 python/polars_ds/modeling/transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 7eface6..c5a54b4 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -479,7 +479,9 @@ def target_encode(
     temp = temp.select(
         pds_num.target_encode(
             c, target, min_samples_leaf=min_samples_leaf, smoothing=smoothing
-        ).implode()
+        )
+        .implode()
+        .alias(c)
         for c in valid_cols
     ).collect()  # add collect config..
     return [
-- 
2.43.0


From 5e4d54a11eef668cdc8bdae35b19e4903e1edd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:27 +0000
Subject: [PATCH 088/135] fix: polynomial features are plain expressions, so
 that their pipelines can be saved

pl.reduce with a Python function cannot be serialised.
---
 python/polars_ds/modeling/transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index c5a54b4..14c102b 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -617,13 +617,15 @@ def polynomial_features(
     interaction_only
         It true, only combinations that involve 2 or more variables will be used.
     """
+    from functools import reduce
     from itertools import combinations_with_replacement
+    from operator import mul
 
     if degree <= 1:
         raise ValueError("Degree should be > 1.")
 
     return list(
-        pl.reduce(function=lambda acc, x: acc * x, exprs=list(comb)).alias("*".join(comb))
+        reduce(mul, (pl.col(c) for c in comb)).alias("*".join(comb))
         for comb in combinations_with_replacement(cols, degree)
         if ((not interaction_only) or len(set(comb)) > 1)
     )
-- 
2.43.0


From 18f568c368516a59553964bca454a669ba14bc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:58 +0000
Subject: [PATCH 089/135] fix: saved pipelines with imputation or rank hot
 encoding can be reloaded

The implicit cast of fill_null is not part of a serialized Polars expression: a reloaded pipeline panicked
when the fill value and the column were of different types.
---
 python/polars_ds/modeling/transforms.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 14c102b..a96ff60 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -23,6 +23,14 @@ import polars_ds.exprs.num as pds_num
 import polars_ds.exprs.expr_linear as lr
 
 
+def _fill_null(col: str, value: pl.Expr) -> pl.Expr:
+    """
+    Fills nulls in the column, without the implicit cast of `.fill_null`, which gets lost when the
+    expression is serialized.
+    """
+    return pl.when(pl.col(col).is_null()).then(value).otherwise(pl.col(col)).alias(col)
+
+
 def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean") -> ExprTransform:
     """
     Impute null values in the given columns. This transform will collect if input is lazy.
@@ -39,13 +47,13 @@ def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean"
     """
     if method == "mean":
         temp = df.lazy().select(pl.col(cols).mean()).collect().row(0)
-        return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
+        return [_fill_null(c, pl.lit(m)) for c, m in zip(cols, temp)]
     elif method == "median":
         temp = df.lazy().select(pl.col(cols).median()).collect().row(0)
-        return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
+        return [_fill_null(c, pl.lit(m)) for c, m in zip(cols, temp)]
     elif method == "mode":
         temp = df.lazy().select(pl.col(cols).drop_nulls().mode().first()).collect().row(0)
-        return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
+        return [_fill_null(c, pl.lit(m)) for c, m in zip(cols, temp)]
     else:
         raise ValueError(f"Unknown impute method: `{method}`")
 
@@ -152,7 +160,7 @@ def linear_impute(
     if add_bias:
         linear_eq.append(pl.lit(coeffs[-1], dtype=pl.Float64))
 
-    return [pl.col(target_name).fill_null(pl.sum_horizontal(linear_eq)).alias(target_name)]
+    return [_fill_null(target_name, pl.sum_horizontal(linear_eq).cast(pl.Float64))]
 
 
 def center(df: PolarsFrame, cols: List[str]) -> ExprTransform:
@@ -395,7 +403,7 @@ def rank_hot_encode(
         old=ranking, new=number_rank, default=None, return_dtype=pl.Int32
     )
     return [
-        (ranked_expr >= i).cast(pl.Int8).fill_null(-1).alias(f"{col}>={c}")
+        (ranked_expr >= i).cast(pl.Int8).fill_null(pl.lit(-1, dtype=pl.Int8)).alias(f"{col}>={c}")
         for i, c in zip(range(1, n_ranks), ranking[1:])
     ]
 
-- 
2.43.0


From 1ab6e6487a8ec667a4dcb07a5e68fcfa589b6a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 090/135] fix: target_encode accepts a Float32 target

The mean is then Float32, which the plugin refused; int_to_float makes such targets in pipelines.
---
 python/polars_ds/exprs/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index b36a66d..768a81d 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -1009,7 +1009,7 @@ def target_encode(
         t = pl.lit(pl.Series(values=target))
     return pl_plugin(
         symbol="pl_target_encode",
-        args=[str_to_expr(s).cast(pl.String), t, t.mean()],
+        args=[str_to_expr(s).cast(pl.String), t, t.mean().cast(pl.Float64)],
         kwargs={"min_samples_leaf": float(min_samples_leaf), "smoothing": smoothing},
         changes_length=True,
     )
-- 
2.43.0


From 4958333b8aaf8996fc75aa834260a545def393c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 091/135] fix: imputing the mode keeps the type of a
 categorical column

Polars turned the when-then expression of a filled categorical column into a String.
---
 python/polars_ds/modeling/transforms.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index a96ff60..d29432f 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -53,7 +53,8 @@ def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean"
         return [_fill_null(c, pl.lit(m)) for c, m in zip(cols, temp)]
     elif method == "mode":
         temp = df.lazy().select(pl.col(cols).drop_nulls().mode().first()).collect().row(0)
-        return [_fill_null(c, pl.lit(m)) for c, m in zip(cols, temp)]
+        schema = df.lazy().select(cols).collect_schema()
+        return [_fill_null(c, pl.lit(m, dtype=schema[c])) for c, m in zip(cols, temp)]
     else:
         raise ValueError(f"Unknown impute method: `{method}`")
 
@@ -113,8 +114,10 @@ def conditional_impute(
             .collect()
             .row(0)
         )
+        schema = df.lazy().select(cols).collect_schema()
         return [
-            pl.when(rules_dict[c]).then(pl.lit(m)).otherwise(pl.col(c)).alias(c) for c, m in zip(cols, temp)
+            pl.when(rules_dict[c]).then(pl.lit(m, dtype=schema[c])).otherwise(pl.col(c)).alias(c)
+            for c, m in zip(cols, temp)
         ]
     else:
         raise ValueError(f"Unknown impute method: `{method}`")
-- 
2.43.0


From b71b1200df00d3f6261f9e69938ede3aa28bddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 092/135] fix: principal_components declares the k components
 it returns

The declared type of the lazy query had one component more than there are features, whatever k was.
---
 python/polars_ds/exprs/num.py | 12 ++++++++----
 src/num_ext/pca.rs            | 22 +++++++++++++++-------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 768a81d..b80ee76 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -361,13 +361,17 @@ def principal_components(
     if k > len(feats) or k <= 0:
         raise ValueError("Input `k` should be between 1 and the number of features inclusive.")
 
-    actual_inputs = [pl.lit(k, dtype=pl.UInt32)]
     if center:
-        actual_inputs.extend(f - f.mean() for f in feats)
+        actual_inputs = [f - f.mean() for f in feats]
     else:
-        actual_inputs.extend(feats)
+        actual_inputs = feats
 
-    return pl_plugin(symbol="pl_principal_components", args=actual_inputs, pass_name_to_apply=True)
+    return pl_plugin(
+        symbol="pl_principal_components",
+        args=actual_inputs,
+        kwargs={"k": k},
+        pass_name_to_apply=True,
+    )
 
 
 def jaccard_row(first: str | pl.Expr, second: str | pl.Expr) -> pl.Expr:
diff --git a/src/num_ext/pca.rs b/src/num_ext/pca.rs
index 83d8951..0e733c4 100644
--- a/src/num_ext/pca.rs
+++ b/src/num_ext/pca.rs
@@ -7,6 +7,7 @@ use faer::{
 };
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
+use serde::Deserialize;
 
 pub fn singular_values_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
@@ -27,8 +28,16 @@ pub fn pca_output(_: &[Field]) -> PolarsResult<Field> {
     ))
 }
 
-pub fn principal_components_output(fields: &[Field]) -> PolarsResult<Field> {
-    let components: Vec<_> = (0..fields.len())
+#[derive(Deserialize, Debug)]
+pub(crate) struct PCKwargs {
+    pub(crate) k: usize,
+}
+
+pub(crate) fn principal_components_output(
+    _: &[Field],
+    kwargs: PCKwargs,
+) -> PolarsResult<Field> {
+    let components: Vec<_> = (0..kwargs.k)
         .map(|i| Field::new(format!("pc{}", i + 1).into(), DataType::Float64))
         .collect();
     Ok(Field::new(
@@ -78,12 +87,11 @@ fn pl_singular_values(inputs: &[Series]) -> PolarsResult<Series> {
     Ok(out.into_series())
 }
 
-#[polars_expr(output_type_func=principal_components_output)]
-fn pl_principal_components(inputs: &[Series]) -> PolarsResult<Series> {
-    let k = inputs[0].u32()?;
-    let k = k.get(0).unwrap() as usize;
+#[polars_expr(output_type_func_with_kwargs=principal_components_output)]
+fn pl_principal_components(inputs: &[Series], kwargs: PCKwargs) -> PolarsResult<Series> {
+    let k = kwargs.k;
 
-    let mat = to_f64_matrix_fail_on_nulls(&inputs[1..], IndexOrder::Fortran)?;
+    let mat = to_f64_matrix_fail_on_nulls(inputs, IndexOrder::Fortran)?;
     let mat = mat.view().into_faer();
     let n = mat.nrows();
 
-- 
2.43.0


From eb1ef303e9580a9ee9cc099b402217c15f10e4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 093/135] fix: psi works in group_by

---
 python/polars_ds/exprs/num.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index b80ee76..2afe59e 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -478,6 +478,7 @@ def psi(
         .struct.field("brk")
         .value_counts()
         .sort()
+        .struct.rename_fields(["brk", "count"])  # no name is given in a group_by context
     )
 
     # breakpoints learned from ref
-- 
2.43.0


From 16be3716e4baf1281fe8ba743678196c58b40bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 094/135] fix: query_permute_entropy is right in a lazy
 group_by

The optimizer pushed .head() down into concat_list, where group_by mixes up the rows of the groups.
---
 python/polars_ds/exprs/ts_features.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index d040c6b..dcf5ec9 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -764,7 +764,8 @@ def query_permute_entropy(
     t = str_to_expr(ts)
     return (
         pl.concat_list(t, *(t.shift(-i * tau) for i in range(1, n_dims)))
-        .head(t.len() - (n_dims - 1) * tau)
+        # Not .head(..), because Polars pushes it down to the shifted columns, which breaks lazy group_by
+        .filter(pl.int_range(t.len()) + (n_dims - 1) * tau < t.len())
         .list.eval(pl.element().arg_sort())
         .value_counts()  # groupby and count, but returns a struct
         .struct.field("count")  # extract the field named "count"
-- 
2.43.0


From b7bcf2ecaf55035a623adc8bd308379df0de94c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 095/135] fix: chi2 with return_full works in group_by

Both variables had no name there, and the report could not be assembled.
---
 python/polars_ds/exprs/stats.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index b092bdc..d084d04 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -280,7 +280,10 @@ def chi2(var1: str | pl.Expr, var2: str | pl.Expr, return_full: bool = False) ->
     """
     if return_full:
         return pl_plugin(
-            symbol="pl_chi2_full", args=[str_to_expr(var1), str_to_expr(var2)], changes_length=True
+            symbol="pl_chi2_full",
+            args=[str_to_expr(var1), str_to_expr(var2)],
+            changes_length=True,
+            pass_name_to_apply=True,
         )
     else:
         return pl_plugin(
-- 
2.43.0


From 092cce9c752f0ccea53b16f616fd47aa629b69ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 096/135] fix: lin_reg_w_rcond is a scalar like lin_reg

It could not be broadcast in with_columns or over, and became a list in group_by.
---
 python/polars_ds/exprs/expr_linear.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/polars_ds/exprs/expr_linear.py b/python/polars_ds/exprs/expr_linear.py
index c4caf70..358bc2e 100644
--- a/python/polars_ds/exprs/expr_linear.py
+++ b/python/polars_ds/exprs/expr_linear.py
@@ -320,6 +320,7 @@ def lin_reg_w_rcond(
         symbol=_lin_reg_expr_symbol("pl_lstsq_w_rcond"),
         args=cols,
         kwargs=lr_kwargs,
+        returns_scalar=True,
         pass_name_to_apply=True,
     )
 
-- 
2.43.0


From c79c8e2f78fd9d35babc0baf02ce234fda8435d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 097/135] fix: neighbor frequencies have the declared field
 names in group_by

---
 python/polars_ds/exprs/expr_knn.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/expr_knn.py b/python/polars_ds/exprs/expr_knn.py
index e331f19..8e435c7 100644
--- a/python/polars_ds/exprs/expr_knn.py
+++ b/python/polars_ds/exprs/expr_knn.py
@@ -49,6 +49,16 @@ def warn_len_compare(item1: Iterable[Any], item2: Iterable[Any]) -> bool:
         return True
 
 
+def _count_nodes(neighbors: pl.Expr, index: str | pl.Expr, parallel: bool) -> pl.Expr:
+    """
+    Counts how often each index occurs in the lists of neighbors.
+    """
+    counts = neighbors.explode().drop_nulls().value_counts(sort=True, parallel=parallel)
+    # The name of the index is not passed on in a group_by context
+    name = str_to_expr(index).meta.output_name(raise_if_undetermined=False)
+    return counts if name is None else counts.struct.rename_fields([name, "count"])
+
+
 def query_dist_from_kth_nb(
     *features: str | pl.Expr,
     k: int,
@@ -259,7 +269,7 @@ def query_knn_freq_cnt(
         epsilon=epsilon,
         max_bound=max_bound,
     )
-    return knn_expr.explode().drop_nulls().value_counts(sort=True, parallel=parallel)
+    return _count_nodes(knn_expr, index, parallel)
 
 
 def query_knn_avg(
@@ -557,7 +567,7 @@ def query_radius_freq_cnt(
         *features, index=index, r=r, dist=dist, sort=False, parallel=parallel
     )
 
-    return within_radius.explode().drop_nulls().value_counts(sort=True, parallel=parallel)
+    return _count_nodes(within_radius, index, parallel)
 
 
 def query_nb_cnt(
-- 
2.43.0


From 50ac22d0966c561415e2c3db9bc97be00b36ab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 098/135] fix: compat passes NumPy scalars on as scalars

An option like np.float64(0.05) has __array__, and was turned into a literal expression.
---
 python/polars_ds/compat/_compat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/polars_ds/compat/_compat.py b/python/polars_ds/compat/_compat.py
index 26d0803..1df3a1b 100644
--- a/python/polars_ds/compat/_compat.py
+++ b/python/polars_ds/compat/_compat.py
@@ -25,6 +25,8 @@ class _Compat():
         """
         if isinstance(x, np.ndarray):
             return pl.lit(pl.Series(name=name, values=x))
+        elif isinstance(x, np.generic): # NumPy scalars have the array protocol, but are no series
+            return x.item()
         elif isinstance(x, pl.Series):
             return pl.lit(x)
         elif hasattr(x, "__array__"):
-- 
2.43.0


From 75241fe53a696e80b3f5fd6dc63b2805ddd91910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 099/135] fix: compat names unnamed Polars series like other
 inputs

---
 python/polars_ds/compat/_compat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/compat/_compat.py b/python/polars_ds/compat/_compat.py
index 1df3a1b..cd75c2a 100644
--- a/python/polars_ds/compat/_compat.py
+++ b/python/polars_ds/compat/_compat.py
@@ -27,8 +27,8 @@ class _Compat():
             return pl.lit(pl.Series(name=name, values=x))
         elif isinstance(x, np.generic): # NumPy scalars have the array protocol, but are no series
             return x.item()
-        elif isinstance(x, pl.Series):
-            return pl.lit(x)
+        elif isinstance(x, pl.Series): # Unnamed series would clash with each other in a struct
+            return pl.lit(x if x.name else x.alias(name))
         elif hasattr(x, "__array__"):
             return pl.lit(pl.Series(name=name, values=x.__array__()))
         else: 
-- 
2.43.0


From 6c379ef677e3fa36cb74092678e32e214c847a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 100/135] fix: haversine accepts any mix of scalars and columns

---
 src/num_ext/haversine.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/num_ext/haversine.rs b/src/num_ext/haversine.rs
index eccd6cb..142c86b 100644
--- a/src/num_ext/haversine.rs
+++ b/src/num_ext/haversine.rs
@@ -56,6 +56,19 @@ where
 
 #[polars_expr(output_type_func=float_output)]
 fn pl_haversine(inputs: &[Series]) -> PolarsResult<Series> {
+    // Scalars are broadcast to the length of the columns
+    let n = inputs
+        .iter()
+        .map(|s| s.len())
+        .find(|&len| len != 1)
+        .unwrap_or(1);
+    let inputs = inputs
+        .iter()
+        .map(|s| match s.len() {
+            1 => s.new_from_index(0, n),
+            _ => s.clone(),
+        })
+        .collect::<Vec<_>>();
     let out = match inputs[0].dtype() {
         DataType::Float32 => {
             let x_lat = inputs[0].f32().unwrap();
-- 
2.43.0


From 7130aafaaf16490fd333c32907a398dfc991357b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 101/135] fix: PartitionHelper reports a single column of an
 unsupported type

---
 python/polars_ds/partition/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/partition/partition.py b/python/polars_ds/partition/partition.py
index 4d838e8..32a5d72 100644
--- a/python/polars_ds/partition/partition.py
+++ b/python/polars_ds/partition/partition.py
@@ -44,7 +44,7 @@ class PartitionHelper():
                 (cs.by_name(by)) & (cs.string() | cs.categorical() | cs.boolean())
             ).collect_schema().names()
 
-            all_ok = cols[0] == by if isinstance(by, str) else sorted(cols) == sorted(by)
+            all_ok = cols == [by] if isinstance(by, str) else sorted(cols) == sorted(by)
             if not all_ok:
                 raise ValueError("Currently this only supports partitions by str, bool or categorical columns.")
 
-- 
2.43.0


From f3cda56bd74acb06b209a2389a8efec4a67b3087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 102/135] fix: PartitionHelper does not drop parts whose names
 are the same

---
 python/polars_ds/partition/partition.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/partition/partition.py b/python/polars_ds/partition/partition.py
index 32a5d72..1b27832 100644
--- a/python/polars_ds/partition/partition.py
+++ b/python/polars_ds/partition/partition.py
@@ -48,10 +48,14 @@ class PartitionHelper():
             if not all_ok:
                 raise ValueError("Currently this only supports partitions by str, bool or categorical columns.")
 
-            self.parts = {
-                separator.join((str(k) for k in keys)): value
-                for keys, value in df.lazy().collect().partition_by(by=by, as_dict=True).items()
-            }
+            self.parts = {}
+            for keys, value in df.lazy().collect().partition_by(by=by, as_dict=True).items():
+                name = separator.join((str(k) for k in keys))
+                if name in self.parts:
+                    raise ValueError(
+                        f"More than one part has the name `{name}`. Try a different separator, or fill nulls first."
+                    )
+                self.parts[name] = value
 
     def __repr__(self) -> str:
         output = ""
-- 
2.43.0


From 2b7a009bf68f864f8c4ff39c9ecf6eb47792f9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 103/135] fix: infer_discrete returns boolean and categorical
 columns

---
 python/polars_ds/eda/diagnosis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 07257ef..7126709 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -566,7 +566,7 @@ class DIA:
             .row(0)
         )
 
-        return [c for c, ok in zip(to_check, is_ok) if ok is True]
+        return out + [c for c, ok in zip(to_check, is_ok) if ok is True]
 
     @lru_cache
     def infer_const(self, include_null: bool = False) -> List[str]:
-- 
2.43.0


From 02097fff636e9d31280ab1d840d48879d3f31d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 104/135] fix: infer_prob checks every row of a list column

---
 python/polars_ds/eda/diagnosis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 7126709..b0db342 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -507,7 +507,9 @@ class DIA:
                         & (
                             pl.col(c).list.len().min() == pl.col(c).list.len().max()
                         )  # class prob column must have the same length
-                    ).alias(c)
+                    )
+                    .all()
+                    .alias(c)
                     for c in self.list_floats
                 ),
             )
-- 
2.43.0


From 9e9e4ea38009b17092fd37df9c7242c05331b8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 105/135] fix: row_validation does not give reasons for rules
 that are not violated

---
 python/polars_ds/eda/diagnosis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index b0db342..832a6ef 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -322,9 +322,9 @@ class DIA:
 
         if all_reasons:
             reasons = [
-                pl.when(pl.col(c)).then(None).otherwise(pl.lit(c, dtype=pl.String))
+                pl.when(pl.col(c).not_()).then(pl.lit(c, dtype=pl.String)).otherwise(None)
                 for c in all_rule_names
-            ]  # When true, return None. When false, return reason
+            ]  # When true (or null), return None. When false, return reason
 
             return df_temp.select(
                 *to_keep, pl.concat_list(reasons).list.drop_nulls().list.sort().alias("__reason__")
-- 
2.43.0


From 8dcac729ec7984a1aeeb842d29c6d49467573456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 106/135] fix: infer_dependency works for categorical columns

---
 python/polars_ds/eda/diagnosis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 832a6ef..96f4f52 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -759,8 +759,10 @@ class DIA:
             column.append(x)
             by.append(y)
 
+        # The plugin cannot read categoricals
         ce = (
-            self._frame.select(
+            self._frame.with_columns(pl.col(c).cast(pl.String) for c in self.cats)
+            .select(
                 query_cond_entropy(x, y).abs().alias(f"{i}")
                 for i, (x, y) in enumerate(zip(column, by))
             )
-- 
2.43.0


From 14c3de1bc9ba3a00a2e3ef37f87380d363b33496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 107/135] fix: DIA inference is empty when there is no column
 to check

---
 python/polars_ds/eda/diagnosis.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 96f4f52..5ef21f6 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -495,6 +495,9 @@ class DIA:
         between 0 and 1. For List[f32] or List[f64] columns, this checks whether the column can potentially be
         multi-class probabilities.
         """
+        if len(self.floats + self.list_floats) == 0:
+            return []
+
         is_ok = (
             self._frame.select(
                 *((pl.col(c).is_between(0.0, 1.0).all()).alias(c) for c in self.floats),
@@ -556,6 +559,9 @@ class DIA:
         """
         out: List[str] = self.bools + self.cats
         to_check = [c for c in self._frame.columns if c not in out]
+        if len(to_check) == 0:
+            return out
+
         is_ok = (
             self._frame.select(
                 (
@@ -692,6 +698,9 @@ class DIA:
             xx.append(x)
             yy.append(y)
 
+        if len(xx) == 0:
+            return pl.DataFrame(schema={"x": pl.String, "y": pl.String, "corr": pl.Float64})
+
         corrs = (
             self._frame.with_columns(pl.col(c).cast(pl.UInt8) for c in self.bools)
             .select(corr(x, y, method=method).alias(f"{i}") for i, (x, y) in enumerate(zip(xx, yy)))
-- 
2.43.0


From ea7f2598e6bfa8bd867e0dbe38216210b1a3c2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 108/135] fix: DIA.plot_feature_distr works with the default
 number of bins

---
 python/polars_ds/eda/diagnosis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 5ef21f6..9a2b798 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -832,7 +832,7 @@ class DIA:
     def plot_feature_distr(
         self,
         feature: str,
-        n_bins: int | None = None,
+        n_bins: int = 10,
         density: bool = False,
         show_bad_values: bool = True,
         min_: float | pl.Expr | None = None,
-- 
2.43.0


From ff6a513cb3ea41fed32cb790904506c151adf00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 109/135] fix: col_validation accepts many rules per column and
 many columns per rule

---
 python/polars_ds/eda/diagnosis.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 9a2b798..1d8e6ce 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -247,24 +247,24 @@ class DIA:
             A tuple of (pl.Expr, str), where the pl.Expr should evaluate to a single boolean value.
             If the boolean is False, then the entire column is considered to be violiating the rule.
         """
-        rules_to_check = list(rules)
-        rules_exprs = [r.name.keep() for r, _ in rules_to_check]
-        violation_messages = [msg for _, msg in rules_to_check]
-
-        df_temp = self._frame.select(*rules_exprs).collect()
+        # One frame per rule, because a rule may be about many columns, and a column may have many rules
+        df_rules = pl.collect_all([self._frame.select(r.name.keep()) for r, _ in rules])
+        violations = []
+        for df_temp, (_, msg) in zip(df_rules, rules):
+            if len(df_temp) > 1:
+                raise ValueError(
+                    "Column rules must evaluate to a single boolean expression for each rule. "
+                    f"But a dataframe of shape {df_temp.shape} is produced."
+                )
 
-        if len(df_temp) > 1:
-            raise ValueError(
-                "Column rules must evaluate to a single boolean expression for each rule. "
-                f"But a dataframe of shape {df_temp.shape} is produced."
-            )
+            violations += [
+                (name, msg) for name, ok in zip(df_temp.columns, df_temp.row(0)) if ok is False
+            ]
 
-        df_violation = df_temp.transpose(include_header=True, column_names=["pass"]).with_columns(
-            pl.Series(name="__reason__", values=violation_messages)
+        return pl.DataFrame(
+            violations, schema={"column": pl.String, "__reason__": pl.String}, orient="row"
         )
 
-        return df_violation.filter(pl.col("pass").not_()).select("column", "__reason__")
-
     def row_validation(
         self,
         *rules: Tuple[pl.Expr, str],
-- 
2.43.0


From ca18b6f08a2a4292aa3d2d8ccbcc045c989d4b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 110/135] fix: xi_corr works for unsigned integers

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index d084d04..c1458d0 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -1011,7 +1011,7 @@ def xi_corr(
     args = [
         xx.rank(method="random", seed=seed),
         yy.rank(method="max").cast(pl.Float64),
-        (-yy).rank(method="max").cast(pl.Float64),
+        yy.rank(method="max", descending=True).cast(pl.Float64),
     ]
     if return_p:
         return pl_plugin(
-- 
2.43.0


From 6536dae39405687944b7ad19b0b1c628ea03a1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 111/135] fix: infer_dependency is empty when there is no valid
 column

---
 python/polars_ds/eda/diagnosis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 1d8e6ce..5dd4a4f 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -736,10 +736,13 @@ class DIA:
         check_frame = self._frame.select(subset)
         all_names = check_frame.collect_schema().names()
         to_check = [x for x in all_names if x in valid]
-        n_uniques = check_frame.select(pl.col(c).n_unique() for c in to_check).collect().row(0)
+        df_uniques = check_frame.select(pl.col(c).n_unique() for c in to_check).collect()
 
         frame = (
-            pl.DataFrame({"column": to_check, "n_unique": n_uniques})
+            pl.DataFrame(
+                {"column": to_check, "n_unique": [df_uniques[c].item() for c in to_check]},
+                schema={"column": pl.String, "n_unique": pl.UInt32},
+            )
             .filter(pl.col("n_unique") > 1)
             .sort("n_unique")
         )
-- 
2.43.0


From 17dffa7581d5860f15cb88d3c28b5b3da5c8fa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 112/135] fix: DIA.corr works for frames with both float types

---
 python/polars_ds/eda/diagnosis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 5dd4a4f..0d129e5 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -455,7 +455,7 @@ class DIA:
             self._frame.select(
                 # This calls corr from .stats
                 pl.lit(x).alias("column"),
-                *(corr(x, y, method=method).alias(y) for y in self.numerics),
+                *(corr(x, y, method=method).cast(pl.Float64).alias(y) for y in self.numerics),
             )
             for x in to_check
         ]
-- 
2.43.0


From f3710566d63659bbb4ab4d0920f357ea972bfbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:33 +0000
Subject: [PATCH 113/135] fix: plot_roc_auc shows the area under the whole
 curve

---
 python/polars_ds/eda/plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/plots.py b/python/polars_ds/eda/plots.py
index e0c319f..1795487 100644
--- a/python/polars_ds/eda/plots.py
+++ b/python/polars_ds/eda/plots.py
@@ -530,13 +530,14 @@ def plot_roc_auc(
             .unnest("tpr_fpr")
             .select("tpr", "fpr")
         )
+        tpr_fpr = pl.concat([zero, tpr_fpr])
 
         text = p
         if show_auc:
             auc = tpr_fpr.select(integrate_trapz("tpr", "fpr")).item(0, 0)
             text += f" (AUC = {round(auc, n_decimals)})"
 
-        dfs.append(pl.concat([zero, tpr_fpr]).with_columns(name=pl.lit(text, dtype=pl.String)))
+        dfs.append(tpr_fpr.with_columns(name=pl.lit(text, dtype=pl.String)))
 
     perfect_line = pl.int_range(1, 100, step=5, eager=True) / 100
     df_line = pl.DataFrame({"fpr": perfect_line, "tpr": perfect_line}).with_columns(
-- 
2.43.0


From a2a6cb2ed5839573201800de1b83f3baf515d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 114/135] fix: plot_feature_distr works for columns with only
 nulls

---
 python/polars_ds/eda/plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/plots.py b/python/polars_ds/eda/plots.py
index 1795487..4c42e22 100644
--- a/python/polars_ds/eda/plots.py
+++ b/python/polars_ds/eda/plots.py
@@ -133,7 +133,8 @@ def plot_feature_distr(
 
         # stats overlay
         df_stats = pl.DataFrame(
-            {"names": ["p5", "median", "avg", "p95"], "stats": [p5, median, mean, p95]}
+            {"names": ["p5", "median", "avg", "p95"], "stats": [p5, median, mean, p95]},
+            schema_overrides={"stats": pl.Float64},
         )
 
         stats_base = alt.Chart(df_stats)
-- 
2.43.0


From e0878f8ba9ef3b926a1fc3d3874e414fa32f7db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 115/135] fix: k-nearest-neighbor queries missed neighbors
 exactly at the maximum distance in another box

---
 src/arkadia/kdt.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/arkadia/kdt.rs b/src/arkadia/kdt.rs
index d9f75a1..5185664 100644
--- a/src/arkadia/kdt.rs
+++ b/src/arkadia/kdt.rs
@@ -358,7 +358,9 @@ impl<'a, T: Float + DistanceOps + 'static + Debug, A: Copy> SpatialQueries<'a, T
             };
 
             let dist_to_box = _closest_dist_to_box(&next.bounds, point, self.dim, self.d); // (min dist from the box to point, the next Tree)
-            if dist_to_box + epsilon < current_max {
+            if dist_to_box + epsilon < current_max
+                || (top_k.len() < k && dist_to_box <= current_max)
+            {
                 pending.push((dist_to_box, next));
             }
         }
@@ -843,7 +845,9 @@ impl<'a, T: Float + DistanceOps + 'static + Debug, A: Copy> SpatialQueries<'a, T
             };
 
             let dist_to_box = _closest_dist_to_box(&next.bounds, point, self.dim, self.d); // (min dist from the box to point, the next Tree)
-            if dist_to_box + epsilon < current_max {
+            if dist_to_box + epsilon < current_max
+                || (top_k.len() < k && dist_to_box <= current_max)
+            {
                 pending.push((dist_to_box, next));
             }
         }
-- 
2.43.0


From c63315fad6739290df5c576cad02c82a21243d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 116/135] Revert "fix: normal_test keeps the sign of the cube
 root in the kurtosis statistic"

This reverts commit 9d12dd722c8eeaf56a26c350a75065ee7c17b04a.
---
 src/stats/normal_test.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/stats/normal_test.rs b/src/stats/normal_test.rs
index cdd3ca8..fca4eab 100644
--- a/src/stats/normal_test.rs
+++ b/src/stats/normal_test.rs
@@ -45,8 +45,7 @@ fn kurtosis_test_statistic(kur: f64, n: usize) -> f64 {
         f64::NAN
     } else {
         let term1 = 1. - tmp;
-        // keep the sign of denom
-        let term2 = denom.signum() * ((1. - 2. / a) / denom.abs()).cbrt();
+        let term2 = ((1. - 2. / a) / denom.abs()).cbrt();
         let z = (term1 - term2) / tmp.sqrt();
         z
     }
-- 
2.43.0


From 708e51a588699016855d1534a8c86098e2d37087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 117/135] fix: neighbor queries with a tiny distance bound or
 radius are not empty

---
 src/arkadia/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arkadia/mod.rs b/src/arkadia/mod.rs
index 9413bdb..084fd76 100644
--- a/src/arkadia/mod.rs
+++ b/src/arkadia/mod.rs
@@ -101,7 +101,7 @@ pub trait SpatialQueries<'a, T: Float + 'static, A> {
         if k == 0
             || (point.len() != self.dim())
             || (point.iter().any(|x| !x.is_finite()))
-            || max_dist_bound <= T::epsilon()
+            || max_dist_bound <= T::zero()
         {
             None
         } else {
@@ -134,7 +134,7 @@ pub trait SpatialQueries<'a, T: Float + 'static, A> {
 
     fn within(&self, point: &[T], radius: T, sort: bool) -> Option<Vec<NB<T, A>>> {
         // radius is actually squared radius
-        if radius <= T::zero() + T::epsilon() || (point.iter().any(|x| !x.is_finite())) {
+        if radius <= T::zero() || (point.iter().any(|x| !x.is_finite())) {
             None
         } else {
             // Always allocate some.
@@ -153,7 +153,7 @@ pub trait SpatialQueries<'a, T: Float + 'static, A> {
 
     fn within_count(&self, point: &[T], radius: T) -> Option<u32> {
         // radius is actually squared radius
-        if radius <= T::zero() + T::epsilon() || (point.iter().any(|x| !x.is_finite())) {
+        if radius <= T::zero() || (point.iter().any(|x| !x.is_finite())) {
             None
         } else {
             // Always allocate some.
-- 
2.43.0


From 0c549bd69c1487ff999c827a0ff1b295f93e0273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 118/135] fix: linear models do not drop a tiny bias

---
 src/linalg/lr_online_solvers.rs | 2 +-
 src/linalg/lr_solvers.rs        | 8 ++++----
 src/linalg/mod.rs               | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 75a1f3a..fe13bee 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -39,7 +39,7 @@ impl<T: RealField + Float> OnlineLR<T> {
         inv: MatRef<T>,
     ) -> Result<(), LinalgErrors> {
         // With a bias, the inverse has one more row and column for the constant feature
-        let has_bias = bias.abs() > T::epsilon() || inv.ncols() == coeffs.len() + 1;
+        let has_bias = bias.abs() > T::zero() || inv.ncols() == coeffs.len() + 1;
         if coeffs.len() + has_bias as usize != inv.ncols() || inv.nrows() != inv.ncols() {
             Err(LinalgErrors::DimensionMismatch)
         } else {
diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index 4bb4c8a..186c32a 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -27,12 +27,12 @@ impl<T: RealField + Float> LR<T> {
             solver: LRSolverMethods::default(),
             lambda: T::zero(),
             coefficients: faer::mat::Mat::from_fn(coeffs.len(), 1, |i, _| coeffs[i]),
-            has_bias: bias.abs() > T::epsilon(),
+            has_bias: bias.abs() > T::zero(),
         }
     }
 
     pub fn set_coeffs_and_bias(&mut self, coeffs: &[T], bias: T) {
-        self.has_bias = bias.abs() > T::epsilon();
+        self.has_bias = bias.abs() > T::zero();
         if self.has_bias {
             self.coefficients = Mat::from_fn(coeffs.len() + 1, 1, |i, _| {
                 if i < coeffs.len() {
@@ -89,7 +89,7 @@ impl<T: RealField + Float> ElasticNet<T> {
     }
 
     pub fn from_values(coeffs: &[T], bias: T) -> Self {
-        let has_bias = bias.abs() > T::epsilon();
+        let has_bias = bias.abs() > T::zero();
         let coefficients = if has_bias {
             Mat::from_fn(coeffs.len() + 1, 1, |i, _| {
                 if i < coeffs.len() {
@@ -113,7 +113,7 @@ impl<T: RealField + Float> ElasticNet<T> {
     }
 
     pub fn set_coeffs_and_bias(&mut self, coeffs: &[T], bias: T) {
-        self.has_bias = bias.abs() > T::epsilon();
+        self.has_bias = bias.abs() > T::zero();
         self.coefficients = if self.has_bias {
             Mat::from_fn(coeffs.len() + 1, 1, |i, _| {
                 if i < coeffs.len() {
diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 14de2c9..f1b1d34 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -173,7 +173,7 @@ pub trait LinearRegression<T: RealField + Float> {
         } else {
             let mut result = X * self.coefficients();
             let bias = self.bias();
-            if self.has_bias() && self.bias().abs() > T::epsilon() {
+            if self.has_bias() && self.bias().abs() > T::zero() {
                 unsafe {
                     for i in 0..result.nrows() {
                         *result.get_mut_unchecked(i, 0) = *result.get_mut_unchecked(i, 0) + bias;
-- 
2.43.0


From 1f7ec68ae9daa3afa9f198c2d412c14472caec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 119/135] fix: linear regression with a bias works for a
 feature named __bias__

---
 src/num_ext/linear_regression.rs     | 15 +++++++++++++--
 src/num_ext/linear_regression_f32.rs |  6 ++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 40a08f6..b27ae84 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -162,6 +162,15 @@ impl Into<PlSmallStr> for StandardError {
 // -----------------------------------------------------------------------------------------------------
 
 /// Returns a Array2 ready for linear regression, and a mask, where true means the row doesn't contain null
+/// A name for the constant column that none of the columns in df has
+pub(crate) fn bias_name(df: &DataFrame) -> String {
+    let mut name = String::from("__bias__");
+    while df.get_column_index(&name).is_some() {
+        name.push('_');
+    }
+    name
+}
+
 #[inline(always)]
 fn series_to_mat_for_lstsq(
     inputs: &[Series],
@@ -180,7 +189,8 @@ fn series_to_mat_for_lstsq(
     }
     // Add a constant column if has_bias
     if has_bias {
-        df = df.lazy().with_column(lit(1f64).alias("__bias__")).collect()?;
+        let name = bias_name(&df);
+        df = df.lazy().with_column(lit(1f64).alias(name)).collect()?;
     }
 
     // In mask, true means not null.
@@ -303,7 +313,8 @@ fn series_to_mat_for_multi_lstsq(
     }?;
 
     if has_bias {
-        df = df.lazy().with_column(lit(1f64).alias("__bias__")).collect()?;
+        let name = bias_name(&df);
+        df = df.lazy().with_column(lit(1f64).alias(name)).collect()?;
     }
 
     if df.is_empty() {
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 2976f09..9f68577 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -122,7 +122,8 @@ fn series_to_mat_for_lstsq_f32(
     }
     // Add a constant column if has_bias
     if has_bias {
-        df = df.lazy().with_column(lit(1f32).alias("__bias__")).collect()?;
+        let name = super::linear_regression::bias_name(&df);
+        df = df.lazy().with_column(lit(1f32).alias(name)).collect()?;
     }
 
     // In mask, true means not null.
@@ -245,7 +246,8 @@ fn series_to_mat_for_multi_lstsq_f32(
     }?;
 
     if has_bias {
-        df = df.lazy().with_column(lit(1f32).alias("__bias__")).collect()?;
+        let name = super::linear_regression::bias_name(&df);
+        df = df.lazy().with_column(lit(1f32).alias(name)).collect()?;
     }
 
     if df.is_empty() {
-- 
2.43.0


From b2eece80d68f8d8aaddf932de3bb9164a48ade03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 120/135] fix: psi_discrete, permute entropy, DIA.str_stats and
 volume_neutral work for a column named count

---
 python/polars_ds/eda/diagnosis.py                     | 8 +++++++-
 python/polars_ds/exprs/num.py                         | 8 ++++----
 python/polars_ds/exprs/ts_features.py                 | 1 +
 python/polars_ds/sample_and_split/sample_and_split.py | 6 ++++--
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 0d129e5..8f5d2b5 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -415,8 +415,14 @@ class DIA:
                 pl.lit(c).alias("column"),
                 pl.col(c).null_count().alias("null_count"),
                 pl.col(c).n_unique().alias("n_unique"),
-                pl.col(c).value_counts(sort=True).first().struct.field(c).alias("most_freq"),
                 pl.col(c)
+                .alias("value")  # value_counts fails for a column named "count"
+                .value_counts(sort=True)
+                .first()
+                .struct.field("value")
+                .alias("most_freq"),
+                pl.col(c)
+                .alias("value")
                 .value_counts(sort=True)
                 .first()
                 .struct.field("count")
diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 2afe59e..f8f8dcd 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -528,22 +528,22 @@ def psi_discrete(
     """
     if isinstance(new, (str, pl.Expr)):
         new_ = str_to_expr(new)
-        temp = new_.value_counts().sort().struct.rename_fields(["", "count"])
+        temp = new_.alias("").value_counts().sort().struct.rename_fields(["", "count"])
         new_cnt = temp.struct.field("count")
         new_cat = temp.struct.field("")
     else:
-        temp = pl.Series(values=new)
+        temp = pl.Series(values=new).alias("")
         temp = temp.value_counts()  # This is a df in this case
         new_cnt = pl.lit(temp.drop_in_place("count"))
         new_cat = pl.lit(temp[temp.columns[0]])
 
     if isinstance(baseline, (str, pl.Expr)):
         base = str_to_expr(baseline)
-        temp = base.value_counts().sort().struct.rename_fields(["", "count"])
+        temp = base.alias("").value_counts().sort().struct.rename_fields(["", "count"])
         ref_cnt = temp.struct.field("count")
         ref_cat = temp.struct.field("")
     else:
-        temp = pl.Series(values=baseline)
+        temp = pl.Series(values=baseline).alias("")
         temp = temp.value_counts()  # This is a df in this case
         ref_cnt = pl.lit(temp.drop_in_place("count"))
         ref_cat = pl.lit(temp[temp.columns[0]])
diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index dcf5ec9..faea54f 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -767,6 +767,7 @@ def query_permute_entropy(
         # Not .head(..), because Polars pushes it down to the shifted columns, which breaks lazy group_by
         .filter(pl.int_range(t.len()) + (n_dims - 1) * tau < t.len())
         .list.eval(pl.element().arg_sort())
+        .alias("")  # value_counts fails for a column named "count"
         .value_counts()  # groupby and count, but returns a struct
         .struct.field("count")  # extract the field named "count"
         .entropy(base=base, normalize=True)
diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 422c2a4..b405917 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -79,9 +79,11 @@ def volume_neutral(
         A random seed
     """
     if isinstance(target_volume, int):
-        target = pl.min_horizontal(by.value_counts().struct.field("count").min(), target_volume)
+        target = pl.min_horizontal(
+            by.alias("").value_counts().struct.field("count").min(), target_volume
+        )
     else:
-        target = by.value_counts().struct.field("count").min()
+        target = by.alias("").value_counts().struct.field("count").min()
 
     if isinstance(control, pl.Expr):
         ctrl = [control]
-- 
2.43.0


From 3800387bfa89275c48a75c2b3d45353d46fd9475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:44 +0000
Subject: [PATCH 121/135] fix: is_knn_from always marks k points

---
 python/polars_ds/exprs/expr_knn.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/python/polars_ds/exprs/expr_knn.py b/python/polars_ds/exprs/expr_knn.py
index 8e435c7..736cb1f 100644
--- a/python/polars_ds/exprs/expr_knn.py
+++ b/python/polars_ds/exprs/expr_knn.py
@@ -59,6 +59,15 @@ def _count_nodes(neighbors: pl.Expr, index: str | pl.Expr, parallel: bool) -> pl
     return counts if name is None else counts.struct.rename_fields([name, "count"])
 
 
+def _is_nearest(dist_out: pl.Expr, k: int) -> pl.Expr:
+    """
+    Whether the distance is one of the k smallest, or ties with the k-th.
+    """
+    # Not dist_out <= dist_out.bottom_k(k).max(), because Polars may add up the terms of a distance in
+    # another order when it is evaluated again, and then the k-th nearest point may not be found
+    return dist_out.is_not_nan() & (dist_out.rank("min") <= k)
+
+
 def query_dist_from_kth_nb(
     *features: str | pl.Expr,
     k: int,
@@ -440,17 +449,17 @@ def is_knn_from(
         dist_out = pl.sum_horizontal(
             (e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth)
         )
-        return dist_out <= dist_out.bottom_k(k=k).max()
+        return _is_nearest(dist_out, k)
     elif dist in ("l2", "sql2"):
         dist_out = pl.sum_horizontal(
             (e - pl.lit(xi, dtype=pl.Float64)).pow(2) for xi, e in zip(pt, oth)
         )
-        return dist_out <= dist_out.bottom_k(k=k).max()
+        return _is_nearest(dist_out, k)
     elif dist == "inf":
         dist_out = pl.max_horizontal(
             (e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth)
         )
-        return dist_out <= dist_out.bottom_k(k=k).max()
+        return _is_nearest(dist_out, k)
     elif dist == "cosine":
         x_list = list(pt)
         x_norm = sum(z * z for z in x_list)
@@ -459,7 +468,7 @@ def is_knn_from(
             1.0
             - pl.sum_horizontal(xi * e for xi, e in zip(x_list, oth)) / (x_norm * oth_norm).sqrt()
         )
-        return dist_out <= dist_out.bottom_k(k=k).max()
+        return _is_nearest(dist_out, k)
     elif dist in ("h", "haversine"):
         from . import haversine
 
@@ -473,7 +482,7 @@ def is_knn_from(
         y_lat = pl.lit(pt_as_list[0], dtype=pl.Float64)
         y_long = pl.lit(pt_as_list[1], dtype=pl.Float64)
         dist_out = haversine(oth[0], oth[1], y_lat, y_long)
-        return dist_out <= dist_out.bottom_k(k=k).max()
+        return _is_nearest(dist_out, k)
     else:
         raise ValueError(f"Unknown distance function: {dist}")
 
-- 
2.43.0


From 7e024f1c1d511362f5e21673e1efb9fbf3840f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:12 +0000
Subject: [PATCH 122/135] fix: OnlineLR.fit accepts every target that can be
 reshaped to one column

---
 python/polars_ds/linear_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index 6ec4090..c2b7711 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -598,7 +598,7 @@ class OnlineLR:
                 "Online regression currently must fit without null for the initial fit."
             )
 
-        self._lr.fit(X, y)
+        self._lr.fit(X, y.reshape((-1, 1)))
         return self
 
     def update(self, X: np.ndarray, y: np.ndarray | float, c: float = 1.0) -> Self:
-- 
2.43.0


From eb25f37365e3d0f81426273aaba38fd2f8e2ba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:52 +0000
Subject: [PATCH 123/135] fix: OnlineLR.update scales the impact of a row by c,
 not by 1 / c

---
 src/linalg/lr_online_solvers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index fe13bee..3dfa7e7 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -324,7 +324,7 @@ pub fn woodbury_step<T: RealField + Float>(
 
     let u = &inverse * new_x.transpose(); // corresponding to u in the reference
                                           // right = left.transpose() by the fact that if A is symmetric, invertible, A-1 is also symmetric
-    let z = (c + *(new_x * &u).get(0, 0)).recip();
+    let z = (c.recip() + *(new_x * &u).get(0, 0)).recip();
     // Update the information matrix's inverse. Page 56 of the gatech reference
     faer::linalg::matmul::matmul(
         inverse,
-- 
2.43.0


From 166342dacc72e0405af4e296d59f56fb7b9e270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:00 +0000
Subject: [PATCH 124/135] fix: regression metrics of integer columns do not
 wrap around

Differences, squares and sums were computed in the integer type of the columns, e.g. the error of an Int8
prediction of -100 for 100 was 56, and every under-prediction in an unsigned type became a huge number.
---
 python/polars_ds/exprs/metrics.py | 38 +++++++++++++++----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 5919de9..5213007 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -67,8 +67,8 @@ def query_r2(actual: str | pl.Expr, pred: str | pl.Expr) -> pl.Expr:
     pred
         A Polars expression representing predictions
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     diff = a - p
     ss_res = diff.dot(diff)
     diff2 = a - a.mean()
@@ -89,8 +89,8 @@ def query_adj_r2(actual: str | pl.Expr, pred: str | pl.Expr, p: int) -> pl.Expr:
     p
         The number of explanatory variables
     """
-    actual_expr = str_to_expr(actual)
-    pred_expr = str_to_expr(pred)
+    actual_expr = str_to_expr(actual).cast(pl.Float64)
+    pred_expr = str_to_expr(pred).cast(pl.Float64)
     diff = actual_expr - pred_expr
     ss_res = diff.dot(diff)
     diff2 = actual_expr - actual_expr.mean()
@@ -104,7 +104,7 @@ def query_log_cosh(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool =
     """
     Computes log cosh of the the prediction error, which is a smooth variation of MAE (L1 loss).
     """
-    a, p = str_to_expr(actual), str_to_expr(pred)
+    a, p = str_to_expr(actual).cast(pl.Float64), str_to_expr(pred).cast(pl.Float64)
     if normalize:
         return (p - a).cosh().log().sum() / a.count()
     return (p - a).cosh().log().sum()
@@ -121,7 +121,7 @@ def query_hubor_loss(actual: str | pl.Expr, pred: str | pl.Expr, delta: float) -
     pred
         An expression represeting the column with predicted probability.
     """
-    a, p = str_to_expr(actual), str_to_expr(pred)
+    a, p = str_to_expr(actual).cast(pl.Float64), str_to_expr(pred).cast(pl.Float64)
     temp = (a - p).abs()
     return (
         pl.when(temp <= delta).then(0.5 * temp.pow(2)).otherwise(delta * (temp - 0.5 * delta)).sum()
@@ -142,8 +142,8 @@ def query_l2(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool = True)
     normalize
         Whether to divide by N.
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     diff = a - p
     if normalize:
         return diff.dot(diff) / a.count()
@@ -163,8 +163,8 @@ def query_l1(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool = True)
     normalize
         Whether to divide by N. Nulls won't be counted in N.
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     if normalize:
         return (a - p).abs().sum() / a.count()
     return (a - p).abs().sum()
@@ -181,8 +181,8 @@ def query_l_inf(actual: str | pl.Expr, pred: str | pl.Expr) -> pl.Expr:
     pred
         A Polars expression representing predictions
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     return (a - p).abs().max()
 
 
@@ -233,8 +233,8 @@ def query_mape(actual: str | pl.Expr, pred: str | pl.Expr, weighted: bool = Fals
     weighted
         If true, computes wMAPE in the wikipedia article
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     if weighted:
         return (a - p).abs().sum() / a.abs().sum()
     else:
@@ -256,8 +256,8 @@ def query_smape(actual: str | pl.Expr, pred: str | pl.Expr) -> pl.Expr:
     pred
         A Polars expression representing predictions
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     numerator = (a - p).abs()
     denominator = a.abs() + p.abs()
     return (numerator / denominator).sum() / a.count()
@@ -299,8 +299,8 @@ def query_mase(
     if freq < 1:
         raise ValueError("Input `freq` must be >= 1.")
 
-    a: pl.Expr = str_to_expr(actual)
-    p: pl.Expr = str_to_expr(pred)
+    a: pl.Expr = str_to_expr(actual).cast(pl.Float64)
+    p: pl.Expr = str_to_expr(pred).cast(pl.Float64)
 
     if isinstance(train, float):
         if use_mean:
@@ -311,7 +311,7 @@ def query_mase(
         return numerator / pl.lit(train)
 
     else:
-        train_expr = str_to_expr(train)
+        train_expr = str_to_expr(train).cast(pl.Float64)
         if use_mean:
             numerator = (a - p).abs().mean()
             denom = train_expr.diff(n=freq).abs().mean()
-- 
2.43.0


From 1eca6fbf0128ff5ec72383ff616eef33f36a16cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:00 +0000
Subject: [PATCH 125/135] fix: weighted statistics and cosine similarity of
 integer columns do not wrap around

Products and sums were computed in the integer type of the columns.
---
 python/polars_ds/exprs/stats.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index c1458d0..fcabfa6 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -728,8 +728,8 @@ def weighted_hmean(
     is_normalized
         If true, the weights are assumed to sum to 1. If false, will divide by sum of the weights
     """
-    w = str_to_expr(weights)
-    x = str_to_expr(var)
+    w = str_to_expr(weights).cast(pl.Float64)
+    x = str_to_expr(var).cast(pl.Float64)
     dot = w.dot(1.0 / x)
     if is_normalized:
         return 1.0 / dot
@@ -764,7 +764,7 @@ def weighted_gmean(
     is_normalized
         If true, the weights are assumed to sum to 1. If false, will divide by sum of the weights
     """
-    x, w = str_to_expr(var), str_to_expr(weights)
+    x, w = str_to_expr(var).cast(pl.Float64), str_to_expr(weights).cast(pl.Float64)
     if is_normalized:
         return (x.log().dot(w)).exp()
     else:
@@ -789,7 +789,7 @@ def weighted_mean(
     is_normalized
         If true, the weights are assumed to sum to 1. If false, will divide by sum of the weights
     """
-    x, w = str_to_expr(var), str_to_expr(weights)
+    x, w = str_to_expr(var).cast(pl.Float64), str_to_expr(weights).cast(pl.Float64)
     out = x.dot(w)
     if is_normalized:
         return out
@@ -817,7 +817,7 @@ def weighted_var(var: str | pl.Expr, weights: str | pl.Expr, freq_weights: bool
     ---------
     https://en.wikipedia.org/wiki/Weighted_arithmetic_mean#Weighted_sample_variance
     """
-    x, w = str_to_expr(var), str_to_expr(weights)
+    x, w = str_to_expr(var).cast(pl.Float64), str_to_expr(weights).cast(pl.Float64)
     wm = weighted_mean(x, w, False)
     summand = w.dot((x - wm).pow(2))
     if freq_weights:
@@ -845,7 +845,7 @@ def weighted_cov(x: str | pl.Expr, y: str | pl.Expr, weights: pl.Expr | float) -
     ---------
     https://en.wikipedia.org/wiki/Pearson_correlation_coefficient#Weighted_correlation_coefficient
     """
-    xx, yy, w = str_to_expr(x), str_to_expr(y), str_to_expr(weights)
+    xx, yy, w = str_to_expr(x).cast(pl.Float64), str_to_expr(y).cast(pl.Float64), str_to_expr(weights).cast(pl.Float64)
     wx, wy = weighted_mean(xx, w, False), weighted_mean(yy, w, False)
     return w.dot((xx - wx) * (yy - wy)) / w.sum()
 
@@ -870,8 +870,8 @@ def weighted_corr(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Expr) ->
     ---------
     https://en.wikipedia.org/wiki/Pearson_correlation_coefficient#Weighted_correlation_coefficient
     """
-    xx, yy = str_to_expr(x), str_to_expr(y)
-    w = str_to_expr(weights)
+    xx, yy = str_to_expr(x).cast(pl.Float64), str_to_expr(y).cast(pl.Float64)
+    w = str_to_expr(weights).cast(pl.Float64)
     numerator = weighted_cov(xx, yy, w)
     sxx = w.dot((xx - weighted_mean(xx, w, False)).pow(2))
     syy = w.dot((yy - weighted_mean(yy, w, False)).pow(2))
@@ -889,7 +889,7 @@ def cosine_sim(x: str | pl.Expr, y: str | pl.Expr) -> pl.Expr:
     y
         The second variable
     """
-    xx, yy = str_to_expr(x), str_to_expr(y)
+    xx, yy = str_to_expr(x).cast(pl.Float64), str_to_expr(y).cast(pl.Float64)
     x2 = xx.dot(xx).sqrt()
     y2 = yy.dot(yy).sqrt()
     return xx.dot(yy) / (x2 * y2)
@@ -915,8 +915,8 @@ def weighted_cosine_sim(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Ex
     ---------
     https://en.wikipedia.org/wiki/Pearson_correlation_coefficient#Weighted_correlation_coefficient
     """
-    xx, yy = str_to_expr(x), str_to_expr(y)
-    w = str_to_expr(weights)
+    xx, yy = str_to_expr(x).cast(pl.Float64), str_to_expr(y).cast(pl.Float64)
+    w = str_to_expr(weights).cast(pl.Float64)
     wx2 = xx.pow(2).dot(w)
     wy2 = yy.pow(2).dot(w)
     return (w * xx).dot(yy) / (wx2.sqrt() * wy2.sqrt())
-- 
2.43.0


From a2c2bb1a777b1b5548f2f7adf6b688583e2df6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:00 +0000
Subject: [PATCH 126/135] fix: horizontal norms of integer columns do not wrap
 around

---
 python/polars_ds/exprs/num.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index f8f8dcd..17186d3 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -74,9 +74,9 @@ def l_inf_horizontal(*v: str | pl.Expr, normalize: bool = False) -> pl.Expr:
     """
     if normalize:
         exprs = list(v)
-        return pl.max_horizontal(str_to_expr(x).abs() for x in exprs) / len(exprs)
+        return pl.max_horizontal(str_to_expr(x).cast(pl.Float64).abs() for x in exprs) / len(exprs)
     else:
-        return pl.max_horizontal(str_to_expr(x).abs() for x in v)
+        return pl.max_horizontal(str_to_expr(x).cast(pl.Float64).abs() for x in v)
 
 
 def l2_sq_horizontal(*v: str | pl.Expr, normalize: bool = False) -> pl.Expr:
@@ -92,9 +92,9 @@ def l2_sq_horizontal(*v: str | pl.Expr, normalize: bool = False) -> pl.Expr:
     """
     if normalize:
         exprs = list(v)
-        return pl.sum_horizontal(str_to_expr(x).pow(2) for x in exprs) / len(exprs)
+        return pl.sum_horizontal(str_to_expr(x).cast(pl.Float64).pow(2) for x in exprs) / len(exprs)
     else:
-        return pl.sum_horizontal(str_to_expr(x).pow(2) for x in v)
+        return pl.sum_horizontal(str_to_expr(x).cast(pl.Float64).pow(2) for x in v)
 
 
 def l1_horizontal(*v: str | pl.Expr, normalize: bool = False) -> pl.Expr:
@@ -110,9 +110,9 @@ def l1_horizontal(*v: str | pl.Expr, normalize: bool = False) -> pl.Expr:
     """
     if normalize:
         exprs = list(v)
-        return pl.sum_horizontal(str_to_expr(x).abs() for x in exprs) / len(exprs)
+        return pl.sum_horizontal(str_to_expr(x).cast(pl.Float64).abs() for x in exprs) / len(exprs)
     else:
-        return pl.sum_horizontal(str_to_expr(x).abs() for x in v)
+        return pl.sum_horizontal(str_to_expr(x).cast(pl.Float64).abs() for x in v)
 
 
 def is_increasing(x: str | pl.Expr, strict: bool = False) -> pl.Expr:
-- 
2.43.0


From 01887716c15c54e3d3fa0beccc50a83f710ed7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:00 +0000
Subject: [PATCH 127/135] fix: time series features of integer columns do not
 wrap around

Differences and squares were computed in the integer type of the column.
---
 python/polars_ds/exprs/ts_features.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index faea54f..45dc48e 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -52,7 +52,7 @@ def query_mid_range(x: str | pl.Expr) -> pl.Expr:
     """
     A shorthand for (pl.col(x).max() - pl.col(x).min()) / 2.
     """
-    xx = str_to_expr(x)
+    xx = str_to_expr(x).cast(pl.Float64)
     return (xx.max() - xx.min()) / 2
 
 
@@ -61,7 +61,7 @@ def query_symm_ratio(x: str | pl.Expr) -> pl.Expr:
     Returns the symmetric ratio: |mean - median| / (max - min). Note the closer to 0 this value is,
     the more symmetric the series is.
     """
-    y = str_to_expr(x)
+    y = str_to_expr(x).cast(pl.Float64)
     return (y.mean() - y.median()).abs() / (y.max() - y.min())
 
 
@@ -69,7 +69,7 @@ def query_abs_energy(x: str | pl.Expr) -> pl.Expr:
     """
     Absolute energy is defined as Sum(x_i^2).
     """
-    y = str_to_expr(x)
+    y = str_to_expr(x).cast(pl.Float64)
     return y.dot(y)
 
 
@@ -77,7 +77,7 @@ def query_mean_abs_change(x: str | pl.Expr) -> pl.Expr:
     """
     Returns the mean of all successive differences |X_i - X_i-1|
     """
-    return str_to_expr(x).diff(null_behavior="drop").abs().mean()
+    return str_to_expr(x).cast(pl.Float64).diff(null_behavior="drop").abs().mean()
 
 
 def query_mean_n_abs_max(x: str | pl.Expr, n_maxima: int) -> pl.Expr:
@@ -86,7 +86,7 @@ def query_mean_n_abs_max(x: str | pl.Expr, n_maxima: int) -> pl.Expr:
     """
     if n_maxima <= 0:
         raise ValueError("The number of maxima should be > 0.")
-    return str_to_expr(x).abs().top_k(n_maxima).mean()
+    return str_to_expr(x).cast(pl.Float64).abs().top_k(n_maxima).mean()
 
 
 def query_cv(x: str | pl.Expr, ddof: int = 1) -> pl.Expr:
@@ -368,7 +368,7 @@ def query_cid_ce(x: str | pl.Expr, normalize: bool = False) -> pl.Expr:
     ---------
     https://www.cs.ucr.edu/~eamonn/Complexity-Invariant%20Distance%20Measure.pdf
     """
-    xx = str_to_expr(x)
+    xx = str_to_expr(x).cast(pl.Float64)
     if normalize:
         y = (xx - xx.mean()) / xx.std()
     else:
@@ -404,7 +404,7 @@ def query_auto_corr(x: str | pl.Expr, lag: int, ddof: int = 0, normalize: bool =
     normalize
         Whether to normalize the value to [-1, 1] or not.
     """
-    xx = str_to_expr(x)
+    xx = str_to_expr(x).cast(pl.Float64)
     if normalize:
         x_m = xx - xx.mean()
         var = xx.var(ddof=ddof)
-- 
2.43.0


From c74951da7ecbec737f3210474ca3ef37e69dba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:07 +0000
Subject: [PATCH 128/135] fix: simple_lin_reg of integer columns does not wrap
 around

Squares and products were computed in the integer type of the columns.
---
 python/polars_ds/exprs/expr_linear.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/exprs/expr_linear.py b/python/polars_ds/exprs/expr_linear.py
index 358bc2e..bb9aef2 100644
--- a/python/polars_ds/exprs/expr_linear.py
+++ b/python/polars_ds/exprs/expr_linear.py
@@ -68,8 +68,8 @@ def simple_lin_reg(
         residue, it will return the same number of rows as in input.
     """
     # No test. All forumla here are mathematically correct.
-    xx = lr_formula(x)
-    yy = lr_formula(target)
+    xx = lr_formula(x).cast(pl.Float64)
+    yy = lr_formula(target).cast(pl.Float64)
     if add_bias:
         if weights is None:
             x_mean = xx.mean()
@@ -77,7 +77,7 @@ def simple_lin_reg(
             beta = (xx - x_mean).dot(yy - y_mean) / (xx - x_mean).dot(xx - x_mean)
             alpha = y_mean - beta * x_mean
         else:
-            w = lr_formula(weights)
+            w = lr_formula(weights).cast(pl.Float64)
             w_sum = w.sum()
             x_wmean = w.dot(xx) / w_sum
             y_wmean = w.dot(yy) / w_sum
@@ -94,7 +94,7 @@ def simple_lin_reg(
         if weights is None:
             beta = xx.dot(yy) / xx.dot(xx)
         else:
-            w = lr_formula(weights)
+            w = lr_formula(weights).cast(pl.Float64)
             beta = w.dot(xx * yy) / w.dot(xx.pow(2))
 
         if return_pred:
-- 
2.43.0


From adc39300d66870ce132b469fb82e88942caaa23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:07 +0000
Subject: [PATCH 129/135] fix: f_test of integer columns does not wrap around

The sum of a group was computed in the integer type of the column.
---
 src/stats/fstats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats/fstats.rs b/src/stats/fstats.rs
index 5667572..a90d8c0 100644
--- a/src/stats/fstats.rs
+++ b/src/stats/fstats.rs
@@ -37,7 +37,7 @@ fn pl_f_test(inputs: &[Series]) -> PolarsResult<Series> {
         let n_sum = n_sum.as_str();
         let n_var = format!("{}_var", i);
         let n_var = n_var.as_str();
-        step_one.push(col(name).sum().alias(n_sum));
+        step_one.push(col(name).cast(DataType::Float64).sum().alias(n_sum));
         step_one.push(col(name).var(0).alias(n_var));
         let p1: Expr = (col(n_sum).cast(DataType::Float64) / col("cnt").cast(DataType::Float64)
             - (col(n_sum).sum().cast(DataType::Float64)
-- 
2.43.0


From 81e31bba4d9d5f924e615b8973e3ac35f5799487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:07 +0000
Subject: [PATCH 130/135] fix: the report LR.fit_df prints is the report of the
 model it fits

It ignored has_bias and null_policy: it always reported the model without a bias, and raised on nulls
that the null policy fills.
---
 python/polars_ds/linear_models.py | 13 +++++++------
 src/pymodels/py_lr.rs             |  5 +++++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index c2b7711..c765f6a 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -238,26 +238,27 @@ class LR:
             Whether to print out a regression report. This will duplicate work and will not work for Ridge
             regression. E.g. Nothing will be printed if lambda_ > 0.
         """
+        df2 = (
+            _handle_nulls_in_df(df.lazy(), features, target, null_policy)
+            .select(*features, target)
+            .collect()
+        )
         if show_report and self._lr.lambda_ == 0.0:
             from . import query_lstsq_report
 
             print(
-                df.lazy()
+                df2.lazy()
                 .select(
                     query_lstsq_report(
                         *features,
                         target=target,
+                        add_bias=self._lr.has_bias,
                     ).alias("report")
                 )
                 .unnest("report")
                 .collect()
             )
 
-        df2 = (
-            _handle_nulls_in_df(df.lazy(), features, target, null_policy)
-            .select(*features, target)
-            .collect()
-        )
         X = df2.select(features).to_numpy()
         y = df2.select(target).to_numpy()
         self.feature_names_in_.clear()
diff --git a/src/pymodels/py_lr.rs b/src/pymodels/py_lr.rs
index bac5891..706caf7 100644
--- a/src/pymodels/py_lr.rs
+++ b/src/pymodels/py_lr.rs
@@ -90,6 +90,11 @@ impl PyLR {
         self.lr.bias()
     }
 
+    #[getter]
+    pub fn has_bias(&self) -> bool {
+        self.lr.has_bias()
+    }
+
     #[getter]
     pub fn lambda_(&self) -> f64 {
         self.lr.lambda
-- 
2.43.0


From 596a6a4b6bc398d672d3f99375ff6b31f9b6070f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:37 +0000
Subject: [PATCH 131/135] fix: options may be NumPy numbers

---
 python/polars_ds/_utils.py            | 4 ++++
 python/polars_ds/exprs/ts_features.py | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/_utils.py b/python/polars_ds/_utils.py
index 8d4b3ad..c1137a6 100644
--- a/python/polars_ds/_utils.py
+++ b/python/polars_ds/_utils.py
@@ -25,6 +25,10 @@ def pl_plugin(
     cast_to_supertype: bool = False,
     pass_name_to_apply: bool = False,
 ) -> pl.Expr:
+    if kwargs is not None:
+        # NumPy scalars cannot be sent to the plugin
+        kwargs = {k: v.item() if hasattr(v, "item") else v for k, v in kwargs.items()}
+
     return register_plugin_function(
         plugin_path=_PLUGIN_PATH,
         args=args,
diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index 45dc48e..341e846 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -546,7 +546,7 @@ def query_sample_entropy(
         raise ValueError("Input `m` must be > 1.")
 
     t = str_to_expr(ts).cast(pl.Float64)
-    r = ratio * t.std(ddof=0)
+    r = t.std(ddof=0) * ratio
     rows = t.len() - m + 1
 
     data = [r, t.slice(0, length=rows)]
@@ -607,7 +607,7 @@ def query_approx_entropy(
 
     t = str_to_expr(ts).cast(pl.Float64)
     if scale_by_std:
-        r: pl.Expr = filtering_level * t.std()
+        r: pl.Expr = t.std() * filtering_level
     else:
         r: pl.Expr = pl.lit(filtering_level, dtype=pl.Float64)
 
-- 
2.43.0


From 1df2836d06ecc20369a6e996df1e3868d4049b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:38 +0000
Subject: [PATCH 132/135] fix: volume_neutral does not ignore a target volume
 that is a NumPy integer

---
 python/polars_ds/sample_and_split/sample_and_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index b405917..7a22f2b 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -78,7 +78,7 @@ def volume_neutral(
     seed
         A random seed
     """
-    if isinstance(target_volume, int):
+    if target_volume is not None:
         target = pl.min_horizontal(
             by.alias("").value_counts().struct.field("count").min(), target_volume
         )
-- 
2.43.0


From e36cb2b82350938ca325a292c84de62643f44c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:38 +0000
Subject: [PATCH 133/135] fix: a whole number is as good as a float in
 query_mase and OnlineLR.update

---
 python/polars_ds/exprs/metrics.py | 2 +-
 python/polars_ds/linear_models.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 5213007..114e144 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -302,7 +302,7 @@ def query_mase(
     a: pl.Expr = str_to_expr(actual).cast(pl.Float64)
     p: pl.Expr = str_to_expr(pred).cast(pl.Float64)
 
-    if isinstance(train, float):
+    if isinstance(train, (int, float)):
         if use_mean:
             numerator = (a - p).abs().mean()
         else:
diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index c765f6a..d432c2b 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -622,8 +622,8 @@ class OnlineLR:
             raise ValueError("You cannot update before the initial fit of the matrix.")
 
         x_2d = X.reshape((1, -1))
-        if isinstance(y, float):
-            y_2d = np.array([[y]])
+        if isinstance(y, (int, float)):
+            y_2d = np.array([[y]], dtype=np.float64)
         else:
             y_2d = y.reshape((1, 1))
 
-- 
2.43.0


From 1fc69a8d063777cd211218fbc823395962641d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:10 +0000
Subject: [PATCH 134/135] fix: approximate entropy of a series without a
 standard deviation is NaN instead of a panic

---
 src/num_ext/entrophies.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/entrophies.rs b/src/num_ext/entrophies.rs
index b0d10ac..416477a 100644
--- a/src/num_ext/entrophies.rs
+++ b/src/num_ext/entrophies.rs
@@ -27,7 +27,7 @@ fn pl_approximate_entropy(
     if radius.len() != 1 {
         return Err(PolarsError::ComputeError("Radius must be a scalar.".into()));
     }
-    let r = radius.get(0).unwrap();
+    let r = radius.get(0).unwrap_or(-1f64); // see return below
     let name = inputs[1].name();
     let ncols = inputs[1..].len();
     let data = series_to_row_major_slice::<Float64Type>(&inputs[1..])?;
-- 
2.43.0


From 6e1b45b3cf44355ab56372e92e237415154b8762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:10 +0000
Subject: [PATCH 135/135] fix: adjusted R2 with at least as many variables as
 rows no longer wraps around to about 1

---
 python/polars_ds/exprs/metrics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 114e144..ec83aa3 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -95,8 +95,9 @@ def query_adj_r2(actual: str | pl.Expr, pred: str | pl.Expr, p: int) -> pl.Expr:
     ss_res = diff.dot(diff)
     diff2 = actual_expr - actual_expr.mean()
     ss_tot = diff2.dot(diff2)
-    df_res = actual_expr.len() - p - 1
-    df_tot = actual_expr.len() - 1
+    n = actual_expr.len().cast(pl.Int64)  # unsigned counts wrap around
+    df_res = n - p - 1
+    df_tot = n - 1
     return 1.0 - (ss_res / df_res) / (ss_tot / df_tot)
 
 
-- 
2.43.0

