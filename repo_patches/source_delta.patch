From f89fcae9f5c11298c7b6b762040462a2647a0b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 01/90] fix: ROC AUC leaves out the segment between the largest
 score and the origin, and the trapezoid sum of one point is not 0

---
 src/num_ext/tp_fp.rs | 14 ++++++++++++--
 src/num_ext/trapz.rs |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 3bf7de3..8b4ce75 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -22,6 +22,16 @@ fn tpr_fpr_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new("tpr_fpr".into(), DataType::Struct(v)))
 }
 
+/// Area under the ROC curve. The curve comes as (tpr, fpr) by ascending threshold, from (1, 1) to the
+/// point of the largest score. The last segment, from there to (0, 0), is added here.
+fn roc_auc_area(tpr: &[f64], fpr: &[f64]) -> f64 {
+    let last = match (tpr.last(), fpr.last()) {
+        (Some(y), Some(x)) => 0.5 * y * x,
+        _ => 0.,
+    };
+    last - super::trapz::trapz(tpr, fpr)
+}
+
 fn tp_fp_frame(
     predicted: &Series,
     actual: &Series,
@@ -126,7 +136,7 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
     let y = y.cont_slice()?; // Zero copy
     let x = x.cont_slice()?; // Zero copy
 
-    let auc = -super::trapz::trapz(y, x);
+    let auc = roc_auc_area(y, x);
     let auc: Series = Series::from_vec("roc_auc".into(), vec![auc]);
 
     // Average Precision
@@ -237,7 +247,7 @@ fn pl_roc_auc(inputs: &[Series]) -> PolarsResult<Series> {
     let y = y.cont_slice()?;
     let x = x.cont_slice()?;
 
-    let auc = -super::trapz::trapz(y, x);
+    let auc = roc_auc_area(y, x);
     Ok(Series::from_vec("roc_auc".into(), vec![auc]))
 }
 
diff --git a/src/num_ext/trapz.rs b/src/num_ext/trapz.rs
index 2ac4cb5..59cb6ad 100644
--- a/src/num_ext/trapz.rs
+++ b/src/num_ext/trapz.rs
@@ -7,7 +7,7 @@ use pyo3_polars::derive::polars_expr;
 pub fn trapz(y: &[f64], x: &[f64]) -> f64 {
     // x.len() == y.len() checked
     if x.len() == 1 && y.len() == 1 {
-        y[0] * x[0] * -0.5 // y[0] * (-x[0]) * 0.5
+        0. // A single point encloses no area
     } else {
         let mut y_d = vec![0.; y.len() - 1];
         cfavml::add_vector(&y[1..], &y[..y.len() - 1], &mut y_d);
-- 
2.43.0


From e03c8ac9a64da06df8c55d1df04fa35b3c203157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 02/90] fix: average precision leaves out the step at the
 largest score

---
 src/num_ext/tp_fp.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 8b4ce75..efb9805 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -145,6 +145,8 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
             .zip(y.iter().skip(1))
             .zip(precision)
             .fold(0., |acc, ((y, y_next), p)| (y_next - y).mul_add(*p, acc));
+    // Recall is 0 beyond the largest score
+    let ap = ap + y.last().unwrap_or(&0.) * precision.last().unwrap_or(&0.);
     let ap: Series = Series::from_vec("average_precision".into(), vec![ap]);
 
     // Precision & Recall & F
-- 
2.43.0


From 6eeb931d56cbe0b3808609c7e55af47a047e659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 03/90] fix: query_binary_metrics panics when the threshold is
 beyond the largest score

---
 src/num_ext/tp_fp.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index efb9805..d14d1af 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -150,8 +150,9 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
     let ap: Series = Series::from_vec("average_precision".into(), vec![ap]);
 
     // Precision & Recall & F
-    let recall = y[index];
-    let precision = precision[index];
+    // If the threshold is beyond the largest score, nothing is predicted positive
+    let recall = y.get(index).copied().unwrap_or(0.);
+    let precision = precision.get(index).copied().unwrap_or(f64::NAN);
     let f: f64 = 2.0 * (precision * recall) / (precision + recall);
     let recall: Series = Series::from_vec("recall".into(), vec![recall]);
     let precision: Series = Series::from_vec("precision".into(), vec![precision]);
-- 
2.43.0


From 162c761301504922e2efa630b1e34a62f3ca54bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 04/90] fix: the schema of query_binary_metrics names a field
 average precision that does not exist

---
 src/num_ext/tp_fp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index d14d1af..a10730f 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -9,7 +9,7 @@ fn combo_output(_: &[Field]) -> PolarsResult<Field> {
     let precision = Field::new("precision".into(), DataType::Float64);
     let recall = Field::new("recall".into(), DataType::Float64);
     let f = Field::new("f".into(), DataType::Float64);
-    let avg_precision = Field::new("avg_precision".into(), DataType::Float64);
+    let avg_precision = Field::new("average_precision".into(), DataType::Float64);
     let v: Vec<Field> = vec![precision, recall, f, avg_precision, roc_auc];
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
-- 
2.43.0


From 3573a50ec20df78b667135d277bb602bb69c9a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 05/90] fix: the products of the MCC overflow u32 beyond 65535
 rows per cell

---
 src/num_ext/tp_fp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index a10730f..d9efcb3 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -221,7 +221,8 @@ fn pl_mcc(inputs: &[Series]) -> PolarsResult<Series> {
     let n0_ = (n01 + n00) as f64;
     let n_0 = (n10 + n00) as f64;
 
-    let phi = ((n11 * n00) as f64 - (n10 * n01) as f64) / (n1_ * n_1 * n0_ * n_0).sqrt();
+    let phi = ((n11 as f64) * (n00 as f64) - (n10 as f64) * (n01 as f64))
+        / (n1_ * n_1 * n0_ * n_0).sqrt();
     Ok(Series::from_iter([phi]))
 }
 
-- 
2.43.0


From 0d0e9c6bffc954341b6af267e7ebd56b32c37e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 06/90] fix: the ratios of query_confusion_matrix are integer
 divisions

---
 src/num_ext/tp_fp.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index d9efcb3..651b1d8 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -316,24 +316,33 @@ fn bcm_output(_: &[Field]) -> PolarsResult<Field> {
     ))
 }
 
+// A non-zero number divided by 0 is reported as NaN, like 0 / 0
+fn zero_div_as_nan(name: &str) -> Expr {
+    when(col(name).is_infinite())
+        .then(lit(f64::NAN))
+        .otherwise(col(name))
+        .alias(name)
+}
+
 #[polars_expr(output_type_func=bcm_output)]
 fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
     // The combined_series is (lit(2) * col("y_true") + col("y_pred")).alias("y")
     // 0 is tn, 1 is fp, 2 is fn, 3 is tp
     let combined_series = inputs[0].u32()?;
     let confusion = binary_confusion_matrix(combined_series);
-    let tn = UInt32Chunked::from_vec("tn".into(), vec![confusion[0]]);
+    let tn = Float64Chunked::from_vec("tn".into(), vec![confusion[0] as f64]);
     let tn = Column::Series(tn.into_series().into());
 
-    let fp = UInt32Chunked::from_vec("fp".into(), vec![confusion[1]]);
+    let fp = Float64Chunked::from_vec("fp".into(), vec![confusion[1] as f64]);
     let fp = Column::Series(fp.into_series().into());
 
-    let fn_ = UInt32Chunked::from_vec("fn".into(), vec![confusion[2]]);
+    let fn_ = Float64Chunked::from_vec("fn".into(), vec![confusion[2] as f64]);
     let fn_ = Column::Series(fn_.into_series().into());
 
-    let tp = UInt32Chunked::from_vec("tp".into(), vec![confusion[3]]);
+    let tp = Float64Chunked::from_vec("tp".into(), vec![confusion[3] as f64]);
     let tp = Column::Series(tp.into_series().into());
-    // All series have length 1 and no duplicate names
+    // All series have length 1 and no duplicate names. They are floats because dividing u32 columns is
+    // an integer division in Rust.
 
     let df = DataFrame::new(vec![tn, fp, fn_, tp])?;
 
@@ -373,12 +382,14 @@ fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
             .alias("mcc"),
             ((col("tp") + col("tn")) / (col("p") + col("n"))).alias("acc"),
         ])
+        .with_columns([zero_div_as_nan("plr"), zero_div_as_nan("nlr")])
         .with_columns([(col("plr") / col("nlr")).alias("dor")])
+        .with_columns([zero_div_as_nan("dor")])
         .select(&[
-            col("tp"),
-            col("tn"),
-            col("fp"),
-            col("fn"),
+            col("tp").cast(DataType::UInt32),
+            col("tn").cast(DataType::UInt32),
+            col("fp").cast(DataType::UInt32),
+            col("fn").cast(DataType::UInt32),
             col("tpr"),
             col("tnr"),
             col("fpr"),
@@ -401,7 +412,6 @@ fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
             col("npv"),
             col("dor"),
         ])
-        .fill_null(f64::NAN) // In Rust dividing by 0 results in Null for some reason.
         .collect()?;
 
     let out = result.into_struct("confusion_matrix".into());
-- 
2.43.0


From 2d223ba22b88aabc78a8cd8dd393ff3b86158c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:36 +0000
Subject: [PATCH 07/90] fix: gmean and weighted_gmean call Expr.ln, which does
 not exist

---
 python/polars_ds/exprs/stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 64e6daf..93e8735 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -747,7 +747,7 @@ def gmean(var: str | pl.Expr) -> pl.Expr:
     var
         The variable
     """
-    return str_to_expr(var).ln().mean().exp()
+    return str_to_expr(var).log().mean().exp()
 
 
 def weighted_gmean(
@@ -767,9 +767,9 @@ def weighted_gmean(
     """
     x, w = str_to_expr(var), str_to_expr(weights)
     if is_normalized:
-        return (x.ln().dot(w)).exp()
+        return (x.log().dot(w)).exp()
     else:
-        return (x.ln().dot(w) / (w.sum())).exp()
+        return (x.log().dot(w) / (w.sum())).exp()
 
 
 def weighted_mean(
-- 
2.43.0


From d8183f2d539d49b13b0ceeccce9a87434686f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:36 +0000
Subject: [PATCH 08/90] fix: weighted_hmean ignores the weights

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 93e8735..1c7124e 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -731,7 +731,7 @@ def weighted_hmean(
     """
     w = str_to_expr(weights)
     x = str_to_expr(var)
-    dot = x.dot(pl.lit(1.0, dtype=pl.Float32) / x)
+    dot = w.dot(pl.lit(1.0, dtype=pl.Float32) / x)
     if is_normalized:
         return 1.0 / dot
     else:
-- 
2.43.0


From bd6ba63d83d3651efb3c1fe7b8113daae67f3c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:36 +0000
Subject: [PATCH 09/90] fix: weighted_corr uses x in the variance of y

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 1c7124e..dc645b2 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -875,7 +875,7 @@ def weighted_corr(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Expr) ->
     w = str_to_expr(weights)
     numerator = weighted_cov(xx, yy, w)
     sxx = w.dot((xx - weighted_mean(xx, w, False)).pow(2))
-    syy = w.dot((xx - weighted_mean(yy, w, False)).pow(2))
+    syy = w.dot((yy - weighted_mean(yy, w, False)).pow(2))
     return numerator * w.sum() / (sxx * syy).sqrt()
 
 
-- 
2.43.0


From 4c03f28e295b219cde11f4ca3df23e39d5a0bf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:36 +0000
Subject: [PATCH 10/90] fix: cosine_sim takes the square root of the norms
 twice

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index dc645b2..8c74cd7 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -893,7 +893,7 @@ def cosine_sim(x: str | pl.Expr, y: str | pl.Expr) -> pl.Expr:
     xx, yy = str_to_expr(x), str_to_expr(y)
     x2 = xx.dot(xx).sqrt()
     y2 = yy.dot(yy).sqrt()
-    return xx.dot(yy) / (x2 * y2).sqrt()
+    return xx.dot(yy) / (x2 * y2)
 
 
 def weighted_cosine_sim(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Expr) -> pl.Expr:
-- 
2.43.0


From dfea8897ba6882b1b535dce4ebfb9c6b8218c968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 11/90] fix: gcd, lcm and haversine panic when the only value
 of the second argument is null

---
 src/num_ext/gcd_lcm.rs   | 12 ++++++++----
 src/num_ext/haversine.rs |  6 ++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/num_ext/gcd_lcm.rs b/src/num_ext/gcd_lcm.rs
index 30532dd..471175e 100644
--- a/src/num_ext/gcd_lcm.rs
+++ b/src/num_ext/gcd_lcm.rs
@@ -8,8 +8,10 @@ fn pl_gcd(inputs: &[Series]) -> PolarsResult<Series> {
     let ca1 = inputs[0].i32()?;
     let ca2 = inputs[1].i32()?;
     if ca2.len() == 1 {
-        let b = ca2.get(0).unwrap();
-        let out: Int32Chunked = ca1.apply_values(|a| num::integer::gcd(a, b));
+        let out: Int32Chunked = match ca2.get(0) {
+            Some(b) => ca1.apply_values(|a| num::integer::gcd(a, b)),
+            None => Int32Chunked::full_null(ca1.name().clone(), ca1.len()),
+        };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
         let out: Int32Chunked = binary_elementwise_values(ca1, ca2, num::integer::gcd);
@@ -26,8 +28,10 @@ fn pl_lcm(inputs: &[Series]) -> PolarsResult<Series> {
     let ca1 = inputs[0].i32()?;
     let ca2 = inputs[1].i32()?;
     if ca2.len() == 1 {
-        let b = ca2.get(0).unwrap();
-        let out: Int32Chunked = ca1.apply_values(|a| num::integer::lcm(a, b));
+        let out: Int32Chunked = match ca2.get(0) {
+            Some(b) => ca1.apply_values(|a| num::integer::lcm(a, b)),
+            None => Int32Chunked::full_null(ca1.name().clone(), ca1.len()),
+        };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
         let out: Int32Chunked = binary_elementwise_values(ca1, ca2, num::integer::lcm);
diff --git a/src/num_ext/haversine.rs b/src/num_ext/haversine.rs
index 16130ff..fa0ea86 100644
--- a/src/num_ext/haversine.rs
+++ b/src/num_ext/haversine.rs
@@ -14,14 +14,16 @@ where
     T::Native: Float,
 {
     if (y_lat.len() == y_long.len()) && (y_lat.len() == 1) {
-        let e_lat = y_lat.get(0).unwrap();
-        let e_long = y_long.get(0).unwrap();
+        let e_lat = y_lat.get(0);
+        let e_long = y_long.get(0);
         let out: ChunkedArray<T> = x_lat
             .into_iter()
             .zip(x_long.into_iter())
             .map(|(x_lat, x_long)| {
                 let x_lat = x_lat?;
                 let x_long = x_long?;
+                let e_lat = e_lat?;
+                let e_long = e_long?;
                 Some(haversine_elementwise(x_lat, x_long, e_lat, e_long))
             })
             .collect();
-- 
2.43.0


From 8886f15789e0a10987fc302f23c7bdcd0db973aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 12/90] fix: fract of an integer column turns nulls into zeros

---
 src/num_ext/float_extras.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/float_extras.rs b/src/num_ext/float_extras.rs
index c9b56fe..d7c13c0 100644
--- a/src/num_ext/float_extras.rs
+++ b/src/num_ext/float_extras.rs
@@ -200,7 +200,8 @@ fn pl_fract(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
 
     if s.dtype().is_integer() {
-        Ok(Series::from_vec(s.name().clone(), vec![0f32; s.len()]))
+        let ca = s.cast(&DataType::Float32)?;
+        Ok(ca.f32().unwrap().apply_values(|_| 0f32).into_series())
     } else {
         if s.dtype() == &DataType::Float64 {
             let ca = s.f64().unwrap();
-- 
2.43.0


From 4564616beb54ee65992bf9fbe5d7e0dc53b1871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 13/90] fix: first digit counts include the slots of null
 values

---
 src/num_ext/benford.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/num_ext/benford.rs b/src/num_ext/benford.rs
index dfcee45..db572ef 100644
--- a/src/num_ext/benford.rs
+++ b/src/num_ext/benford.rs
@@ -22,63 +22,63 @@ fn pl_benford_law(inputs: &[Series]) -> PolarsResult<Series> {
     match s.dtype() {
         DataType::UInt8 => {
             let ss = s.u8().unwrap();
-            for x in ss.into_no_null_iter() {
+            for x in ss.iter().flatten() {
                 let d = first_digit(x);
                 out[d as usize] += 1;
             }
         }
         DataType::UInt16 => {
             let ss = s.u16().unwrap();
-            for x in ss.into_no_null_iter() {
+            for x in ss.iter().flatten() {
                 let d = first_digit(x);
                 out[d as usize] += 1;
             }
         }
         DataType::UInt32 => {
             let ss = s.u32().unwrap();
-            for x in ss.into_no_null_iter() {
+            for x in ss.iter().flatten() {
                 let d = first_digit(x);
                 out[d as usize] += 1;
             }
         }
         DataType::UInt64 => {
             let ss = s.u64().unwrap();
-            for x in ss.into_no_null_iter() {
+            for x in ss.iter().flatten() {
                 let d = first_digit(x);
                 out[d as usize] += 1;
             }
         }
         DataType::Int8 => {
             let ss = s.i8().unwrap();
-            for x in ss.into_no_null_iter() {
+            for x in ss.iter().flatten() {
                 let d = first_digit(x); // could be negative
                 out[d.abs() as usize] += 1;
             }
         }
         DataType::Int16 => {
             let ss = s.i16().unwrap();
-            for x in ss.into_no_null_iter() {
+            for x in ss.iter().flatten() {
                 let d = first_digit(x); // could be negative
                 out[d.abs() as usize] += 1;
             }
         }
         DataType::Int32 => {
             let ss = s.i32().unwrap();
-            for x in ss.into_no_null_iter() {
+            for x in ss.iter().flatten() {
                 let d = first_digit(x); // could be negative
                 out[d.abs() as usize] += 1;
             }
         }
         DataType::Int64 => {
             let ss = s.i64().unwrap();
-            for x in ss.into_no_null_iter() {
+            for x in ss.iter().flatten() {
                 let d = first_digit(x); // could be negative
                 out[d.abs() as usize] += 1;
             }
         }
         DataType::Float32 => {
             let ss = s.f32().unwrap();
-            for x in ss.into_no_null_iter() {
+            for x in ss.iter().flatten() {
                 if x.is_finite() {
                     let x_char = x
                         .abs()
@@ -93,7 +93,7 @@ fn pl_benford_law(inputs: &[Series]) -> PolarsResult<Series> {
         }
         DataType::Float64 => {
             let ss = s.f64().unwrap();
-            for x in ss.into_no_null_iter() {
+            for x in ss.iter().flatten() {
                 if x.is_finite() {
                     let x_char = x
                         .abs()
-- 
2.43.0


From 02f63fc4fcdf7ed1386a951d12157a5cc086b851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 14/90] fix: psi panics on values beyond a repeated maximum of
 the baseline

---
 src/num_ext/psi.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index d80790f..e5c173c 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -105,8 +105,13 @@ fn pl_psi_report(inputs: &[Series]) -> PolarsResult<Series> {
 
     let binding = new.rechunk();
     let data_new = binding.cont_slice().unwrap();
-    let binding = brk.rechunk();
-    let ref_brk = binding.cont_slice().unwrap();
+    // The last bin is unbounded. When the baseline's maximum is repeated enough, no baseline value lies
+    // beyond the last quantile and the break learned for the last bin is finite.
+    let mut ref_brk = brk.rechunk().cont_slice().unwrap().to_vec();
+    if let Some(last) = ref_brk.last_mut() {
+        *last = f64::INFINITY;
+    }
+    let ref_brk = ref_brk.as_slice();
     let binding = cnt.rechunk();
     let ref_cnt = binding.cont_slice().unwrap();
 
-- 
2.43.0


From 3d66b1236fa66a26ff6c34df0f65f944c06d678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:59 +0000
Subject: [PATCH 15/90] fix: psi_discrete does not match the null category of
 new and baseline

---
 src/num_ext/psi.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index e5c173c..43581de 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -139,7 +139,11 @@ fn pl_psi_discrete_report(inputs: &[Series]) -> PolarsResult<Series> {
             df2.lazy(),
             [col("actual_cat")],
             [col("baseline_cat")],
-            JoinArgs::new(JoinType::Full),
+            // null is a category by itself
+            JoinArgs {
+                join_nulls: true,
+                ..JoinArgs::new(JoinType::Full)
+            },
         )
         .with_columns([
             col("baseline_cnt").fill_null(0),
-- 
2.43.0


From 7385a7632dce4754cffc99387476e8c8d28939ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:59 +0000
Subject: [PATCH 16/90] fix: psi_w_breakpoints panics on columns that are not
 Float64

---
 python/polars_ds/exprs/num.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 843b783..f746581 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -587,7 +587,11 @@ def psi_w_breakpoints(
     bp = breakpoints + [float("inf")]
     return pl_plugin(
         symbol="pl_psi_w_bps",
-        args=[x.rechunk(), y.rechunk(), pl.Series(values=bp)],
+        args=[
+            x.cast(pl.Float64).rechunk(),
+            y.cast(pl.Float64).rechunk(),
+            pl.Series(values=bp, dtype=pl.Float64, strict=False),
+        ],
         changes_length=True,
     ).alias("psi_report")
 
-- 
2.43.0


From f666bb95ce08defea59025dcf4a2102e3c2579b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 17/90] fix: woe and info_value fail when x has nulls or values
 that are not finite

---
 python/polars_ds/exprs/num.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index f746581..9071bec 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -620,11 +620,12 @@ def woe(x: str | pl.Expr, target: str | pl.expr | Iterable[float], n_bins: int =
     if isinstance(target, (str, pl.Expr)):
         t = str_to_expr(target)
     else:
-        t = pl.Series(values=target)
+        t = pl.lit(pl.Series(values=target))
     xx = str_to_expr(x)
-    valid = xx.filter(xx.is_finite())
+    is_valid = xx.is_finite()
+    valid = xx.filter(is_valid)
     brk = valid.qcut(n_bins, left_closed=False, allow_duplicates=True).cast(pl.String)
-    return pl_plugin(symbol="pl_woe_discrete", args=[brk, t], changes_length=True)
+    return pl_plugin(symbol="pl_woe_discrete", args=[brk, t.filter(is_valid)], changes_length=True)
 
 
 def woe_discrete(
@@ -690,11 +691,12 @@ def info_value(
     if isinstance(target, (str, pl.Expr)):
         t = str_to_expr(target)
     else:
-        t = pl.Series(values=target)
+        t = pl.lit(pl.Series(values=target))
     xx = str_to_expr(x)
-    valid = xx.filter(xx.is_finite())
+    is_valid = xx.is_finite()
+    valid = xx.filter(is_valid)
     brk = valid.qcut(n_bins, left_closed=False, allow_duplicates=True).cast(pl.String)
-    out = pl_plugin(symbol="pl_iv", args=[brk, t], changes_length=True)
+    out = pl_plugin(symbol="pl_iv", args=[brk, t.filter(is_valid)], changes_length=True)
     return out.struct.field("iv").sum() if return_sum else out
 
 
-- 
2.43.0


From 0184056a13a22c42f0cc25c4f1c241cc4fdac59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 18/90] fix: jaccard_col takes nulls for values

---
 src/num_ext/jaccard.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/num_ext/jaccard.rs b/src/num_ext/jaccard.rs
index d3c139a..63e91b2 100644
--- a/src/num_ext/jaccard.rs
+++ b/src/num_ext/jaccard.rs
@@ -92,15 +92,12 @@ fn pl_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
     let count_null = inputs[2].bool()?;
     let count_null = count_null.get(0).unwrap_or(false);
 
-    let (s1, s2) = (inputs[0].clone(), inputs[1].clone());
+    // null is one more distinct element if it is to be counted
+    let null1 = (count_null && inputs[0].has_nulls()) as usize;
+    let null2 = (count_null && inputs[1].has_nulls()) as usize;
 
-    let adj = if count_null {
-        (s1.has_nulls() && s2.has_nulls()) as usize // adjust for null
-    } else {
-        0
-    };
-
-    // All computation below assumes the input has no nulls, that is why we have the adj
+    // All computation below assumes the input has no nulls
+    let (s1, s2) = (inputs[0].drop_nulls(), inputs[1].drop_nulls());
 
     // God, help me with this unholy mess,
     let (len1, len2, intersection_size) = if s1.dtype().is_integer() && s1.dtype() != s2.dtype() {
@@ -221,7 +218,8 @@ fn pl_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
         ));
     };
 
-    let adjusted = intersection_size + adj;
-    let out = adjusted as f64 / (len1 + len2).abs_diff(adjusted) as f64;
+    let intersection_size = intersection_size + null1.min(null2);
+    let union_size = len1 + null1 + len2 + null2 - intersection_size;
+    let out = intersection_size as f64 / union_size as f64;
     Ok(Series::from_iter([out]))
 }
-- 
2.43.0


From 3350a4d5f08efb76665e62ccd902d362dfee2254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 19/90] fix: jaccard_row panics on lists of 8 and 16 bit
 integers

---
 src/num_ext/jaccard.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/jaccard.rs b/src/num_ext/jaccard.rs
index 63e91b2..84ed13d 100644
--- a/src/num_ext/jaccard.rs
+++ b/src/num_ext/jaccard.rs
@@ -64,7 +64,13 @@ fn pl_list_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
         ComputeError: "Inner data types don't match."
     );
 
-    if s1.inner_dtype().is_integer() {
+    if matches!(s1.inner_dtype(), Int8 | Int16 | UInt8 | UInt16) {
+        // the small integer types are not among the physical types _list_jaccard is compiled for
+        let wide = List(Box::new(Int32));
+        let (s1, s2) = (inputs[0].cast(&wide)?, inputs[1].cast(&wide)?);
+        let out = _list_jaccard(s1.list()?, s2.list()?);
+        Ok(out.into_series())
+    } else if s1.inner_dtype().is_integer() {
         let out = _list_jaccard(s1, s2);
         Ok(out.into_series())
     } else if s1.inner_dtype() == &DataType::String {
-- 
2.43.0


From d2f82f6c4050527ccdc64bfd6ab9a598a90bdc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 20/90] fix: integrate_trapz fails when x has several chunks

---
 python/polars_ds/exprs/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 9071bec..38ede9f 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -748,7 +748,7 @@ def integrate_trapz(y: str | pl.Expr, x: float | pl.Expr) -> pl.Expr:
     if isinstance(x, float):
         xx = pl.lit(abs(x), pl.Float64)
     else:
-        xx = str_to_expr(x).cast(pl.Float64)
+        xx = str_to_expr(x).cast(pl.Float64).rechunk()
 
     return pl_plugin(
         symbol="pl_trapz",
-- 
2.43.0


From 25197af18204826b198f058f9d5e6c637e02928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 21/90] fix: nearest-neighbour queries panic when no row is
 eligible

---
 src/arkadia/kdt.rs |  9 +++++++++
 src/num_ext/knn.rs | 14 +++++++-------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/arkadia/kdt.rs b/src/arkadia/kdt.rs
index d9f75a1..488103e 100644
--- a/src/arkadia/kdt.rs
+++ b/src/arkadia/kdt.rs
@@ -122,6 +122,15 @@ impl<'a, T: Float + DistanceOps + 'static + Debug, A: Copy> KDT<'a, T, A> {
 
     pub fn from_leaves_unchecked(data: &'a mut [Leaf<'a, T, A>], d: DIST<T>) -> Self {
         let dim = data[0].dim();
+        Self::from_leaves_with_dim_unchecked(data, dim, d)
+    }
+
+    /// Same as from_leaves_unchecked, but works when there is no leaf at all
+    pub fn from_leaves_with_dim_unchecked(
+        data: &'a mut [Leaf<'a, T, A>],
+        dim: usize,
+        d: DIST<T>,
+    ) -> Self {
         let mut tree = KDT::new_empty(dim, suggest_capacity(dim), d);
         for leaf in data.iter().copied() {
             tree.add_unchecked(leaf, 0);
diff --git a/src/num_ext/knn.rs b/src/num_ext/knn.rs
index 603f58a..0658dbd 100644
--- a/src/num_ext/knn.rs
+++ b/src/num_ext/knn.rs
@@ -112,7 +112,7 @@ fn pl_knn_avg(
     let mut leaves = row_major_slice_to_leaves_filtered(&data, ncols, id, &null_mask);
 
     let tree = match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
-        Ok(d) => Ok(KDT::from_leaves_unchecked(&mut leaves, d)),
+        Ok(d) => Ok(KDT::from_leaves_with_dim_unchecked(&mut leaves, ncols, d)),
         Err(e) => Err(e),
     }
     .map_err(|err| PolarsError::ComputeError(err.into()))?;
@@ -228,7 +228,7 @@ fn pl_dist_from_kth_nb(
             let mut leaves: Vec<Leaf<f64, ()>> =
                 data.chunks_exact(ncols).map(|sl| ((), sl).into()).collect();
             // let mut leaves = row_major_slice_to_leaves(&data, ncols, id, null_mask);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = KDT::from_leaves_with_dim_unchecked(&mut leaves, ncols, d);
             let nrows = data.len() / ncols;
             let ca = if can_parallel {
                 let n_threads = POOL.current_num_threads();
@@ -309,7 +309,7 @@ fn pl_knn_ptwise(
     match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
         Ok(d) => {
             let mut leaves = row_major_slice_to_leaves_filtered(&data, ncols, id, keep_mask);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = KDT::from_leaves_with_dim_unchecked(&mut leaves, ncols, d);
             Ok(knn_ptwise(
                 tree,
                 eval_mask,
@@ -474,7 +474,7 @@ fn pl_knn_ptwise_w_dist(
     let (ca_nb, ca_dist) = match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
         Ok(d) => {
             let mut leaves = row_major_slice_to_leaves_filtered(&data, ncols, id, null_mask);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = KDT::from_leaves_with_dim_unchecked(&mut leaves, ncols, d);
             Ok(knn_ptwise_w_dist(
                 tree,
                 eval_mask,
@@ -572,7 +572,7 @@ fn pl_query_radius_ptwise(
     match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
         Ok(d) => {
             let mut leaves = slice_to_leaves(&data, ncols, id);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = KDT::from_leaves_with_dim_unchecked(&mut leaves, ncols, d);
             Ok(query_radius_ptwise(tree, &data, radius, can_parallel, sort).into_series())
         }
         Err(e) => Err(PolarsError::ComputeError(e.into())),
@@ -677,7 +677,7 @@ fn pl_nb_cnt(inputs: &[Series], context: CallerContext, kwargs: KDTKwargs) -> Po
         match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
             Ok(d) => {
                 let mut leaves = slice_to_empty_leaves(&data, ncols);
-                let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+                let tree = KDT::from_leaves_with_dim_unchecked(&mut leaves, ncols, d);
                 Ok(query_nb_cnt(tree, &data, r, can_parallel)
                     .with_name("cnt".into())
                     .into_series())
@@ -688,7 +688,7 @@ fn pl_nb_cnt(inputs: &[Series], context: CallerContext, kwargs: KDTKwargs) -> Po
         match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
             Ok(d) => {
                 let mut leaves = slice_to_empty_leaves(&data, ncols);
-                let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+                let tree = KDT::from_leaves_with_dim_unchecked(&mut leaves, ncols, d);
                 Ok(query_nb_cnt_w_radius(tree, &data, radius, can_parallel)
                     .with_name("cnt".into())
                     .into_series())
-- 
2.43.0


From 4e0cb8693ec707e129480d0f11bfcf7e7d13e1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 22/90] fix: nearest-neighbour search drops points exactly at
 the distance bound in other boxes

---
 src/arkadia/kdt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arkadia/kdt.rs b/src/arkadia/kdt.rs
index 488103e..8e3f9ff 100644
--- a/src/arkadia/kdt.rs
+++ b/src/arkadia/kdt.rs
@@ -367,7 +367,7 @@ impl<'a, T: Float + DistanceOps + 'static + Debug, A: Copy> SpatialQueries<'a, T
             };
 
             let dist_to_box = _closest_dist_to_box(&next.bounds, point, self.dim, self.d); // (min dist from the box to point, the next Tree)
-            if dist_to_box + epsilon < current_max {
+            if dist_to_box + epsilon <= current_max {
                 pending.push((dist_to_box, next));
             }
         }
@@ -852,7 +852,7 @@ impl<'a, T: Float + DistanceOps + 'static + Debug, A: Copy> SpatialQueries<'a, T
             };
 
             let dist_to_box = _closest_dist_to_box(&next.bounds, point, self.dim, self.d); // (min dist from the box to point, the next Tree)
-            if dist_to_box + epsilon < current_max {
+            if dist_to_box + epsilon <= current_max {
                 pending.push((dist_to_box, next));
             }
         }
-- 
2.43.0


From 84d1eb3e9b2b6dda48e5a1a30f661e147dd1f109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 23/90] fix: neighbour count panics on a single null radius

---
 src/num_ext/knn.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/knn.rs b/src/num_ext/knn.rs
index 0658dbd..e0850ae 100644
--- a/src/num_ext/knn.rs
+++ b/src/num_ext/knn.rs
@@ -673,7 +673,10 @@ fn pl_nb_cnt(inputs: &[Series], context: CallerContext, kwargs: KDTKwargs) -> Po
     let nrows = data.len() / ncols;
 
     if radius.len() == 1 {
-        let r = radius.get(0).unwrap();
+        let r = match radius.get(0) {
+            Some(r) => r,
+            None => return Ok(Series::full_null("cnt".into(), nrows, &DataType::UInt32)),
+        };
         match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
             Ok(d) => {
                 let mut leaves = slice_to_empty_leaves(&data, ncols);
-- 
2.43.0


From e39d019eefc0279211730a2a20f3e39f96b24447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 24/90] fix: KDTree.within and within_count return nothing for
 a radius array of length one

---
 python/polars_ds/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/spatial.py b/python/polars_ds/spatial.py
index 4210de1..9b78d91 100644
--- a/python/polars_ds/spatial.py
+++ b/python/polars_ds/spatial.py
@@ -152,7 +152,9 @@ class KDTree:
         elif isinstance(r, np.ndarray):
             rad = np.ravel(r)
             if len(rad) == 1:
-                self.within(X, rad[0], sort, parallel)
+                return self.within(
+                    X, float(rad[0]), sort=sort, return_dist=return_dist, parallel=parallel
+                )
             else:
                 if return_dist:
                     return self.kdt.within_with_dist_vec_r(X, rad, sort, parallel)
@@ -185,7 +187,7 @@ class KDTree:
         elif isinstance(r, np.ndarray):
             rad = np.ravel(r)
             if len(rad) == 1:
-                self.within_count(X, rad[0], parallel)
+                return self.within_count(X, float(rad[0]), parallel)
             else:
                 return self.kdt.within_count_vec_r(X, rad, parallel)
         else:
-- 
2.43.0


From c1977210f26bf2dc5d54a86a1a7b746983f3b1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 25/90] fix: within_dist_from compares squared l2 distances
 with the radius, and distances to a point ignore missing coordinates

---
 python/polars_ds/exprs/expr_knn.py | 53 +++++++++++++-----------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/python/polars_ds/exprs/expr_knn.py b/python/polars_ds/exprs/expr_knn.py
index e331f19..e8cc0f0 100644
--- a/python/polars_ds/exprs/expr_knn.py
+++ b/python/polars_ds/exprs/expr_knn.py
@@ -49,6 +49,23 @@ def warn_len_compare(item1: Iterable[Any], item2: Iterable[Any]) -> bool:
         return True
 
 
+def _dist_to_point(features: List[pl.Expr], pt: Iterable[float], dist: str) -> pl.Expr:
+    """
+    The distance from each row to the given point. It is null for the rows where any of the features is null.
+    """
+    diffs = [e - pl.lit(xi, dtype=pl.Float64) for xi, e in zip(pt, features)]
+    if dist == "l1":
+        out = pl.sum_horizontal(d.abs() for d in diffs)
+    elif dist == "l2":
+        out = pl.sum_horizontal(d.pow(2) for d in diffs).sqrt()
+    elif dist == "sql2":
+        out = pl.sum_horizontal(d.pow(2) for d in diffs)
+    else:
+        out = pl.max_horizontal(d.abs() for d in diffs)
+
+    return pl.when(pl.all_horizontal(e.is_not_null() for e in features)).then(out)
+
+
 def query_dist_from_kth_nb(
     *features: str | pl.Expr,
     k: int,
@@ -359,21 +376,8 @@ def within_dist_from(
     if not warn_len_compare(pt, oth):
         raise ValueError("Dimension does not match.")
 
-    if dist == "l1":
-        return (
-            pl.sum_horizontal((e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth))
-            <= r
-        )
-    elif dist in ("l2", "sql2"):
-        return (
-            pl.sum_horizontal((e - pl.lit(xi, dtype=pl.Float64)).pow(2) for xi, e in zip(pt, oth))
-            <= r
-        )
-    elif dist == "inf":
-        return (
-            pl.max_horizontal((e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth))
-            <= r
-        )
+    if dist in ("l1", "l2", "sql2", "inf"):
+        return _dist_to_point(oth, pt, dist) <= r
     elif dist == "cosine":
         x_list = list(pt)
         x_norm = sum(z * z for z in x_list)
@@ -382,7 +386,7 @@ def within_dist_from(
             1.0
             - pl.sum_horizontal(xi * e for xi, e in zip(x_list, oth)) / (x_norm * oth_norm).sqrt()
         )
-        return distN <= r
+        return pl.when(pl.all_horizontal(e.is_not_null() for e in oth)).then(distN) <= r
     elif dist in ("h", "haversine"):
         from . import haversine
 
@@ -426,20 +430,8 @@ def is_knn_from(
     if not warn_len_compare(pt, oth):
         raise ValueError("Dimension does not match.")
 
-    if dist == "l1":
-        dist_out = pl.sum_horizontal(
-            (e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth)
-        )
-        return dist_out <= dist_out.bottom_k(k=k).max()
-    elif dist in ("l2", "sql2"):
-        dist_out = pl.sum_horizontal(
-            (e - pl.lit(xi, dtype=pl.Float64)).pow(2) for xi, e in zip(pt, oth)
-        )
-        return dist_out <= dist_out.bottom_k(k=k).max()
-    elif dist == "inf":
-        dist_out = pl.max_horizontal(
-            (e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth)
-        )
+    if dist in ("l1", "l2", "sql2", "inf"):
+        dist_out = _dist_to_point(oth, pt, dist)
         return dist_out <= dist_out.bottom_k(k=k).max()
     elif dist == "cosine":
         x_list = list(pt)
@@ -449,6 +441,7 @@ def is_knn_from(
             1.0
             - pl.sum_horizontal(xi * e for xi, e in zip(x_list, oth)) / (x_norm * oth_norm).sqrt()
         )
+        dist_out = pl.when(pl.all_horizontal(e.is_not_null() for e in oth)).then(dist_out)
         return dist_out <= dist_out.bottom_k(k=k).max()
     elif dist in ("h", "haversine"):
         from . import haversine
-- 
2.43.0


From ea77a230e1df81a8b82f3b5f0b064182fb6a962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 26/90] fix: rcond cut-off compared squared singular values
 with the threshold for singular values

---
 src/linalg/lr_solvers.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index e5e0161..d350617 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -213,11 +213,18 @@ pub fn faer_solve_lstsq_rcond<T: RealField + Float>(
 
     let max_singular_value = singular_values.iter().copied().fold(T::min_value(), T::max);
     let threshold = rcond * max_singular_value;
+    // s holds the eigenvalues of xtx (the squared singular values), which are only accurate up to
+    // rounding errors relative to the largest one.
+    let noise = <T as Float>::epsilon() * T::from(x.nrows().max(n)).unwrap() * max_singular_value * max_singular_value;
     // Safe, because i <= n
     let mut s_inv = Mat::<T>::zeros(n, n);
     unsafe {
         for (i, v) in s.iter().copied().enumerate() {
-            *s_inv.get_mut_unchecked(i, i) = if v >= threshold { v.recip() } else { T::zero() };
+            *s_inv.get_mut_unchecked(i, i) = if singular_values[i] >= threshold && v > noise {
+                v.recip()
+            } else {
+                T::zero()
+            };
         }
     }
 
-- 
2.43.0


From a4e606576bae547cd43e3b8d0e956b6feb66e7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 27/90] fix: lasso coefficients are all NaN when one feature is
 zero everywhere

---
 src/linalg/lr_solvers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index d350617..4b6e01e 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -354,7 +354,12 @@ pub fn faer_coordinate_descent<T: RealField + Float>(
             let main_update = *xty.get(j, 0) - *(xtx_j * &beta).get(0, 0);
 
             // update beta(j, 0).
-            let after = soft_threshold_l1(main_update, lambda_l1) / norms[j];
+            // A feature that is 0 everywhere has no effect. Its coefficient stays 0.
+            let after = if norms[j] == T::zero() {
+                T::zero()
+            } else {
+                soft_threshold_l1(main_update, lambda_l1) / norms[j]
+            };
             *unsafe { beta.get_mut_unchecked(j, 0) } = after;
             max_change = (after - before).abs().max(max_change);
         }
-- 
2.43.0


From f3308d38acbf5579cff38d5fa0b1e97d15733e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 28/90] fix: lasso with a bias stopped after the first pass
 when only the bias had changed

---
 src/linalg/lr_solvers.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index 4b6e01e..e8f85a7 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -369,6 +369,8 @@ pub fn faer_coordinate_descent<T: RealField + Float>(
             let xx = unsafe { x.get_unchecked(.., 0..n1) };
             let bb = unsafe { beta.get_unchecked(0..n1, ..) };
             let ss = (y - xx * bb).as_ref().sum() / m;
+            let before = *unsafe { beta.get_unchecked(n1, 0) };
+            max_change = (ss - before).abs().max(max_change);
             *unsafe { beta.get_mut_unchecked(n1, 0) } = ss;
         }
         converge = max_change < tol;
-- 
2.43.0


From b6b691d2e6136bb7028734274571fde3cbf3c824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 29/90] fix: recursive_lin_reg predicts with the wrong row when
 rows with nulls are skipped

---
 src/num_ext/linear_regression.rs     | 3 ++-
 src/num_ext/linear_regression_f32.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 8e5a4cb..22162d6 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -913,8 +913,9 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
                 let mut i = 0;
                 for should_keep in mask.into_no_null_iter().skip(m) {
                     if should_keep {
+                        // x only has the valid rows. coeffs[i] is fitted on the first n + i of them.
                         let coefficients = &coeffs[i];
-                        let row = x.get(i..i + 1, ..);
+                        let row = x.get(n - 1 + i..n + i, ..);
                         let pred = *(row * coefficients).get(0, 0);
                         let coef = coefficients.col_as_slice(0);
                         builder.append_slice(coef);
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 7526fea..1d87031 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -861,8 +861,9 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
                 let mut i = 0;
                 for should_keep in mask.into_no_null_iter().skip(m) {
                     if should_keep {
+                        // x only has the valid rows. coeffs[i] is fitted on the first n + i of them.
                         let coefficients = &coeffs[i];
-                        let row = x.get(i..i + 1, ..);
+                        let row = x.get(n - 1 + i..n + i, ..);
                         let pred = *(row * coefficients).get(0, 0);
                         let coef = coefficients.col_as_slice(0);
                         builder.append_slice(coef);
-- 
2.43.0


From 029945aa3f2444e6848694f35d5e6ee436b8cb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 30/90] fix: recursive_lin_reg with null policy ignore returns
 a single row when there are nulls

---
 src/num_ext/linear_regression.rs     | 4 +++-
 src/num_ext/linear_regression_f32.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 22162d6..6421c31 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -872,6 +872,7 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
     // Gauranteed in Python that this won't be SKIP. SKIP doesn't work now.
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
+    let ignore_nulls = matches!(null_policy, NullPolicy::IGNORE);
 
     // Target y is at index 0
     match series_to_mat_for_lstsq(inputs, has_bias, null_policy) {
@@ -894,7 +895,8 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
             // Fill or Skip strategy can drop nulls. Fill will drop null when y has nulls.
             // Skip will drop nulls whenever there is a null in the row.
             // Mask true means the row doesn't have nulls
-            let has_nulls = (!&mask).any();
+            // Ignore takes all rows as they are.
+            let has_nulls = !ignore_nulls && (!&mask).any();
             if has_nulls {
                 // Find the first index where we get n non-nulls.
                 let mut new_n = 0;
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 1d87031..efda77d 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -820,6 +820,7 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
     // Gauranteed in Python that this won't be SKIP. SKIP doesn't work now.
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
+    let ignore_nulls = matches!(null_policy, NullPolicy::IGNORE);
 
     // Target y is at index 0
     match series_to_mat_for_lstsq_f32(inputs, has_bias, null_policy) {
@@ -842,7 +843,8 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
             // Fill or Skip strategy can drop nulls. Fill will drop null when y has nulls.
             // Skip will drop nulls whenever there is a null in the row.
             // Mask true means the row doesn't have nulls
-            let has_nulls = (!&mask).any();
+            // Ignore takes all rows as they are.
+            let has_nulls = !ignore_nulls && (!&mask).any();
             if has_nulls {
                 // Find the first index where we get n non-nulls.
                 let mut new_n = 0;
-- 
2.43.0


From 2780ba06620ea9cf9f628b70c201b52c48cd2b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 31/90] fix: recursive and rolling regression declare a field
 prediction but return pred

---
 src/num_ext/linear_regression.rs     | 2 +-
 src/num_ext/linear_regression_f32.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 6421c31..6aa0a28 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -75,7 +75,7 @@ fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
 
 fn coeff_pred_output(_: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float64)));
-    let pred = Field::new("prediction".into(), DataType::Float64);
+    let pred = Field::new("pred".into(), DataType::Float64);
     let v: Vec<Field> = vec![coeffs, pred];
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index efda77d..b29aed9 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -50,7 +50,7 @@ fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
 
 fn coeff_pred_output(_: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float32)));
-    let pred = Field::new("prediction".into(), DataType::Float32);
+    let pred = Field::new("pred".into(), DataType::Float32);
     let v: Vec<Field> = vec![coeffs, pred];
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
-- 
2.43.0


From 7ccbcfa060ec3e367df05ee97b5a16deac3a293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 32/90] fix: rolling_lin_reg is NaN after the first window when
 window size equals the number of coefficients

---
 src/linalg/lr_online_solvers.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 6538a96..8ee90a4 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -207,13 +207,15 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     coefficients.push(online_lr.fitted_values().to_owned());
 
     for j in n..xn {
-        let remove_x = x.get(j - n..j - n + 1, ..);
-        let remove_y = y.get(j - n..j - n + 1, ..);
-        online_lr.update(remove_x, remove_y, T::one().neg());
-
+        // Add before removing, because without the removed row the system may be singular
+        // (e.g. when window size = # of coefficients) even if both windows are not.
         let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
         let next_y = y.get(j..j + 1, ..); // 1 by 1
         online_lr.update(next_x, next_y, T::one());
+
+        let remove_x = x.get(j - n..j - n + 1, ..);
+        let remove_y = y.get(j - n..j - n + 1, ..);
+        online_lr.update(remove_x, remove_y, T::one().neg());
         coefficients.push(online_lr.fitted_values().to_owned());
     }
     coefficients
-- 
2.43.0


From 5ee163e8883d6a8c30e5f334567f061e020b1126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 33/90] fix: rolling_lin_reg stays wrong after a window had too
 few valid rows

---
 src/linalg/lr_online_solvers.rs | 42 ++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 8ee90a4..fadc606 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -284,23 +284,47 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
         return coefficients;
     }
     // right < xn, the problem must have been initialized (inv and weights are defined.)
+    // Once there are fewer rows than columns, the inverse can no longer be updated. It has to be
+    // computed again when there are enough rows.
+    let mut need_refit = non_null_cnt_in_window < ncols;
     for j in right..xn {
-        let remove_x = x.get(j - n..j - n + 1, ..);
-        let remove_y = y.get(j - n..j - n + 1, ..);
-
-        if !(has_nan(remove_x) | has_nan(remove_y)) {
-            non_null_cnt_in_window -= 1; // removed one non-null column
-            online_lr.update_unchecked(remove_x, remove_y, T::one().neg()); // No need to check for nan
-        }
-
+        // Add before removing. See the comment in faer_rolling_lstsq.
         let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
         let next_y = y.get(j..j + 1, ..); // 1 by 1
         if !(has_nan(next_x) | has_nan(next_y)) {
             non_null_cnt_in_window += 1;
-            online_lr.update_unchecked(next_x, next_y, T::one()); // No need to check for nan
+            if !need_refit {
+                online_lr.update_unchecked(next_x, next_y, T::one()); // No need to check for nan
+            }
+        }
+
+        let remove_x = x.get(j - n..j - n + 1, ..);
+        let remove_y = y.get(j - n..j - n + 1, ..);
+        if !(has_nan(remove_x) | has_nan(remove_y)) {
+            non_null_cnt_in_window -= 1; // removed one non-null column
+            need_refit = need_refit || non_null_cnt_in_window < ncols;
+            if !need_refit {
+                online_lr.update_unchecked(remove_x, remove_y, T::one().neg()); // No need to check for nan
+            }
         }
 
         if non_null_cnt_in_window >= m {
+            if need_refit {
+                x_slice.clear();
+                y_slice.clear();
+                for i in j + 1 - n..j + 1 {
+                    let x_i = x.get(i, ..);
+                    let y_i = y.get(i, ..);
+                    if !(x_i.iter().any(|x| is_nan(x)) || y_i.iter().any(|y| is_nan(y))) {
+                        x_slice.extend(x_i.iter());
+                        y_slice.extend(y_i.iter());
+                    }
+                }
+                let x0 = MatRef::from_row_major_slice(&x_slice, y_slice.len(), ncols);
+                let y0 = MatRef::from_column_major_slice(&y_slice, y_slice.len(), 1);
+                online_lr.fit_unchecked(x0, y0);
+                need_refit = non_null_cnt_in_window < ncols;
+            }
             coefficients.push(online_lr.fitted_values().to_owned());
         } else {
             coefficients.push(Mat::with_capacity(0, 0));
-- 
2.43.0


From b9db38682f2c39c98050fe65f836d710ecc38fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 34/90] fix: is_fit, bias and predict panic before the fit when
 the model has a bias

---
 src/linalg/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 36f3899..9de2561 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -107,7 +107,7 @@ pub trait LinearRegression<T: RealField + Float> {
     fn has_bias(&self) -> bool;
 
     fn bias(&self) -> T {
-        if self.has_bias() {
+        if self.has_bias() && self.is_fit() {
             let n = self.fitted_values().nrows() - 1;
             *self.fitted_values().get(n, 0)
         } else {
@@ -142,7 +142,7 @@ pub trait LinearRegression<T: RealField + Float> {
     }
 
     fn is_fit(&self) -> bool {
-        !(self.coefficients().shape() == (0, 0))
+        !(self.fitted_values().shape() == (0, 0))
     }
 
     fn coeffs_as_vec(&self) -> Result<Vec<T>, LinalgErrors> {
@@ -166,10 +166,10 @@ pub trait LinearRegression<T: RealField + Float> {
     }
 
     fn predict(&self, X: MatRef<T>) -> Result<Mat<T>, LinalgErrors> {
-        if X.ncols() != self.coefficients().nrows() {
-            Err(LinalgErrors::DimensionMismatch)
-        } else if !self.is_fit() {
+        if !self.is_fit() {
             Err(LinalgErrors::MatNotLearnedYet)
+        } else if X.ncols() != self.coefficients().nrows() {
+            Err(LinalgErrors::DimensionMismatch)
         } else {
             let mut result = X * self.coefficients();
             let bias = self.bias();
-- 
2.43.0


From 548e06c4a067046a5b10269d76d25e88cef6d42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 35/90] fix: LR.bias and OnlineLR.bias return None

---
 python/polars_ds/linear_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index 62900cf..b3beef6 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -187,7 +187,7 @@ class LR:
         return self._lr.coeffs
 
     def bias(self) -> float:
-        self._lr.bias
+        return self._lr.bias
 
     def fit(self, X: np.ndarray, y: np.ndarray, null_policy: NullPolicy = "ignore") -> Self:
         """
@@ -574,7 +574,7 @@ class OnlineLR:
         return self._lr.coeffs
 
     def bias(self) -> float:
-        self._lr.bias
+        return self._lr.bias
 
     def inv(self) -> np.ndarray:
         """
-- 
2.43.0


From 69477887396448037dab4bd86787651068e92e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 36/90] fix: OnlineLR.from_coeffs_bias_inverse rejects the
 inverse of a model with a bias

---
 src/linalg/lr_online_solvers.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index fadc606..603b4dc 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -38,10 +38,13 @@ impl<T: RealField + Float> OnlineLR<T> {
         bias: T,
         inv: MatRef<T>,
     ) -> Result<(), LinalgErrors> {
-        if coeffs.len() != inv.ncols() {
+        let has_bias = bias.abs() > T::epsilon();
+        // The bias has a row and a column in the inverse too.
+        let ncols = coeffs.len() + has_bias as usize;
+        if inv.nrows() != ncols || inv.ncols() != ncols {
             Err(LinalgErrors::DimensionMismatch)
         } else {
-            self.has_bias = bias.abs() > T::epsilon();
+            self.has_bias = has_bias;
             if self.has_bias {
                 self.coefficients = Mat::from_fn(coeffs.len() + 1, 1, |i, _| {
                     if i < coeffs.len() {
-- 
2.43.0


From 991ebe3b4d451568e949be88263b803ec424a960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 37/90] fix: OnlineLR.update scales the impact of the row by
 1/c instead of c

---
 src/linalg/lr_online_solvers.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 603b4dc..7d7ca2f 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -345,14 +345,15 @@ pub fn woodbury_step<T: RealField + Float>(
     weights: MatMut<T>,
     new_x: MatRef<T>,
     new_y: MatRef<T>,
-    c: T, // +1 or -1, for a "update" and a "removal"
+    c: T, // +1 or -1, for a "update" and a "removal". Weight of the row in general
 ) {
     // It is truly amazing that the C in the Woodbury identity essentially controls the update and
     // and removal of a new record (rolling)... Linear regression seems to be designed by God to work so well
 
     let u = &inverse * new_x.transpose(); // corresponding to u in the reference
                                           // right = left.transpose() by the fact that if A is symmetric, invertible, A-1 is also symmetric
-    let z = (c + *(new_x * &u).get(0, 0)).recip();
+    // The identity has the inverse of C in the middle term.
+    let z = (c.recip() + *(new_x * &u).get(0, 0)).recip();
     // Update the information matrix's inverse. Page 56 of the gatech reference
     faer::linalg::matmul::matmul(
         inverse,
-- 
2.43.0


From f3069361455297f14d873e69f957803a28677dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 38/90] fix: OnlineLR.fit rejects one dimensional targets

---
 python/polars_ds/linear_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index b3beef6..f19a70d 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -598,7 +598,7 @@ class OnlineLR:
                 "Online regression currently must fit without null for the initial fit."
             )
 
-        self._lr.fit(X, y)
+        self._lr.fit(X, y.reshape((-1, 1)))
         return self
 
     def update(self, X: np.ndarray, y: np.ndarray | float, c: float = 1.0) -> Self:
-- 
2.43.0


From cbec8b58cd18366ff747eb02d2d0659357ccebc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 39/90] fix: query_adj_r2 does not count the intercept in the
 residual degrees of freedom

---
 python/polars_ds/exprs/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 54070b0..0d4891e 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -95,7 +95,7 @@ def query_adj_r2(actual: str | pl.Expr, pred: str | pl.Expr, p: int) -> pl.Expr:
     ss_res = diff.dot(diff)
     diff2 = actual_expr - actual_expr.mean()
     ss_tot = diff2.dot(diff2)
-    df_res = actual_expr.len() - p
+    df_res = actual_expr.len() - p - 1
     df_tot = actual_expr.len() - 1
     return 1.0 - (ss_res / df_res) / (ss_tot / df_tot)
 
-- 
2.43.0


From a7255cc3385d7b8f9af8b444e3936ff2ef48b297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 40/90] fix: recursive and rolling regression penalise the
 intercept

---
 src/linalg/lr_online_solvers.rs      | 17 +++++++++++++----
 src/num_ext/linear_regression.rs     |  6 +++---
 src/num_ext/linear_regression_f32.rs |  6 +++---
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 7d7ca2f..8b6969f 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -61,6 +61,12 @@ impl<T: RealField + Float> OnlineLR<T> {
         }
     }
 
+    /// Fits when the column of ones for the bias is already the last column of x. Like the bias
+    /// added in fit_unchecked, the bias is not regularized.
+    fn fit_with_bias_in_x(&mut self, x: MatRef<T>, y: MatRef<T>, bias_in_x: bool) {
+        (self.inv, self.coefficients) = faer_qr_lstsq_with_inv(x, y, self.lambda, bias_in_x);
+    }
+
     pub fn get_inv(&self) -> Result<MatRef<T>, LinalgErrors> {
         if self.inv.shape() == (0, 0) {
             Err(LinalgErrors::MatNotLearnedYet)
@@ -161,6 +167,7 @@ pub fn faer_recursive_lstsq<T: RealField + Float>(
     y: MatRef<T>,
     n: usize,
     lambda: T,
+    bias_in_x: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     // x: size xn x m
@@ -174,7 +181,7 @@ pub fn faer_recursive_lstsq<T: RealField + Float>(
     // This is because if add_bias, the 1 is added to
     // all data already. No need to let OnlineLR add the 1 for the user.
     let mut online_lr = OnlineLR::new(lambda, false);
-    online_lr.fit_unchecked(x0, y0); // safe because things are checked in plugin / python functions.
+    online_lr.fit_with_bias_in_x(x0, y0, bias_in_x); // safe because things are checked in plugin / python functions.
     coefficients.push(online_lr.fitted_values().to_owned());
     for j in n..xn {
         let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
@@ -193,6 +200,7 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     y: MatRef<T>,
     n: usize,
     lambda: T,
+    bias_in_x: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     // x: size xn x m
@@ -206,7 +214,7 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     // This is because if add_bias, the 1 is added to
     // all data already. No need to let OnlineLR add the 1 for the user.
     let mut online_lr = OnlineLR::new(lambda, false);
-    online_lr.fit_unchecked(x0, y0);
+    online_lr.fit_with_bias_in_x(x0, y0, bias_in_x);
     coefficients.push(online_lr.fitted_values().to_owned());
 
     for j in n..xn {
@@ -234,6 +242,7 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
     n: usize,
     m: usize,
     lambda: T,
+    bias_in_x: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     let ncols = x.ncols();
@@ -273,7 +282,7 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
             // faer::mat::from_row_major_slice(&x_slice, y_slice.len(), ncols);
             let y0 = MatRef::from_column_major_slice(&y_slice, y_slice.len(), 1);
             // faer::mat::from_row_major_slice(&y_slice, y_slice.len(), 1);
-            online_lr.fit_unchecked(x0, y0);
+            online_lr.fit_with_bias_in_x(x0, y0, bias_in_x);
             coefficients.push(online_lr.fitted_values().to_owned());
             break;
         } else {
@@ -325,7 +334,7 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
                 }
                 let x0 = MatRef::from_row_major_slice(&x_slice, y_slice.len(), ncols);
                 let y0 = MatRef::from_column_major_slice(&y_slice, y_slice.len(), 1);
-                online_lr.fit_unchecked(x0, y0);
+                online_lr.fit_with_bias_in_x(x0, y0, bias_in_x);
                 need_refit = non_null_cnt_in_window < ncols;
             }
             coefficients.push(online_lr.fitted_values().to_owned());
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 6aa0a28..c0d6f38 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -881,7 +881,7 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
 
-            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda);
+            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda, has_bias);
             let mut builder: ListPrimitiveChunkedBuilder<Float64Type> =
                 ListPrimitiveChunkedBuilder::new(
                     "coeffs".into(),
@@ -982,9 +982,9 @@ fn pl_rolling_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult<S
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
             let coeffs = if should_skip {
-                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda)
+                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda, has_bias)
             } else {
-                faer_rolling_lstsq(x, y, n, kwargs.lambda)
+                faer_rolling_lstsq(x, y, n, kwargs.lambda, has_bias)
             };
 
             let mut builder: ListPrimitiveChunkedBuilder<Float64Type> =
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index b29aed9..4a1bf5a 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -829,7 +829,7 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
 
-            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda as f32);
+            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda as f32, has_bias);
             let mut builder: ListPrimitiveChunkedBuilder<Float32Type> =
                 ListPrimitiveChunkedBuilder::new(
                     "coeffs".into(),
@@ -930,9 +930,9 @@ fn pl_rolling_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResu
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
             let coeffs = if should_skip {
-                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda as f32)
+                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda as f32, has_bias)
             } else {
-                faer_rolling_lstsq(x, y, n, kwargs.lambda as f32)
+                faer_rolling_lstsq(x, y, n, kwargs.lambda as f32, has_bias)
             };
 
             let mut builder: ListPrimitiveChunkedBuilder<Float32Type> =
-- 
2.43.0


From 641758b618c73b6672c8be214aa0c7010e410d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 41/90] fix: lin_reg predictions with null_policy ignore lose
 all rows but one

---
 src/num_ext/linear_regression.rs     | 3 ++-
 src/num_ext/linear_regression_f32.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index c0d6f38..9fdf3e8 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -540,8 +540,9 @@ fn pl_lstsq_pred(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
             // If null policy is raise and we have nulls, we won't reach here
             // If null policy is raise and we are here, then (!&mask).any() will be false.
             // No need to check null policy here.
+            // If null policy is ignore, every row is kept and the mask says nothing about the rows.
             // In the mask, true means is not null. In !&mask, true means is null
-            let (p, r) = if (!&mask).any() {
+            let (p, r) = if !matches!(null_policy, NullPolicy::IGNORE) && (!&mask).any() {
                 let mut p_builder: PrimitiveChunkedBuilder<Float64Type> =
                     PrimitiveChunkedBuilder::new("pred".into(), mask.len());
                 let mut r_builder: PrimitiveChunkedBuilder<Float64Type> =
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 4a1bf5a..1a4035b 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -489,8 +489,9 @@ fn pl_lstsq_pred_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
             // If null policy is raise and we have nulls, we won't reach here
             // If null policy is raise and we are here, then (!&mask).any() will be false.
             // No need to check null policy here.
+            // If null policy is ignore, every row is kept and the mask says nothing about the rows.
             // In the mask, true means is not null. In !&mask, true means is null
-            let (p, r) = if (!&mask).any() {
+            let (p, r) = if !matches!(null_policy, NullPolicy::IGNORE) && (!&mask).any() {
                 let mut p_builder: PrimitiveChunkedBuilder<Float32Type> =
                     PrimitiveChunkedBuilder::new("pred".into(), mask.len());
                 let mut r_builder: PrimitiveChunkedBuilder<Float32Type> =
-- 
2.43.0


From 61421679bdea265766ac6fe0d4ac06f0a402d279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 42/90] fix: mode imputation raises an error for every column

---
 python/polars_ds/modeling/transforms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index bf139cc..dcdd4c8 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -44,7 +44,7 @@ def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean"
         temp = df.lazy().select(pl.col(cols).median()).collect().row(0)
         return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
     elif method == "mode":
-        temp = df.lazy().select(pl.col(cols).mode().list.first()).collect().row(0)
+        temp = df.lazy().select(pl.col(cols).drop_nulls().mode().first()).collect().row(0)
         return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
     else:
         raise ValueError(f"Unknown impute method: `{method}`")
@@ -98,7 +98,7 @@ def conditional_impute(
             df.lazy()
             .select(
                 *(
-                    pl.col(c).filter(rules_dict[c].not_()).mode().list.first()
+                    pl.col(c).filter(rules_dict[c].not_()).drop_nulls().mode().first()
                     for c in rules_dict.keys()
                 )
             )
@@ -106,7 +106,9 @@ def conditional_impute(
             .row(0)
         )
         return [
-            pl.when(rules_dict[c]).then(m).otherwise(pl.col(c)).alias(c) for c, m in zip(cols, temp)
+            # lit, because a string would be understood as the name of a column
+            pl.when(rules_dict[c]).then(pl.lit(m)).otherwise(pl.col(c)).alias(c)
+            for c, m in zip(cols, temp)
         ]
     else:
         raise ValueError(f"Unknown impute method: `{method}`")
-- 
2.43.0


From 750641d169783e54778f42fa2a7741f7194aced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 43/90] fix: blueprint drop and one_hot_encode reject the
 selectors they accept

---
 python/polars_ds/modeling/pipeline.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index cfea244..499dd45 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -630,7 +630,15 @@ class Blueprint:
         cols
             Any Polars expression that can be understood as columns.
         """
-        self._steps.append(PipelineStep(pl.all().exclude(cols), PLContext.SELECT))
+        # pl.Expr.exclude only accepts names and dtypes
+        exprs = [cols] if isinstance(cols, (str, pl.Expr)) or not hasattr(cols, "__iter__") else cols
+        if any(isinstance(c, pl.Expr) for c in exprs):
+            to_keep = cs.exclude(cols)
+            if len(self.exclude) > 0:  # Excluded columns should not be changed by a selector
+                to_keep = to_keep | cs.by_name(self.exclude, require_all=False)
+        else:
+            to_keep = pl.all().exclude(cols)
+        self._steps.append(PipelineStep(to_keep, PLContext.SELECT))
         return self
 
     def rename(self, rename_dict: Dict[str, str]) -> Self:
-- 
2.43.0


From a965116b5e1e70575ccc92ead24348fcfb39f548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 44/90] fix: blueprint rename drops columns when names are
 swapped

---
 python/polars_ds/modeling/pipeline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index 499dd45..42afba3 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -650,13 +650,15 @@ class Blueprint:
         rename_dict
             The name mapping
         """
-        old = list(rename_dict.keys())
+        new = set(rename_dict.values())
+        # A name that is also a new name is overwritten by the step, and must not be dropped
+        old = [k for k in rename_dict.keys() if k not in new]
         self._steps.append(
             PipelineStep(
                 [pl.col(k).alias(v) for k, v in rename_dict.items()], PLContext.WITH_COLUMNS
             )
         )
-        return self.drop(old)
+        return self.drop(old) if len(old) > 0 else self
 
     def one_hot_encode(
         self,
-- 
2.43.0


From c023d1747c2787383b25ad316b4094b96f0cd509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 45/90] fix: pipelines with polynomial features cannot be
 serialised

---
 python/polars_ds/modeling/transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index dcdd4c8..ff136c5 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -608,13 +608,15 @@ def polynomial_features(
     interaction_only
         It true, only combinations that involve 2 or more variables will be used.
     """
+    from functools import reduce
     from itertools import combinations_with_replacement
+    from operator import mul
 
     if degree <= 1:
         raise ValueError("Degree should be > 1.")
 
     return list(
-        pl.reduce(function=lambda acc, x: acc * x, exprs=list(comb)).alias("*".join(comb))
+        reduce(mul, (pl.col(c) for c in comb)).alias("*".join(comb))
         for comb in combinations_with_replacement(cols, degree)
         if ((not interaction_only) or len(set(comb)) > 1)
     )
-- 
2.43.0


From c241c1aba8125201f958f1c0f7549dcd3098f04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 46/90] fix: blueprint nan_to_null calls an expression method
 that does not exist

---
 python/polars_ds/modeling/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index 42afba3..8bf6c7f 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -433,7 +433,7 @@ class Blueprint:
         """
         Maps NaN values in all columns to null.
         """
-        self._steps.append(PipelineStep(cs.float().nan_to_null(), PLContext.WITH_COLUMNS))
+        self._steps.append(PipelineStep(cs.float().fill_nan(None), PLContext.WITH_COLUMNS))
         return self
 
     def int_to_float(self, f32: bool = True) -> Self:
-- 
2.43.0


From fce3d5e3ba5819b9eda4dd15b31c76a9f112b1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:11 +0000
Subject: [PATCH 47/90] fix: restored pipelines panic when imputing integer
 columns or rank hot encoding

---
 python/polars_ds/modeling/transforms.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index ff136c5..ad41185 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -23,6 +23,14 @@ import polars_ds.exprs.num as pds_num
 import polars_ds.exprs.expr_linear as lr
 
 
+def _fill_null(c: str, value: pl.Expr) -> pl.Expr:
+    """
+    Same as pl.col(c).fill_null(value). A fill_null whose value has another type than the column does not
+    survive the serialization of a pipeline, because Polars loses its casting options.
+    """
+    return pl.when(pl.col(c).is_null()).then(value).otherwise(pl.col(c)).alias(c)
+
+
 def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean") -> ExprTransform:
     """
     Impute null values in the given columns. This transform will collect if input is lazy.
@@ -39,13 +47,13 @@ def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean"
     """
     if method == "mean":
         temp = df.lazy().select(pl.col(cols).mean()).collect().row(0)
-        return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
+        return [_fill_null(c, pl.lit(m)) for c, m in zip(cols, temp)]
     elif method == "median":
         temp = df.lazy().select(pl.col(cols).median()).collect().row(0)
-        return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
+        return [_fill_null(c, pl.lit(m)) for c, m in zip(cols, temp)]
     elif method == "mode":
         temp = df.lazy().select(pl.col(cols).drop_nulls().mode().first()).collect().row(0)
-        return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
+        return [_fill_null(c, pl.lit(m)) for c, m in zip(cols, temp)]
     else:
         raise ValueError(f"Unknown impute method: `{method}`")
 
@@ -154,7 +162,7 @@ def linear_impute(
     if add_bias:
         linear_eq.append(pl.lit(coeffs[-1], dtype=pl.Float64))
 
-    return [pl.col(target_name).fill_null(pl.sum_horizontal(linear_eq)).alias(target_name)]
+    return [_fill_null(target_name, pl.sum_horizontal(linear_eq))]
 
 
 def center(df: PolarsFrame, cols: List[str]) -> ExprTransform:
@@ -388,7 +396,7 @@ def rank_hot_encode(
         old=ranking, new=number_rank, default=None, return_dtype=pl.Int32
     )
     return [
-        (ranked_expr >= i).cast(pl.Int8).fill_null(-1).alias(f"{col}>={c}")
+        (ranked_expr >= i).cast(pl.Int8).fill_null(pl.lit(-1, dtype=pl.Int8)).alias(f"{col}>={c}")
         for i, c in zip(range(1, n_ranks), ranking[1:])
     ]
 
-- 
2.43.0


From d4718f7a57d93dd13b7a22ae2eba14b89400ef2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 48/90] fix: split_by_ratio raises KeyError when one of the two
 parts is empty

---
 python/polars_ds/sample_and_split/sample_and_split.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 5a0c40c..f4c670d 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -233,10 +233,9 @@ def split_by_ratio(
                     "__tt"
                 )
             )
-            .partition_by("__tt", as_dict=True)
         )
-        train = frames[(True,)].select(pl.col("*").exclude(["__id", "__tt"]))
-        test = frames[(False,)].select(pl.col("*").exclude(["__id", "__tt"]))
+        train = frames.filter(pl.col("__tt")).select(pl.col("*").exclude(["__id", "__tt"]))
+        test = frames.filter(~pl.col("__tt")).select(pl.col("*").exclude(["__id", "__tt"]))
         return [train, test]
     else: # Should work with iterable (with a length), not just list
         if len(split_ratio) == 1:
-- 
2.43.0


From 02ffea9cb4ac81a08197e113a6377546cca3143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 49/90] fix: split_by_ratio with a list of ratios loses rows

---
 python/polars_ds/sample_and_split/sample_and_split.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index f4c670d..8769af9 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -255,8 +255,10 @@ def split_by_ratio(
             n = len(df_eager)
             start = 0
             dfs = []
-            for v in split_ratio:
-                length = int(n * v)
+            last = len(split_ratio) - 1
+            for i, v in enumerate(split_ratio):
+                # The last part takes what is left, so that no row is lost
+                length = n - start if i == last else int(n * v)
                 dfs.append(
                     df_eager.slice(start, length=length).select(pl.col("*").exclude(["__id", "__tt"]))
                 )
-- 
2.43.0


From 918941037ab1823633dc64b63b6909baff554d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 50/90] fix: split_by_ratio rejects ratios whose floating point
 sum is not exactly 1

---
 python/polars_ds/sample_and_split/sample_and_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 8769af9..993c8f6 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -241,7 +241,7 @@ def split_by_ratio(
         if len(split_ratio) == 1:
             return split_by_ratio(df, split_ratio[0], seed)
         else:
-            if sum(split_ratio) != 1:
+            if not math.isclose(sum(split_ratio), 1.0):
                 raise ValueError("Sum of the ratios is not 1.")
 
             df_eager = (
-- 
2.43.0


From aa746491140ace637e33a97d0513ef9d644674b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 51/90] fix: random_cols ignores its seed

---
 python/polars_ds/sample_and_split/sample_and_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 993c8f6..e5e49fa 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -193,7 +193,7 @@ def random_cols(
     if pool_size < k:
         raise ValueError("Not enough columns to select from.")
 
-    n = random.randrange(0, math.comb(pool_size, k))
+    n = random.Random(seed).randrange(0, math.comb(pool_size, k))
     rand_cols = next(islice(to_sample, n, None), None)
     return out + list(rand_cols)
 
-- 
2.43.0


From 5794ebbaac089ed1cc73ca9f9b07de2e57d44321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 52/90] fix: random_cols fails when keep has columns outside of
 the pool

---
 python/polars_ds/sample_and_split/sample_and_split.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index e5e49fa..16dbf62 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -184,12 +184,13 @@ def random_cols(
     """
     if keep is None:
         out = []
-        to_sample = combinations(all_columns, k)
+        pool = all_columns
     else:
         out = keep
-        to_sample = combinations((c for c in all_columns if c not in keep), k)
+        pool = [c for c in all_columns if c not in keep]
 
-    pool_size = len(all_columns) - len(out)
+    to_sample = combinations(pool, k)
+    pool_size = len(pool)
     if pool_size < k:
         raise ValueError("Not enough columns to select from.")
 
-- 
2.43.0


From eec990a6e62351a02943c55876609ce5f39d0341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 53/90] fix: downsample drops rows where a condition is null

---
 python/polars_ds/sample_and_split/sample_and_split.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 16dbf62..141893d 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -157,7 +157,10 @@ def downsample(
     >>>     [(pl.col("y").is_between(1, 2, closed="both"), 0.5)]
     >>> )
     """
-    all_filters = ((_sampler_expr(r, seed).over(c) | (~c)) for c, r in conditions)
+    # Rows where the condition is null are not in the part to sample from
+    all_filters = (
+        (_sampler_expr(r, seed).over(c) | (~c).fill_null(True)) for c, r in conditions
+    )
     return df.lazy().filter(pl.lit(True).and_(*all_filters)).collect()
 
 
-- 
2.43.0


From eb883e35199a10d5940df9737e1ae632beec9fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 54/90] fix: PartitionHelper silently drops parts whose names
 collide

---
 python/polars_ds/partition/partition.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/partition/partition.py b/python/polars_ds/partition/partition.py
index 4d838e8..c181dcd 100644
--- a/python/polars_ds/partition/partition.py
+++ b/python/polars_ds/partition/partition.py
@@ -48,10 +48,14 @@ class PartitionHelper():
             if not all_ok:
                 raise ValueError("Currently this only supports partitions by str, bool or categorical columns.")
 
-            self.parts = {
-                separator.join((str(k) for k in keys)): value
-                for keys, value in df.lazy().collect().partition_by(by=by, as_dict=True).items()
-            }
+            self.parts = {}
+            for keys, value in df.lazy().collect().partition_by(by=by, as_dict=True).items():
+                name = separator.join((str(k) for k in keys))
+                if name in self.parts:
+                    raise ValueError(
+                        f"More than one part would have the name `{name}`. Please use another separator."
+                    )
+                self.parts[name] = value
 
     def __repr__(self) -> str:
         output = ""
-- 
2.43.0


From 88d280c0cd35c982b57979303f1cc43252cdca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 55/90] fix: query_permute_entropy does not use tau as the time
 delay within a vector

---
 python/polars_ds/exprs/ts_features.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index be1d257..1ccd173 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -773,11 +773,8 @@ def query_permute_entropy(
         )
     else:
         return (
-            pl.concat_list(
-                t.gather_every(tau),
-                *(t.shift(-i).gather_every(tau) for i in range(1, n_dims)),
-            )
-            .slice(0, length=(t.len() // tau) + 1 - (n_dims // tau))
+            pl.concat_list(t, *(t.shift(-i * tau) for i in range(1, n_dims)))
+            .head(t.len() - (n_dims - 1) * tau)
             .list.eval(pl.element().arg_sort())
             .value_counts()
             .struct.field("count")
-- 
2.43.0


From 0cb22e5fd5846b91b5d684471a72071ccecdf938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:48 +0000
Subject: [PATCH 56/90] fix: mann_whitney_u ignores the ties among the largest
 values

---
 src/stats/mann_whitney_u.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/stats/mann_whitney_u.rs b/src/stats/mann_whitney_u.rs
index 1d3c390..b69cc0f 100644
--- a/src/stats/mann_whitney_u.rs
+++ b/src/stats/mann_whitney_u.rs
@@ -6,6 +6,7 @@ use pyo3_polars::derive::polars_expr;
 
 fn mann_whitney_tie_sum(ranks: &Float64Chunked) -> f64 {
     // NaN won't exist in ranks.
+    let tie_term = |cnt: f64| cnt * (cnt + 1.0) * (cnt - 1.0);
     let mut rank_number = f64::NAN;
     let mut rank_cnt: f64 = 0f64;
     let mut accumulant = 0f64;
@@ -13,12 +14,13 @@ fn mann_whitney_tie_sum(ranks: &Float64Chunked) -> f64 {
         if v == rank_number {
             rank_cnt += 1.;
         } else {
-            accumulant += rank_cnt * (rank_cnt + 1.0) * (rank_cnt - 1.0);
+            accumulant += tie_term(rank_cnt);
             rank_number = v;
             rank_cnt = 1.0;
         }
     }
-    accumulant
+    // The last group isn't followed by a different rank
+    accumulant + tie_term(rank_cnt)
 }
 
 #[polars_expr(output_type_func=simple_stats_output)]
@@ -52,7 +54,8 @@ fn pl_mann_whitney_u(inputs: &[Series]) -> PolarsResult<Series> {
     };
 
     let p = if std_ == 0. {
-        0.
+        // All values are equal. There is no evidence for any difference.
+        1.
     } else {
         // -0.5 is some continuity adjustment. See Scipy's impl
         (factor * normal::sf_unchecked(u, mean + 0.5, std_)).clamp(0., 1.)
-- 
2.43.0


From 15a34cdb1096274f2848dd7d0380eacfc244881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:48 +0000
Subject: [PATCH 57/90] fix: ks_2samp rejects columns with exactly 30 values

---
 src/stats/ks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats/ks.rs b/src/stats/ks.rs
index a930f11..7b9ee69 100644
--- a/src/stats/ks.rs
+++ b/src/stats/ks.rs
@@ -63,7 +63,7 @@ fn pl_ks_2samp(inputs: &[Series]) -> PolarsResult<Series> {
     let alpha = inputs[2].f64()?;
     let alpha = alpha.get(0).unwrap();
 
-    if (s1.len() <= 30) || (s2.len() <= 30) {
+    if (s1.len() < 30) || (s2.len() < 30) {
         generic_stats_output(0f64, f64::NAN)
     } else {
         let v1 = s1.cont_slice().unwrap();
-- 
2.43.0


From 4c2c80ceff5290834c3343c11b70b3efe7b22082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 58/90] fix: str_lcs_seq panics unless return_sim is False

---
 python/polars_ds/exprs/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index f8c7f46..83a9406 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -594,7 +594,7 @@ def str_lcs_seq(
     """
     if return_sim:
         return pl_plugin(
-            symbol="pl_lcs_seq_sim",
+            symbol="pl_lcs_sim",
             args=[str_to_expr(c), str_to_expr(other), pl.lit(parallel, pl.Boolean)],
         )
     else:
-- 
2.43.0


From 9baa5318ba8cb5e61a38b8c0153e8336743381a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 59/90] fix: str_fuzz declares the wrong data type

---
 src/str_ext/fuzz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 48f92bc..965e2e6 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -12,7 +12,7 @@ use pyo3_polars::{
 };
 use rapidfuzz::fuzz::{ratio, RatioBatchComparator};
 
-#[polars_expr(output_type=UInt32)]
+#[polars_expr(output_type=Float64)]
 fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
-- 
2.43.0


From 62245d022a992e3249e2bae387af2b9e9aabdf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 60/90] fix: similar_to_vocab with metric jw raises TypeError

---
 python/polars_ds/exprs/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index 83a9406..6ac3745 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -696,7 +696,7 @@ def similar_to_vocab(
     elif metric == "osa":
         sims = [str_osa(c, pl.lit(w, dtype=pl.String), return_sim=True) for w in vocab]
     elif metric == "jw":
-        sims = [str_jw(c, pl.lit(w, dtype=pl.String), return_sim=True) for w in vocab]
+        sims = [str_jw(c, pl.lit(w, dtype=pl.String)) for w in vocab]
     else:
         raise ValueError(f"Unknown metric: {metric}")
 
-- 
2.43.0


From 6484fa7e7c52c7786de49562e89969ff7d3e58a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 61/90] fix: str_nearest treats nulls as empty strings

---
 src/str_ext/nearest_str.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/str_ext/nearest_str.rs b/src/str_ext/nearest_str.rs
index 2ad6c07..309ebdb 100644
--- a/src/str_ext/nearest_str.rs
+++ b/src/str_ext/nearest_str.rs
@@ -17,7 +17,7 @@ fn levenshtein_nearest<'a>(s: &'a StringChunked, cutoff: usize, word: String) ->
     let mut actual_cutoff = levenshtein::Args::default().score_cutoff(cutoff);
     let mut nearest_str: Option<&str> = None;
     for arr in s.downcast_iter() {
-        for w in arr.values_iter() {
+        for w in arr.iter().flatten() {
             if let Some(d) = batched.distance_with_args(w.chars(), &actual_cutoff) {
                 if d == 0 {
                     return Some(w);
@@ -39,7 +39,7 @@ fn hamming_nearest<'a>(s: &'a StringChunked, cutoff: usize, word: String) -> Opt
     let mut nearest_str: Option<&str> = None;
 
     for arr in s.downcast_iter() {
-        for w in arr.values_iter() {
+        for w in arr.iter().flatten() {
             if let Ok(ss) = batched.distance_with_args(w.chars(), &actual_cutoff) {
                 if let Some(d) = ss {
                     if d == 0 {
-- 
2.43.0


From de0ce1816b11444a4fb8e940495afe98dc8f4187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 62/90] fix: substring similarities to an empty string are NaN

---
 src/str_ext/mod.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/str_ext/mod.rs b/src/str_ext/mod.rs
index c7b2380..0089e53 100644
--- a/src/str_ext/mod.rs
+++ b/src/str_ext/mod.rs
@@ -27,20 +27,19 @@ pub fn str_set_sim_helper(w1: &str, w2: &str, ngram: usize) -> (usize, usize, us
     let w1_len = w1.len();
     let w2_len = w2.len();
 
-    // as long as intersection size is 0, output will be correct
-    if (w1_len == 0) || (w2_len == 0) {
-        return (0, 0, 0);
-    }
-
-    // Both are nonempty
     // Another version that has slices of size <= n?
-    let s1: HashSet<&[u8]> = if w1_len < ngram {
+    // The empty string has no substring
+    let s1: HashSet<&[u8]> = if w1_len == 0 {
+        HashSet::new()
+    } else if w1_len < ngram {
         HashSet::from_iter([w1.as_bytes()])
     } else {
         HashSet::from_iter(w1.as_bytes().windows(ngram))
     };
 
-    let s2: HashSet<&[u8]> = if w2_len < ngram {
+    let s2: HashSet<&[u8]> = if w2_len == 0 {
+        HashSet::new()
+    } else if w2_len < ngram {
         HashSet::from_iter([w2.as_bytes()])
     } else {
         HashSet::from_iter(w2.as_bytes().windows(ngram))
-- 
2.43.0


From 06cf68df1a8fcbf75988e43f72a4938fae4b2598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 63/90] fix: string comparisons panic on a single null in the
 second argument

---
 src/str_ext/fuzz.rs          |  8 +++++++-
 src/str_ext/hamming.rs       | 24 +++++++++++++++++++---
 src/str_ext/jaro.rs          | 16 +++++++++++++--
 src/str_ext/lcs_seq.rs       | 16 +++++++++++++--
 src/str_ext/levenshtein.rs   | 40 +++++++++++++++++++++++++++++++-----
 src/str_ext/osa.rs           | 16 +++++++++++++--
 src/str_ext/overlap.rs       |  8 +++++++-
 src/str_ext/sorensen_dice.rs |  8 +++++++-
 src/str_ext/str_jaccard.rs   |  8 +++++++-
 src/str_ext/tversky.rs       |  8 +++++++-
 10 files changed, 133 insertions(+), 19 deletions(-)

diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 965e2e6..a4bdff7 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -20,7 +20,13 @@ fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let batched = RatioBatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
diff --git a/src/str_ext/hamming.rs b/src/str_ext/hamming.rs
index a7642c4..94d718e 100644
--- a/src/str_ext/hamming.rs
+++ b/src/str_ext/hamming.rs
@@ -29,7 +29,13 @@ fn pl_hamming(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::UInt32,
+            ));
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: UInt32Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -119,7 +125,13 @@ fn pl_hamming_padded(inputs: &[Series], context: CallerContext) -> PolarsResult<
     let can_parallel = parallel && !context.parallel();
     let padding = hamming::Args::default().pad(true);
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::UInt32,
+            ));
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: UInt32Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -176,7 +188,13 @@ fn pl_hamming_filter(inputs: &[Series], context: CallerContext) -> PolarsResult<
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Boolean,
+            ));
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: BooleanChunked = if can_parallel {
             POOL.install(|| {
diff --git a/src/str_ext/jaro.rs b/src/str_ext/jaro.rs
index 441c64c..58b9b70 100644
--- a/src/str_ext/jaro.rs
+++ b/src/str_ext/jaro.rs
@@ -33,7 +33,13 @@ fn pl_jaro(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let batched = jaro::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -55,7 +61,13 @@ fn pl_jw(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let batched = jaro_winkler::BatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
diff --git a/src/str_ext/lcs_seq.rs b/src/str_ext/lcs_seq.rs
index e09424f..859a0a9 100644
--- a/src/str_ext/lcs_seq.rs
+++ b/src/str_ext/lcs_seq.rs
@@ -23,7 +23,13 @@ fn pl_lcs_seq(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::UInt32,
+            ));
+        };
         let batched = lcs_seq::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -43,7 +49,13 @@ fn pl_lcs_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let batched = lcs_seq::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/levenshtein.rs b/src/str_ext/levenshtein.rs
index 4a56040..f25b93c 100644
--- a/src/str_ext/levenshtein.rs
+++ b/src/str_ext/levenshtein.rs
@@ -50,7 +50,13 @@ fn pl_levenshtein(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::UInt32,
+            ));
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -72,7 +78,13 @@ fn pl_levenshtein_filter(inputs: &[Series], context: CallerContext) -> PolarsRes
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Boolean,
+            ));
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         let out: BooleanChunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -135,7 +147,13 @@ fn pl_levenshtein_sim(inputs: &[Series], context: CallerContext) -> PolarsResult
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -155,7 +173,13 @@ fn pl_d_levenshtein(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::UInt32,
+            ));
+        };
         let batched = damerau_levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -180,7 +204,13 @@ fn pl_d_levenshtein_sim(inputs: &[Series], context: CallerContext) -> PolarsResu
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let batched = damerau_levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/osa.rs b/src/str_ext/osa.rs
index 3496955..a45c50e 100644
--- a/src/str_ext/osa.rs
+++ b/src/str_ext/osa.rs
@@ -23,7 +23,13 @@ fn pl_osa(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::UInt32,
+            ));
+        };
         let batched = osa::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -43,7 +49,13 @@ fn pl_osa_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let batched = osa::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/overlap.rs b/src/str_ext/overlap.rs
index 67e4580..9ac04c1 100644
--- a/src/str_ext/overlap.rs
+++ b/src/str_ext/overlap.rs
@@ -32,7 +32,13 @@ fn pl_overlap_coeff(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/sorensen_dice.rs b/src/str_ext/sorensen_dice.rs
index f3e9a79..0360da8 100644
--- a/src/str_ext/sorensen_dice.rs
+++ b/src/str_ext/sorensen_dice.rs
@@ -32,7 +32,13 @@ fn pl_sorensen_dice(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/str_jaccard.rs b/src/str_ext/str_jaccard.rs
index 891e723..9969fc7 100644
--- a/src/str_ext/str_jaccard.rs
+++ b/src/str_ext/str_jaccard.rs
@@ -33,7 +33,13 @@ fn pl_str_jaccard(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap(); // .unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/tversky.rs b/src/str_ext/tversky.rs
index 936f7ff..49ee1de 100644
--- a/src/str_ext/tversky.rs
+++ b/src/str_ext/tversky.rs
@@ -41,7 +41,13 @@ fn pl_tversky_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
-- 
2.43.0


From fb4ba46bf78b0467f28298eebc8d9c8105df6ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 64/90] fix: filter_by_hamming ignores pad

---
 python/polars_ds/exprs/string.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index 6ac3745..3cf2946 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -84,8 +84,8 @@ def filter_by_hamming(
 ) -> pl.Expr:
     """
     Returns whether the hamming distance between self and other is <= bound. This is
-    faster than computing hamming distance and then doing a filter. Note this does not pad
-    the strings. If the lengths of the two strings do not match, they will be filtered out.
+    faster than computing hamming distance and then doing a filter. Unless pad is true, this does
+    not pad the strings. If the lengths of the two strings do not match, they will be filtered out.
 
     Parameters
     ----------
@@ -96,11 +96,16 @@ def filter_by_hamming(
         string with all of column c, use pl.lit(your_str)
     bound
         Closed upper bound. If distance <= bound, return true and false otherwise.
+    pad
+        Whether to pad the string when lengths are not equal.
     parallel
         Whether to run the comparisons in parallel. Note that this is not always faster, especially
         when used with other expressions or in group_by/over context.
     """
 
+    if pad:
+        return str_hamming(c, other, pad=True, parallel=parallel) <= bound
+
     return pl_plugin(
         symbol="pl_hamming_filter",
         args=[
-- 
2.43.0


From f097420a76920c52a1e007c64a334e78174840fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:21 +0000
Subject: [PATCH 65/90] fix: str_fuzz with a literal returns the LCS similarity
 instead of the ratio

---
 src/str_ext/fuzz.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index a4bdff7..3e71dba 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -10,7 +10,7 @@ use pyo3_polars::{
         POOL,
     },
 };
-use rapidfuzz::fuzz::{ratio, RatioBatchComparator};
+use rapidfuzz::{distance::indel, fuzz::ratio};
 
 #[polars_expr(output_type=Float64)]
 fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
@@ -27,21 +27,22 @@ fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
                 &DataType::Float64,
             ));
         };
-        let batched = RatioBatchComparator::new(r.chars());
+        // rapidfuzz's RatioBatchComparator scores the LCS similarity, which is not the same as ratio
+        let batched = indel::BatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
             let chunks_iter = splits.into_par_iter().map(|(offset, len)| {
                 let s1 = ca1.slice(offset as i64, len);
                 let out: Float64Chunked = s1.apply_nonnull_values_generic(DataType::Float64, |s| {
-                    batched.similarity(s.chars())
+                    batched.normalized_similarity(s.chars())
                 });
                 out.downcast_iter().cloned().collect::<Vec<_>>()
             });
             let chunks = POOL.install(|| chunks_iter.collect::<Vec<_>>());
             Float64Chunked::from_chunk_iter(ca1.name().clone(), chunks.into_iter().flatten())
         } else {
-            ca1.apply_nonnull_values_generic(DataType::Float64, |s| batched.similarity(s.chars()))
+            ca1.apply_nonnull_values_generic(DataType::Float64, |s| batched.normalized_similarity(s.chars()))
         };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
-- 
2.43.0


From 87be269eed16eacee815fc1f2350b60a56e000f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:35 +0000
Subject: [PATCH 66/90] fix: str_tokenize with stem keeps duplicates and leaves
 stop words as empty strings

---
 python/polars_ds/exprs/string.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index 3cf2946..8175b15 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -275,7 +275,9 @@ def str_tokenize(c: str | pl.Expr, pattern: str = r"(?u)\b\w\w+\b", stem: bool =
     """
     out = str_to_expr(c).str.extract_all(pattern)
     if stem:
-        return out.list.eval(str_snowball(pl.element(), True).drop_nulls())
+        # Stopwords and numbers are stemmed to the empty string
+        stems = str_snowball(pl.element(), True)
+        return out.list.eval(stems.filter(stems != "").unique(maintain_order=True))
     return out
 
 
-- 
2.43.0


From 511ae49a0a2caf575a50b8552251ccac317a5c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 67/90] fix: random_binomial always fails because n is passed
 as a signed integer

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 8c74cd7..56d8eed 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -635,7 +635,7 @@ def random_binomial(
         symbol="pl_rand_binomial",
         args=[
             pl.lit(length, pl.UInt32) if isinstance(length, int) else length,
-            pl.lit(n, pl.Int32),
+            pl.lit(n, pl.UInt32),
             pl.lit(p, pl.Float64),
             pl.lit(seed, pl.UInt64),
         ],
-- 
2.43.0


From 92ac6cd1df17e36aadc057d3dadda9ddf3680967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 68/90] fix: random_int raises for expression bounds

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 56d8eed..89f76fb 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -556,7 +556,7 @@ def random_int(
     length
         Custom length. Note length needs to match with other columns in the context.
     """
-    if lower == upper:
+    if isinstance(lower, int) and isinstance(upper, int) and lower == upper:
         raise ValueError("Input `lower` must be smaller than `higher`")
 
     lo = pl.lit(lower, pl.Int32) if isinstance(lower, int) else lower.cast(pl.Int32)
-- 
2.43.0


From a074e54d6f04beab3b545f37df9d3dbccc747bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 69/90] fix: random, random_normal and jitter fail for integer
 parameters

---
 python/polars_ds/exprs/stats.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 89f76fb..3facff5 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -415,7 +415,7 @@ def jitter(x: str | pl.Expr, std: float | pl.Expr = 1.0, seed: int | None = None
     seed
         A random seed
     """
-    if isinstance(std, float):
+    if isinstance(std, (int, float)):
         if std < 0:
             raise ValueError("Standard deviation must be positive.")
         elif std == 0:
@@ -504,8 +504,8 @@ def random(
     length
         Custom length. Note length needs to match with other columns in the context.
     """
-    lo = pl.lit(lower, pl.Float64) if isinstance(lower, float) else lower
-    up = pl.lit(upper, pl.Float64) if isinstance(upper, float) else upper
+    lo = lower.cast(pl.Float64) if isinstance(lower, pl.Expr) else pl.lit(lower, pl.Float64)
+    up = upper.cast(pl.Float64) if isinstance(upper, pl.Expr) else pl.lit(upper, pl.Float64)
     len_ = pl.lit(length, pl.UInt32) if isinstance(length, int) else length
     return pl_plugin(
         symbol="pl_random",
@@ -693,8 +693,8 @@ def random_normal(
         symbol="pl_rand_normal",
         args=[
             pl.lit(length, pl.UInt32) if isinstance(length, int) else length,
-            pl.lit(mean, pl.Float64) if isinstance(mean, float) else mean,
-            pl.lit(std, pl.Float64) if isinstance(std, float) else std,
+            mean.cast(pl.Float64) if isinstance(mean, pl.Expr) else pl.lit(mean, pl.Float64),
+            std.cast(pl.Float64) if isinstance(std, pl.Expr) else pl.lit(std, pl.Float64),
             pl.lit(seed, pl.UInt64),
         ],
         is_elementwise=True,
-- 
2.43.0


From 65356664e9ebb36f5742177a56ef64bad475969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 70/90] fix: perturb with epsilon = 0 panics

---
 python/polars_ds/exprs/stats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 3facff5..6fb11be 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -387,6 +387,9 @@ def perturb(
         raise ValueError("Input `epsilon should be a valid finite value.`")
 
     ep = abs(epsilon)
+    if ep == 0:
+        return str_to_expr(x)
+
     if positive:
         lo = pl.lit(0.0, dtype=pl.Float64)
         hi = pl.lit(ep, dtype=pl.Float64)
-- 
2.43.0


From 731ab8f06b126e3a43a1a959c7cb0de77f6693f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 71/90] fix: random_str declares a float output type

---
 src/stats/sample.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats/sample.rs b/src/stats/sample.rs
index e95c2db..d3eacb0 100644
--- a/src/stats/sample.rs
+++ b/src/stats/sample.rs
@@ -184,7 +184,7 @@ fn pl_rand_normal(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type=String)]
 fn pl_rand_str(inputs: &[Series]) -> PolarsResult<Series> {
     let len = inputs[0].u32()?;
     let len = len.get(0).unwrap() as usize;
-- 
2.43.0


From 48400da46a64e996198bda5eade2b0c2d1e34074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:57 +0000
Subject: [PATCH 72/90] fix: regression report scores R2 against the sample
 variance times n, ignores weights, and counts the bias twice in adj_r2

---
 python/polars_ds/exprs/expr_linear.py |  4 +--
 src/num_ext/linear_regression.rs      | 47 +++++++++++++++------------
 src/num_ext/linear_regression_f32.rs  | 47 +++++++++++++++------------
 3 files changed, 54 insertions(+), 44 deletions(-)

diff --git a/python/polars_ds/exprs/expr_linear.py b/python/polars_ds/exprs/expr_linear.py
index c25cfb3..c4caf70 100644
--- a/python/polars_ds/exprs/expr_linear.py
+++ b/python/polars_ds/exprs/expr_linear.py
@@ -585,13 +585,13 @@ def lin_reg_report(
 
     t = lr_formula(target)
     if weights is None:
-        cols = [t.var(), t]
+        cols = [t]
         cols.extend(lr_formula(z) for z in x)
         symbol = _lin_reg_expr_symbol("pl_lin_reg_report")
 
     else:
         w = lr_formula(weights)
-        cols = [w.cast(pl.Float64).rechunk(), t.var(), t]
+        cols = [w.cast(pl.Float64).rechunk(), t]
         cols.extend(lr_formula(z) for z in x)
         symbol = _lin_reg_expr_symbol("pl_wls_report")
 
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 9fdf3e8..d14b676 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -580,15 +580,12 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     let se_type = StandardError::from(kwargs.std_err);
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
-    // index 0 is y_var, 1 is target y. Skip
-    let binding = inputs[0].cast(&DataType::Float64)?;
-    let y_var = binding.f64().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f64::NAN);
+    // index 0 is target y. Skip
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
-        inputs.len().abs_diff(2) + (has_bias) as usize,
+        inputs.len().abs_diff(1) + (has_bias) as usize,
     );
-    for s in inputs[2..].iter().map(|s| s.name()) {
+    for s in inputs[1..].iter().map(|s| s.name()) {
         name_builder.append_value(s);
     }
     if has_bias {
@@ -596,7 +593,7 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     }
     // Copy data
     // Target y is at index 0
-    match series_to_mat_for_lstsq(&inputs[1..], has_bias, null_policy) {
+    match series_to_mat_for_lstsq(inputs, has_bias, null_policy) {
         Ok((mat, _)) => {
             let ncols = mat.ncols() - 1;
             let nrows = mat.nrows();
@@ -616,10 +613,14 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
             let res = y - x * &coeffs;
 
             // r2, adj_r2
-            let nf64 = nrows as f64;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf64);
+            // total sum of squares of the rows that are actually used
+            let y_mean = (0..nrows).fold(0., |acc, i| acc + *y.get(i, 0)) / nrows as f64;
+            let tss = (0..nrows).fold(0., |acc, i| acc + (*y.get(i, 0) - y_mean).powi(2));
+            let ratio = res.col(0).squared_norm_l2() / tss;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / (dof - 1.0));
+            // dof already counts the bias term
+            let adj_dof = if has_bias { dof } else { dof - 1.0 };
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / adj_dof);
 
             // std err
             let std_err = match se_type {
@@ -741,23 +742,20 @@ fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
     let binding = inputs[0].cast(&DataType::Float64)?;
     let weights = binding.f64().unwrap();
     let weights = weights.cont_slice().unwrap();
-    let binding2 = inputs[1].cast(&DataType::Float64)?;
-    let y_var = binding2.f64().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f64::NAN);
-    // index 0 is weights, 1 is y_var, 2 is target y. Skip them
+    // index 0 is weights, 1 is target y. Skip them
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
-        inputs.len().abs_diff(3) + (has_bias) as usize,
+        inputs.len().abs_diff(2) + (has_bias) as usize,
     );
-    for s in inputs[3..].iter().map(|s| s.name()) {
+    for s in inputs[2..].iter().map(|s| s.name()) {
         name_builder.append_value(s);
     }
     if has_bias {
         name_builder.append_value("__bias__");
     }
     // Copy data
-    // Target y is at index 2, weights at index 0
-    match series_to_mat_for_lstsq(&inputs[2..], has_bias, null_policy) {
+    // Target y is at index 1, weights at index 0
+    match series_to_mat_for_lstsq(&inputs[1..], has_bias, null_policy) {
         Ok((mat, _)) => {
             let ncols = mat.ncols() - 1;
             let nrows = mat.nrows();
@@ -785,10 +783,17 @@ fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
                 (0..y.nrows()).fold(0., |acc, i| acc + weights[i] * res.get(i, 0).powi(2)) / dof;
 
             // r2, adj_r2
-            let nf64 = nrows as f64;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf64);
+            // weighted residual and total sum of squares
+            let w_sum = (0..nrows).fold(0., |acc, i| acc + weights[i]);
+            let y_mean = (0..nrows).fold(0., |acc, i| acc + weights[i] * *y.get(i, 0)) / w_sum;
+            let tss = (0..nrows).fold(0., |acc, i| {
+                acc + weights[i] * (*y.get(i, 0) - y_mean).powi(2)
+            });
+            let ratio = mse * dof / tss;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / (dof - 1.0));
+            // dof already counts the bias term
+            let adj_dof = if has_bias { dof } else { dof - 1.0 };
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / adj_dof);
 
             // std err
             let std_err = (0..ncols)
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 1a4035b..c2cd73c 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -529,15 +529,12 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
     let se_type = StandardError::from(kwargs.std_err);
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
-    // index 0 is y_var, 1 is target y. Skip
-    let binding = inputs[0].cast(&DataType::Float32)?;
-    let y_var = binding.f32().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f32::NAN);
+    // index 0 is target y. Skip
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
-        inputs.len().abs_diff(2) + (has_bias) as usize,
+        inputs.len().abs_diff(1) + (has_bias) as usize,
     );
-    for s in inputs[2..].iter().map(|s| s.name()) {
+    for s in inputs[1..].iter().map(|s| s.name()) {
         name_builder.append_value(s);
     }
     if has_bias {
@@ -545,7 +542,7 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
     }
     // Copy data
     // Target y is at index 0
-    match series_to_mat_for_lstsq_f32(&inputs[1..], has_bias, null_policy) {
+    match series_to_mat_for_lstsq_f32(inputs, has_bias, null_policy) {
         Ok((mat, _)) => {
             let ncols = mat.ncols() - 1;
             let nrows = mat.nrows();
@@ -565,10 +562,14 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
             let res = y - x * &coeffs;
 
             // r2, adj_r2
-            let nf32 = nrows as f32;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf32);
+            // total sum of squares of the rows that are actually used
+            let y_mean = (0..nrows).fold(0., |acc, i| acc + *y.get(i, 0)) / nrows as f32;
+            let tss = (0..nrows).fold(0., |acc, i| acc + (*y.get(i, 0) - y_mean).powi(2));
+            let ratio = res.col(0).squared_norm_l2() / tss;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / (dof - 1.0));
+            // dof already counts the bias term
+            let adj_dof = if has_bias { dof } else { dof - 1.0 };
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / adj_dof);
 
             // std err
             let std_err = match se_type {
@@ -689,23 +690,20 @@ fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     let binding = inputs[0].cast(&DataType::Float32)?;
     let weights = binding.f32().unwrap();
     let weights = weights.cont_slice().unwrap();
-    let binding2 = inputs[1].cast(&DataType::Float32)?;
-    let y_var = binding2.f32().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f32::NAN);
-    // index 0 is weights, 1 is y_var, 2 is target y. Skip them
+    // index 0 is weights, 1 is target y. Skip them
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
-        inputs.len().abs_diff(3) + (has_bias) as usize,
+        inputs.len().abs_diff(2) + (has_bias) as usize,
     );
-    for s in inputs[3..].iter().map(|s| s.name()) {
+    for s in inputs[2..].iter().map(|s| s.name()) {
         name_builder.append_value(s);
     }
     if has_bias {
         name_builder.append_value("__bias__");
     }
     // Copy data
-    // Target y is at index 2, weights at index 0
-    match series_to_mat_for_lstsq_f32(&inputs[2..], has_bias, null_policy) {
+    // Target y is at index 1, weights at index 0
+    match series_to_mat_for_lstsq_f32(&inputs[1..], has_bias, null_policy) {
         Ok((mat, _)) => {
             let ncols = mat.ncols() - 1;
             let nrows = mat.nrows();
@@ -733,10 +731,17 @@ fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
                 (0..y.nrows()).fold(0., |acc, i| acc + weights[i] * res.get(i, 0).powi(2)) / dof;
 
             // r2, adj_r2
-            let nf32 = nrows as f32;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf32);
+            // weighted residual and total sum of squares
+            let w_sum = (0..nrows).fold(0., |acc, i| acc + weights[i]);
+            let y_mean = (0..nrows).fold(0., |acc, i| acc + weights[i] * *y.get(i, 0)) / w_sum;
+            let tss = (0..nrows).fold(0., |acc, i| {
+                acc + weights[i] * (*y.get(i, 0) - y_mean).powi(2)
+            });
+            let ratio = mse * dof / tss;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / (dof - 1.0));
+            // dof already counts the bias term
+            let adj_dof = if has_bias { dof } else { dof - 1.0 };
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / adj_dof);
 
             // std err
             let std_err = (0..ncols)
-- 
2.43.0


From 4a34eb97ea968fca12f0f54b71d409cf7d926b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:37 +0000
Subject: [PATCH 73/90] fix: declared types of lin_reg_report and psi_discrete
 reports do not match the results

---
 src/num_ext/linear_regression.rs     | 19 ++++++++++++++-----
 src/num_ext/linear_regression_f32.rs | 19 ++++++++++++++-----
 src/num_ext/psi.rs                   | 13 ++++++++++++-
 3 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index d14b676..5443de2 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -52,10 +52,19 @@ pub(crate) struct SWWLstsqKwargs {
     pub(crate) min_size: usize,
 }
 
-fn report_output(_: &[Field]) -> PolarsResult<Field> {
+fn report_output(_: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
+    // the name of this field depends on which standard error is asked for
+    Ok(report_field(StandardError::from(kwargs.std_err).into()))
+}
+
+fn wls_report_output(_: &[Field]) -> PolarsResult<Field> {
+    Ok(report_field(StandardError::SE.into()))
+}
+
+fn report_field(se_name: PlSmallStr) -> Field {
     let features = Field::new("features".into(), DataType::String); // index of feature
     let beta = Field::new("beta".into(), DataType::Float64); // estimated value for this coefficient
-    let stderr = Field::new("std_err".into(), DataType::Float64); // Std Err for this coefficient
+    let stderr = Field::new(se_name, DataType::Float64); // Std Err for this coefficient
     let t = Field::new("t".into(), DataType::Float64); // t value for this coefficient
     let p = Field::new("p>|t|".into(), DataType::Float64); // p value for this coefficient
     let ci_lower = Field::new("0.025".into(), DataType::Float64); // CI lower bound at 0.025
@@ -63,7 +72,7 @@ fn report_output(_: &[Field]) -> PolarsResult<Field> {
     let r2 = Field::new("r2".into(), DataType::Float64); // Coefficient of determination
     let adj_r2 = Field::new("adj_r2".into(), DataType::Float64); // adjusted
     let v: Vec<Field> = vec![features, beta, stderr, t, p, ci_lower, ci_upper, r2, adj_r2];
-    Ok(Field::new("lin_reg_report".into(), DataType::Struct(v)))
+    Field::new("lin_reg_report".into(), DataType::Struct(v))
 }
 
 fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
@@ -574,7 +583,7 @@ fn pl_lstsq_pred(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func_with_kwargs=report_output)]
 fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let se_type = StandardError::from(kwargs.std_err);
@@ -733,7 +742,7 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func=wls_report_output)]
 fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index c2cd73c..9cf9c3a 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -27,10 +27,19 @@ use polars::prelude as pl;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-fn report_output(_: &[Field]) -> PolarsResult<Field> {
+fn report_output(_: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
+    // the name of this field depends on which standard error is asked for
+    Ok(report_field(StandardError::from(kwargs.std_err).into()))
+}
+
+fn wls_report_output(_: &[Field]) -> PolarsResult<Field> {
+    Ok(report_field(StandardError::SE.into()))
+}
+
+fn report_field(se_name: PlSmallStr) -> Field {
     let features = Field::new("features".into(), DataType::String); // index of feature
     let beta = Field::new("beta".into(), DataType::Float32); // estimated value for this coefficient
-    let stderr = Field::new("std_err".into(), DataType::Float32); // Std Err for this coefficient
+    let stderr = Field::new(se_name, DataType::Float32); // Std Err for this coefficient
     let t = Field::new("t".into(), DataType::Float32); // t value for this coefficient
     let p = Field::new("p>|t|".into(), DataType::Float32); // p value for this coefficient
     let ci_lower = Field::new("0.025".into(), DataType::Float32); // CI lower bound at 0.025
@@ -38,7 +47,7 @@ fn report_output(_: &[Field]) -> PolarsResult<Field> {
     let r2 = Field::new("r2".into(), DataType::Float32); // Coefficient of determination
     let adj_r2 = Field::new("adj_r2".into(), DataType::Float32); // adjusted
     let v: Vec<Field> = vec![features, beta, stderr, t, p, ci_lower, ci_upper, r2, adj_r2];
-    Ok(Field::new("lin_reg_report".into(), DataType::Struct(v)))
+    Field::new("lin_reg_report".into(), DataType::Struct(v))
 }
 
 fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
@@ -523,7 +532,7 @@ fn pl_lstsq_pred_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func_with_kwargs=report_output)]
 fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let se_type = StandardError::from(kwargs.std_err);
@@ -681,7 +690,7 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func=wls_report_output)]
 fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index 43581de..4c56b36 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -11,6 +11,17 @@ fn psi_report_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new("psi_report".into(), DataType::Struct(v)))
 }
 
+fn psi_discrete_report_output(fields: &[Field]) -> PolarsResult<Field> {
+    // fields are: actual categories, actual counts, baseline categories, baseline counts
+    let baseline_cat = Field::new("baseline_category".into(), fields[2].dtype().clone());
+    let actual_cat = Field::new("actual_category".into(), fields[0].dtype().clone());
+    let baseline_pct = Field::new("baseline_pct".into(), DataType::Float64);
+    let actual_pct = Field::new("actual_pct".into(), DataType::Float64);
+    let psi_bins = Field::new("psi_bin".into(), DataType::Float64);
+    let v: Vec<Field> = vec![baseline_cat, actual_cat, baseline_pct, actual_pct, psi_bins];
+    Ok(Field::new("".into(), DataType::Struct(v)))
+}
+
 /// Computes counts in each bucket given by the breakpoints in
 /// a PSI computation. This returns the count for the first series
 /// and the count for the second series.
@@ -122,7 +133,7 @@ fn pl_psi_report(inputs: &[Series]) -> PolarsResult<Series> {
 }
 
 /// Discrete PSI report
-#[polars_expr(output_type_func=psi_report_output)]
+#[polars_expr(output_type_func=psi_discrete_report_output)]
 fn pl_psi_discrete_report(inputs: &[Series]) -> PolarsResult<Series> {
     let df1 = df!(
         "actual_cat" => &inputs[0], // data cats
-- 
2.43.0


From 7c2bd0d9e886c95c8292efc2ca207ee4b96bf51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:01 +0000
Subject: [PATCH 74/90] fix: gamma, expit, logit, exp2, fract, next_up and
 next_down of integers are single precision although double precision is
 declared

---
 src/num_ext/float_extras.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/num_ext/float_extras.rs b/src/num_ext/float_extras.rs
index d7c13c0..e9491b0 100644
--- a/src/num_ext/float_extras.rs
+++ b/src/num_ext/float_extras.rs
@@ -32,28 +32,28 @@ fn expit<T: Float>(x: T) -> T {
     T::one() / (T::one() + (-x).exp())
 }
 
-fn cast_and_apply_logit<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(logit::<f32>)
+fn cast_and_apply_logit<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(logit::<f64>)
 }
 
-fn cast_and_apply_expit<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(expit::<f32>)
+fn cast_and_apply_expit<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(expit::<f64>)
 }
 
-fn cast_and_apply_gamma<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(f32::gamma)
+fn cast_and_apply_gamma<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(f64::gamma)
 }
 
-fn cast_and_apply_exp2<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(f32::exp2)
+fn cast_and_apply_exp2<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(f64::exp2)
 }
 
-fn cast_and_apply_next_up<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(f32::next_up)
+fn cast_and_apply_next_up<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(f64::next_up)
 }
 
-fn cast_and_apply_next_down<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(f32::next_down)
+fn cast_and_apply_next_down<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(f64::next_down)
 }
 
 fn cast_and_apply_diagamma<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
@@ -200,8 +200,8 @@ fn pl_fract(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
 
     if s.dtype().is_integer() {
-        let ca = s.cast(&DataType::Float32)?;
-        Ok(ca.f32().unwrap().apply_values(|_| 0f32).into_series())
+        let ca = s.cast(&DataType::Float64)?;
+        Ok(ca.f64().unwrap().apply_values(|_| 0f64).into_series())
     } else {
         if s.dtype() == &DataType::Float64 {
             let ca = s.f64().unwrap();
-- 
2.43.0


From 9b533ff7dd8883d1d548042d3f993628f04cb1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:03 +0000
Subject: [PATCH 75/90] fix: declared types of multi-target lin_reg do not
 match the results

---
 src/num_ext/linear_regression.rs     | 33 +++++++++++++++++++++++-----
 src/num_ext/linear_regression_f32.rs | 33 +++++++++++++++++++++++-----
 2 files changed, 56 insertions(+), 10 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 5443de2..0c37d63 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -75,6 +75,32 @@ fn report_field(se_name: PlSmallStr) -> Field {
     Field::new("lin_reg_report".into(), DataType::Struct(v))
 }
 
+/// One list of coefficients per target
+fn multi_coeff_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let v = fields[..kwargs.last_target_idx]
+        .iter()
+        .map(|f| {
+            Field::new(
+                f.name().clone(),
+                DataType::List(Box::new(DataType::Float64)),
+            )
+        })
+        .collect::<Vec<_>>();
+    Ok(Field::new("coeffs".into(), DataType::Struct(v)))
+}
+
+/// Prediction and residual per target
+fn multi_pred_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let mut v: Vec<Field> = Vec::with_capacity(kwargs.last_target_idx * 2);
+    for f in fields[..kwargs.last_target_idx].iter() {
+        let pred_name = format!("{}_pred", f.name());
+        let resid_name = format!("{}_resid", f.name());
+        v.push(Field::new(pred_name.into(), DataType::Float64));
+        v.push(Field::new(resid_name.into(), DataType::Float64));
+    }
+    Ok(Field::new("all_preds".into(), DataType::Struct(v)))
+}
+
 fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
     let pred = Field::new("pred".into(), DataType::Float64);
     let residue = Field::new("resid".into(), DataType::Float64);
@@ -353,9 +379,7 @@ fn pl_lstsq(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     }
 }
 
-// Strictly speaking, this output type is not correct. Should be struct of last_target_idx many
-// coeff_outputs
-#[polars_expr(output_type_func=coeff_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_coeff_output)]
 fn pl_lstsq_multi(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
@@ -403,8 +427,7 @@ fn pl_lstsq_multi(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<S
     Ok(df_out.into_struct("coeffs".into()).into_series())
 }
 
-// Strictly speaking, this output type is not correct.
-#[polars_expr(output_type_func=pred_residue_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_pred_output)]
 fn pl_lstsq_multi_pred(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 9cf9c3a..0fd35c4 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -50,6 +50,32 @@ fn report_field(se_name: PlSmallStr) -> Field {
     Field::new("lin_reg_report".into(), DataType::Struct(v))
 }
 
+/// One list of coefficients per target
+fn multi_coeff_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let v = fields[..kwargs.last_target_idx]
+        .iter()
+        .map(|f| {
+            Field::new(
+                f.name().clone(),
+                DataType::List(Box::new(DataType::Float32)),
+            )
+        })
+        .collect::<Vec<_>>();
+    Ok(Field::new("coeffs".into(), DataType::Struct(v)))
+}
+
+/// Prediction and residual per target
+fn multi_pred_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let mut v: Vec<Field> = Vec::with_capacity(kwargs.last_target_idx * 2);
+    for f in fields[..kwargs.last_target_idx].iter() {
+        let pred_name = format!("{}_pred", f.name());
+        let resid_name = format!("{}_resid", f.name());
+        v.push(Field::new(pred_name.into(), DataType::Float32));
+        v.push(Field::new(resid_name.into(), DataType::Float32));
+    }
+    Ok(Field::new("all_preds".into(), DataType::Struct(v)))
+}
+
 fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
     let pred = Field::new("pred".into(), DataType::Float32);
     let residue = Field::new("resid".into(), DataType::Float32);
@@ -295,9 +321,7 @@ fn pl_lstsq_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
     }
 }
 
-// Strictly speaking, this output type is not correct. Should be struct of last_target_idx many
-// coeff_outputs
-#[polars_expr(output_type_func=coeff_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_coeff_output)]
 fn pl_lstsq_multi_f32(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
@@ -349,8 +373,7 @@ fn pl_lstsq_multi_f32(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResu
     Ok(df_out.into_struct("coeffs".into()).into_series())
 }
 
-// Strictly speaking, this output type is not correct.
-#[polars_expr(output_type_func=pred_residue_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_pred_output)]
 fn pl_lstsq_multi_pred_f32(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
-- 
2.43.0


From 11146dd505cf8eadd79c24d6a568ae2d15661730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 76/90] fix: query_tpr_fpr has no threshold field without
 positives and declares a wrong threshold type

---
 src/num_ext/tp_fp.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 651b1d8..465954a 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -14,8 +14,9 @@ fn combo_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
 
-fn tpr_fpr_output(_: &[Field]) -> PolarsResult<Field> {
-    let threshold = Field::new("threshold".into(), DataType::Float64);
+fn tpr_fpr_output(fields: &[Field]) -> PolarsResult<Field> {
+    // The thresholds are the predicted values. Fields are: actual, predicted
+    let threshold = Field::new("threshold".into(), fields[1].dtype().clone());
     let tpr = Field::new("tpr".into(), DataType::Float64);
     let fpr = Field::new("fpr".into(), DataType::Float64);
     let v: Vec<Field> = vec![threshold, tpr, fpr];
@@ -174,12 +175,17 @@ fn pl_tpr_fpr(inputs: &[Series]) -> PolarsResult<Series> {
     let positive_cnt = actual.sum::<u32>().unwrap_or(0);
 
     if positive_cnt == 0 {
+        let threshold = Series::full_null("threshold".into(), 1, predicted.dtype());
         let tpr = Series::from_vec("tpr".into(), vec![f64::NAN]);
         let fpr = Series::from_vec("fpr".into(), vec![f64::NAN]);
         let ca = StructChunked::from_columns(
             "tpr_fpr".into(),
             1,
-            &[tpr.into_column(), fpr.into_column()],
+            &[
+                threshold.into_column(),
+                tpr.into_column(),
+                fpr.into_column(),
+            ],
         )?;
         Ok(ca.into_series())
     } else {
-- 
2.43.0


From b0622a3813532c3573668be6986d174f510d9fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:35 +0000
Subject: [PATCH 77/90] fix: principal_components declares one component per
 input instead of k

---
 python/polars_ds/exprs/num.py | 13 +++++++------
 src/num_ext/pca.rs            | 25 ++++++++++++++++++-------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 38ede9f..466a7f3 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -352,13 +352,14 @@ def principal_components(
     if k > len(feats) or k <= 0:
         raise ValueError("Input `k` should be between 1 and the number of features inclusive.")
 
-    actual_inputs = [pl.lit(k, dtype=pl.UInt32)]
-    if center:
-        actual_inputs.extend(f - f.mean() for f in feats)
-    else:
-        actual_inputs.extend(feats)
+    actual_inputs = [f - f.mean() for f in feats] if center else feats
 
-    return pl_plugin(symbol="pl_principal_components", args=actual_inputs, pass_name_to_apply=True)
+    return pl_plugin(
+        symbol="pl_principal_components",
+        args=actual_inputs,
+        kwargs={"k": k},
+        pass_name_to_apply=True,
+    )
 
 
 def jaccard_row(first: str | pl.Expr, second: str | pl.Expr) -> pl.Expr:
diff --git a/src/num_ext/pca.rs b/src/num_ext/pca.rs
index 42ad686..5718387 100644
--- a/src/num_ext/pca.rs
+++ b/src/num_ext/pca.rs
@@ -7,6 +7,7 @@ use faer::{
 };
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
+use serde::Deserialize;
 
 pub fn singular_values_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
@@ -27,8 +28,16 @@ pub fn pca_output(_: &[Field]) -> PolarsResult<Field> {
     ))
 }
 
-pub fn principal_components_output(fields: &[Field]) -> PolarsResult<Field> {
-    let components: Vec<_> = (0..fields.len())
+#[derive(Deserialize, Debug)]
+pub(crate) struct PrincipalComponentsKwargs {
+    pub(crate) k: usize,
+}
+
+fn principal_components_output(
+    _: &[Field],
+    kwargs: PrincipalComponentsKwargs,
+) -> PolarsResult<Field> {
+    let components: Vec<_> = (0..kwargs.k)
         .map(|i| Field::new(format!("pc{}", i + 1).into(), DataType::Float64))
         .collect();
     Ok(Field::new(
@@ -78,12 +87,14 @@ fn pl_singular_values(inputs: &[Series]) -> PolarsResult<Series> {
     Ok(out.into_series())
 }
 
-#[polars_expr(output_type_func=principal_components_output)]
-fn pl_principal_components(inputs: &[Series]) -> PolarsResult<Series> {
-    let k = inputs[0].u32()?;
-    let k = k.get(0).unwrap() as usize;
+#[polars_expr(output_type_func_with_kwargs=principal_components_output)]
+fn pl_principal_components(
+    inputs: &[Series],
+    kwargs: PrincipalComponentsKwargs,
+) -> PolarsResult<Series> {
+    let k = kwargs.k;
 
-    let mat = to_f64_matrix_fail_on_nulls(&inputs[1..], IndexOrder::Fortran)?;
+    let mat = to_f64_matrix_fail_on_nulls(inputs, IndexOrder::Fortran)?;
     let mat = mat.view().into_faer();
     let n = mat.nrows();
 
-- 
2.43.0


From 283b712c01033bbe550785f641a73679ca5fdc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:29 +0000
Subject: [PATCH 78/90] fix: pca and principal_components panic with fewer rows
 than features

---
 src/num_ext/pca.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/num_ext/pca.rs b/src/num_ext/pca.rs
index 5718387..d3eed78 100644
--- a/src/num_ext/pca.rs
+++ b/src/num_ext/pca.rs
@@ -100,14 +100,14 @@ fn pl_principal_components(
 
     let columns = if mat.nrows() < k {
         (0..k)
-            .map(|i| Series::from_vec(format!("pc{}", i + 1).into(), vec![f64::NAN]).into_column())
+            .map(|i| Series::from_vec(format!("pc{}", i + 1).into(), vec![f64::NAN; n]).into_column())
             .collect::<Vec<Column>>()
     } else {
         let (m, n) = mat.shape();
         let compute = ComputeSvdVectors::Thin;
         let dim = Ord::min(mat.nrows(), mat.ncols());
         let mut s = Col::<f64>::zeros(dim);
-        let mut v = Mat::<f64>::zeros(dim, dim);
+        let mut v = Mat::<f64>::zeros(n, dim);
         let par = Par::rayon(0);
         faer::linalg::svd::svd(
             mat,
@@ -150,7 +150,7 @@ fn pl_pca(inputs: &[Series]) -> PolarsResult<Series> {
     let dim = Ord::min(mat.nrows(), mat.ncols());
     let mut s = vec![0f64; dim];
     let cs = ColMut::from_slice_mut(&mut s);
-    let mut v = Mat::<f64>::zeros(dim, dim);
+    let mut v = Mat::<f64>::zeros(n, dim);
     let par = Par::rayon(0);
     let compute = ComputeSvdVectors::Thin;
 
@@ -177,7 +177,7 @@ fn pl_pca(inputs: &[Series]) -> PolarsResult<Series> {
     let mut list_builder: ListPrimitiveChunkedBuilder<Float64Type> =
         ListPrimitiveChunkedBuilder::new("weight_vector".into(), dim, dim, DataType::Float64);
 
-    for i in 0..v.nrows() {
+    for i in 0..dim {
         builder.append_value(s[i]);
         list_builder.append_slice(v.col_as_slice(i));
     }
-- 
2.43.0


From 38281ec71d967f2be4f235ac1b18abd224866dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:27 +0000
Subject: [PATCH 79/90] fix: query_binary_metrics returns a float instead of a
 struct without positives

---
 src/num_ext/tp_fp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 465954a..16efd7c 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -109,7 +109,10 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
 
     let positive_count = actual.sum::<u32>().unwrap_or(0);
     if positive_count == 0 {
-        return Ok(Series::from_iter([f64::NAN]));
+        let nan = ["precision", "recall", "f", "average_precision", "roc_auc"]
+            .map(|name| Column::new(name.into(), [f64::NAN]));
+        let out = StructChunked::from_columns("metrics".into(), 1, &nan)?;
+        return Ok(out.into_series());
     }
 
     let mut binding = tp_fp_frame(predicted, actual, positive_count, true)?.collect()?;
-- 
2.43.0


From b2e61ba7cc143899d011acc25e6a34e32c714d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:19 +0000
Subject: [PATCH 80/90] fix: singular_values panics in group_by and over

---
 python/polars_ds/exprs/num.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 466a7f3..4aad0e1 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -296,7 +296,12 @@ def singular_values(
     else:
         actual_inputs = feats
 
-    out = pl_plugin(symbol="pl_singular_values", args=actual_inputs, returns_scalar=True)
+    out = pl_plugin(
+        symbol="pl_singular_values",
+        args=actual_inputs,
+        returns_scalar=True,
+        pass_name_to_apply=True,
+    )
     if as_explained_var:
         out = out.list.eval(pl.element().pow(2) / (pl.count() - 1))
     if as_ratio:
-- 
2.43.0


From 59fd5af179525be0bed29eef122706e61e5daba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:19 +0000
Subject: [PATCH 81/90] fix: singular_values(as_explained_var=True) divides by
 the number of features instead of the number of samples

---
 python/polars_ds/exprs/num.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 4aad0e1..6902b21 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -303,7 +303,9 @@ def singular_values(
         pass_name_to_apply=True,
     )
     if as_explained_var:
-        out = out.list.eval(pl.element().pow(2) / (pl.count() - 1))
+        # Rows with nulls are dropped
+        n_samples = pl.all_horizontal(f.is_not_null() for f in actual_inputs).sum()
+        out = out.list.eval(pl.element().pow(2)) / (n_samples.cast(pl.Float64) - 1.0)
     if as_ratio:
         out = out.list.eval(pl.element() / pl.element().sum())
 
-- 
2.43.0


From db9e1a1e4c192b6181165f42d60fa50e66040935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:19 +0000
Subject: [PATCH 82/90] fix: mann_whitney_u and lin_reg_w_rcond are not marked
 as returning a scalar

---
 python/polars_ds/exprs/expr_linear.py | 1 +
 python/polars_ds/exprs/stats.py       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/python/polars_ds/exprs/expr_linear.py b/python/polars_ds/exprs/expr_linear.py
index c4caf70..358bc2e 100644
--- a/python/polars_ds/exprs/expr_linear.py
+++ b/python/polars_ds/exprs/expr_linear.py
@@ -320,6 +320,7 @@ def lin_reg_w_rcond(
         symbol=_lin_reg_expr_symbol("pl_lstsq_w_rcond"),
         args=cols,
         kwargs=lr_kwargs,
+        returns_scalar=True,
         pass_name_to_apply=True,
     )
 
diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 6fb11be..171926d 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -331,6 +331,7 @@ def mann_whitney_u(
     return pl_plugin(
         symbol="pl_mann_whitney_u",
         args=[u1, u2, mean, ranks.sort(), pl.lit(alternative, dtype=pl.String)],
+        returns_scalar=True,
     )
 
 
-- 
2.43.0


From 918558d341865686fd8dd90d7f8cc4131625fa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:31 +0000
Subject: [PATCH 83/90] fix: the counts of query_knn_freq_cnt and
 query_radius_freq_cnt have a field named differently from declared in
 group_by and over

---
 python/polars_ds/exprs/expr_knn.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/expr_knn.py b/python/polars_ds/exprs/expr_knn.py
index e8cc0f0..8276f39 100644
--- a/python/polars_ds/exprs/expr_knn.py
+++ b/python/polars_ds/exprs/expr_knn.py
@@ -276,7 +276,8 @@ def query_knn_freq_cnt(
         epsilon=epsilon,
         max_bound=max_bound,
     )
-    return knn_expr.explode().drop_nulls().value_counts(sort=True, parallel=parallel)
+    name = str_to_expr(index).meta.output_name()
+    return knn_expr.explode().drop_nulls().alias(name).value_counts(sort=True, parallel=parallel)
 
 
 def query_knn_avg(
@@ -550,7 +551,10 @@ def query_radius_freq_cnt(
         *features, index=index, r=r, dist=dist, sort=False, parallel=parallel
     )
 
-    return within_radius.explode().drop_nulls().value_counts(sort=True, parallel=parallel)
+    name = str_to_expr(index).meta.output_name()
+    return (
+        within_radius.explode().drop_nulls().alias(name).value_counts(sort=True, parallel=parallel)
+    )
 
 
 def query_nb_cnt(
-- 
2.43.0


From 05450cdad2e6db63307173c39fe85821d9bdd1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:57 +0000
Subject: [PATCH 84/90] fix: psi_discrete pairs categories with counts of a
 different evaluation of value_counts, so its result varies from run to run

---
 python/polars_ds/exprs/num.py | 20 +++++++-------------
 src/num_ext/psi.rs            | 21 ++++++++++++++-------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 6902b21..83cd10c 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -522,29 +522,23 @@ def psi_discrete(
     """
     if isinstance(new, (str, pl.Expr)):
         new_ = str_to_expr(new)
-        temp = new_.value_counts().struct.rename_fields(["", "count"])
-        new_cnt = temp.struct.field("count")
-        new_cat = temp.struct.field("")
+        new_vc = new_.value_counts()
     else:
         temp = pl.Series(values=new)
-        temp = temp.value_counts()  # This is a df in this case
-        new_cnt = pl.lit(temp.drop_in_place("count"))
-        new_cat = pl.lit(temp[temp.columns[0]])
+        new_vc = pl.lit(temp.value_counts().to_struct())
 
     if isinstance(baseline, (str, pl.Expr)):
         base = str_to_expr(baseline)
-        temp = base.value_counts().struct.rename_fields(["", "count"])
-        ref_cnt = temp.struct.field("count")
-        ref_cat = temp.struct.field("")
+        ref_vc = base.value_counts()
     else:
         temp = pl.Series(values=baseline)
-        temp = temp.value_counts()  # This is a df in this case
-        ref_cnt = pl.lit(temp.drop_in_place("count"))
-        ref_cat = pl.lit(temp[temp.columns[0]])
+        ref_vc = pl.lit(temp.value_counts().to_struct())
 
+    # The order of value_counts is not deterministic. The categories and their counts must come from
+    # the same evaluation.
     psi_report = pl_plugin(
         symbol="pl_psi_discrete_report",
-        args=[new_cat, new_cnt, ref_cat, ref_cnt],
+        args=[new_vc, ref_vc],
         changes_length=True,
     )
     if return_report:
diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index 4c56b36..6d6209f 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -12,9 +12,13 @@ fn psi_report_output(_: &[Field]) -> PolarsResult<Field> {
 }
 
 fn psi_discrete_report_output(fields: &[Field]) -> PolarsResult<Field> {
-    // fields are: actual categories, actual counts, baseline categories, baseline counts
-    let baseline_cat = Field::new("baseline_category".into(), fields[2].dtype().clone());
-    let actual_cat = Field::new("actual_category".into(), fields[0].dtype().clone());
+    // fields are: value counts of the data, value counts of the baseline
+    let category_type = |field: &Field| match field.dtype() {
+        DataType::Struct(inner) => inner[0].dtype().clone(),
+        dtype => dtype.clone(),
+    };
+    let baseline_cat = Field::new("baseline_category".into(), category_type(&fields[1]));
+    let actual_cat = Field::new("actual_category".into(), category_type(&fields[0]));
     let baseline_pct = Field::new("baseline_pct".into(), DataType::Float64);
     let actual_pct = Field::new("actual_pct".into(), DataType::Float64);
     let psi_bins = Field::new("psi_bin".into(), DataType::Float64);
@@ -135,13 +139,16 @@ fn pl_psi_report(inputs: &[Series]) -> PolarsResult<Series> {
 /// Discrete PSI report
 #[polars_expr(output_type_func=psi_discrete_report_output)]
 fn pl_psi_discrete_report(inputs: &[Series]) -> PolarsResult<Series> {
+    let data = inputs[0].struct_()?.fields_as_series();
+    let baseline = inputs[1].struct_()?.fields_as_series();
+
     let df1 = df!(
-        "actual_cat" => &inputs[0], // data cats
-        "actual_cnt" => &inputs[1], // data cnt
+        "actual_cat" => &data[0], // data cats
+        "actual_cnt" => &data[1], // data cnt
     )?;
     let df2 = df!(
-        "baseline_cat" => &inputs[2], // ref cats
-        "baseline_cnt" => &inputs[3], // ref cnt
+        "baseline_cat" => &baseline[0], // ref cats
+        "baseline_cnt" => &baseline[1], // ref cnt
     )?;
 
     let psi_report = df1
-- 
2.43.0


From d45e9d12cb4c077bc38e3bd457e7fc8bd83cd141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:06 +0000
Subject: [PATCH 85/90] fix: chi2(return_full=True) fails in group_by

---
 python/polars_ds/exprs/stats.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 171926d..a744f0f 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -280,7 +280,10 @@ def chi2(var1: str | pl.Expr, var2: str | pl.Expr, return_full: bool = False) ->
     """
     if return_full:
         return pl_plugin(
-            symbol="pl_chi2_full", args=[str_to_expr(var1), str_to_expr(var2)], changes_length=True
+            symbol="pl_chi2_full",
+            args=[str_to_expr(var1), str_to_expr(var2)],
+            changes_length=True,
+            pass_name_to_apply=True,
         )
     else:
         return pl_plugin(
-- 
2.43.0


From 7d04eff573c54bc50b51b9f9be440ad24338fa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:34 +0000
Subject: [PATCH 86/90] fix: calculate_ndcg works only when the group column is
 named example_id

---
 python/polars_ds/exprs/metrics.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 0d4891e..009bfdd 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -725,7 +725,7 @@ def calculate_ndcg(df, relevance_col, score_col, group_col, k=None, ignore_ties=
         >>> print(ndcg)  # Shows the mean NDCG@10 across all users
     """
 
-    ignore_flag = df.group_by("example_id").len().with_columns(pl.when(pl.col('len')==1).then(1).otherwise(0).alias('is_single_candidate'))
+    ignore_flag = df.group_by(group_col).len().with_columns(pl.when(pl.col('len')==1).then(1).otherwise(0).alias('is_single_candidate'))
     if ignore_ties:
         dcg_per_group = _get_dcg_score_with_ties(df, relevance_col, group_col, sort_by_column=score_col, k=k)
     else:
@@ -736,8 +736,8 @@ def calculate_ndcg(df, relevance_col, score_col, group_col, k=None, ignore_ties=
                                                    group_col, sort_by_column=relevance_col, k=k)
     ideal_dcg_per_group = ideal_dcg_per_group.rename({"discounted_relevance": "discounted_ideal_relevance"})
     
-    ndcg_df = dcg_per_group.join(ideal_dcg_per_group, on ='example_id')
-    ndcg_df = ndcg_df.join(ignore_flag, on='example_id')
+    ndcg_df = dcg_per_group.join(ideal_dcg_per_group, on=group_col)
+    ndcg_df = ndcg_df.join(ignore_flag, on=group_col)
     
     ndcg_df = ndcg_df.with_columns((pl.col('discounted_relevance')/pl.col('discounted_ideal_relevance')).alias('ndcg'))
     
@@ -845,20 +845,20 @@ def _get_dcg_score_with_ties(df, relevance_col, group_col, sort_by_column, k):
     df = _get_rank_discount_at_k(df, k, group_col)
 
     df = df.with_columns((pl.col(relevance_col) * pl.col("discount")).alias("discounted_relevance"))
-    df = df.with_columns(pl.col('discount').cum_sum().over('example_id').flatten().alias('discount_cumsum'))
+    df = df.with_columns(pl.col('discount').cum_sum().over(group_col).flatten().alias('discount_cumsum'))
     df = df.with_columns(
             pl.col(sort_by_column)
             .rank(method='min', descending=True)
-            .over('example_id')
+            .over(group_col)
             .alias("rank_groups")
         )
 
-    df_diff = df.group_by('example_id', 'rank_groups').agg(pl.col('discount_cumsum').last(), 
+    df_diff = df.group_by(group_col, 'rank_groups').agg(pl.col('discount_cumsum').last(), 
                                                         pl.col(relevance_col).sum(),
                                                           pl.len().alias('num_rows')).sort('rank_groups')
-    df_diff.sort('example_id', 'rank_groups')
+    df_diff.sort(group_col, 'rank_groups')
 
-    df_diff = df_diff.group_by('example_id').agg(pl.col('discount_cumsum').diff().alias('discount_diff'), 
+    df_diff = df_diff.group_by(group_col).agg(pl.col('discount_cumsum').diff().alias('discount_diff'), 
                                                  pl.col(relevance_col), 
                                                  pl.col('discount_cumsum'),
                                                  pl.col('rank_groups'), 
-- 
2.43.0


From 89d70058ffc548904c4f3e81624e12b5a04ae8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:34 +0000
Subject: [PATCH 87/90] fix: infer_prob looks at the first row of list columns
 only

---
 python/polars_ds/eda/diagnosis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 07257ef..b5398fc 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -507,7 +507,9 @@ class DIA:
                         & (
                             pl.col(c).list.len().min() == pl.col(c).list.len().max()
                         )  # class prob column must have the same length
-                    ).alias(c)
+                    )
+                    .all()
+                    .alias(c)
                     for c in self.list_floats
                 ),
             )
-- 
2.43.0


From 12265aad645f1bf27160a419d823374911670f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:47 +0000
Subject: [PATCH 88/90] fix: row_validation reports rules that evaluate to null
 as violated

---
 python/polars_ds/eda/diagnosis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index b5398fc..4bbeeed 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -322,9 +322,9 @@ class DIA:
 
         if all_reasons:
             reasons = [
-                pl.when(pl.col(c)).then(None).otherwise(pl.lit(c, dtype=pl.String))
+                pl.when(pl.col(c).not_()).then(pl.lit(c, dtype=pl.String)).otherwise(None)
                 for c in all_rule_names
-            ]  # When true, return None. When false, return reason
+            ]  # When false, return reason. When true (or null), return None
 
             return df_temp.select(
                 *to_keep, pl.concat_list(reasons).list.drop_nulls().list.sort().alias("__reason__")
@@ -333,7 +333,7 @@ class DIA:
             # df_temp = all people who failed any one of the rules. So there must be at least one 0 in concat-ed list.
             return df_temp.select(
                 *to_keep,
-                pl.concat_list(all_rule_names)
+                pl.concat_list(pl.col(all_rule_names).fill_null(True))  # null is not a violation
                 .list.arg_min()
                 .replace_strict(old=list(range(len(all_rule_names))), new=all_rule_names)
                 .alias("__reason__"),
-- 
2.43.0


From 8346ff6884df128f9b91ddd9bfb1e3309d0ee5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:54 +0000
Subject: [PATCH 89/90] fix: infer_discrete leaves out boolean and categorical
 columns

---
 python/polars_ds/eda/diagnosis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 4bbeeed..ab67132 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -568,7 +568,7 @@ class DIA:
             .row(0)
         )
 
-        return [c for c, ok in zip(to_check, is_ok) if ok is True]
+        return out + [c for c, ok in zip(to_check, is_ok) if ok is True]
 
     @lru_cache
     def infer_const(self, include_null: bool = False) -> List[str]:
-- 
2.43.0


From 952dd3e5a274b04c54205f7ee40b5fc7c82e7eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:31 +0000
Subject: [PATCH 90/90] fix: expressions that use the number of rows take it
 from their column, so that they work in compatibility calls

---
 python/polars_ds/exprs/metrics.py     | 2 +-
 python/polars_ds/exprs/stats.py       | 3 ++-
 python/polars_ds/exprs/ts_features.py | 8 ++++----
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 009bfdd..cca2f7a 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -551,7 +551,7 @@ def query_multi_roc_auc(
         preds = [p.list.get(i) for i in range(n_classes)]
         return (
             pl.sum_horizontal(a.sum() * query_roc_auc(a, p) for a, p in zip(actuals, preds))
-            / pl.len()
+            / a.len()
         )
     else:
         raise NotImplementedError
diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index a744f0f..b27756c 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -540,7 +540,8 @@ def random_null(x: str | pl.Expr, pct: float, seed: int | None = None) -> pl.Exp
     if pct <= 0.0 or pct >= 1.0:
         raise ValueError("Input `pct` must be > 0 and < 1")
 
-    return pl.when(random(0.0, 1.0, seed=seed) < pct).then(None).otherwise(str_to_expr(x))
+    xx = str_to_expr(x)
+    return pl.when(random(0.0, 1.0, seed=seed, length=xx.len()) < pct).then(None).otherwise(xx)
 
 
 def random_int(
diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index 1ccd173..dfb5e24 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -409,7 +409,7 @@ def query_auto_corr(x: str | pl.Expr, lag: int, ddof: int = 0, normalize: bool =
     if normalize:
         x_m = xx - xx.mean()
         var = xx.var(ddof=ddof)
-        n = pl.len()
+        n = xx.len()
         n_minus_lag = pl.when(n < lag).then(float("nan")).otherwise(n - lag)
         return x_m.dot(x_m.shift(-lag)) / (n_minus_lag * var)
     else:
@@ -725,9 +725,9 @@ def query_transfer_entropy(
         raise ValueError("Input `lag` must be >= 1.")
 
     xx = str_to_expr(x)
-    x1 = xx.slice(0, pl.len() - lag)
-    x2 = xx.slice(lag, pl.len() - lag)  # (equivalent to slice(lag, None), but will break in v1.0)
-    s = str_to_expr(source).slice(0, pl.len() - lag)
+    x1 = xx.slice(0, xx.len() - lag)
+    x2 = xx.slice(lag, xx.len() - lag)  # (equivalent to slice(lag, None), but will break in v1.0)
+    s = str_to_expr(source).slice(0, xx.len() - lag)
     return query_cond_indep(x2, s, x1, k=k, parallel=parallel)
 
 
-- 
2.43.0

