From c60ee8f660e206d00044a87ae61e21cb20977ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 01/13] fix: match each estimation and ground truth at most
 once, keep unmatched estimations as FP

---
 src/result/object.rs | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/result/object.rs b/src/result/object.rs
index d679461..eaa043f 100644
--- a/src/result/object.rs
+++ b/src/result/object.rs
@@ -258,31 +258,33 @@ pub fn get_perception_results(
             {
                 break;
             }
-            for (est_idx, row_table) in score_table.iter_mut().enumerate() {
-                let (gt_idx, _) = row_table.iter().enumerate().fold(
-                    (usize::MAX, f64::MAX),
-                    |(a_idx, a), (b_idx, b)| match b {
-                        Some(b) => {
-                            if a < *b {
-                                (a_idx, a)
-                            } else {
-                                (b_idx, *b)
-                            }
+            // Pick the closest pair out of the remaining candidates
+            let mut nearest: Option<(usize, usize, f64)> = None;
+            for (est_idx, row_table) in score_table.iter().enumerate() {
+                for (gt_idx, score) in row_table.iter().enumerate() {
+                    if let Some(score) = score {
+                        match nearest {
+                            Some((_, _, min_score)) if min_score <= *score => (),
+                            _ => nearest = Some((est_idx, gt_idx, *score)),
                         }
-                        None => (a_idx, a),
-                    },
-                );
-
-                if gt_idx == usize::MAX {
-                    continue;
+                    }
                 }
+            }
 
+            if let Some((est_idx, gt_idx, _)) = nearest {
                 results.push(PerceptionResult {
                     estimated_object: estimated_objects[est_idx].to_owned(),
                     ground_truth_object: Some(ground_truth_objects[gt_idx].to_owned()),
                 });
 
-                row_table[gt_idx] = None;
+                // Both objects are taken, remove corresponding row and column from the table
+                for (i, row_table) in score_table.iter_mut().enumerate() {
+                    for (j, score) in row_table.iter_mut().enumerate() {
+                        if i == est_idx || j == gt_idx {
+                            *score = None;
+                        }
+                    }
+                }
                 took_indices.push(est_idx);
             }
         }
@@ -291,7 +293,7 @@ pub fn get_perception_results(
             let index_list = (0..num_estimated_objects).collect::<Vec<usize>>();
             let mut fp_estimated_objects = Vec::new();
             index_list.iter().for_each(|idx| {
-                if took_indices.contains(idx) {
+                if !took_indices.contains(idx) {
                     fp_estimated_objects.push(estimated_objects[*idx].to_owned());
                 }
             });
-- 
2.43.0


From 9c3c10a17f85c2003ee62a91e927da7ed483c34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:03 +0000
Subject: [PATCH 02/13] fix: height of the intersection is the overlap of both
 boxes, not their union

---
 src/matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matching.rs b/src/matching.rs
index 5c2a90c..b51ffce 100644
--- a/src/matching.rs
+++ b/src/matching.rs
@@ -216,7 +216,7 @@ fn get_intersection_height(
             ground_truth_object.position[2] - ground_truth_object.size[2] * 0.5,
         ]
         .into_iter()
-        .min_by(|a, b| a.partial_cmp(b).unwrap())
+        .max_by(|a, b| a.partial_cmp(b).unwrap())
         .unwrap()
     };
 
@@ -226,7 +226,7 @@ fn get_intersection_height(
             ground_truth_object.position[2] + ground_truth_object.size[2] * 0.5,
         ]
         .into_iter()
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
+        .min_by(|a, b| a.partial_cmp(b).unwrap())
         .unwrap()
     };
 
-- 
2.43.0


From e2147ae8987c3c33d351d8a5228c319a286b04b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 03/13] fix: rotate points by the quaternion instead of by its
 inverse

---
 src/object/object3d.rs | 2 +-
 src/utils/math.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/object/object3d.rs b/src/object/object3d.rs
index 1f76a00..498eb0a 100644
--- a/src/object/object3d.rs
+++ b/src/object/object3d.rs
@@ -436,7 +436,7 @@ impl DynamicObject {
         center2corners
             .row_iter()
             .map(|corner| {
-                let mat = corner * rot + position;
+                let mat = corner * rot.transpose() + position;
                 [mat[(0, 0)], mat[(0, 1)], mat[(0, 2)]]
             })
             .collect()
diff --git a/src/utils/math.rs b/src/utils/math.rs
index 303b72f..9856ffd 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -149,7 +149,7 @@ pub fn translate_inv(xyz1: &[f64; 3], xyz2: &[f64; 3]) -> [f64; 3] {
 /// ```
 pub fn rotate(xyz: &[f64; 3], q: &[f64; 4]) -> [f64; 3] {
     let rot = quaternion2rotation(q);
-    let position = PositionMatrix::new(xyz[0], xyz[1], xyz[2]) * rot;
+    let position = PositionMatrix::new(xyz[0], xyz[1], xyz[2]) * rot.transpose();
     let row = position.row(0);
     [row[0], row[1], row[2]]
 }
-- 
2.43.0


From 258be6bab596c6a7807766a89712f9fa17631b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 04/13] fix: compose quaternions with the Hamilton product

---
 src/utils/math.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index 9856ffd..55a6bb7 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -192,11 +192,14 @@ pub fn rotate_inv(xyz: &[f64; 3], q: &[f64; 4]) -> [f64; 3] {
 /// assert_eq!(ret, [1.0, 0.0, 0.0, 0.0]);
 /// ```
 pub fn rotate_q(q1: &[f64; 4], q2: &[f64; 4]) -> [f64; 4] {
-    let mut ret = q1.to_owned();
-    for i in 0..4 {
-        ret[i] *= q2[i];
-    }
-    ret
+    let [w1, x1, y1, z1] = q1;
+    let [w2, x2, y2, z2] = q2;
+    [
+        w2 * w1 - x2 * x1 - y2 * y1 - z2 * z1,
+        w2 * x1 + x2 * w1 + y2 * z1 - z2 * y1,
+        w2 * y1 - x2 * z1 + y2 * w1 + z2 * x1,
+        w2 * z1 + x2 * y1 - y2 * x1 + z2 * w1,
+    ]
 }
 
 /// Inverse rotate `q1` with input `q2`.
-- 
2.43.0


From b5e96c586a8fe8f429f6e7872817e0abce082497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 05/13] fix: resolve roll and yaw over the full circle

---
 src/utils/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index 55a6bb7..c8f3576 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -52,13 +52,13 @@ pub fn quaternion2rotation(q: &[f64; 4]) -> RotationMatrix<f64> {
 /// ```
 pub fn quaternion2euler(q: &[f64; 4]) -> [f64; 3] {
     let [q0, q1, q2, q3] = q;
-    let roll = (2.0 * (q0 * q1 + q2 * q3) / (1.0 - 2.0 * (q1.powi(2) + q2.powi(2)))).atan();
+    let roll = (2.0 * (q0 * q1 + q2 * q3)).atan2(1.0 - 2.0 * (q1.powi(2) + q2.powi(2)));
     let pitch = -0.5 * PI
         + 2.0
             * ((1.0 + 2.0 * (q0 * q2 - q1 * q3)) / (1.0 - 2.0 * (q0 * q2 - q1 * q3)))
                 .sqrt()
                 .atan();
-    let yaw = (2.0 * (q0 * q3 + q1 * q2) / (1.0 - 2.0 * (q2.powi(2) + q3.powi(2)))).atan();
+    let yaw = (2.0 * (q0 * q3 + q1 * q2)).atan2(1.0 - 2.0 * (q2.powi(2) + q3.powi(2)));
     [roll, pitch, yaw]
 }
 
-- 
2.43.0


From 7977e654223a3fbaac002dd7241c6def9b602459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 06/13] fix: interpolate precision from the highest recall down
 to zero recall

---
 src/metrics/detection.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/metrics/detection.rs b/src/metrics/detection.rs
index f6600db..e3afa31 100644
--- a/src/metrics/detection.rs
+++ b/src/metrics/detection.rs
@@ -152,14 +152,22 @@ impl<'a> Ap<'a> {
         if self.results.is_empty() && *self.num_ground_truth == 0 {
             (Vec::new(), Vec::new())
         } else {
-            let mut max_precision_list = vec![*precision_list.last().unwrap()];
-            let mut max_recall_list = vec![*recall_list.last().unwrap()];
-            for i in 0..recall_list.len() - 1 {
-                if max_precision_list.last().unwrap() < &precision_list[i] {
-                    max_precision_list.push(precision_list[i]);
+            let (mut max_precision, recall) = match (precision_list.last(), recall_list.last()) {
+                (Some(precision), Some(recall)) => (*precision, *recall),
+                _ => (0.0, 0.0), // there are GTs but nothing was estimated
+            };
+            let mut max_precision_list = vec![max_precision];
+            let mut max_recall_list = vec![recall];
+            for i in (0..recall_list.len().saturating_sub(1)).rev() {
+                if max_precision < precision_list[i] {
+                    max_precision = precision_list[i];
+                    max_precision_list.push(max_precision);
                     max_recall_list.push(recall_list[i]);
                 }
             }
+            // Close the curve at the minimum recall
+            max_precision_list.push(max_precision);
+            max_recall_list.push(0.0);
             (max_precision_list, max_recall_list)
         }
     }
-- 
2.43.0


From 1faa071ffe81477513028b5e8af8162fd84d7a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 07/13] fix: rank results by confidence before computing
 precision and recall

---
 src/metrics/detection.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/metrics/detection.rs b/src/metrics/detection.rs
index e3afa31..5b55ff3 100644
--- a/src/metrics/detection.rs
+++ b/src/metrics/detection.rs
@@ -219,7 +219,15 @@ impl<'a> Ap<'a> {
             let mut tp_list = vec![0.0; num_results];
             let mut fp_list = vec![0.0; num_results];
 
-            self.results.iter().enumerate().for_each(|(i, result)| {
+            // Rank results in descending order of confidence
+            let mut ranked_results: Vec<&PerceptionResult> = self.results.iter().collect();
+            ranked_results.sort_by(|a, b| {
+                b.estimated_object
+                    .confidence
+                    .total_cmp(&a.estimated_object.confidence)
+            });
+
+            ranked_results.iter().enumerate().for_each(|(i, result)| {
                 if result.is_result_correct(matching_mode, threshold).unwrap() {
                     tp_list[i] = tp_metrics.get_value(result);
                 } else {
-- 
2.43.0


From e7cdde6102671c8de6dfccc21b92cdc8b6169194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 08/13] fix: count the ground truths of a label once even if
 the label is listed twice

---
 src/manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/manager.rs b/src/manager.rs
index 96ea69b..8922a42 100644
--- a/src/manager.rs
+++ b/src/manager.rs
@@ -128,7 +128,7 @@ impl<'a> PerceptionEvaluationManager<'a> {
 
         self.frame_results.iter().for_each(|frame| {
             let mut result_map = hash_results(frame.results(), target_labels);
-            let num_gt_map = hash_num_objects(&frame.frame_ground_truth().objects, target_labels);
+            let mut num_gt_map = hash_num_objects(&frame.frame_ground_truth().objects, target_labels);
             target_labels.iter().for_each(|label| {
                 if let Some(results) = scene_results.get_mut(label) {
                     if let Some(result) = result_map.get_mut(label) {
@@ -136,7 +136,7 @@ impl<'a> PerceptionEvaluationManager<'a> {
                     }
                 };
                 if let Some(num_gts) = num_scene_gt.get_mut(label) {
-                    if let Some(num_gt) = num_gt_map.get(label) {
+                    if let Some(num_gt) = num_gt_map.remove(label) {
                         *num_gts += num_gt
                     }
                 };
-- 
2.43.0


From 240632026d0678731c324f9edfe6b262b913a0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 09/13] fix: read and write timestamps in whole microseconds

---
 src/dataset/nuscenes/schema.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/dataset/nuscenes/schema.rs b/src/dataset/nuscenes/schema.rs
index 61d43fa..3e69441 100644
--- a/src/dataset/nuscenes/schema.rs
+++ b/src/dataset/nuscenes/schema.rs
@@ -579,8 +579,8 @@ mod timestamp_serde {
     where
         S: Serializer,
     {
-        let timestamp = value.timestamp_nanos_opt().unwrap() as f64 / 1_000_000_000.0;
-        serializer.serialize_f64(timestamp)
+        let timestamp_us = value.timestamp_micros() as f64; // in us
+        serializer.serialize_f64(timestamp_us)
     }
 
     pub fn deserialize<'de, D>(deserializer: D) -> Result<NaiveDateTime, D::Error>
@@ -588,10 +588,7 @@ mod timestamp_serde {
         D: Deserializer<'de>,
     {
         let timestamp_us = f64::deserialize(deserializer)?; // in us
-        let timestamp_ns = (timestamp_us * 1000.0) as u64; // in ns
-        let secs = timestamp_ns / 1_000_000_000;
-        let nsecs = timestamp_ns % 1_000_000_000;
-        let datetime = NaiveDateTime::from_timestamp_opt(secs as i64, nsecs as u32);
+        let datetime = NaiveDateTime::from_timestamp_micros(timestamp_us as i64);
         match datetime {
             Some(value) => Ok(value),
             None => Err(D::Error::custom("Could not load timestamp")),
-- 
2.43.0


From 44460cd2c5e206cf527bc7007ab50b6e4ee214ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:32 +0000
Subject: [PATCH 10/13] fix: load samples that have no annotation or no sample
 data

---
 src/dataset/nuscenes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset/nuscenes.rs b/src/dataset/nuscenes.rs
index 1761c2d..4744635 100644
--- a/src/dataset/nuscenes.rs
+++ b/src/dataset/nuscenes.rs
@@ -534,10 +534,10 @@ impl NuScenes {
             .map(|(sample_token, sample)| {
                 let sample_data_tokens = sample_to_sample_data_groups
                     .remove(&sample_token)
-                    .ok_or(NuScenesError::InternalBug)?;
+                    .unwrap_or_default();
                 let annotation_tokens = sample_to_annotation_groups
                     .remove(&sample_token)
-                    .ok_or(NuScenesError::InternalBug)?;
+                    .unwrap_or_default();
                 let internal = SampleInternal::from(sample, annotation_tokens, sample_data_tokens);
                 Ok((sample_token, internal))
             })
-- 
2.43.0


From 1de5343906f544d826674843fd36ee456473efb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 11/13] fix: report an invalid scenario as an error instead of
 panicking

---
 src/config.rs        |  5 ++++-
 src/config/schema.rs | 10 ++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 4e24f01..1299f16 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -80,7 +80,10 @@ impl PerceptionEvaluationConfig {
         // TODO
         let mut dataset_path = PathBuf::new();
         let mut version = String::new();
-        for (key, value) in &datasets[0] {
+        let dataset = datasets
+            .first()
+            .ok_or(ConfigError::KeyError("Datasets".to_string()))?;
+        for (key, value) in dataset {
             dataset_path.set_file_name(key);
             version = value.version.clone();
         }
diff --git a/src/config/schema.rs b/src/config/schema.rs
index 0a05de1..e861e86 100644
--- a/src/config/schema.rs
+++ b/src/config/schema.rs
@@ -89,7 +89,7 @@ mod evaluation_task_serde {
     use std::str::FromStr;
 
     use crate::evaluation_task::EvaluationTask;
-    use serde::{Deserialize, Deserializer, Serializer};
+    use serde::{de::Error as DeserializeError, Deserialize, Deserializer, Serializer};
 
     pub fn serialize<S>(value: &EvaluationTask, serializer: S) -> Result<S::Ok, S::Error>
     where
@@ -104,15 +104,14 @@ mod evaluation_task_serde {
         D: Deserializer<'de>,
     {
         let task_str = String::deserialize(deserializer)?;
-        let task = EvaluationTask::from_str(&task_str).unwrap(); // TODO: update result type
-        Ok(task)
+        EvaluationTask::from_str(&task_str).map_err(D::Error::custom)
     }
 }
 
 mod frame_id_serde {
     use std::str::FromStr;
 
-    use serde::{Deserialize, Deserializer, Serializer};
+    use serde::{de::Error as DeserializeError, Deserialize, Deserializer, Serializer};
 
     use crate::frame_id::FrameID;
 
@@ -129,7 +128,6 @@ mod frame_id_serde {
         D: Deserializer<'de>,
     {
         let frame_id_str = String::deserialize(deserializer)?;
-        let frame_id = FrameID::from_str(&frame_id_str).unwrap(); // TODO
-        Ok(frame_id)
+        FrameID::from_str(&frame_id_str).map_err(D::Error::custom)
     }
 }
-- 
2.43.0


From f4032dcb7cd1b40f47eddde6cd69257da47a6b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 12/13] fix: write timestamps as whole microseconds so that
 they read back unchanged

---
 src/dataset/nuscenes/schema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset/nuscenes/schema.rs b/src/dataset/nuscenes/schema.rs
index 3e69441..f3117ab 100644
--- a/src/dataset/nuscenes/schema.rs
+++ b/src/dataset/nuscenes/schema.rs
@@ -579,8 +579,8 @@ mod timestamp_serde {
     where
         S: Serializer,
     {
-        let timestamp_us = value.timestamp_micros() as f64; // in us
-        serializer.serialize_f64(timestamp_us)
+        let timestamp_us = value.timestamp_micros(); // in us
+        serializer.serialize_i64(timestamp_us)
     }
 
     pub fn deserialize<'de, D>(deserializer: D) -> Result<NaiveDateTime, D::Error>
-- 
2.43.0


From c58597211d9509aa3381ef8b4f91ccbc4ab78e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 13/13] fix: reject a scenario whose first dataset entry is
 empty

---
 src/config.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.rs b/src/config.rs
index 1299f16..6e2572e 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -82,6 +82,7 @@ impl PerceptionEvaluationConfig {
         let mut version = String::new();
         let dataset = datasets
             .first()
+            .filter(|dataset| !dataset.is_empty())
             .ok_or(ConfigError::KeyError("Datasets".to_string()))?;
         for (key, value) in dataset {
             dataset_path.set_file_name(key);
-- 
2.43.0

