From 5f67df36371ed37755e7c5ddcbf019578f2c3bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:13 +0000
Subject: [PATCH 01/17] fix: pair every estimate and ground truth at most once,
 closest pairs first

---
 src/result/object.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/result/object.rs b/src/result/object.rs
index d679461..eb8355e 100644
--- a/src/result/object.rs
+++ b/src/result/object.rs
@@ -258,8 +258,10 @@ pub fn get_perception_results(
             {
                 break;
             }
+            // Select the closest pair among all the remaining ones.
+            let mut best = (usize::MAX, usize::MAX, f64::MAX);
             for (est_idx, row_table) in score_table.iter_mut().enumerate() {
-                let (gt_idx, _) = row_table.iter().enumerate().fold(
+                let (gt_idx, score) = row_table.iter().enumerate().fold(
                     (usize::MAX, f64::MAX),
                     |(a_idx, a), (b_idx, b)| match b {
                         Some(b) => {
@@ -277,21 +279,32 @@ pub fn get_perception_results(
                     continue;
                 }
 
-                results.push(PerceptionResult {
-                    estimated_object: estimated_objects[est_idx].to_owned(),
-                    ground_truth_object: Some(ground_truth_objects[gt_idx].to_owned()),
-                });
+                if best.0 == usize::MAX || score < best.2 {
+                    best = (est_idx, gt_idx, score);
+                }
+            }
 
-                row_table[gt_idx] = None;
-                took_indices.push(est_idx);
+            let (est_idx, gt_idx, _) = best;
+            if est_idx == usize::MAX {
+                break;
             }
+
+            results.push(PerceptionResult {
+                estimated_object: estimated_objects[est_idx].to_owned(),
+                ground_truth_object: Some(ground_truth_objects[gt_idx].to_owned()),
+            });
+
+            // Neither of the paired objects can be used again.
+            score_table[est_idx].fill(None);
+            score_table.iter_mut().for_each(|row| row[gt_idx] = None);
+            took_indices.push(est_idx);
         }
 
         if took_indices.len() < num_estimated_objects {
             let index_list = (0..num_estimated_objects).collect::<Vec<usize>>();
             let mut fp_estimated_objects = Vec::new();
             index_list.iter().for_each(|idx| {
-                if took_indices.contains(idx) {
+                if !took_indices.contains(idx) {
                     fp_estimated_objects.push(estimated_objects[*idx].to_owned());
                 }
             });
-- 
2.43.0


From 982e4d283f8477ab89b2778c5c01c8d670adef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 02/17] fix: compute AP over the ranking by confidence, down to
 recall 0, without panicking on empty results

---
 src/metrics/detection.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/metrics/detection.rs b/src/metrics/detection.rs
index f6600db..a5aabe0 100644
--- a/src/metrics/detection.rs
+++ b/src/metrics/detection.rs
@@ -130,7 +130,11 @@ impl<'a> Ap<'a> {
             self.interpolate_precision_recall(precision_list, recall_list);
 
         if max_precision_list.is_empty() {
-            f64::NAN
+            if *self.num_ground_truth == 0 {
+                f64::NAN
+            } else {
+                0.0
+            }
         } else {
             let mut ap = 0.0;
             for i in 0..max_precision_list.len() - 1 {
@@ -149,17 +153,20 @@ impl<'a> Ap<'a> {
         precision_list: Vec<f64>,
         recall_list: Vec<f64>,
     ) -> (Vec<f64>, Vec<f64>) {
-        if self.results.is_empty() && *self.num_ground_truth == 0 {
+        if self.results.is_empty() {
             (Vec::new(), Vec::new())
         } else {
             let mut max_precision_list = vec![*precision_list.last().unwrap()];
             let mut max_recall_list = vec![*recall_list.last().unwrap()];
-            for i in 0..recall_list.len() - 1 {
+            for i in (0..recall_list.len() - 1).rev() {
                 if max_precision_list.last().unwrap() < &precision_list[i] {
                     max_precision_list.push(precision_list[i]);
                     max_recall_list.push(recall_list[i]);
                 }
             }
+            // The curve starts at recall 0 with the best precision.
+            max_precision_list.push(*max_precision_list.last().unwrap());
+            max_recall_list.push(0.0);
             (max_precision_list, max_recall_list)
         }
     }
@@ -211,7 +218,14 @@ impl<'a> Ap<'a> {
             let mut tp_list = vec![0.0; num_results];
             let mut fp_list = vec![0.0; num_results];
 
-            self.results.iter().enumerate().for_each(|(i, result)| {
+            let mut sorted_results: Vec<&PerceptionResult> = self.results.iter().collect();
+            sorted_results.sort_by(|a, b| {
+                b.estimated_object
+                    .confidence
+                    .total_cmp(&a.estimated_object.confidence)
+            });
+
+            sorted_results.iter().enumerate().for_each(|(i, result)| {
                 if result.is_result_correct(matching_mode, threshold).unwrap() {
                     tp_list[i] = tp_metrics.get_value(result);
                 } else {
-- 
2.43.0


From 280e089cff6ffc9ef11cd72cb80c84eab4d0551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 03/17] fix: measure the height overlap, not the height span,
 in the 3D IoU

---
 src/matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matching.rs b/src/matching.rs
index 5c2a90c..b51ffce 100644
--- a/src/matching.rs
+++ b/src/matching.rs
@@ -216,7 +216,7 @@ fn get_intersection_height(
             ground_truth_object.position[2] - ground_truth_object.size[2] * 0.5,
         ]
         .into_iter()
-        .min_by(|a, b| a.partial_cmp(b).unwrap())
+        .max_by(|a, b| a.partial_cmp(b).unwrap())
         .unwrap()
     };
 
@@ -226,7 +226,7 @@ fn get_intersection_height(
             ground_truth_object.position[2] + ground_truth_object.size[2] * 0.5,
         ]
         .into_iter()
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
+        .min_by(|a, b| a.partial_cmp(b).unwrap())
         .unwrap()
     };
 
-- 
2.43.0


From 4a5f033f9522bb1d956871500ea5d39c0977f16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 04/17] fix: rotate row vectors by the rotation and not by its
 inverse

---
 src/object/object3d.rs | 2 +-
 src/utils/math.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/object/object3d.rs b/src/object/object3d.rs
index 1f76a00..498eb0a 100644
--- a/src/object/object3d.rs
+++ b/src/object/object3d.rs
@@ -436,7 +436,7 @@ impl DynamicObject {
         center2corners
             .row_iter()
             .map(|corner| {
-                let mat = corner * rot + position;
+                let mat = corner * rot.transpose() + position;
                 [mat[(0, 0)], mat[(0, 1)], mat[(0, 2)]]
             })
             .collect()
diff --git a/src/utils/math.rs b/src/utils/math.rs
index 303b72f..9856ffd 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -149,7 +149,7 @@ pub fn translate_inv(xyz1: &[f64; 3], xyz2: &[f64; 3]) -> [f64; 3] {
 /// ```
 pub fn rotate(xyz: &[f64; 3], q: &[f64; 4]) -> [f64; 3] {
     let rot = quaternion2rotation(q);
-    let position = PositionMatrix::new(xyz[0], xyz[1], xyz[2]) * rot;
+    let position = PositionMatrix::new(xyz[0], xyz[1], xyz[2]) * rot.transpose();
     let row = position.row(0);
     [row[0], row[1], row[2]]
 }
-- 
2.43.0


From 16678ad242f1b9db3bb3e6b1aadcbd9185f666db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 05/17] fix: compose quaternions with the Hamilton product

---
 src/utils/math.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index 9856ffd..bc70065 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -192,11 +192,14 @@ pub fn rotate_inv(xyz: &[f64; 3], q: &[f64; 4]) -> [f64; 3] {
 /// assert_eq!(ret, [1.0, 0.0, 0.0, 0.0]);
 /// ```
 pub fn rotate_q(q1: &[f64; 4], q2: &[f64; 4]) -> [f64; 4] {
-    let mut ret = q1.to_owned();
-    for i in 0..4 {
-        ret[i] *= q2[i];
-    }
-    ret
+    let [a0, a1, a2, a3] = q2;
+    let [b0, b1, b2, b3] = q1;
+    [
+        a0 * b0 - a1 * b1 - a2 * b2 - a3 * b3,
+        a0 * b1 + a1 * b0 + a2 * b3 - a3 * b2,
+        a0 * b2 - a1 * b3 + a2 * b0 + a3 * b1,
+        a0 * b3 + a1 * b2 - a2 * b1 + a3 * b0,
+    ]
 }
 
 /// Inverse rotate `q1` with input `q2`.
-- 
2.43.0


From e1ea67132c019fd33164e7a6aa9e97147d9aaf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 06/17] fix: convert every orientation into finite euler angles
 of the right quadrant

---
 src/utils/math.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index bc70065..262d8e4 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -52,13 +52,16 @@ pub fn quaternion2rotation(q: &[f64; 4]) -> RotationMatrix<f64> {
 /// ```
 pub fn quaternion2euler(q: &[f64; 4]) -> [f64; 3] {
     let [q0, q1, q2, q3] = q;
-    let roll = (2.0 * (q0 * q1 + q2 * q3) / (1.0 - 2.0 * (q1.powi(2) + q2.powi(2)))).atan();
-    let pitch = -0.5 * PI
-        + 2.0
-            * ((1.0 + 2.0 * (q0 * q2 - q1 * q3)) / (1.0 - 2.0 * (q0 * q2 - q1 * q3)))
-                .sqrt()
-                .atan();
-    let yaw = (2.0 * (q0 * q3 + q1 * q2) / (1.0 - 2.0 * (q2.powi(2) + q3.powi(2)))).atan();
+    let sin_pitch = 2.0 * (q0 * q2 - q1 * q3);
+    if sin_pitch.abs() > 1.0 - 1e-12 {
+        // Pointing straight up or down, only the sum or difference of roll and yaw is determined.
+        let pitch = (0.5 * PI).copysign(sin_pitch);
+        let yaw = (-2.0 * sin_pitch.signum() * q0 * q1).atan2(q0.powi(2) - q1.powi(2));
+        return [0.0, pitch, yaw];
+    }
+    let roll = (2.0 * (q0 * q1 + q2 * q3)).atan2(1.0 - 2.0 * (q1.powi(2) + q2.powi(2)));
+    let pitch = sin_pitch.asin();
+    let yaw = (2.0 * (q0 * q3 + q1 * q2)).atan2(1.0 - 2.0 * (q2.powi(2) + q3.powi(2)));
     [roll, pitch, yaw]
 }
 
-- 
2.43.0


From ad61cb6d3fab75335e7486407f9c73d0dbb33c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 07/17] fix: read and write timestamps as whole microseconds

---
 src/dataset/nuscenes/schema.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/dataset/nuscenes/schema.rs b/src/dataset/nuscenes/schema.rs
index 61d43fa..699aaec 100644
--- a/src/dataset/nuscenes/schema.rs
+++ b/src/dataset/nuscenes/schema.rs
@@ -579,8 +579,7 @@ mod timestamp_serde {
     where
         S: Serializer,
     {
-        let timestamp = value.timestamp_nanos_opt().unwrap() as f64 / 1_000_000_000.0;
-        serializer.serialize_f64(timestamp)
+        serializer.serialize_i64(value.timestamp_micros()) // in us
     }
 
     pub fn deserialize<'de, D>(deserializer: D) -> Result<NaiveDateTime, D::Error>
@@ -588,10 +587,7 @@ mod timestamp_serde {
         D: Deserializer<'de>,
     {
         let timestamp_us = f64::deserialize(deserializer)?; // in us
-        let timestamp_ns = (timestamp_us * 1000.0) as u64; // in ns
-        let secs = timestamp_ns / 1_000_000_000;
-        let nsecs = timestamp_ns % 1_000_000_000;
-        let datetime = NaiveDateTime::from_timestamp_opt(secs as i64, nsecs as u32);
+        let datetime = NaiveDateTime::from_timestamp_micros(timestamp_us as i64);
         match datetime {
             Some(value) => Ok(value),
             None => Err(D::Error::custom("Could not load timestamp")),
-- 
2.43.0


From 01aa0e2daed448d4ee542329f1b9b34fbac78da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:47 +0000
Subject: [PATCH 08/17] fix: decode point clouds record by record and reject
 truncated files

---
 src/dataset/nuscenes/iter_impl/sample_data.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dataset/nuscenes/iter_impl/sample_data.rs b/src/dataset/nuscenes/iter_impl/sample_data.rs
index 7531258..e1765a1 100644
--- a/src/dataset/nuscenes/iter_impl/sample_data.rs
+++ b/src/dataset/nuscenes/iter_impl/sample_data.rs
@@ -6,8 +6,8 @@ use super::super::{
     {LoadedSampleData, PointCloudMatrix, WithDataset},
 };
 // use memmap::MmapOptions;
-use nalgebra::{Dyn, VecStorage, U5};
-use safe_transmute::guard::SingleManyGuard;
+use nalgebra::{Dyn, U5};
+use safe_transmute::guard::AllOrNothingGuard;
 use std::{
     fs::File,
     io::{prelude::*, BufReader, Result as IoResult},
@@ -42,16 +42,17 @@ impl<'a> WithDataset<'a, SampleData> {
                 match dirname {
                     "lidar" => {
                         let bytes = self.load_raw()?;
-                        let values = safe_transmute::transmute_many::<f32, SingleManyGuard>(&bytes)
-                            .map_err(|_| NuScenesError::CorruptedFile(path.clone()))?;
+                        let values =
+                            safe_transmute::transmute_many::<f32, AllOrNothingGuard>(&bytes)
+                                .map_err(|_| NuScenesError::CorruptedFile(path.clone()))?;
                         if values.len() % 5 != 0 {
                             return Err(NuScenesError::CorruptedFile(path));
                         }
                         let n_rows = values.len() / 5;
 
                         // TODO: this step takes one copy of the buffer. try to use more efficient impl.
-                        let storage = VecStorage::new(Dyn(n_rows), U5, Vec::from(values));
-                        let matrix = PointCloudMatrix::from_data(storage);
+                        let matrix =
+                            PointCloudMatrix::from_row_slice_generic(Dyn(n_rows), U5, values);
                         LoadedSampleData::PointCloud(matrix)
                     }
                     _ => {
-- 
2.43.0


From 31bdf53c0d395e371a4a37cd0092d24a49744bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 09/17] fix: load samples that have no annotation or no sensor
 data

---
 src/dataset/nuscenes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset/nuscenes.rs b/src/dataset/nuscenes.rs
index 1761c2d..4744635 100644
--- a/src/dataset/nuscenes.rs
+++ b/src/dataset/nuscenes.rs
@@ -534,10 +534,10 @@ impl NuScenes {
             .map(|(sample_token, sample)| {
                 let sample_data_tokens = sample_to_sample_data_groups
                     .remove(&sample_token)
-                    .ok_or(NuScenesError::InternalBug)?;
+                    .unwrap_or_default();
                 let annotation_tokens = sample_to_annotation_groups
                     .remove(&sample_token)
-                    .ok_or(NuScenesError::InternalBug)?;
+                    .unwrap_or_default();
                 let internal = SampleInternal::from(sample, annotation_tokens, sample_data_tokens);
                 Ok((sample_token, internal))
             })
-- 
2.43.0


From 22837fb739ddda1b933a7fc4326c6d537a39968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:18 +0000
Subject: [PATCH 10/17] fix: reject a scenario with an unknown task or frame or
 without dataset instead of panicking

---
 src/config.rs        | 6 +++++-
 src/config/schema.rs | 8 ++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 4e24f01..c902b25 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -80,7 +80,11 @@ impl PerceptionEvaluationConfig {
         // TODO
         let mut dataset_path = PathBuf::new();
         let mut version = String::new();
-        for (key, value) in &datasets[0] {
+        let dataset = datasets
+            .first()
+            .filter(|dataset| !dataset.is_empty())
+            .ok_or_else(|| ConfigError::KeyError("Datasets is empty".to_string()))?;
+        for (key, value) in dataset {
             dataset_path.set_file_name(key);
             version = value.version.clone();
         }
diff --git a/src/config/schema.rs b/src/config/schema.rs
index 0a05de1..d996094 100644
--- a/src/config/schema.rs
+++ b/src/config/schema.rs
@@ -89,7 +89,7 @@ mod evaluation_task_serde {
     use std::str::FromStr;
 
     use crate::evaluation_task::EvaluationTask;
-    use serde::{Deserialize, Deserializer, Serializer};
+    use serde::{de::Error as DeserializeError, Deserialize, Deserializer, Serializer};
 
     pub fn serialize<S>(value: &EvaluationTask, serializer: S) -> Result<S::Ok, S::Error>
     where
@@ -104,7 +104,7 @@ mod evaluation_task_serde {
         D: Deserializer<'de>,
     {
         let task_str = String::deserialize(deserializer)?;
-        let task = EvaluationTask::from_str(&task_str).unwrap(); // TODO: update result type
+        let task = EvaluationTask::from_str(&task_str).map_err(D::Error::custom)?;
         Ok(task)
     }
 }
@@ -112,7 +112,7 @@ mod evaluation_task_serde {
 mod frame_id_serde {
     use std::str::FromStr;
 
-    use serde::{Deserialize, Deserializer, Serializer};
+    use serde::{de::Error as DeserializeError, Deserialize, Deserializer, Serializer};
 
     use crate::frame_id::FrameID;
 
@@ -129,7 +129,7 @@ mod frame_id_serde {
         D: Deserializer<'de>,
     {
         let frame_id_str = String::deserialize(deserializer)?;
-        let frame_id = FrameID::from_str(&frame_id_str).unwrap(); // TODO
+        let frame_id = FrameID::from_str(&frame_id_str).map_err(D::Error::custom)?;
         Ok(frame_id)
     }
 }
-- 
2.43.0


From e8442f76ae218bcaf22a1f0498ae6e5d3a36472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 11/17] fix: let several configurations be built in one process

---
 src/config.rs       |  2 +-
 src/utils/logger.rs | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index c902b25..adadca8 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -112,7 +112,7 @@ impl PerceptionEvaluationConfig {
         let log_dir = result_dir.join("log");
         let viz_dir = result_dir.join("visualize");
 
-        configure_logger(&log_dir, log::Level::Debug).unwrap();
+        configure_logger(&log_dir, log::Level::Debug).map_err(|_| ConfigError::InternalError)?;
 
         let config = Self {
             version,
diff --git a/src/utils/logger.rs b/src/utils/logger.rs
index 5ffa2df..aaf8a29 100644
--- a/src/utils/logger.rs
+++ b/src/utils/logger.rs
@@ -3,9 +3,11 @@ use log4rs::{
     append::file::FileAppender,
     config::{Appender, Config, Root},
     encode::pattern::PatternEncoder,
+    Handle,
 };
 use std::error::Error;
 use std::path::Path;
+use std::sync::Mutex;
 
 pub type LoggerResult<T> = std::result::Result<T, Box<dyn Error>>;
 
@@ -44,7 +46,13 @@ pub fn configure_logger(log_dir: &Path, level: Level) -> LoggerResult<()> {
         .appender(Appender::builder().build("logfile", Box::new(logfile)))
         .build(Root::builder().appender("logfile").build(level_filter))?;
 
-    log4rs::init_config(config)?;
+    // The process has a single logger, only the first call can install it.
+    static HANDLE: Mutex<Option<Handle>> = Mutex::new(None);
+    let mut handle = HANDLE.lock().map_err(|err| err.to_string())?;
+    match handle.as_ref() {
+        Some(handle) => handle.set_config(config),
+        None => *handle = Some(log4rs::init_config(config)?),
+    }
 
     Ok(())
 }
-- 
2.43.0


From 83af52da3c2c645e15f5663d5b9471f6136d2b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 12/17] fix: count the ground truths of a label once even if it
 is listed twice

---
 src/manager.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/manager.rs b/src/manager.rs
index 96ea69b..8aef486 100644
--- a/src/manager.rs
+++ b/src/manager.rs
@@ -128,7 +128,8 @@ impl<'a> PerceptionEvaluationManager<'a> {
 
         self.frame_results.iter().for_each(|frame| {
             let mut result_map = hash_results(frame.results(), target_labels);
-            let num_gt_map = hash_num_objects(&frame.frame_ground_truth().objects, target_labels);
+            let mut num_gt_map =
+                hash_num_objects(&frame.frame_ground_truth().objects, target_labels);
             target_labels.iter().for_each(|label| {
                 if let Some(results) = scene_results.get_mut(label) {
                     if let Some(result) = result_map.get_mut(label) {
@@ -136,7 +137,8 @@ impl<'a> PerceptionEvaluationManager<'a> {
                     }
                 };
                 if let Some(num_gts) = num_scene_gt.get_mut(label) {
-                    if let Some(num_gt) = num_gt_map.get(label) {
+                    // Taken out of the map, for a label listed twice to be counted once.
+                    if let Some(num_gt) = num_gt_map.remove(label) {
                         *num_gts += num_gt
                     }
                 };
-- 
2.43.0


From bdaf29a552c63c14a164f4980cd56246415f26be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 13/17] fix: tell ground truths of one place and label apart by
 their instance ID

---
 src/result/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/result/frame.rs b/src/result/frame.rs
index 2a9fa30..1ceaec2 100644
--- a/src/result/frame.rs
+++ b/src/result/frame.rs
@@ -140,7 +140,7 @@ fn is_fn_object(ground_truth: &DynamicObject, tp_results: &[PerceptionResult]) -
     for tp in tp_results {
         match &tp.ground_truth_object {
             Some(gt) => {
-                if gt == ground_truth {
+                if gt == ground_truth && gt.uuid == ground_truth.uuid {
                     return false;
                 }
             }
-- 
2.43.0


From 7e46f4bf3408de9b65f1d601479758cc83a3aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:05 +0000
Subject: [PATCH 14/17] fix: let the instances, maps and visibilities of a
 dataset be iterated

---
 src/dataset/nuscenes.rs                      | 2 +-
 src/dataset/nuscenes/iter_impl/map.rs        | 4 ++--
 src/dataset/nuscenes/iter_impl/visibility.rs | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dataset/nuscenes.rs b/src/dataset/nuscenes.rs
index 4744635..418b928 100644
--- a/src/dataset/nuscenes.rs
+++ b/src/dataset/nuscenes.rs
@@ -661,7 +661,7 @@ impl NuScenes {
 
     pub fn instance_iter(
         &self,
-    ) -> Iter<'_, Instance, HashMapKeys<'_, LongToken, InstanceInternal>> {
+    ) -> Iter<'_, InstanceInternal, HashMapKeys<'_, LongToken, InstanceInternal>> {
         self.refer_iter(self.instance_map.keys())
     }
 
diff --git a/src/dataset/nuscenes/iter_impl/map.rs b/src/dataset/nuscenes/iter_impl/map.rs
index 6354e05..5376d16 100644
--- a/src/dataset/nuscenes/iter_impl/map.rs
+++ b/src/dataset/nuscenes/iter_impl/map.rs
@@ -13,13 +13,13 @@ impl<'a> WithDataset<'a, Map> {
 
 impl<'a, It> Iterator for Iter<'a, Map, It>
 where
-    It: Iterator<Item = ShortToken>,
+    It: Iterator<Item = &'a ShortToken>,
 {
     type Item = WithDataset<'a, Map>;
 
     fn next(&mut self) -> Option<Self::Item> {
         self.tokens_iter
             .next()
-            .map(|token| self.refer(&self.dataset.map_map[&token]))
+            .map(|token| self.refer(&self.dataset.map_map[token]))
     }
 }
diff --git a/src/dataset/nuscenes/iter_impl/visibility.rs b/src/dataset/nuscenes/iter_impl/visibility.rs
index 524e54a..0f8f197 100644
--- a/src/dataset/nuscenes/iter_impl/visibility.rs
+++ b/src/dataset/nuscenes/iter_impl/visibility.rs
@@ -2,13 +2,13 @@ use super::super::{iter::Iter, schema::Visibility, WithDataset};
 
 impl<'a, It> Iterator for Iter<'a, Visibility, It>
 where
-    It: Iterator<Item = String>,
+    It: Iterator<Item = &'a String>,
 {
     type Item = WithDataset<'a, Visibility>;
 
     fn next(&mut self) -> Option<Self::Item> {
         self.tokens_iter
             .next()
-            .map(|token| self.refer(&self.dataset.visibility_map[&token]))
+            .map(|token| self.refer(&self.dataset.visibility_map[token]))
     }
 }
-- 
2.43.0


From a4820471fa24ff9e5c657c71c9b2d0e9a4b82e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:59 +0000
Subject: [PATCH 15/17] fix: overlap of footprints with coinciding edges no
 longer panics

---
 src/matching.rs | 71 +++++++++++++++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 29 deletions(-)

diff --git a/src/matching.rs b/src/matching.rs
index b51ffce..2455204 100644
--- a/src/matching.rs
+++ b/src/matching.rs
@@ -3,7 +3,7 @@ use std::cmp::Ordering;
 use crate::utils::point::{distance_points_bev, get_point_left_right};
 
 use super::object::object3d::DynamicObject;
-use geo::{polygon, Area, BooleanOps, Coord, Polygon};
+use geo::{Area, Coord, LineString, Polygon};
 use thiserror::Error as ThisError;
 
 pub type MatchingResult<T> = Result<T, MatchingError>;
@@ -173,37 +173,50 @@ fn get_intersection_area(
     estimated_object: &DynamicObject,
     ground_truth_object: &DynamicObject,
 ) -> f64 {
-    let get_polygon = |object: &DynamicObject| -> Polygon<f64> {
-        let footprint = object.footprint();
-        let poly = polygon![
-            Coord {
-                x: footprint[0][0],
-                y: footprint[0][1]
-            },
-            Coord {
-                x: footprint[1][0],
-                y: footprint[1][1]
-            },
-            Coord {
-                x: footprint[2][0],
-                y: footprint[2][1]
-            },
-            Coord {
-                x: footprint[3][0],
-                y: footprint[3][1]
-            },
-            Coord {
-                x: footprint[0][0],
-                y: footprint[0][1]
-            },
-        ];
-        poly
+    let get_corners = |object: &DynamicObject| -> Vec<Coord> {
+        object
+            .footprint()
+            .iter()
+            .map(|corner| Coord {
+                x: corner[0],
+                y: corner[1],
+            })
+            .collect()
     };
 
-    let est_polygon = get_polygon(estimated_object);
-    let gt_polygon = get_polygon(ground_truth_object);
+    let est_corners = get_corners(estimated_object);
+    let gt_corners = get_corners(ground_truth_object);
 
-    est_polygon.intersection(&gt_polygon).unsigned_area()
+    let area = Polygon::new(LineString::new(clip(est_corners, &gt_corners)), Vec::new())
+        .unsigned_area();
+    area.min(estimated_object.area())
+        .min(ground_truth_object.area())
+}
+
+/// Returns the part of a convex polygon that lies in another convex polygon, by cutting it along
+/// the edges of the latter. Unlike `geo::BooleanOps`, this also works if edges of the polygons
+/// coincide up to rounding.
+fn clip(polygon: Vec<Coord>, window: &[Coord]) -> Vec<Coord> {
+    let cross =
+        |o: Coord, a: Coord, b: Coord| (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x);
+    let winding = cross(window[0], window[1], window[2]).signum();
+
+    (0..window.len()).fold(polygon, |polygon, i| {
+        let (start, end) = (window[i], window[(i + 1) % window.len()]);
+        let mut ret = Vec::new();
+        for (j, p) in polygon.iter().enumerate() {
+            let q = polygon[(j + 1) % polygon.len()];
+            let side_p = winding * cross(start, end, *p);
+            let side_q = winding * cross(start, end, q);
+            if side_p >= 0.0 {
+                ret.push(*p);
+            }
+            if side_p * side_q < 0.0 {
+                ret.push(*p + (q - *p) * (side_p / (side_p - side_q)));
+            }
+        }
+        ret
+    })
 }
 
 fn get_intersection_height(
-- 
2.43.0


From fa97e0321932e83f454ecbfe06b296796ed8f072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 16/17] fix: round timestamps read from decimal notation

---
 src/dataset/nuscenes/schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dataset/nuscenes/schema.rs b/src/dataset/nuscenes/schema.rs
index 699aaec..a0e0177 100644
--- a/src/dataset/nuscenes/schema.rs
+++ b/src/dataset/nuscenes/schema.rs
@@ -587,7 +587,7 @@ mod timestamp_serde {
         D: Deserializer<'de>,
     {
         let timestamp_us = f64::deserialize(deserializer)?; // in us
-        let datetime = NaiveDateTime::from_timestamp_micros(timestamp_us as i64);
+        let datetime = NaiveDateTime::from_timestamp_micros(timestamp_us.round() as i64);
         match datetime {
             Some(value) => Ok(value),
             None => Err(D::Error::custom("Could not load timestamp")),
-- 
2.43.0


From bb3b836f45efe5cbad39efd377b0ff7c5addb1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:38 +0000
Subject: [PATCH 17/17] fix: log every message when configured with level Trace

---
 src/utils/logger.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/logger.rs b/src/utils/logger.rs
index aaf8a29..bfaa978 100644
--- a/src/utils/logger.rs
+++ b/src/utils/logger.rs
@@ -39,7 +39,7 @@ pub fn configure_logger(log_dir: &Path, level: Level) -> LoggerResult<()> {
         Level::Info => LevelFilter::Info,
         Level::Warn => LevelFilter::Warn,
         Level::Error => LevelFilter::Error,
-        _ => LevelFilter::Info,
+        Level::Trace => LevelFilter::Trace,
     };
 
     let config: Config = Config::builder()
-- 
2.43.0

