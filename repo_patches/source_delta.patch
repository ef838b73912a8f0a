From 714e87ca1bb9d5980b166cb707aa3c52c6c3a284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 1/3] fix: evaluate a split threshold only at the first
 occurrence of each feature value

---
 .../threshold_finders/threshold_finder_variance.rs          | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs b/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
index 2c256c9..f031ac2 100644
--- a/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
+++ b/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
@@ -46,7 +46,7 @@ pub(super) fn determine_best_threshold(
     };
 
     let sorted_feature_data = get_sorted_feature_tuple_vector(feature_column);
-    let previous_feature_val = sorted_feature_data[0].0;
+    let mut previous_feature_val = sorted_feature_data[0].0;
     sorted_feature_data.iter().for_each(|tuple| {
         let feature_value = tuple.0 as f64;
 
@@ -77,6 +77,7 @@ pub(super) fn determine_best_threshold(
                 best_result_container.threshold_value = feature_value;
             }
         }
+        previous_feature_val = feature_value;
 
         let real_row_index = tuple.1;
         let label_vector = &labels[real_row_index];
@@ -123,7 +124,7 @@ pub(super) fn determine_best_threshold_new(
     };
 
     let sorted_feature_data = feature_column;
-    let previous_feature_val = sorted_feature_data[0].0;
+    let mut previous_feature_val = sorted_feature_data[0].0;
     sorted_feature_data.iter().for_each(|tuple| {
         let feature_value = tuple.0 as f64;
 
@@ -154,6 +155,7 @@ pub(super) fn determine_best_threshold_new(
                 best_result_container.threshold_value = feature_value;
             }
         }
+        previous_feature_val = feature_value;
 
         let real_row_index = tuple.1;
         let label_vector = &all_labels[real_row_index];
-- 
2.43.0


From 20d5099e099de44d1cc005a8dd88320c955307a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 2/3] fix: leave the true part empty when no value reaches the
 split value

---
 common/src/data_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/data_processor.rs b/common/src/data_processor.rs
index abe2844..1ff4e76 100644
--- a/common/src/data_processor.rs
+++ b/common/src/data_processor.rs
@@ -68,7 +68,7 @@ fn collect_indices_for_partitioning(
     let mut false_indices = vec![0; all_labels_size];
     let sorted_feature_column_split_on = &dataset.sorted_feature_columns[split_column];
 
-    let mut first_encounter_index = 0;
+    let mut first_encounter_index = sorted_feature_column_split_on.len();
     for i in 0..sorted_feature_column_split_on.len() {
         let feature_value_index_pair = sorted_feature_column_split_on[i];
         let value = feature_value_index_pair.0;
-- 
2.43.0


From 3e5bcef9557bb261c160275c5d2a88723de00ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 3/3] fix: leaf output is zero for a class whose denominator is
 zero

---
 .../tree_builders/grad_boost/grad_boost_leaf_output.rs     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs b/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
index 6db81b8..419c24a 100644
--- a/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
+++ b/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
@@ -39,7 +39,12 @@ pub fn calculate_leaf_output_squared_loss(leaf_data: &MultiTargetDataSet) -> Vec
 pub fn calculate_leaf_output_multi_class_loss(leaf_data: &MultiTargetDataSet) -> Vec<f64> {
     let numerator = sum_of_f64_vectors(&leaf_data.labels);
     let denominator = calculate_denominator_term_for_leaf_output(&leaf_data.labels);
-    let numerator_over_denominator = divide_f64_slices_as_vector(&numerator, &denominator);
+    let mut numerator_over_denominator = divide_f64_slices_as_vector(&numerator, &denominator);
+    for (i, denominator_element) in denominator.iter().enumerate() {
+        if *denominator_element == 0. {
+            numerator_over_denominator[i] = 0.;
+        }
+    }
     let number_of_classes = leaf_data.labels[0].len() as f64;
     let scalar = (number_of_classes - 1.) / number_of_classes;
     let result = multiply_f64_slice_by_f64_scalar(scalar, &numerator_over_denominator);
-- 
2.43.0

