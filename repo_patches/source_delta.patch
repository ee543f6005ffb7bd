From bc62c3adf5f83dcb9b814ccc23e7d482d01b3200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:32 +0000
Subject: [PATCH 01/35] fix: build KNN trees of coincident rows

Splitting a node whose rows all coincide (or whose widest side has no
float strictly between its ends) never made progress and looped forever;
such rows now share one leaf.
---
 src/learning/knn/binary_tree.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/learning/knn/binary_tree.rs b/src/learning/knn/binary_tree.rs
index c9f3618..94d7c1e 100644
--- a/src/learning/knn/binary_tree.rs
+++ b/src/learning/knn/binary_tree.rs
@@ -273,22 +273,31 @@ impl<B: BinarySplit> BinaryTree<B> {
     /// - remains for right node
     /// - updated max for left node
     /// - updated min for right node
+    ///
+    /// Returns None if all rows coincide, i.e. cannot be split
     fn select_split(&self, data: &Matrix<f64>, mut remains: Vec<usize>,
                     mut dmin: Vector<f64>, mut dmax: Vector<f64>)
-        -> (usize, f64, Vec<usize>, Vec<usize>, Vector<f64>, Vector<f64>){
+        -> Option<(usize, f64, Vec<usize>, Vec<usize>, Vector<f64>, Vector<f64>)> {
 
         // avoid recursive call
         loop {
             // split columns which has the widest range
             let (dim, d) = (&dmax - &dmin).argmax();
+            if !(d > 0.) {
+                return None;
+            }
 
             // Use midpoint rule, see "On the Efficiency of Nearest Neighbor Searching
             // with Data Clustered in Lower Dimensions (Maneewongvatan and Mount, 1999)"
             // ToDo: use unsafe get (v0.4.0?)
             // https://github.com/AtheMathmo/rulinalg/pull/104
-            let split = unsafe {
+            let mut split = unsafe {
                 dmin.data().get_unchecked(dim) + d / 2.0
             };
+            if split <= dmin[dim] {
+                // no value between min and max, the midpoint can't separate them
+                split = dmax[dim];
+            }
 
             // split remains
             let mut l_remains: Vec<usize> = Vec::with_capacity(remains.len());
@@ -312,7 +321,7 @@ impl<B: BinarySplit> BinaryTree<B> {
             } else if r_remains.is_empty() {
                 // all rows are in l_remains. re-split l_remains
                 remains = l_remains;
-                dmax[dim] = split;
+                dmax[dim] = if split < dmax[dim] { split } else { dmin[dim] };
             } else {
                 // new hyper-rectangle's min / max
                 let mut l_max = dmax.clone();
@@ -323,7 +332,7 @@ impl<B: BinarySplit> BinaryTree<B> {
                 let mut r_min = dmin.clone();
                 r_min[dim] = split;
 
-                return (dim, split, l_remains, r_remains, l_max, r_min);
+                return Some((dim, split, l_remains, r_remains, l_max, r_min));
             }
         };
     }
@@ -338,7 +347,11 @@ impl<B: BinarySplit> BinaryTree<B> {
 
             // ToDo: avoid this clone
             let (dim, split, l_remains, r_remains, l_max, r_min) =
-                self.select_split(data, remains.clone(), dmin.clone(), dmax.clone());
+                match self.select_split(data, remains.clone(), dmin.clone(), dmax.clone()) {
+                    Some(s) => s,
+                    // coincident rows are kept in a single leaf
+                    None => return Node::Leaf(Leaf::new(remains)),
+                };
 
             let l_node = self.split(data, l_remains, dmin.clone(), l_max);
             let g_node = self.split(data, r_remains, r_min, dmax.clone());
-- 
2.43.0


From 03187a1cb45a1c81cb84482cef6add0b5df36921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:19 +0000
Subject: [PATCH 02/35] fix: keep searching until k neighbours are found

KNearest::add returned the farthest distance gathered so far even while
fewer than k rows were gathered, so farther rows of the same leaf were
dropped and searches returned wrong or too few neighbours.
---
 src/learning/knn/mod.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/learning/knn/mod.rs b/src/learning/knn/mod.rs
index fe6d4c0..3bb987c 100644
--- a/src/learning/knn/mod.rs
+++ b/src/learning/knn/mod.rs
@@ -168,16 +168,10 @@ impl KNearest {
     }
 
     /// Add new index and distances to the container, keeping first k elements which
-    /// distances are smaller. Returns the updated farthest distance.
+    /// distances are smaller. Returns the updated k-th distance, see dist.
     fn add(&mut self, index: usize, distance: f64) -> f64 {
         // self.pairs can't be empty
         let len = self.pairs.len();
-        // index of the last element after the query
-        let last_index: usize = if len < self.k {
-            len
-        } else {
-            len - 1
-        };
 
         unsafe {
             if self.pairs.get_unchecked(len - 1).1 < distance {
@@ -185,7 +179,7 @@ impl KNearest {
                     // append to the last
                     self.pairs.push((index, distance));
                 }
-                self.pairs.get_unchecked(last_index).1
+                self.dist()
             } else {
                 // last element is already compared
                 if len >= self.k {
@@ -195,11 +189,11 @@ impl KNearest {
                 for i in 2..(len + 1) {
                     if self.pairs.get_unchecked(len - i).1 < distance {
                         self.pairs.insert(len - i + 1, (index, distance));
-                        return self.pairs.get_unchecked(last_index).1;
+                        return self.dist();
                     }
                 }
                 self.pairs.insert(0, (index, distance));
-                self.pairs.get_unchecked(last_index).1
+                self.dist()
             }
         }
     }
-- 
2.43.0


From f570c3b7f59e10ee6938133fd8c9cdc960563171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:19 +0000
Subject: [PATCH 03/35] fix: refuse KNN queries whose width differs from the
 data

The trees read past the end of short points through get_unchecked and
brute force silently compared a prefix of the columns; searching now
returns an InvalidData error.
---
 src/learning/knn/binary_tree.rs |  3 ++-
 src/learning/knn/brute_force.rs |  3 ++-
 src/learning/knn/mod.rs         | 10 ++++++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/learning/knn/binary_tree.rs b/src/learning/knn/binary_tree.rs
index 94d7c1e..16ce510 100644
--- a/src/learning/knn/binary_tree.rs
+++ b/src/learning/knn/binary_tree.rs
@@ -5,7 +5,7 @@ use std::collections::VecDeque;
 use linalg::{Matrix, BaseMatrix, Vector};
 use learning::error::Error;
 
-use super::{KNearest, KNearestSearch, get_distances, dist};
+use super::{KNearest, KNearestSearch, check_point, get_distances, dist};
 
 /// Binary tree
 #[derive(Debug)]
@@ -410,6 +410,7 @@ impl<B: BinarySplit> KNearestSearch for BinaryTree<B> {
     /// Serch k-nearest items close to the point
     fn search(&self, point: &[f64], k: usize) -> Result<(Vec<usize>, Vec<f64>), Error> {
         if let Some(ref data) = self.data {
+            check_point(data, point)?;
             let (mut query, mut queue) = self.search_leaf(point, k)?;
             while !queue.is_empty() {
                 let current = queue.pop_front().unwrap();
diff --git a/src/learning/knn/brute_force.rs b/src/learning/knn/brute_force.rs
index d200c09..ec77f52 100644
--- a/src/learning/knn/brute_force.rs
+++ b/src/learning/knn/brute_force.rs
@@ -2,7 +2,7 @@
 use linalg::{Matrix, BaseMatrix};
 use learning::error::Error;
 
-use super::{KNearest, KNearestSearch, get_distances, dist};
+use super::{KNearest, KNearestSearch, check_point, get_distances, dist};
 
 /// Perform brute-force search
 #[derive(Debug)]
@@ -52,6 +52,7 @@ impl KNearestSearch for BruteForce {
     /// Serch k-nearest items close to the point
     fn search(&self, point: &[f64], k: usize) -> Result<(Vec<usize>, Vec<f64>), Error> {
         if let Some(ref data) = self.data {
+            check_point(data, point)?;
             let indices: Vec<usize> = (0..k).collect();
             let distances = get_distances(data, point, &indices);
 
diff --git a/src/learning/knn/mod.rs b/src/learning/knn/mod.rs
index 3bb987c..47aea54 100644
--- a/src/learning/knn/mod.rs
+++ b/src/learning/knn/mod.rs
@@ -254,6 +254,16 @@ fn freq(labels: &[usize]) -> (Vector<usize>, Vector<usize>) {
     (Vector::new(uniques), Vector::new(counts))
 }
 
+/// Check whether the point has as many elements as the data has columns
+fn check_point(data: &Matrix<f64>, point: &[f64]) -> Result<(), Error> {
+    if point.len() == data.cols() {
+        Ok(())
+    } else {
+        Err(Error::new(ErrorKind::InvalidData,
+                       "the point must have as many elements as the data has columns"))
+    }
+}
+
 /// Return distances between given point and data specified with row ids
 fn get_distances(data: &Matrix<f64>, point: &[f64], ids: &[usize]) -> Vec<f64> {
     assert!(!ids.is_empty(), "target ids is empty");
-- 
2.43.0


From e3d4bdd7f8ac91deeeeb9973aac872137fe9889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:13 +0000
Subject: [PATCH 04/35] fix: assign DBSCAN border points to the cluster that
 reaches them

Points within eps of a core point but with fewer than min_points
neighbours were reported as noise.
---
 src/learning/dbscan.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/learning/dbscan.rs b/src/learning/dbscan.rs
index e7bbdee..3b2e1ba 100644
--- a/src/learning/dbscan.rs
+++ b/src/learning/dbscan.rs
@@ -180,6 +180,14 @@ impl DBSCAN {
         self.clusters.as_mut().map(|x| x.mut_data()[point_idx] = Some(cluster));
 
         for data_point_idx in &neighbour_pts {
+            // Border points belong to the first cluster that reaches them
+            self.clusters.as_mut().map(|x| {
+                let class = &mut x.mut_data()[*data_point_idx];
+                if class.is_none() {
+                    *class = Some(cluster);
+                }
+            });
+
             let visited = self._visited[*data_point_idx];
             if !visited {
                 self._visited[*data_point_idx] = true;
-- 
2.43.0


From 2955a6df23e1e721f3411b5bb5659a3724d0e74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:13 +0000
Subject: [PATCH 05/35] fix: drop DBSCAN prediction data of earlier trainings

After a non-predictive training following a predictive one, enabling
prediction combined the old data with the new clusters.
---
 src/learning/dbscan.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/learning/dbscan.rs b/src/learning/dbscan.rs
index 3b2e1ba..bf36690 100644
--- a/src/learning/dbscan.rs
+++ b/src/learning/dbscan.rs
@@ -96,9 +96,12 @@ impl UnSupModel<Matrix<f64>, Vector<Option<usize>>> for DBSCAN {
             }
         }
 
-        if self.predictive {
-            self._cluster_data = Some(inputs.clone());
-        }
+        // Data of an earlier training does not belong to these clusters
+        self._cluster_data = if self.predictive {
+            Some(inputs.clone())
+        } else {
+            None
+        };
 
         Ok(())
     }
-- 
2.43.0


From 5b29d61187c2a8ad524fe0bfcb01ddbfa21e53d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:30 +0000
Subject: [PATCH 06/35] fix: keep k-means centroids that no point is closest to

An empty class produced a NaN centroid, which then attracted every
point in the following iterations.
---
 src/learning/k_means.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/learning/k_means.rs b/src/learning/k_means.rs
index 398aae6..026a0c2 100644
--- a/src/learning/k_means.rs
+++ b/src/learning/k_means.rs
@@ -218,9 +218,17 @@ impl<InitAlg: Initializer> KMeansClassifier<InitAlg> {
             row_indexes.get_mut(c as usize).map(|v| v.push(i));
         }
 
-        for vec_i in row_indexes {
-            let mat_i = inputs.select_rows(&vec_i);
-            new_centroids.extend(mat_i.mean(Axes::Row).into_vec());
+        for (i, vec_i) in row_indexes.into_iter().enumerate() {
+            match self.centroids {
+                // A centroid without any points has no mean to move to
+                Some(ref centroids) if vec_i.is_empty() => {
+                    new_centroids.extend(centroids.select_rows(&[i]).into_vec());
+                }
+                _ => {
+                    let mat_i = inputs.select_rows(&vec_i);
+                    new_centroids.extend(mat_i.mean(Axes::Row).into_vec());
+                }
+            }
         }
 
         self.centroids = Some(Matrix::new(self.k, inputs.cols(), new_centroids));
-- 
2.43.0


From 61ce38ad1509336b4b14646bb42837048a9c651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:30 +0000
Subject: [PATCH 07/35] fix: return errors for impossible numbers of k-means
 clusters

Training with k = 0, or with k-means++ and fewer distinct points than
clusters, panicked.
---
 src/learning/k_means.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/learning/k_means.rs b/src/learning/k_means.rs
index 026a0c2..05da164 100644
--- a/src/learning/k_means.rs
+++ b/src/learning/k_means.rs
@@ -184,7 +184,10 @@ impl<InitAlg: Initializer> KMeansClassifier<InitAlg> {
     ///
     /// Used internally within model.
     fn init_centroids(&mut self, inputs: &Matrix<f64>) -> LearningResult<()> {
-        if self.k > inputs.rows() {
+        if self.k == 0 {
+            Err(Error::new(ErrorKind::InvalidData,
+                           "Number of clusters must be positive."))
+        } else if self.k > inputs.rows() {
             Err(Error::new(ErrorKind::InvalidData,
                            format!("Number of clusters ({0}) exceeds number of data points \
                                     ({1}).",
@@ -357,6 +360,11 @@ impl Initializer for KPlusPlus {
                                            initialization."));
                 }
 
+                if dist.data().iter().all(|x| *x == 0.0) {
+                    return Err(Error::new(ErrorKind::InvalidData,
+                                          "There are more clusters than unique data points."));
+                }
+
                 let next_cen = sample_discretely(&dist);
                 init_centroids.extend_from_slice(inputs.row_unchecked(next_cen).raw_slice());
             }
-- 
2.43.0


From c44eb1838380be78d10845c4c245c7363f70552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:05 +0000
Subject: [PATCH 08/35] fix: MinMaxFitter maps everything to a constant when a
 column's range overflows or there are no rows

---
 src/data/transforms/minmax.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/data/transforms/minmax.rs b/src/data/transforms/minmax.rs
index 2f02e9d..469b4c4 100644
--- a/src/data/transforms/minmax.rs
+++ b/src/data/transforms/minmax.rs
@@ -111,8 +111,13 @@ impl<T: Float> TransformFitter<Matrix<T>, MinMaxScaler<T>> for MinMaxFitter<T> {
         // holds `b`.
         let scales = input_min_max.iter()
             .map(|&(x, y)| {
-                let s = (self.scaled_max - self.scaled_min) / (y - x);
-                if s.is_finite() {
+                let range = y - x;
+                let s = (self.scaled_max - self.scaled_min) / range;
+                if !range.is_finite() {
+                    // No rows, or the range of the column overflows
+                    Err(Error::new(ErrorKind::InvalidData,
+                                   "Range of a feature column cannot be computed."))
+                } else if s.is_finite() {
                     Ok(s)
                 } else {
                     Err(Error::new(ErrorKind::InvalidData,
-- 
2.43.0


From f08d89157f2159bbe43d31f1c95e49380d4fc3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:05 +0000
Subject: [PATCH 09/35] fix: Standardizer turns constant columns into NaN or
 rounding noise and overflowing ones into a constant

---
 src/data/transforms/standardize.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data/transforms/standardize.rs b/src/data/transforms/standardize.rs
index ee974b7..96ec787 100644
--- a/src/data/transforms/standardize.rs
+++ b/src/data/transforms/standardize.rs
@@ -89,10 +89,15 @@ impl<T: Float + FromPrimitive> TransformFitter<Matrix<T>, Standardizer<T>> for S
                 Error::new(ErrorKind::InvalidData, "Cannot compute variance of data.")
             })?;
 
-            if mean.data().iter().any(|x| !x.is_finite()) {
+            if mean.data().iter().chain(variance.data()).any(|x| !x.is_finite()) {
                 return Err(Error::new(ErrorKind::InvalidData, "Some data point is non-finite."));
             }
 
+            if (0..inputs.cols()).any(|j| inputs.row_iter().all(|row| row[j] == inputs[[0, j]])) {
+                return Err(Error::new(ErrorKind::InvalidData,
+                                      "Constant feature columns not supported."));
+            }
+
             Ok(Standardizer {
                 means: mean,
                 variances: variance,
-- 
2.43.0


From 2d53bbc99bba2d00d83cfbd78b40388e771a4e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 10/35] fix: Naive Bayes classes without samples had NaN
 log-probabilities and could win every prediction

---
 src/learning/naive_bayes.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/learning/naive_bayes.rs b/src/learning/naive_bayes.rs
index a36a712..ff12134 100644
--- a/src/learning/naive_bayes.rs
+++ b/src/learning/naive_bayes.rs
@@ -45,6 +45,7 @@ use learning::{LearningResult, SupModel};
 use learning::error::{Error, ErrorKind};
 use rulinalg::utils;
 
+use std::f64::NEG_INFINITY;
 use std::f64::consts::PI;
 
 /// The Naive Bayes model.
@@ -139,7 +140,17 @@ impl<T: Distribution> NaiveBayes<T> {
 
         if let (&Some(ref distr), &Some(ref prior)) = (&self.distr, &self.class_prior) {
             // Get the joint log likelihood from the distribution
-            distr.joint_log_lik(inputs, prior)
+            let mut log_probs = distr.joint_log_lik(inputs, prior)?;
+
+            // A class without training samples has probability zero,
+            // whatever its (never estimated) parameters yield
+            for (class, _) in prior.iter().enumerate().filter(|&(_, p)| *p == 0f64) {
+                for mut row in log_probs.row_iter_mut() {
+                    row[class] = NEG_INFINITY;
+                }
+            }
+
+            Ok(log_probs)
         } else {
             Err(Error::new_untrained())
         }
-- 
2.43.0


From d0f8a9d69a7c89234b18dd52d7b7a57105fe0121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 11/35] fix: Naive Bayes trained on mispaired rows, and a
 failed training left the model half replaced

---
 src/learning/naive_bayes.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/learning/naive_bayes.rs b/src/learning/naive_bayes.rs
index ff12134..a6eae15 100644
--- a/src/learning/naive_bayes.rs
+++ b/src/learning/naive_bayes.rs
@@ -108,7 +108,11 @@ impl<T: Distribution> NaiveBayes<T> {
 impl<T: Distribution> SupModel<Matrix<f64>, Matrix<f64>> for NaiveBayes<T> {
     /// Train the model using inputs and targets.
     fn train(&mut self, inputs: &Matrix<f64>, targets: &Matrix<f64>) -> LearningResult<()> {
-        self.distr = Some(T::from_model_params(targets.cols(), inputs.cols()));
+        if inputs.rows() != targets.rows() {
+            return Err(Error::new(ErrorKind::InvalidData,
+                                  "Inputs and targets must have the same number of rows."));
+        }
+
         self.update_params(inputs, targets)
     }
 
@@ -160,7 +164,7 @@ impl<T: Distribution> NaiveBayes<T> {
         let class_count = targets.cols();
         let total_data = inputs.rows();
 
-        self.class_counts = vec![0; class_count];
+        let mut class_counts = vec![0; class_count];
         let mut class_data = vec![Vec::new(); class_count];
 
         for (idx, row) in targets.row_iter().enumerate() {
@@ -169,27 +173,29 @@ impl<T: Distribution> NaiveBayes<T> {
 
             // Note the class of the input
             class_data[class].push(idx);
-            self.class_counts[class] += 1;
+            class_counts[class] += 1;
         }
 
-        if let Some(ref mut distr) = self.distr {
-            for (idx, c) in class_data.into_iter().enumerate() {
-                // If this class' vector has not been populated, we can safely
-                // skip this iteration, since the user is clearly not interested
-                // in associating features with this class
-                if c.is_empty() {
-                    continue;
-                }
-                // Update the parameters within this class
-                distr.update_params(&inputs.select_rows(&c), idx)?;
+        let mut distr = T::from_model_params(class_count, inputs.cols());
+        for (idx, c) in class_data.into_iter().enumerate() {
+            // If this class' vector has not been populated, we can safely
+            // skip this iteration, since the user is clearly not interested
+            // in associating features with this class
+            if c.is_empty() {
+                continue;
             }
+            // Update the parameters within this class
+            distr.update_params(&inputs.select_rows(&c), idx)?;
         }
 
         let mut class_prior = Vec::with_capacity(class_count);
 
         // Compute the prior as the proportion in each class
-        class_prior.extend(self.class_counts.iter().map(|c| *c as f64 / total_data as f64));
+        class_prior.extend(class_counts.iter().map(|c| *c as f64 / total_data as f64));
 
+        // The model changes only once nothing can fail any more
+        self.distr = Some(distr);
+        self.class_counts = class_counts;
         self.class_prior = Some(class_prior);
         self.cluster_count = Some(class_count);
         Ok(())
-- 
2.43.0


From ca495907da79f8446b35502e2f87d3395f972c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 12/35] fix: Naive Bayes panicked on inputs of another width
 than the training data

---
 src/learning/naive_bayes.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/learning/naive_bayes.rs b/src/learning/naive_bayes.rs
index a6eae15..0708653 100644
--- a/src/learning/naive_bayes.rs
+++ b/src/learning/naive_bayes.rs
@@ -55,6 +55,7 @@ pub struct NaiveBayes<T: Distribution> {
     cluster_count: Option<usize>,
     class_prior: Option<Vec<f64>>,
     class_counts: Vec<usize>,
+    feature_count: Option<usize>,
 }
 
 impl<T: Distribution> NaiveBayes<T> {
@@ -75,6 +76,7 @@ impl<T: Distribution> NaiveBayes<T> {
             cluster_count: None,
             class_prior: None,
             class_counts: Vec::new(),
+            feature_count: None,
         }
     }
 
@@ -143,6 +145,12 @@ impl<T: Distribution> NaiveBayes<T> {
     pub fn get_log_probs(&self, inputs: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
 
         if let (&Some(ref distr), &Some(ref prior)) = (&self.distr, &self.class_prior) {
+            if self.feature_count != Some(inputs.cols()) {
+                return Err(Error::new(ErrorKind::InvalidData,
+                                      "Inputs have a different number of features than the \
+                                       training data."));
+            }
+
             // Get the joint log likelihood from the distribution
             let mut log_probs = distr.joint_log_lik(inputs, prior)?;
 
@@ -196,6 +204,7 @@ impl<T: Distribution> NaiveBayes<T> {
         // The model changes only once nothing can fail any more
         self.distr = Some(distr);
         self.class_counts = class_counts;
+        self.feature_count = Some(inputs.cols());
         self.class_prior = Some(class_prior);
         self.cluster_count = Some(class_count);
         Ok(())
-- 
2.43.0


From 6c8bedb6e0cefd9f8b840694263f348c2014c861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 13/35] fix: Gaussian Naive Bayes accepted features constant
 within a class and predicted from NaN

---
 src/learning/naive_bayes.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/learning/naive_bayes.rs b/src/learning/naive_bayes.rs
index 0708653..e045b47 100644
--- a/src/learning/naive_bayes.rs
+++ b/src/learning/naive_bayes.rs
@@ -297,6 +297,14 @@ impl Distribution for Gaussian {
             })?
             .into_vec();
 
+        if (0..data.cols()).any(|j| {
+            var[j] == 0f64 || data.row_iter().all(|row| row[j] == data[[0, j]])
+        }) {
+            return Err(Error::new(ErrorKind::InvalidData,
+                                  "A feature does not vary within a class: no Gaussian \
+                                   distribution fits it."));
+        }
+
         let features = data.cols();
 
         for (idx, (m, v)) in mean.into_iter().zip(var.into_iter()).enumerate() {
-- 
2.43.0


From c5dc1daa95a884d0a3c41ccc8a75aa601e524ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 14/35] fix: gradient descent stopped at once when the cost at
 the start was zero

---
 src/learning/optim/grad_desc.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/learning/optim/grad_desc.rs b/src/learning/optim/grad_desc.rs
index 1e11487..5ae92cd 100644
--- a/src/learning/optim/grad_desc.rs
+++ b/src/learning/optim/grad_desc.rs
@@ -15,6 +15,8 @@ use rulinalg::utils;
 
 use learning::toolkit::rand_utils;
 
+use std::f64::INFINITY;
+
 const LEARNING_EPS: f64 = 1e-20;
 
 /// Batch Gradient Descent algorithm
@@ -76,7 +78,7 @@ impl<M: Optimizable> OptimAlgorithm<M> for GradientDesc {
         // Create the initial optimal parameters
         let mut optimizing_val = Vector::new(start.to_vec());
         // The cost at the start of each iteration
-        let mut start_iter_cost = 0f64;
+        let mut start_iter_cost = INFINITY;
 
         for _ in 0..self.iters {
             // Compute the cost and gradient for the current parameters
@@ -171,7 +173,7 @@ impl<M> OptimAlgorithm<M> for StochasticGD
         // Set up the indices for permutation
         let mut permutation = (0..inputs.rows()).collect::<Vec<_>>();
         // The cost at the start of each iteration
-        let mut start_iter_cost = 0f64;
+        let mut start_iter_cost = INFINITY;
 
         for _ in 0..self.iters {
             // The cost at the end of each stochastic gd pass
@@ -270,7 +272,7 @@ impl<M: Optimizable<Inputs = Matrix<f64>, Targets = Matrix<f64>>> OptimAlgorithm
         // Set up the indices for permutation
         let mut permutation = (0..inputs.rows()).collect::<Vec<_>>();
         // The cost at the start of each iteration
-        let mut start_iter_cost = 0f64;
+        let mut start_iter_cost = INFINITY;
 
         for _ in 0..self.iters {
             // The cost at the end of each stochastic gd pass
@@ -384,7 +386,7 @@ impl<M> OptimAlgorithm<M> for RMSProp
         // Set up indices for permutation
         let mut permutation = (0..inputs.rows()).collect::<Vec<_>>();
         // The cost from the previous iteration
-        let mut prev_cost = 0f64;
+        let mut prev_cost = INFINITY;
 
         for _ in 0..self.iters {
             // The cost at end of each pass
-- 
2.43.0


From fd4465bbd7838c41efab6eb68f62167914a70d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 15/35] fix: AdaGrad without tau turned parameters with a zero
 gradient into NaN

---
 src/learning/optim/grad_desc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/learning/optim/grad_desc.rs b/src/learning/optim/grad_desc.rs
index 5ae92cd..d48eedc 100644
--- a/src/learning/optim/grad_desc.rs
+++ b/src/learning/optim/grad_desc.rs
@@ -289,7 +289,9 @@ impl<M: Optimizable<Inputs = Matrix<f64>, Targets = Matrix<f64>>> OptimAlgorithm
 
                 // Compute the change in gradient
                 utils::in_place_vec_bin_op(&mut vec_data, ada_s.data(), |x, &y| {
-                    *x = self.alpha * (*x / (self.tau + (y).sqrt()))
+                    let scale = self.tau + (y).sqrt();
+                    // Without tau a parameter stays put until its first nonzero gradient
+                    *x = if scale > 0f64 { self.alpha * (*x / scale) } else { 0f64 };
                 });
                 // Update the parameters
                 optimizing_val = &optimizing_val - Vector::new(vec_data);
-- 
2.43.0


From 01e042f2b568e32b876b00bd1f51baf3454383c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 16/35] fix: ConjugateGD accepted points whose cost is not a
 number

---
 src/learning/optim/fmincg.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/learning/optim/fmincg.rs b/src/learning/optim/fmincg.rs
index 5afb72b..c6432cc 100644
--- a/src/learning/optim/fmincg.rs
+++ b/src/learning/optim/fmincg.rs
@@ -139,7 +139,8 @@ impl<M: Optimizable> OptimAlgorithm<M> for ConjugateGD {
             loop {
                 let mut z2: f64;
 
-                while ((f2 > (f1 + z1 * self.rho * d1)) || (d2 > -self.sig * d1)) && (m > 0i32) {
+                // Costs and slopes that are not numbers do not pass either
+                while (!(f2 <= (f1 + z1 * self.rho * d1)) || !(d2 <= -self.sig * d1)) && (m > 0i32) {
 
                     limit = z1;
 
@@ -180,7 +181,7 @@ impl<M: Optimizable> OptimAlgorithm<M> for ConjugateGD {
                     z3 -= z2;
                 }
 
-                if f2 > f1 + z1 * self.rho * d1 || d2 > -self.sig * d1 {
+                if !(f2 <= f1 + z1 * self.rho * d1) || !(d2 <= -self.sig * d1) {
                     break;
                 } else if d2 > self.sig * d1 {
                     success = true;
-- 
2.43.0


From 71929d54d615e4d0db1643eea6cd727b353478ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 17/35] fix: cross entropy of outputs that reached their target
 0 or 1 exactly was not a number

---
 src/learning/toolkit/cost_fn.rs | 53 ++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/src/learning/toolkit/cost_fn.rs b/src/learning/toolkit/cost_fn.rs
index b59328f..089d165 100644
--- a/src/learning/toolkit/cost_fn.rs
+++ b/src/learning/toolkit/cost_fn.rs
@@ -62,41 +62,60 @@ pub struct CrossEntropyError;
 
 impl CostFunc<Matrix<f64>> for CrossEntropyError {
     fn cost(outputs: &Matrix<f64>, targets: &Matrix<f64>) -> f64 {
-        // The cost for a single
-        let log_inv_output = (-outputs + 1f64).apply(&ln);
-        let log_output = outputs.clone().apply(&ln);
-
-        let mat_cost = targets.elemul(&log_output) + (-targets + 1f64).elemul(&log_inv_output);
+        assert!(outputs.rows() == targets.rows() && outputs.cols() == targets.cols(),
+                "Outputs and targets must have the same shape.");
 
         let n = outputs.rows();
 
-        -(mat_cost.sum()) / (n as f64)
+        cross_entropy(outputs.data(), targets.data()) / (n as f64)
     }
 
     fn grad_cost(outputs: &Matrix<f64>, targets: &Matrix<f64>) -> Matrix<f64> {
-        (outputs - targets).elediv(&(outputs.elemul(&(-outputs + 1f64))))
+        assert!(outputs.rows() == targets.rows() && outputs.cols() == targets.cols(),
+                "Outputs and targets must have the same shape.");
+
+        Matrix::new(outputs.rows(),
+                    outputs.cols(),
+                    cross_entropy_grad(outputs.data(), targets.data()))
     }
 }
 
 impl CostFunc<Vector<f64>> for CrossEntropyError {
     fn cost(outputs: &Vector<f64>, targets: &Vector<f64>) -> f64 {
-        // The cost for a single
-        let log_inv_output = (-outputs + 1f64).apply(&ln);
-        let log_output = outputs.clone().apply(&ln);
-
-        let mat_cost = targets.elemul(&log_output) + (-targets + 1f64).elemul(&log_inv_output);
+        assert!(outputs.size() == targets.size(),
+                "Outputs and targets must have the same size.");
 
         let n = outputs.size();
 
-        -(mat_cost.sum()) / (n as f64)
+        cross_entropy(outputs.data(), targets.data()) / (n as f64)
     }
 
     fn grad_cost(outputs: &Vector<f64>, targets: &Vector<f64>) -> Vector<f64> {
-        (outputs - targets).elediv(&(outputs.elemul(&(-outputs + 1f64))))
+        assert!(outputs.size() == targets.size(),
+                "Outputs and targets must have the same size.");
+
+        Vector::new(cross_entropy_grad(outputs.data(), targets.data()))
     }
 }
 
-/// Logarithm for applying within cost function.
-fn ln(x: f64) -> f64 {
-    x.ln()
+/// The sum of the cross entropies of each target and output.
+///
+/// A term whose target is zero vanishes, also where the logarithm is infinite.
+fn cross_entropy(outputs: &[f64], targets: &[f64]) -> f64 {
+    let term = |t: f64, o: f64| if t == 0f64 { 0f64 } else { t * o.ln() };
+
+    -outputs.iter()
+        .zip(targets)
+        .map(|(&o, &t)| term(t, o) + term(1f64 - t, 1f64 - o))
+        .sum::<f64>()
+}
+
+/// The derivative of the cross entropy of each target and output.
+fn cross_entropy_grad(outputs: &[f64], targets: &[f64]) -> Vec<f64> {
+    let term = |t: f64, o: f64| if t == 0f64 { 0f64 } else { t / o };
+
+    outputs.iter()
+        .zip(targets)
+        .map(|(&o, &t)| term(1f64 - t, 1f64 - o) - term(t, o))
+        .collect()
 }
-- 
2.43.0


From 1fa27de2b83c8c5e79c0b0984da43bd9fd629a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 18/35] fix: GLM training started from the means as working
 response and updated it with the previous iteration's means

---
 src/learning/glm.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/learning/glm.rs b/src/learning/glm.rs
index aa69a7e..564fa20 100644
--- a/src/learning/glm.rs
+++ b/src/learning/glm.rs
@@ -98,9 +98,10 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
                                   "Training data do not have the same dimensions"));
         }
 
-        // Construct initial estimate for mu
+        // Construct initial estimate for mu, and the working response at it
         let mut mu = Vector::new(self.criterion.initialize_mu(targets.data()));
-        let mut z = mu.clone();
+        let mut z = Vector::new(self.criterion.compute_y_bar(targets.data(), mu.data())) +
+                    self.criterion.apply_link_func(mu.clone());
         let mut beta: Vector<f64> = Vector::new(vec![0f64; inputs.cols() + 1]);
 
         let ones = Matrix::<f64>::ones(inputs.rows(), 1);
@@ -110,10 +111,8 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
         // Iterate to convergence
         for _ in 0..8 {
             let w_diag = self.criterion.compute_working_weight(mu.data());
-            let y_bar_data = self.criterion.compute_y_bar(targets.data(), mu.data());
 
             let w = Matrix::from_diag(&w_diag);
-            let y_bar = Vector::new(y_bar_data);
 
             let x_t_w = &x_t * w;
 
@@ -128,10 +127,11 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
                 break;
             }
 
-            // Update z and mu
+            // Update mu, then z from the new mu
             let fitted = &full_inputs * &beta;
-            z = y_bar + &fitted;
-            mu = self.criterion.apply_link_inv(fitted);
+            mu = self.criterion.apply_link_inv(fitted.clone());
+            let y_bar_data = self.criterion.compute_y_bar(targets.data(), mu.data());
+            z = Vector::new(y_bar_data) + fitted;
         }
 
         self.parameters = Some(beta);
-- 
2.43.0


From 7ea8ac41e6f16b94470c7439c428d598ddce92ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:30 +0000
Subject: [PATCH 19/35] fix: GLM training panicked on singular data instead of
 failing

---
 src/learning/glm.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/learning/glm.rs b/src/learning/glm.rs
index 564fa20..2f3297c 100644
--- a/src/learning/glm.rs
+++ b/src/learning/glm.rs
@@ -117,8 +117,7 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
             let x_t_w = &x_t * w;
 
             let new_beta = (&x_t_w * &full_inputs)
-                .inverse()
-                .expect("Could not compute input data inverse.") *
+                .inverse()? *
                            x_t_w * z;
             let diff = (beta - &new_beta).apply(&|x| x.abs()).sum();
             beta = new_beta;
-- 
2.43.0


From ecb28596b4890e38e204e76d11d7e4fd2aac6548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 20/35] fix: Bernoulli and Binomial GLMs started from saturated
 means, from which training ended with NaN coefficients

---
 src/learning/glm.rs | 32 ++++++--------------------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/src/learning/glm.rs b/src/learning/glm.rs
index 2f3297c..76389d3 100644
--- a/src/learning/glm.rs
+++ b/src/learning/glm.rs
@@ -312,19 +312,9 @@ impl Criterion for Bernoulli {
     }
 
     fn initialize_mu(&self, y: &[f64]) -> Vec<f64> {
-        let mut mu_data = Vec::with_capacity(y.len());
-
-        for y_val in y {
-            mu_data.push(if *y_val < 1e-10 {
-                1e-10
-            } else if *y_val > 1f64 - 1e-10 {
-                1f64 - 1e-10
-            } else {
-                *y_val
-            });
-        }
-
-        mu_data
+        // Start halfway between the targets and 1/2: the working response is
+        // of no use at means which are (almost) 0 or 1
+        y.iter().map(|y_val| (y_val.max(0f64).min(1f64) + 0.5) / 2f64).collect()
     }
 
     fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {
@@ -381,19 +371,9 @@ impl Criterion for Binomial {
     }
 
     fn initialize_mu(&self, y: &[f64]) -> Vec<f64> {
-        let mut mu_data = Vec::with_capacity(y.len());
-
-        for y_val in y {
-            mu_data.push(if *y_val < 1e-10 {
-                1e-10
-            } else if *y_val > 1f64 - 1e-10 {
-                1f64 - 1e-10
-            } else {
-                *y_val
-            });
-        }
-
-        mu_data
+        // Start halfway between the targets and 1/2: the working response is
+        // of no use at means which are (almost) 0 or 1
+        y.iter().map(|y_val| (y_val.max(0f64).min(1f64) + 0.5) / 2f64).collect()
     }
 
     fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {
-- 
2.43.0


From 8877af0c4ae1a55cf212914f6ea2df018db44df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 21/35] fix: SVM training ignored its dual coefficients, and
 tested its first sample against a division by zero

---
 src/learning/svm.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/learning/svm.rs b/src/learning/svm.rs
index 0ff3f07..1f3f9a0 100644
--- a/src/learning/svm.rs
+++ b/src/learning/svm.rs
@@ -151,12 +151,14 @@ impl<K: Kernel> SupModel<Matrix<f64>, Vector<f64>> for SVM<K> {
         let ones = Matrix::<f64>::ones(inputs.rows(), 1);
         let full_inputs = ones.hcat(inputs);
 
-        for t in 0..self.optim_iters {
+        for t in 1..self.optim_iters + 1 {
             let i = rng.gen_range(0, n);
             let row_i = full_inputs.select_rows(&[i]);
             let sum = full_inputs.row_iter()
-                .fold(0f64, |sum, row| sum + self.ker.kernel(row_i.data(), row.raw_slice())) *
-                      targets[i] / (self.lambda * (t as f64));
+                .zip(alpha.iter().zip(targets.iter()))
+                .fold(0f64, |sum, (row, (a, y))| {
+                    sum + a * y * self.ker.kernel(row_i.data(), row.raw_slice())
+                }) * targets[i] / (self.lambda * (t as f64));
 
             if sum < 1f64 {
                 alpha[i] += 1f64;
-- 
2.43.0


From 0ef0227523b40be78a7e49b8b43805ce6f00192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 22/35] fix: SVM trained silently on inputs and targets of
 different lengths

---
 src/learning/svm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/learning/svm.rs b/src/learning/svm.rs
index 1f3f9a0..bd5a62f 100644
--- a/src/learning/svm.rs
+++ b/src/learning/svm.rs
@@ -144,6 +144,11 @@ impl<K: Kernel> SupModel<Matrix<f64>, Vector<f64>> for SVM<K> {
     fn train(&mut self, inputs: &Matrix<f64>, targets: &Vector<f64>) -> LearningResult<()> {
         let n = inputs.rows();
 
+        if n != targets.size() {
+            return Err(Error::new(ErrorKind::InvalidData,
+                                  "Training data do not have the same dimensions"));
+        }
+
         let mut rng = rand::thread_rng();
 
         let mut alpha = vec![0f64; n];
-- 
2.43.0


From ddf4c8ac2206b81e487368469a5bd0673cb23e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 23/35] fix: kernels of the inner product ignored the tail of
 the longer of two vectors

---
 src/learning/toolkit/kernel.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/learning/toolkit/kernel.rs b/src/learning/toolkit/kernel.rs
index c13e543..d1a0ba1 100644
--- a/src/learning/toolkit/kernel.rs
+++ b/src/learning/toolkit/kernel.rs
@@ -166,6 +166,8 @@ impl Default for Linear {
 
 impl Kernel for Linear {
     fn kernel(&self, x1: &[f64], x2: &[f64]) -> f64 {
+        assert_eq!(x1.len(), x2.len());
+
         utils::dot(x1, x2) + self.c
     }
 }
@@ -225,6 +227,8 @@ impl Default for Polynomial {
 
 impl Kernel for Polynomial {
     fn kernel(&self, x1: &[f64], x2: &[f64]) -> f64 {
+        assert_eq!(x1.len(), x2.len());
+
         (self.alpha * utils::dot(x1, x2) + self.c).powf(self.d)
     }
 }
@@ -405,6 +409,8 @@ impl Default for HyperTan {
 
 impl Kernel for HyperTan {
     fn kernel(&self, x1: &[f64], x2: &[f64]) -> f64 {
+        assert_eq!(x1.len(), x2.len());
+
         (self.alpha * utils::dot(x1, x2) + self.c).tanh()
     }
 }
-- 
2.43.0


From 3dd1fc189b44be22fe7a6b408bfc39a0899b3ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 24/35] fix: gmm: add the regularization constant to the
 covariance itself

---
 src/learning/gmm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 4c7e713..b508fec 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -327,11 +327,13 @@ impl GaussianMixtureModel {
                 cov_mat += self.compute_cov(diff, membership_weights[[i, k]]);
             }
 
+            cov_mat /= sum_weights[k];
+
             if let CovOption::Regularized(eps) = self.cov_option {
                 cov_mat += Matrix::<f64>::identity(cov_mat.cols()) * eps;
             }
 
-            new_covs.push(cov_mat / sum_weights[k]);
+            new_covs.push(cov_mat);
 
         }
 
-- 
2.43.0


From 6b55d32453ace9e1e7dc324e93453ba6ec0f0949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 25/35] fix: gmm: report a singular covariance as an error

---
 src/learning/gmm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index b508fec..b014f55 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -261,7 +261,7 @@ impl GaussianMixtureModel {
 
         if let Some(ref covars) = self.model_covars {
             for cov in covars {
-                let lup = PartialPivLu::decompose(cov.clone()).expect("Covariance could not be lup decomposed");
+                let lup = PartialPivLu::decompose(cov.clone()).map_err(Error::from)?;
                 let covar_det = lup.det();
                 // TODO: We can probably remove this inverse for a more stable solve elsewhere.
                 let covar_inv = lup.inverse().map_err(Error::from)?;
-- 
2.43.0


From b450127cc46fafc1e1db7c6f1f2bafa482b78159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 26/35] fix: gmm: refuse data with fewer rows than components

---
 src/learning/gmm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index b014f55..9901f79 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -79,6 +79,10 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for GaussianMixtureModel {
         // Initialization:
         let k = self.comp_count;
 
+        if inputs.rows() < k {
+            return Err(Error::new(ErrorKind::InvalidData, "Fewer rows of data than components provided."));
+        }
+
         self.model_covars = {
             let cov_mat = self.initialize_covariances(inputs, reg_value)?;
             Some(vec![cov_mat; k])
-- 
2.43.0


From 416703764c83d349073fa2aaa0b083f8432385b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 27/35] fix: gmm: refuse mixture weights that cannot be
 normalized

---
 src/learning/gmm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 9901f79..22c8161 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -166,6 +166,7 @@ impl GaussianMixtureModel {
     ///
     /// - Mixture weights do not have length k.
     /// - Mixture weights have a negative entry.
+    /// - Mixture weights have no positive entry.
     pub fn with_weights(k: usize, mixture_weights: Vector<f64>) -> LearningResult<GaussianMixtureModel> {
         if mixture_weights.size() != k {
             Err(Error::new(ErrorKind::InvalidParameters, "Mixture weights must have length k."))
@@ -173,6 +174,9 @@ impl GaussianMixtureModel {
             Err(Error::new(ErrorKind::InvalidParameters, "Mixture weights must have only non-negative entries."))
         } else {
             let sum = mixture_weights.sum();
+            if !(sum > 0f64) {
+                return Err(Error::new(ErrorKind::InvalidParameters, "Mixture weights must have a positive sum."));
+            }
             let normalized_weights = mixture_weights / sum;
 
             Ok(GaussianMixtureModel {
-- 
2.43.0


From 3931d65603c07b4ef3efb439fc143fdba5cf8b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 28/35] fix: gmm: compute membership weights without underflow

---
 src/learning/gmm.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 22c8161..212bb35 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -31,13 +31,14 @@
 //! println!("{:?}", post_probs.data());
 //! ```
 use linalg::{Matrix, MatrixSlice, Vector, BaseMatrix, BaseMatrixMut, Axes};
-use rulinalg::utils;
 use rulinalg::matrix::decomposition::{PartialPivLu};
 
 use learning::{LearningResult, UnSupModel};
 use learning::toolkit::rand_utils;
 use learning::error::{Error, ErrorKind};
 
+use std::f64;
+
 /// Covariance options for GMMs.
 ///
 /// - Full : The full covariance structure.
@@ -284,25 +285,28 @@ impl GaussianMixtureModel {
         // Now we compute the membership weights
         if let Some(ref means) = self.model_means {
             for i in 0..n {
-                let mut pdfs = Vec::with_capacity(self.comp_count);
+                // Logarithms of the weighted densities
+                let mut log_pdfs = Vec::with_capacity(self.comp_count);
                 let x_i = MatrixSlice::from_matrix(inputs, [i, 0], 1, inputs.cols());
 
                 for j in 0..self.comp_count {
                     let mu_j = MatrixSlice::from_matrix(means, [j, 0], 1, means.cols());
                     let diff = x_i - mu_j;
 
-                    let pdf = (&diff * &cov_invs[j] * diff.transpose() * -0.5).into_vec()[0]
-                        .exp() / cov_sqrt_dets[j];
-                    pdfs.push(pdf);
+                    let exponent = (&diff * &cov_invs[j] * diff.transpose() * -0.5).into_vec()[0];
+                    log_pdfs.push(exponent + (self.mix_weights[j] / cov_sqrt_dets[j]).ln());
                 }
 
-                let weighted_pdf_sum = utils::dot(&pdfs, self.mix_weights.data());
+                // Taken relative to the largest, at least one density does not underflow
+                let max = log_pdfs.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
+                let pdfs: Vec<f64> = log_pdfs.iter().map(|l| (l - max).exp()).collect();
+                let pdf_sum = pdfs.iter().fold(0f64, |sum, pdf| sum + pdf);
 
-                for (idx, pdf) in pdfs.iter().enumerate() {
-                    member_weights_data.push(self.mix_weights[idx] * pdf / (weighted_pdf_sum));
+                for pdf in &pdfs {
+                    member_weights_data.push(pdf / pdf_sum);
                 }
 
-                log_lik += weighted_pdf_sum.ln();
+                log_lik += max + pdf_sum.ln();
             }
         }
 
-- 
2.43.0


From 34468d6caca3dce63b24ef1b56d46865ce0d0ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 29/35] fix: gmm: a component responsible for no row keeps its
 parameters

---
 src/learning/gmm.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 212bb35..16ee71c 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -323,13 +323,24 @@ impl GaussianMixtureModel {
 
         let mut new_means = membership_weights.transpose() * inputs;
 
-        for (mut mean, w) in new_means.row_iter_mut().zip(sum_weights.data().iter()) {
-            *mean /= *w;
+        for (k, (mut mean, w)) in new_means.row_iter_mut().zip(sum_weights.data().iter()).enumerate() {
+            if *w > 0f64 {
+                *mean /= *w;
+            } else if let Some(ref means) = self.model_means {
+                mean.raw_slice_mut().copy_from_slice(means.row(k).raw_slice());
+            }
         }
 
         let mut new_covs = Vec::with_capacity(self.comp_count);
 
         for k in 0..self.comp_count {
+            if !(sum_weights[k] > 0f64) {
+                if let Some(ref covars) = self.model_covars {
+                    new_covs.push(covars[k].clone());
+                    continue;
+                }
+            }
+
             let mut cov_mat = Matrix::zeros(d, d);
             let new_means_k = MatrixSlice::from_matrix(&new_means, [k, 0], 1, d);
 
-- 
2.43.0


From 61957109b2a09866d9ef1529e3f7dae38b9d8d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 30/35] fix: gmm: start every training from the prior mixture
 weights

---
 src/learning/gmm.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 16ee71c..fa1bbfc 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -60,6 +60,7 @@ pub enum CovOption {
 pub struct GaussianMixtureModel {
     comp_count: usize,
     mix_weights: Vector<f64>,
+    prior_weights: Vector<f64>,
     model_means: Option<Matrix<f64>>,
     model_covars: Option<Vec<Matrix<f64>>>,
     log_lik: f64,
@@ -84,29 +85,43 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for GaussianMixtureModel {
             return Err(Error::new(ErrorKind::InvalidData, "Fewer rows of data than components provided."));
         }
 
-        self.model_covars = {
+        // A new model is trained, which replaces this one on success only
+        let mut model = GaussianMixtureModel {
+            comp_count: k,
+            mix_weights: self.prior_weights.clone(),
+            prior_weights: self.prior_weights.clone(),
+            model_means: None,
+            model_covars: None,
+            log_lik: f64::NEG_INFINITY,
+            max_iters: self.max_iters,
+            cov_option: self.cov_option,
+        };
+
+        model.model_covars = {
             let cov_mat = self.initialize_covariances(inputs, reg_value)?;
             Some(vec![cov_mat; k])
         };
 
         let random_rows: Vec<usize> =
             rand_utils::reservoir_sample(&(0..inputs.rows()).collect::<Vec<usize>>(), k);
-        self.model_means = Some(inputs.select_rows(&random_rows));
+        model.model_means = Some(inputs.select_rows(&random_rows));
 
         for _ in 0..self.max_iters {
-            let log_lik_0 = self.log_lik;
+            let log_lik_0 = model.log_lik;
 
-            let (weights, log_lik_1) = self.membership_weights(inputs)?;
+            let (weights, log_lik_1) = model.membership_weights(inputs)?;
 
             if (log_lik_1 - log_lik_0).abs() < 1e-15 {
                 break;
             }
 
-            self.log_lik = log_lik_1;
+            model.log_lik = log_lik_1;
 
-            self.update_params(inputs, weights);
+            model.update_params(inputs, weights);
         }
 
+        *self = model;
+
         Ok(())
     }
 
@@ -137,6 +152,7 @@ impl GaussianMixtureModel {
         GaussianMixtureModel {
             comp_count: k,
             mix_weights: Vector::ones(k) / (k as f64),
+            prior_weights: Vector::ones(k) / (k as f64),
             model_means: None,
             model_covars: None,
             log_lik: 0f64,
@@ -182,7 +198,8 @@ impl GaussianMixtureModel {
 
             Ok(GaussianMixtureModel {
                 comp_count: k,
-                mix_weights: normalized_weights,
+                mix_weights: normalized_weights.clone(),
+                prior_weights: normalized_weights,
                 model_means: None,
                 model_covars: None,
                 log_lik: 0f64,
-- 
2.43.0


From 6752b1b744c9f352444e5fb8b68235b617cb347e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:18 +0000
Subject: [PATCH 31/35] fix: gmm: report a covariance without a positive
 determinant as an error

---
 src/learning/gmm.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index fa1bbfc..67e972f 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -289,6 +289,9 @@ impl GaussianMixtureModel {
             for cov in covars {
                 let lup = PartialPivLu::decompose(cov.clone()).map_err(Error::from)?;
                 let covar_det = lup.det();
+                if !(covar_det > 0f64) {
+                    return Err(Error::new(ErrorKind::InvalidData, "Covariance is not positive definite."));
+                }
                 // TODO: We can probably remove this inverse for a more stable solve elsewhere.
                 let covar_inv = lup.inverse().map_err(Error::from)?;
 
-- 
2.43.0


From 4a616a4b4d6d24f878190b55b7b1154cbe9f2648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 32/35] fix: pca: remember the layout of the components of the
 latest training only

---
 src/learning/pca.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/learning/pca.rs b/src/learning/pca.rs
index 743b9b7..8767c5d 100644
--- a/src/learning/pca.rs
+++ b/src/learning/pca.rs
@@ -182,9 +182,9 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
             inputs.clone()
         };
         let (_, _, mut v) = data.svd().unwrap();
-        if inputs.cols() > inputs.rows() {
+        self.inv = inputs.cols() > inputs.rows();
+        if self.inv {
             v = v.transpose();
-            self.inv = true;
         }
 
         self.components = match self.n {
-- 
2.43.0


From f02df9905e0592fe2454126721d815c1e796c821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 33/35] fix: pca: keep the first n components of data with more
 columns than rows

---
 src/learning/pca.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/learning/pca.rs b/src/learning/pca.rs
index 8767c5d..cda57d0 100644
--- a/src/learning/pca.rs
+++ b/src/learning/pca.rs
@@ -170,6 +170,10 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
                     return Err(Error::new(ErrorKind::InvalidData,
                                "Input data must have equal or larger number of columns than n"));
                 }
+                if n > inputs.rows() {
+                    return Err(Error::new(ErrorKind::InvalidData,
+                               "Input data must have equal or larger number of rows than n"));
+                }
             }
         }
 
@@ -190,7 +194,11 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
         self.components = match self.n {
             Some(c) => {
                 let slicer: Vec<usize> = (0..c).collect();
-                Some(v.select_cols(&slicer))
+                if self.inv {
+                    Some(v.select_rows(&slicer))
+                } else {
+                    Some(v.select_cols(&slicer))
+                }
             },
             None => Some(v)
         };
-- 
2.43.0


From ce96e7397043c9146f1467faae7132213271623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 34/35] fix: nnet: refuse inputs and targets of different
 lengths

---
 src/learning/nnet/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/learning/nnet/mod.rs b/src/learning/nnet/mod.rs
index 5a7fe8d..9e20951 100644
--- a/src/learning/nnet/mod.rs
+++ b/src/learning/nnet/mod.rs
@@ -45,7 +45,7 @@
 
 pub mod net_layer;
 
-use linalg::{Matrix, MatrixSlice};
+use linalg::{BaseMatrix, Matrix, MatrixSlice};
 use rulinalg::utils;
 
 use learning::{LearningResult, SupModel};
@@ -87,6 +87,11 @@ impl<T, A> SupModel<Matrix<f64>, Matrix<f64>> for NeuralNet<T, A>
 
     /// Train the model using gradient optimization and back propagation.
     fn train(&mut self, inputs: &Matrix<f64>, targets: &Matrix<f64>) -> LearningResult<()> {
+        if inputs.rows() != targets.rows() {
+            return Err(Error::new(ErrorKind::InvalidData,
+                                  "Inputs and targets must have the same number of rows."));
+        }
+
         let optimal_w = self.alg.optimize(&self.base, &self.base.weights, inputs, targets);
         self.base.weights = optimal_w;
         Ok(())
-- 
2.43.0


From b234c21c5f7d2562b78d2c6ed8d24ddaeb171648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 35/35] fix: dbscan: expand clusters without recursion

---
 src/learning/dbscan.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/learning/dbscan.rs b/src/learning/dbscan.rs
index bf36690..1b47775 100644
--- a/src/learning/dbscan.rs
+++ b/src/learning/dbscan.rs
@@ -182,28 +182,40 @@ impl DBSCAN {
 
         self.clusters.as_mut().map(|x| x.mut_data()[point_idx] = Some(cluster));
 
-        for data_point_idx in &neighbour_pts {
-            // Border points belong to the first cluster that reaches them
-            self.clusters.as_mut().map(|x| {
-                let class = &mut x.mut_data()[*data_point_idx];
-                if class.is_none() {
-                    *class = Some(cluster);
-                }
-            });
+        // Points of the cluster which are still to be looked at. They are kept in
+        // a list: a recursion could go as deep as the cluster has points.
+        let mut reached = self.claim(neighbour_pts, cluster);
 
-            let visited = self._visited[*data_point_idx];
+        while let Some(data_point_idx) = reached.pop() {
+            let visited = self._visited[data_point_idx];
             if !visited {
-                self._visited[*data_point_idx] = true;
-                let data_point_row = unsafe { inputs.row_unchecked(*data_point_idx) };
+                self._visited[data_point_idx] = true;
+                let data_point_row = unsafe { inputs.row_unchecked(data_point_idx) };
                 let sub_neighbours = self.region_query(data_point_row, inputs);
 
                 if sub_neighbours.len() >= self.min_points {
-                    self.expand_cluster(inputs, *data_point_idx, sub_neighbours, cluster);
+                    reached.extend(self.claim(sub_neighbours, cluster));
                 }
             }
         }
     }
 
+    /// Adds to the cluster the points that belong to none yet, and returns them.
+    fn claim(&mut self, points: Vec<usize>, cluster: usize) -> Vec<usize> {
+        let mut claimed = Vec::new();
+
+        if let Some(ref mut clusters) = self.clusters {
+            for idx in points {
+                // Border points belong to the first cluster that reaches them
+                if clusters[idx].is_none() {
+                    clusters[idx] = Some(cluster);
+                    claimed.push(idx);
+                }
+            }
+        }
+
+        claimed
+    }
 
     fn region_query(&self, point: Row<f64>, inputs: &Matrix<f64>) -> Vec<usize> {
         debug_assert!(point.cols() == inputs.cols(),
-- 
2.43.0

