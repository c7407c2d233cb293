From 93a3a76bed6c17a0816031f291f00168d3d4c7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:20:37 +0000
Subject: [PATCH 01/43] fix: print quaternions with the builtin str

np.str was an alias of the builtin and is gone from current numpy. Printing a
quaternion raised AttributeError, which aborted every successful calibration
when it reported its result.
---
 .../python/hand_eye_calibration/dual_quaternion.py              | 2 +-
 hand_eye_calibration/python/hand_eye_calibration/quaternion.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
index 749038e..d27aa0e 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
@@ -36,7 +36,7 @@ class DualQuaternion(object):
     self.assert_normalization()
 
   def __str__(self):
-    return "[q_rot: {}, q_dual: {}]".format(np.str(self.q_rot), np.str(self.q_dual))
+    return "[q_rot: {}, q_dual: {}]".format(str(self.q_rot), str(self.q_dual))
 
   def __repr__(self):
     return ("<Dual quaternion q_rot {} q_dual {}>").format(self.q_rot, self.q_dual)
diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index 772bd32..ef4792f 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -26,7 +26,7 @@ class Quaternion(object):
       assert False
 
   def __str__(self):
-    return np.str(self.q)
+    return str(self.q)
 
   def __repr__(self):
     return "<Quaternion x:{} y:{} z:{} w:{}>".format(self.x, self.y, self.z, self.w)
-- 
2.43.0


From 7988a1c29ac3cbae09ca0e9033162f00ae3e1231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:20:40 +0000
Subject: [PATCH 02/43] fix: draw RANSAC samples from a list

random.sample no longer accepts a set, so the two randomized algorithms raised
TypeError before drawing their first sample.
---
 .../dual_quaternion_hand_eye_calibration.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 9a19b88..8b737a0 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -709,7 +709,7 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
     if config.enable_exhaustive_search:
       sample_indices = list(all_sample_combinations[sample_number])
     else:
-      sample_indices = random.sample(indices_set,
+      sample_indices = random.sample(list(indices_set),
                                      config.ransac_sample_size)
     sample_number += 1
 
-- 
2.43.0


From f4c4f4ebf3c48ddfed38d188329f88ebe754376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:20:43 +0000
Subject: [PATCH 03/43] fix: resample with an integer number of samples

np.linspace rejects a float sample count, so estimating a time offset raised
TypeError. The count is truncated, as numpy used to do.
---
 .../python/hand_eye_calibration/time_alignment.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index 05b2758..16d500c 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -95,7 +95,7 @@ def resample_quaternions(times, quaternions, dt):
   Uses SLERP for quaternion interpolation.
   """
   interval = times[-1] - times[0]
-  samples = np.linspace(times[0], times[-1], interval / dt + 1)
+  samples = np.linspace(times[0], times[-1], int(interval / dt) + 1)
   return (resample_quaternions_from_samples(times, quaternions, samples),
           samples)
 
-- 
2.43.0


From 76f5a20f48bde3c335764ffff8410535adc76df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:20:47 +0000
Subject: [PATCH 04/43] fix: interpolate orientations at large time stamps

The test for a sample that coincides with a measurement used the default
relative tolerance. With Unix time stamps it accepted anything within hours, so
the later measurement was returned and no orientation was ever interpolated.
The assertion next to it named an undefined variable.
---
 .../python/hand_eye_calibration/time_alignment.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index 16d500c..4a14d36 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -71,11 +71,11 @@ def resample_quaternions_from_samples(times, quaternions, samples):
     assert sample >= times[0], (sample, times[0])
 
     right_idx = bisect.bisect_left(times, sample)
-    if (np.isclose(sample, times[right_idx], atol=1e-16)):
+    if (np.isclose(sample, times[right_idx], rtol=0.0, atol=1e-16)):
       interp_quaternions.append(quaternions[right_idx])
     else:
       left_idx = right_idx - 1
-      assert right_idx < times.shape[0], end_idx
+      assert right_idx < times.shape[0], right_idx
       assert left_idx >= 0, left_idx
       sample_times = []
       sample_times.append(sample)
-- 
2.43.0


From 2a8781167a03fff51fa886f7b93bb4fec331b44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:40 +0000
Subject: [PATCH 05/43] fix: compute the angle and axis of small rotations

The test for no rotation compared the scalar part with a relative tolerance and
reported every rotation below half a degree as zero. A scalar part of -1, or
one rounded beyond 1, gave NaN.
---
 .../python/hand_eye_calibration/quaternion.py         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index ef4792f..b2043cb 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -138,13 +138,14 @@ class Quaternion(object):
     The output format is np.array([x, y, z, angle]).
     """
     # If there is no rotation return rotation about x-axis with zero angle.
-    if np.isclose(self.w, 1., atol=1.e-12):
+    vector_norm = np.linalg.norm(self.q[0:3])
+    if vector_norm < 1.e-12:
       return(np.array([1., 0., 0., 0.]))
 
-    angle = 2. * np.arccos(self.w)
-    x = self.x / np.sqrt(1. - self.w * self.w)
-    y = self.y / np.sqrt(1. - self.w * self.w)
-    z = self.z / np.sqrt(1. - self.w * self.w)
+    angle = 2. * np.arctan2(vector_norm, self.w)
+    x = self.x / vector_norm
+    y = self.y / vector_norm
+    z = self.z / vector_norm
     return np.array([x, y, z, angle])
 
   def copy(self):
-- 
2.43.0


From cb9be1e7d38302e70980f2685de1c1f513ec2874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:42 +0000
Subject: [PATCH 06/43] fix: keep the angle between quaternions a number

The scalar part of the product can be rounded beyond 1, and arccos then returned
NaN. The NaN reached the orientation error, where every comparison with it is
false, so a perfect calibration could be rejected. Small angles were also
reported as zero because of a relative tolerance.
---
 .../python/hand_eye_calibration/quaternion.py                | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index b2043cb..2949553 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -310,9 +310,10 @@ def quaternions_interpolate(q_left, t_left, q_right, t_right, times):
 
 def angle_between_quaternions(q1, q2):
   """ Returns the angle between two quaternions, q1 and q2. """
-  if np.allclose(q1.q, q2.q, atol=1.e-12):
+  if np.allclose(q1.q, q2.q, rtol=0., atol=1.e-12):
     return 0.0
-  return 2. * np.arccos((q1 * q2.inverse()).w)
+  q1_q2_inv = q1 * q2.inverse()
+  return 2. * np.arctan2(np.linalg.norm(q1_q2_inv.q[0:3]), q1_q2_inv.w)
 
 
 def angular_velocity_between_quaternions(q1, q2, t):
-- 
2.43.0


From 7d614304fc91a6722fbd2cdc565c2f5dee3017b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:45 +0000
Subject: [PATCH 07/43] fix: convert rotation matrices close to half a turn

The conversion always divided by the scalar part, which is zero for a rotation
by 180 degrees: the result was NaN there and inaccurate nearby. Divide by the
largest vector component when the trace is not positive.
---
 .../python/hand_eye_calibration/quaternion.py | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index 2949553..f411869 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -104,13 +104,28 @@ class Quaternion(object):
 
   @classmethod
   def from_rotation_matrix(cls, rotation_matrix):
-    w = np.sqrt(
-        1.0 + rotation_matrix[0, 0] + rotation_matrix[1, 1] + rotation_matrix[2, 2]) / 2
-    w4 = 4.0 * w
-    x = (rotation_matrix[2, 1] - rotation_matrix[1, 2]) / w4
-    y = (rotation_matrix[0, 2] - rotation_matrix[2, 0]) / w4
-    z = (rotation_matrix[1, 0] - rotation_matrix[0, 1]) / w4
-    return cls(x, y, z, w)
+    trace = rotation_matrix[0, 0] + rotation_matrix[1, 1] + rotation_matrix[2, 2]
+    if trace > 0.0:
+      w = np.sqrt(1.0 + trace) / 2
+      w4 = 4.0 * w
+      x = (rotation_matrix[2, 1] - rotation_matrix[1, 2]) / w4
+      y = (rotation_matrix[0, 2] - rotation_matrix[2, 0]) / w4
+      z = (rotation_matrix[1, 0] - rotation_matrix[0, 1]) / w4
+      return cls(x, y, z, w)
+
+    # The scalar part is small, divide by the largest vector component instead.
+    i = int(np.argmax(np.diag(rotation_matrix)))
+    j = (i + 1) % 3
+    k = (i + 2) % 3
+    q = np.zeros(4)
+    q[i] = np.sqrt(1.0 + rotation_matrix[i, i] -
+                   rotation_matrix[j, j] - rotation_matrix[k, k]) / 2
+    q[j] = (rotation_matrix[j, i] + rotation_matrix[i, j]) / (4.0 * q[i])
+    q[k] = (rotation_matrix[k, i] + rotation_matrix[i, k]) / (4.0 * q[i])
+    q[3] = (rotation_matrix[k, j] - rotation_matrix[j, k]) / (4.0 * q[i])
+    if q[3] < 0.0:
+      q = -q
+    return cls(q=q)
 
   @classmethod
   def from_angle_axis(cls, angle, axis):
-- 
2.43.0


From b299270faafab30af98b68533ff46eb1dc20e26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:47 +0000
Subject: [PATCH 08/43] fix: compute the screw axis when the scalar part
 exceeds one

Rounding can leave the scalar part slightly above 1, and arccos then returned a
NaN rotation. The axis of a very small rotation was not of unit length.
---
 .../python/hand_eye_calibration/dual_quaternion.py             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
index d27aa0e..56ac68a 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
@@ -220,7 +220,8 @@ class DualQuaternion(object):
 
   def screw_axis(self):
     """ The rotation, translation and screw axis from the dual quaternion. """
-    rotation = 2. * np.degrees(np.arccos(self.q_rot.w))
+    rotation = 2. * np.degrees(
+        np.arctan2(np.linalg.norm(self.q_rot.q[0:3]), self.q_rot.w))
     rotation = np.mod(rotation, 360.)
 
     if (rotation > 1.e-12):
-- 
2.43.0


From c43cfde8a24837257b3cd15847575c497480d2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:50 +0000
Subject: [PATCH 09/43] fix: point the screw axis of a translation along the
 translation

A pure translation whose rotation part is written as -1 has its dual part
negated as well. The axis ignored that sign and pointed the wrong way.
---
 .../python/hand_eye_calibration/dual_quaternion.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
index 56ac68a..b739c32 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
@@ -230,7 +230,7 @@ class DualQuaternion(object):
     else:
       translation = 2. * np.sqrt(np.sum(np.power(self.q_dual.q[0:3], 2.)))
       if (translation > 1.e-12):
-        screw_axis = 2. * self.q_dual.q[0:3] / translation
+        screw_axis = 2. * self.q_rot.w * self.q_dual.q[0:3] / translation
       else:
         screw_axis = np.zeros(3)
 
-- 
2.43.0


From 68d6ad3d0af42e165a1eea3dcdf17950deeef355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:53 +0000
Subject: [PATCH 10/43] fix: convert JPL quaternions in the returned poses too

Only the separate list of quaternions was converted. The poses kept the JPL
values, and the aligned poses are written from those.
---
 hand_eye_calibration/python/hand_eye_calibration/csv_io.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/csv_io.py b/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
index 58c1531..a98fbd4 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
@@ -24,10 +24,8 @@ def read_time_stamped_poses_from_csv_file(csv_file, JPL_quaternion_format=False)
   for pose in poses:
     pose[3:] /= np.linalg.norm(pose[3:])
     if JPL_quaternion_format:
-      quaternion_JPL = np.array([-pose[3], -pose[4], -pose[5], pose[6]])
-      quaternions.append(Quaternion(q=quaternion_JPL))
-    else:
-      quaternions.append(Quaternion(q=pose[3:]))
+      pose[3:6] *= -1.
+    quaternions.append(Quaternion(q=pose[3:]))
 
   return (time_stamped_poses.copy(), times, quaternions)
 
-- 
2.43.0


From 3dede91ed42f602046d9cd66f3a7836f5b4f196c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:09 +0000
Subject: [PATCH 11/43] fix: stop RANSAC when no sample is accepted

Rejected samples did not count towards the maximum number of iterations, so
RANSAC never returned when every sample was rejected, for example on two
unrelated recordings. Limit the number of samples as well, so that it reports
that no solution was found.
---
 .../dual_quaternion_hand_eye_calibration.py            | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 8b737a0..3e881cf 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -67,6 +67,7 @@ class HandEyeConfig:
     self.ransac_sample_size = 3
     self.ransac_sample_rejection_scalar_part_equality_tolerance = 1e-2
     self.ransac_max_number_iterations = 20
+    self.ransac_max_number_samples = 1000
     self.ransac_enable_early_abort = True
     self.ransac_outlier_probability = 0.5
     self.ransac_success_probability_threshold = 0.99
@@ -683,7 +684,7 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
   best_singular_value_status = True
 
   all_sample_combinations = []
-  max_number_samples = np.inf
+  max_number_samples = config.ransac_max_number_samples
   if not config.enable_exhaustive_search:
     print("Running RANSAC...")
     print("Inlier classification method: {}".format(
@@ -698,10 +699,9 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
   sample_number = 0
   full_iterations = 0
   prerejected_samples = 0
-  while ((not config.enable_exhaustive_search and
-          full_iterations < config.ransac_max_number_iterations) or
-         (config.enable_exhaustive_search and
-          sample_number < max_number_samples)):
+  while (sample_number < max_number_samples and
+         (config.enable_exhaustive_search or
+          full_iterations < config.ransac_max_number_iterations)):
 
     # Get sample, either at:
     #  - random (RANSAC)
-- 
2.43.0


From aaddb87d5354a053fa3c0bb2f7c1d525d4ec2a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:11 +0000
Subject: [PATCH 12/43] fix: use the best inliers of the exhaustive baseline
 search

The search stored its result under one name and read it under another, so it
always ended in a NameError.
---
 .../dual_quaternion_hand_eye_calibration.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 3e881cf..7bc75ea 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -559,7 +559,7 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
 
   if config.enable_exhaustive_search:
     assert best_idx != -1, "Not enough inliers found!"
-    dq_W_E_vec_inlier = best_dq_W_E_vec_filtered
+    dq_W_E_vec_inlier = best_dq_W_E_vec_inlier
     dq_B_H_vec_inlier = best_dq_B_H_vec_inlier
 
   aligned_dq_B_H = align_paths_at_index(dq_B_H_vec_inlier, best_idx)
-- 
2.43.0


From 2c062b029c891cd16b6909c3e206a010c6c3777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:14 +0000
Subject: [PATCH 13/43] fix: do not index the baseline inliers with a pose
 index

The start index counts all poses, but was used on the shorter list of inliers
and could be past its end. The result of that alignment was never used.
---
 .../dual_quaternion_hand_eye_calibration.py                    | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 7bc75ea..2946470 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -562,9 +562,6 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
     dq_W_E_vec_inlier = best_dq_W_E_vec_inlier
     dq_B_H_vec_inlier = best_dq_B_H_vec_inlier
 
-  aligned_dq_B_H = align_paths_at_index(dq_B_H_vec_inlier, best_idx)
-  aligned_dq_W_E = align_paths_at_index(dq_W_E_vec_inlier, best_idx)
-
   print("Best start idx: {}".format(best_idx))
   print("Removed {} outliers from the (prefiltered) poses.".format(
       len(dq_B_H_vec_filtered) - len(dq_B_H_vec_inlier)))
-- 
2.43.0


From 31ebaf141d7d40404be271803dd29970c7ad93c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:35 +0000
Subject: [PATCH 14/43] fix: evaluate filtered calibrations on correctly
 aligned poses

The sample index refers to the prefiltered poses but was used to align the
unfiltered ones, so correct calibrations were rejected whenever the filter
had removed poses in front of the sample.
---
 .../dual_quaternion_hand_eye_calibration.py   | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 2946470..73136b1 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -349,6 +349,18 @@ def prefilter_using_screw_axis(dq_W_E_vec_in, dq_B_H_vec_in, dot_product_thresho
   return dq_W_E_vec, dq_B_H_vec
 
 
+def find_index_of_pose_pair(dq_W_E, dq_B_H, dq_W_E_vec, dq_B_H_vec):
+  """
+  Find the index of a pose pair, e.g. one that passed the prefilter, in the
+  vectors of all poses.
+  """
+  for i in range(len(dq_W_E_vec)):
+    if (np.array_equal(dq_W_E.dq, dq_W_E_vec[i].dq) and
+            np.array_equal(dq_B_H.dq, dq_B_H_vec[i].dq)):
+      return i
+  assert False, "The pose pair is not part of the poses!"
+
+
 def compute_pose_error(pose_A, pose_B):
   """
   Compute the error norm of position and orientation.
@@ -593,8 +605,11 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
                                                dq_H_E_estimated)
   else:
     # TODO(mfehr): There is some redundancy here, fix it!
-    aligned_dq_B_H = align_paths_at_index(dq_B_H_vec, best_idx)
-    aligned_dq_W_E = align_paths_at_index(dq_W_E_vec, best_idx)
+    align_index = find_index_of_pose_pair(
+        dq_W_E_vec_filtered[best_idx], dq_B_H_vec_filtered[best_idx],
+        dq_W_E_vec, dq_B_H_vec)
+    aligned_dq_B_H = align_paths_at_index(dq_B_H_vec, align_index)
+    aligned_dq_W_E = align_paths_at_index(dq_W_E_vec, align_index)
     (poses_B_H, poses_W_H) = get_aligned_poses(aligned_dq_B_H,
                                                aligned_dq_W_E,
                                                dq_H_E_estimated)
@@ -743,8 +758,10 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
 
     # Transform all poses based on the first sample pose and rearange poses,
     # such that the first sample pose is the first pose.
-    aligned_dq_B_H = align_paths_at_index(dq_B_H_vec, sample_indices[0])
-    aligned_dq_W_E = align_paths_at_index(dq_W_E_vec, sample_indices[0])
+    align_index = find_index_of_pose_pair(samples_dq_W_E[0], samples_dq_B_H[0],
+                                          dq_W_E_vec, dq_B_H_vec)
+    aligned_dq_B_H = align_paths_at_index(dq_B_H_vec, align_index)
+    aligned_dq_W_E = align_paths_at_index(dq_W_E_vec, align_index)
     assert len(aligned_dq_B_H) == num_poses
     assert len(aligned_dq_W_E) == num_poses
 
-- 
2.43.0


From 4d9b94dcf63ed003a36f7ffd9bc80d1d670ce601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:06 +0000
Subject: [PATCH 15/43] fix: drop calls to the removed pyplot hold function

Every visualisation of the time alignment failed with an AttributeError on
current matplotlib. Holding is the default behaviour since version 2.0.
---
 .../hand_eye_calibration/time_alignment_plotting_tools.py      | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py
index ef03912..9b42fe7 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py
@@ -30,7 +30,6 @@ def plot_results(times_A, times_B, signal_A, signal_B,
   plt.xlabel('time [s]')
   a1.set_title(
       "Before Time Alignment", y=title_position)
-  plt.hold("on")
 
   min_time = min(np.amin(times_A), np.amin(times_B))
   times_A_zeroed = times_A - min_time
@@ -48,7 +47,6 @@ def plot_results(times_A, times_B, signal_A, signal_B,
   a3.set_title(
       "Correlation Result \n[Ideally has a single dominant peak.]",
       y=title_position)
-  plt.hold("on")
   plt.plot(np.arange(-len(signal_A) + 1, len(signal_B)), convoluted_signals)
 
   a2 = plt.subplot(1, 3, 3)
@@ -57,7 +55,6 @@ def plot_results(times_A, times_B, signal_A, signal_B,
   plt.xlabel('time [s]')
   a2.set_title(
       "After Time Alignment", y=title_position)
-  plt.hold("on")
   min_time = min(np.amin(times_A_shifted), np.amin(times_B))
   times_A_shifted_zeroed = times_A_shifted - min_time
   times_B_zeroed = times_B - min_time
-- 
2.43.0


From ecd292ed2bc3631bab03ba0c3188fc19c06f32ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:10 +0000
Subject: [PATCH 16/43] fix: draw the 3D pose plots on current matplotlib

Axes3D(fig) no longer adds the axes to the figure, so the pose plots came out
empty. The arrows now implement the projection interface matplotlib calls.
---
 .../hand_eye_calibration_plotting_tools.py                | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py b/hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py
index 8b3f8a7..205e458 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py
@@ -17,11 +17,11 @@ class Arrow3D(FancyArrowPatch):
     FancyArrowPatch.__init__(self, (0, 0), (0, 0), *args, **kwargs)
     self._verts3d = xs, ys, zs
 
-  def draw(self, renderer):
+  def do_3d_projection(self, renderer=None):
     xs3d, ys3d, zs3d = self._verts3d
-    xs, ys, zs = proj3d.proj_transform(xs3d, ys3d, zs3d, renderer.M)
+    xs, ys, zs = proj3d.proj_transform(xs3d, ys3d, zs3d, self.axes.M)
     self.set_positions((xs[0], ys[0]), (xs[1], ys[1]))
-    FancyArrowPatch.draw(self, renderer)
+    return np.min(zs)
 
 
 def compute_bbox_3D(poses_list):
@@ -38,7 +38,7 @@ def plot_poses(poses_list, plot_arrows=True, title="", blocking=True):
   title_position = 1.05
   fig = plt.figure()
   plt.clf()
-  ax = Axes3D(fig)
+  ax = fig.add_subplot(111, projection='3d')
 
   if title:
     fig.suptitle(title, fontsize='24')
-- 
2.43.0


From 54f31b954405a66d5d3069dc15ee1a2014f4a264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:12 +0000
Subject: [PATCH 17/43] fix: angular velocity between quaternions had wrong
 scale and direction

The result was half the rotation rate and pointed along the rotation from q2
back to q1 instead of the one from q1 to q2.
---
 .../python/hand_eye_calibration/quaternion.py          | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index f411869..f13d572 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -334,9 +334,9 @@ def angle_between_quaternions(q1, q2):
 def angular_velocity_between_quaternions(q1, q2, t):
   """ Returns the angular velocity resulting from transitioning from q1 to q2
   in t. """
-  q1_q2_inv = q1 * q2.inverse()
+  q2_q1_inv = q2 * q1.inverse()
   # Ensure positive w.
-  if q1_q2_inv.w < 0.:
-    q1_q2_inv = -q1_q2_inv
-  angle_axis = q1_q2_inv.angle_axis()
-  return 0.5 / t * angle_axis[3] * angle_axis[0:3]
+  if q2_q1_inv.w < 0.:
+    q2_q1_inv = -q2_q1_inv
+  angle_axis = q2_q1_inv.angle_axis()
+  return 1.0 / t * angle_axis[3] * angle_axis[0:3]
-- 
2.43.0


From 22bed87d8895b7aebcb43feb46e39e3c2b1847d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:08 +0000
Subject: [PATCH 18/43] fix: clip angular velocities by their magnitude

The clipping limit was a percentile of the signed values. It became zero for
rotations about a negative axis, which removed the whole signal and made the
estimated time offset meaningless.
---
 .../python/hand_eye_calibration/time_alignment.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index 4a14d36..f5d9711 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -24,7 +24,7 @@ def filter_and_smooth_angular_velocity(angular_velocity,
                                        low_pass_kernel_size, clip_percentile, plot=False):
   """Reduce the noise in a velocity signal."""
 
-  max_value = np.percentile(angular_velocity, clip_percentile)
+  max_value = np.percentile(np.abs(angular_velocity), clip_percentile)
   print("Clipping angular velocity norms to {} rad/s ...".format(max_value))
   angular_velocity_clipped = np.clip(angular_velocity, -max_value, max_value)
   print("Done clipping angular velocity norms...")
-- 
2.43.0


From 7d2e7a604c774e34d4c1c0454404c2ff49aab91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:12 +0000
Subject: [PATCH 19/43] fix: create_path without a directory part and when
 racing

A path without directories raised FileNotFoundError handling that ended in a
NameError because errno was never imported.
---
 .../python/hand_eye_calibration/bash_utils.py               | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
index fb435ee..e725529 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 
 from __future__ import print_function
+import errno
 import os
 import sys
 import json
@@ -28,9 +29,10 @@ def run(cmd, dry_run=False):
 
 
 def create_path(path):
-  if not os.path.exists(os.path.dirname(path)):
+  directory = os.path.dirname(path)
+  if directory and not os.path.exists(directory):
     try:
-      os.makedirs(os.path.dirname(path))
+      os.makedirs(directory)
     except OSError as exc:  # Guard against race condition
       if exc.errno != errno.EEXIST:
         raise
-- 
2.43.0


From f3586aa2139e2f8351819df6686b6544dc815bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:15 +0000
Subject: [PATCH 20/43] fix: record the prefiltering flag in the experiment
 results

The flag was stored in an attribute nobody reads, so every result row claimed
that prefiltering was disabled.
---
 .../hand_eye_calibration_experiments/experiment_results.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
index 24fb3af..a72c169 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
@@ -30,7 +30,7 @@ class ResultEntry:
 
   def init_from_configs(self, name, iteration, time_alignment_config, hand_eye_config, optimization_config):
     self.algorithm_name = name
-    self.prefiltering = hand_eye_config.prefilter_poses_enabled
+    self.prefiltering_enabled = hand_eye_config.prefilter_poses_enabled
     self.optimization_enabled = optimization_config.enable_optimization
     self.iteration_num = iteration
 
-- 
2.43.0


From b6d0e70a4fef44f39dcb1057ee148f9b8ec8fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:17 +0000
Subject: [PATCH 21/43] fix: load the YAML configurations with safe_load

yaml.load without a loader raises a TypeError with PyYAML 6.
---
 hand_eye_calibration/bin/bag_to_csv_with_config.py     | 2 +-
 hand_eye_calibration/bin/target_extractor_interface.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/bin/bag_to_csv_with_config.py b/hand_eye_calibration/bin/bag_to_csv_with_config.py
index 4981297..a05b865 100755
--- a/hand_eye_calibration/bin/bag_to_csv_with_config.py
+++ b/hand_eye_calibration/bin/bag_to_csv_with_config.py
@@ -21,7 +21,7 @@ if __name__ == '__main__':
 
   with open(args.yaml_config_file, 'r') as stream:
     try:
-      yaml_content = yaml.load(stream)
+      yaml_content = yaml.safe_load(stream)
     except yaml.YAMLError as exc:
       print(exc)
   bags = yaml_content['bags']
diff --git a/hand_eye_calibration/bin/target_extractor_interface.py b/hand_eye_calibration/bin/target_extractor_interface.py
index aeb64e1..501b613 100755
--- a/hand_eye_calibration/bin/target_extractor_interface.py
+++ b/hand_eye_calibration/bin/target_extractor_interface.py
@@ -84,7 +84,7 @@ if __name__ == "__main__":
   te_config.calib_file_camera = args.calib_file_camera
   with open(args.calib_file_target, 'r') as stream:
     try:
-      yaml_content = yaml.load(stream)
+      yaml_content = yaml.safe_load(stream)
     except yaml.YAMLError as exc:
       print(exc)
   te_config.april_tag_number_vertical = yaml_content[
-- 
2.43.0


From ac98da9ad494c985c08113a675e1234c13d6d22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:21 +0000
Subject: [PATCH 22/43] fix: use bool instead of the removed np.bool alias

---
 .../experiment_plotting_tools.py                       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index 3937096..4b9defc 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -7,10 +7,10 @@ def collect_data_from_csv(csv_file_names, get_header=True):
       ('algorithm_name', np.str_, 50),
       ('num_pose_pairs', np.uint, 1),
       ('iteration_num', np.uint, 1),
-      ('prefiltering', np.bool, 1),
+      ('prefiltering', bool, 1),
       ('poses_B_H_csv_file', np.str_, 50),
       ('poses_W_E_csv_file', np.str_, 50),
-      ('success', np.bool, 1),
+      ('success', bool, 1),
       ('position_rmse', np.float64, 1),
       ('orientation_rmse', np.float64, 1),
       ('num_inliers', np.uint, 1),
@@ -20,9 +20,9 @@ def collect_data_from_csv(csv_file_names, get_header=True):
       ('loop_error_position_m', np.float64, 1),
       ('loop_error_orientation_deg', np.float64, 1),
       ('singular_values', np.str_, 300),
-      ('bad_singular_values', np.bool, 1),
-      ('optimization_enabled', np.bool, 1),
-      ('optimization_success', np.bool, 1),
+      ('bad_singular_values', bool, 1),
+      ('optimization_enabled', bool, 1),
+      ('optimization_success', bool, 1),
       ('optimization_runtime_s', np.float64, 1),
       ('spoiled_initial_guess_angle_offset', np.float64, 1),
       ('spoiled_initial_guess_translation_offset', np.str_, 300),
-- 
2.43.0


From 21d6a9d500f318d8e70e2179e4ebea4d407610a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:25 +0000
Subject: [PATCH 23/43] fix: read missing perturbations as zero

Missing values in a float column are read as NaN, never as None.
---
 .../experiment_plotting_tools.py                              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index 4b9defc..77ea623 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -91,7 +91,7 @@ def collect_data_from_csv(csv_file_names, get_header=True):
     loop_error_orientation_deg = row[14]
     bad_singular_values = row[16]
     runtime_optimization = row[19]
-    initial_guess_angle = 0 if row[20] is None else row[20]
+    initial_guess_angle = 0 if np.isnan(row[20]) else row[20]
     if row[21] != "None":
       initial_guess_string = ' '.join((row[21].lstrip()).split()).replace(
           " ", ",").replace("[,", "[").replace(",,", ",")
@@ -100,7 +100,7 @@ def collect_data_from_csv(csv_file_names, get_header=True):
       initial_guess_translation_norm = np.linalg.norm(initial_guess_translation)
     else:
       initial_guess_translation_norm = 0
-    initial_guess_time = 0 if row[22] is None else row[22]
+    initial_guess_time = 0 if np.isnan(row[22]) else row[22]
     dataset = row[23]
 
     runtime += runtime_optimization
-- 
2.43.0


From 1925d1069f1060610c1e80654eff63253aecd2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:28 +0000
Subject: [PATCH 24/43] fix: put the sequenced camera poses beside the stamped
 ones

The prefix was put in front of the directory of the output file.
---
 hand_eye_calibration/bin/target_extractor_interface.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration/bin/target_extractor_interface.py b/hand_eye_calibration/bin/target_extractor_interface.py
index 501b613..48677ee 100755
--- a/hand_eye_calibration/bin/target_extractor_interface.py
+++ b/hand_eye_calibration/bin/target_extractor_interface.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 from subprocess import call
 import argparse
+import os
 import yaml
 
 
@@ -95,7 +96,9 @@ if __name__ == "__main__":
       'april_tag_number_pixel_boarder']
   te_config.april_tag_size_m = yaml_content['april_tag_size_m']
   te_config.april_tag_gap_size_m = yaml_content['april_tag_gap_size_m']
-  te_config.camera_pose_T_C_G_output_file = "sequenced_" + args.output_file
+  te_config.camera_pose_T_C_G_output_file = os.path.join(
+      os.path.dirname(args.output_file),
+      "sequenced_" + os.path.basename(args.output_file))
   te_config.camera_pose_T_C_G_output_file_timestamped = args.output_file
 
   call_target_extractor(te_config)
-- 
2.43.0


From 3d5ff5201b0ecdbfbccd5fc02567badd4516377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:31 +0000
Subject: [PATCH 25/43] fix: keep dots in bag names when naming the exported
 files

Bags named 2017.03.01.bag and 2017.04.01.bag were exported to the same file.
---
 hand_eye_calibration/bin/bag_to_csv_with_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration/bin/bag_to_csv_with_config.py b/hand_eye_calibration/bin/bag_to_csv_with_config.py
index a05b865..83d2a27 100755
--- a/hand_eye_calibration/bin/bag_to_csv_with_config.py
+++ b/hand_eye_calibration/bin/bag_to_csv_with_config.py
@@ -3,6 +3,7 @@ from subprocess import call
 
 import argparse
 import copy
+import os
 import rospy
 import yaml
 
@@ -28,7 +29,7 @@ if __name__ == '__main__':
 
   for bag in bags:
     bag_name = bag['name']
-    bag_name_without_suffix = bag_name.split('.')[0]
+    bag_name_without_suffix = os.path.splitext(bag_name)[0]
     bag_path = bag['bag_path']
     intrinsics_path = bag['intrinsics_path']
     target_config_path = bag['target_config_path']
-- 
2.43.0


From 258df8bff266f1d937d076bb5d95ce865326b5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:35 +0000
Subject: [PATCH 26/43] fix: honour --visualize=0

argparse applies bool to the text, so any non-empty value enabled the plots.
---
 hand_eye_calibration/bin/compute_aligned_poses.py         | 3 ++-
 hand_eye_calibration/bin/compute_hand_eye_calibration.py  | 4 ++--
 .../python/hand_eye_calibration/bash_utils.py             | 8 ++++++++
 .../bin/compute_set_of_hand_eye_calibrations.py           | 4 ++--
 .../bin/optimization_experiments.py                       | 4 ++--
 5 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/hand_eye_calibration/bin/compute_aligned_poses.py b/hand_eye_calibration/bin/compute_aligned_poses.py
index 3ad5dd8..aeb125b 100755
--- a/hand_eye_calibration/bin/compute_aligned_poses.py
+++ b/hand_eye_calibration/bin/compute_aligned_poses.py
@@ -5,6 +5,7 @@ from hand_eye_calibration.quaternion import Quaternion
 from hand_eye_calibration.csv_io import (
     write_time_stamped_poses_to_csv_file,
     read_time_stamped_poses_from_csv_file)
+from hand_eye_calibration.bash_utils import str_to_bool
 
 import argparse
 import numpy as np
@@ -49,7 +50,7 @@ if __name__ == '__main__':
       help='\'Hamilton\' [Default] or \'JPL\'. The input (and data in the output files) ' +
       'will be converted to Hamiltonian quaternions.')
 
-  parser.add_argument('--visualize', type=bool, default=False,
+  parser.add_argument('--visualize', type=str_to_bool, default=False,
                       help='Visualize the poses.')
 
   args = parser.parse_args()
diff --git a/hand_eye_calibration/bin/compute_hand_eye_calibration.py b/hand_eye_calibration/bin/compute_hand_eye_calibration.py
index d46c281..5072e61 100755
--- a/hand_eye_calibration/bin/compute_hand_eye_calibration.py
+++ b/hand_eye_calibration/bin/compute_hand_eye_calibration.py
@@ -19,7 +19,7 @@ from hand_eye_calibration.algorithm_config import (
     get_exhaustive_search_scalar_part_inliers_config,
     get_baseline_config)
 from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration
-from hand_eye_calibration.bash_utils import readArrayFromCsv
+from hand_eye_calibration.bash_utils import (readArrayFromCsv, str_to_bool)
 
 
 if __name__ == "__main__":
@@ -51,7 +51,7 @@ if __name__ == "__main__":
            'dual-quaternion-based hand eye calibration and time alignment. '
            'Is used as a initial guess for the batch estimation.')
 
-  parser.add_argument('--visualize', type=bool,
+  parser.add_argument('--visualize', type=str_to_bool,
                       default=False, help='Visualize the poses.')
   parser.add_argument('--plot_every_nth_pose', type=int,
                       help='Plot only every n-th pose.', default=10)
diff --git a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
index e725529..44486a3 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
@@ -28,6 +28,14 @@ def run(cmd, dry_run=False):
                     (cmd, exit_code))
 
 
+def str_to_bool(value):
+  if value.lower() in ('true', '1', 'yes'):
+    return True
+  if value.lower() in ('false', '0', 'no', ''):
+    return False
+  raise argparse.ArgumentTypeError("Not a boolean value: '%s'" % value)
+
+
 def create_path(path):
   directory = os.path.dirname(path)
   if directory and not os.path.exists(directory):
diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index 89b217c..c1262ce 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -27,7 +27,7 @@ from hand_eye_calibration.time_alignment import (calculate_time_offset,
                                                  compute_aligned_poses,
                                                  FilteringConfig)
 from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration
-from hand_eye_calibration.bash_utils import (run, create_path)
+from hand_eye_calibration.bash_utils import (run, create_path, str_to_bool)
 from hand_eye_calibration.calibration_verification import (
     evaluate_calibration, compute_loop_error)
 from hand_eye_calibration_experiments.all_algorithm_configs import get_all_configs
@@ -45,7 +45,7 @@ if __name__ == "__main__":
   parser.add_argument('--result_directory', type=str, required=True,
                       help='The path to the result directory.')
 
-  parser.add_argument('--visualize', type=bool,
+  parser.add_argument('--visualize', type=str_to_bool,
                       default=False, help='Visualize the poses.')
   parser.add_argument('--plot_every_nth_pose', type=int,
                       help='Plot only every n-th pose.', default=10)
diff --git a/hand_eye_calibration_experiments/bin/optimization_experiments.py b/hand_eye_calibration_experiments/bin/optimization_experiments.py
index 99bcc43..9beebf1 100755
--- a/hand_eye_calibration_experiments/bin/optimization_experiments.py
+++ b/hand_eye_calibration_experiments/bin/optimization_experiments.py
@@ -30,7 +30,7 @@ from hand_eye_calibration.time_alignment import (calculate_time_offset,
                                                  compute_aligned_poses,
                                                  FilteringConfig)
 from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration
-from hand_eye_calibration.bash_utils import (run, create_path)
+from hand_eye_calibration.bash_utils import (run, create_path, str_to_bool)
 from hand_eye_calibration.calibration_verification import (
     evaluate_calibration, compute_loop_error)
 from hand_eye_calibration_experiments.all_algorithm_configs import get_optimization_with_spoiled_initial_calibration_config
@@ -403,7 +403,7 @@ if __name__ == "__main__":
   parser.add_argument('--result_directory', type=str, required=True,
                       help='The path to the result directory.')
 
-  parser.add_argument('--visualize', type=bool,
+  parser.add_argument('--visualize', type=str_to_bool,
                       default=False, help='Visualize the poses.')
   parser.add_argument('--plot_every_nth_pose', type=int,
                       help='Plot only every n-th pose.', default=10)
-- 
2.43.0


From 61d5f8f17cb204bdd5d26e7128b46a469dad3141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:51 +0000
Subject: [PATCH 27/43] fix: drop repeated transforms before they are exported

Poses with a stamp that does not advance were meant to be dropped but had
already been written to the file. Four of them also led to a division by
zero in the frequency estimate.
---
 hand_eye_calibration/bin/tf_to_csv.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hand_eye_calibration/bin/tf_to_csv.py b/hand_eye_calibration/bin/tf_to_csv.py
index 2e546db..cd7714f 100755
--- a/hand_eye_calibration/bin/tf_to_csv.py
+++ b/hand_eye_calibration/bin/tf_to_csv.py
@@ -58,6 +58,11 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
               tf_counter += 1
             continue
 
+          # Drop pose if the tf interval is zero.
+          if (not init and single_tf.header.stamp.to_sec() -
+                  tf_previous_timestamp.to_sec() < 1e-8):
+            continue
+
           # Initialize start time to first successful tf message lookup.
           if init:
             start_time_tf_message = single_tf.header.stamp
@@ -86,11 +91,6 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
             tf_interval_measured = (single_tf.header.stamp.to_sec() -
                                     tf_previous_timestamp.to_sec())
 
-            # Drop pose if the tf interval is zero.
-            if tf_interval_measured < 1e-8:
-              tf_previous_timestamp = single_tf.header.stamp
-              continue
-
             # If the interval deviates from the frequency by more than x
             # percent, print a warning.
             tf_interval_deviation_percent = abs(
-- 
2.43.0


From 0a8dd951dfe0b32e8dfc557fb6edd4b0f6645aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:55 +0000
Subject: [PATCH 28/43] fix: close the exported CSV file

---
 hand_eye_calibration/bin/tf_to_csv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hand_eye_calibration/bin/tf_to_csv.py b/hand_eye_calibration/bin/tf_to_csv.py
index cd7714f..d74b701 100755
--- a/hand_eye_calibration/bin/tf_to_csv.py
+++ b/hand_eye_calibration/bin/tf_to_csv.py
@@ -108,6 +108,8 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
                   tf_frequency_estimated))
 
           tf_previous_timestamp = single_tf.header.stamp
+  csv_file.close()
+  bag.close()
 
   # Output final estimated frequency.
   if tf_counter > 3:
-- 
2.43.0


From fe1ba2ca1f4d2598263eb4f241bb795d09a5a9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:58 +0000
Subject: [PATCH 29/43] fix: survive failed calibrations in the set of
 experiments

A calibration without a solution crashed the whole run, either when writing
the initial guess or when computing the loop error.
---
 .../bin/compute_set_of_hand_eye_calibrations.py      | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index c1262ce..06d6995 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -205,9 +205,10 @@ if __name__ == "__main__":
         # Run optimization if enabled.
         if optimization_config.enable_optimization:
           # Write initial guess to file for the optimization.
-          initial_guess = ExtrinsicCalibration(
-              time_offset_initial_guess, dq_H_E_initial_guess)
-          initial_guess.writeJson(initial_guess_calibration_file)
+          if success:
+            initial_guess = ExtrinsicCalibration(
+                time_offset_initial_guess, dq_H_E_initial_guess)
+            initial_guess.writeJson(initial_guess_calibration_file)
 
           optimized_calibration_file = "{}/optimization/{}_pose_pair_{}_it_{}_optimized.json".format(
               args.result_directory, algorithm_name, pose_pair_idx, iteration)
@@ -226,6 +227,8 @@ if __name__ == "__main__":
 
           optimization_runtime = 0.
           try:
+            if not success:
+              raise Exception("There is no initial guess!")
             optimization_start_time = timeit.default_timer()
             run("rosrun hand_eye_calibration_batch_estimation batch_estimator -v 1 \
               --pose1_csv=%s --pose2_csv=%s \
@@ -316,7 +319,8 @@ if __name__ == "__main__":
 
       # Computing the loop error only makes sense if all pose pairs are successfully calibrated.
       # If optimization is disabled, optimization_success should always be True.
-      if sum(result_entry.optimization_success) == num_pose_pairs:
+      if (sum(result_entry.success) == num_pose_pairs and
+              sum(result_entry.optimization_success) == num_pose_pairs):
         (result_entry.loop_error_position,
          result_entry.loop_error_orientation) = compute_loop_error(results_dq_H_E,
                                                                    num_poses_sets,
-- 
2.43.0


From a36be58b7dd5224fdd0aabfdc47ec5820f57c051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:02 +0000
Subject: [PATCH 30/43] fix: read result files with a single row

---
 .../experiment_plotting_tools.py                                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index 77ea623..355fbd1 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -79,7 +79,7 @@ def collect_data_from_csv(csv_file_names, get_header=True):
 
   max_index = 0
   max_index_ds = 0
-  for row in data:
+  for row in np.atleast_1d(data):
     method = row[0]
     b_h_filename = row[4]
     w_e_filename = row[5]
-- 
2.43.0


From 9edcc843639bfde8e87a375b56dd70fa03bb8bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:28:55 +0000
Subject: [PATCH 31/43] fix: calibrate purely rotational motion

Recordings without any translation made the hand-eye calibration fail.
The null space vectors are then such that the quadratic equation has no
quadratic term, and an assertion stopped the calculation. Another basis
of the same null space avoids the division by zero.
---
 .../dual_quaternion_hand_eye_calibration.py                  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 73136b1..31a5dc8 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -248,6 +248,11 @@ def compute_hand_eye_calibration(dq_B_H_vec_inliers, dq_W_E_vec_inliers,
   # print("v_7: {}".format(v_7))
   # print("v_8: {}".format(v_8))
 
+  # Step 3 divides by the product of the two parts of v_7. If it vanishes, e.g.
+  # for purely rotational motion, use another basis of the same null space.
+  if np.dot(v_7[0:4], v_7[4:8]) == 0.0:
+    v_7, v_8 = (v_7 + v_8) / np.sqrt(2.0), (v_7 - v_8) / np.sqrt(2.0)
+
   # 3.
   # Compute the coefficients of (35) and solve it, finding two solutions for s.
   u_1 = v_7[0:4].copy()
-- 
2.43.0


From 6d9f5930a852033c1a73ab872d24990a65b22d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:52:06 +0000
Subject: [PATCH 32/43] fix: skip samples that rotate about a single axis

Three sampled poses that all rotate about one axis leave the translation
along that axis undetermined. The random search took the arbitrary
solution as a model, could return it as the best calibration, or ended
with an assertion when the solution was very far away. Such samples are
now skipped.
---
 .../dual_quaternion_hand_eye_calibration.py                  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 31a5dc8..10310d1 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -793,6 +793,11 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
                   config.algorithm_name, sys.exc_info()[0]))
         continue
 
+      # Samples that rotate about a single axis do not determine the transform.
+      if singular_values[5] < 1e-6:
+        print("==> Sample is degenerate")
+        continue
+
       # Inliers are determined by evaluating the hand-eye calibration computed
       # based on the samples on all the poses and thresholding the RMSE of the
       # position/orientation.
-- 
2.43.0


From 40a0696d4a12e3824a8faa461a52920db7e810e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:10 +0000
Subject: [PATCH 33/43] fix: export a single transform followed by failed
 lookups

---
 hand_eye_calibration/bin/tf_to_csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/bin/tf_to_csv.py b/hand_eye_calibration/bin/tf_to_csv.py
index d74b701..947ffb1 100755
--- a/hand_eye_calibration/bin/tf_to_csv.py
+++ b/hand_eye_calibration/bin/tf_to_csv.py
@@ -112,7 +112,7 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
   bag.close()
 
   # Output final estimated frequency.
-  if tf_counter > 3:
+  if tf_counter > 3 and end_time_tf_message > start_time_tf_message:
     tf_frequency_estimated = tf_counter / (
         end_time_tf_message - start_time_tf_message).to_sec()
     print("Final estimate of tf topic frequency: ", "{0:.2f}".format(
-- 
2.43.0


From 2d0e8896e3b21b44c3e61482ff588e92fd88c844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:01 +0000
Subject: [PATCH 34/43] fix: stop the complete calibration when a step fails

---
 .../scripts/compute_complete_handeye_calibration.sh            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
index 20d6dd2..bcd5490 100755
--- a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
+++ b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
@@ -1,5 +1,8 @@
 #!/bin/bash
 
+# Do not calibrate with the results of a failed step.
+set -e
+
 DATASET_DIR_A=`basename $1`
 DATASET_PATH_A=`dirname $1`
 
-- 
2.43.0


From 9fd25c74c84aea479d7e9fe9c7a364f454144ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:05 +0000
Subject: [PATCH 35/43] fix: complete calibration of recordings with spaces in
 their paths

---
 .../compute_complete_handeye_calibration.sh   | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
index bcd5490..4714b24 100755
--- a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
+++ b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
@@ -3,33 +3,33 @@
 # Do not calibrate with the results of a failed step.
 set -e
 
-DATASET_DIR_A=`basename $1`
-DATASET_PATH_A=`dirname $1`
+DATASET_DIR_A=`basename "$1"`
+DATASET_PATH_A=`dirname "$1"`
 
-DATASET_DIR_B=`basename $2`
-DATASET_PATH_B=`dirname $2`
+DATASET_DIR_B=`basename "$2"`
+DATASET_PATH_B=`dirname "$2"`
 
 ALIGNED_POSES_A="${DATASET_PATH_A}/aligned_${DATASET_DIR_A}"
 ALIGNED_POSES_B="${DATASET_PATH_B}/aligned_${DATASET_DIR_B}"
 
 
 rosrun hand_eye_calibration compute_aligned_poses.py \
---poses_B_H_csv_file $1  \
---poses_W_E_csv_file $2 \
---aligned_poses_B_H_csv_file $ALIGNED_POSES_A \
---aligned_poses_W_E_csv_file $ALIGNED_POSES_B \
+--poses_B_H_csv_file "$1"  \
+--poses_W_E_csv_file "$2" \
+--aligned_poses_B_H_csv_file "$ALIGNED_POSES_A" \
+--aligned_poses_W_E_csv_file "$ALIGNED_POSES_B" \
 --time_offset_output_csv_file time_offset.csv
 
 rosrun hand_eye_calibration compute_hand_eye_calibration.py \
---aligned_poses_B_H_csv_file $ALIGNED_POSES_A  \
---aligned_poses_W_E_csv_file $ALIGNED_POSES_B  \
+--aligned_poses_B_H_csv_file "$ALIGNED_POSES_A"  \
+--aligned_poses_W_E_csv_file "$ALIGNED_POSES_B"  \
 --time_offset_input_csv_file time_offset.csv \
 --calibration_output_json_file calibration.json \
 --visualize=0
 
 rosrun hand_eye_calibration_batch_estimation batch_estimator \
 --v 1 \
---pose1_csv $1 \
---pose2_csv $2 \
+--pose1_csv "$1" \
+--pose2_csv "$2" \
 --init_guess_file calibration.json \
 --output_file calibration_optimized.json
-- 
2.43.0


From bc81ac64e2d4c84bd0d3f05ba1a72b1ca5a28f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:59 +0000
Subject: [PATCH 36/43] fix: leave failed optimizations out of the statistics

---
 .../experiment_plotting_tools.py                               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index 355fbd1..ef8e968 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -90,6 +90,7 @@ def collect_data_from_csv(csv_file_names, get_header=True):
     loop_error_position_m = row[13]
     loop_error_orientation_deg = row[14]
     bad_singular_values = row[16]
+    optimization_success = row[18]
     runtime_optimization = row[19]
     initial_guess_angle = 0 if np.isnan(row[20]) else row[20]
     if row[21] != "None":
@@ -106,7 +107,7 @@ def collect_data_from_csv(csv_file_names, get_header=True):
     runtime += runtime_optimization
     method = method_name_dict[method]
 
-    if not success or bad_singular_values:
+    if not success or bad_singular_values or not optimization_success:
       # TODO(ff): Create a plot with the success rate?
       # And for the initial guess spoil this should also be incorporated.
       continue
-- 
2.43.0


From e28f0666f8fcd5dbeeaedeec4b961dce8b94cd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:02 +0000
Subject: [PATCH 37/43] fix: do not plot missing loop errors as negative errors

---
 .../experiment_plotting_tools.py                               | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index ef8e968..384e38a 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -149,6 +149,9 @@ def collect_data_from_csv(csv_file_names, get_header=True):
     orientation_rmses[index].append(orientation_rmse)
     runtimes[index].append(runtime)
 
+    # There is no loop error if any pair of the loop failed.
+    if loop_error_position_m < 0 or loop_error_orientation_deg < 0:
+      continue
     loop_errors_position_m.append(loop_error_position_m)
     loop_errors_orientation_deg.append(loop_error_orientation_deg)
     spoiled_initial_guess_angle_offsets.append(initial_guess_angle)
-- 
2.43.0


From 21124673dc82fa60e9db927f761455ebc0ba2dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:05 +0000
Subject: [PATCH 38/43] fix: draw different perturbations in every worker

---
 .../bin/optimization_experiments.py                            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration_experiments/bin/optimization_experiments.py b/hand_eye_calibration_experiments/bin/optimization_experiments.py
index 9beebf1..27c74cc 100755
--- a/hand_eye_calibration_experiments/bin/optimization_experiments.py
+++ b/hand_eye_calibration_experiments/bin/optimization_experiments.py
@@ -534,7 +534,8 @@ if __name__ == "__main__":
   assert experiment_progress_idx == number_of_experiment_exec
   assert len(input_data) == number_of_experiment_exec
 
-  thread_pool = Pool(min(8, number_of_experiment_exec))
+  # Every worker needs its own random numbers.
+  thread_pool = Pool(min(8, number_of_experiment_exec), np.random.seed)
   func_wrapped = partial(Forwarder, func=run_optimization_experiment)
   output_data = thread_pool.map(func_wrapped, input_data)
   assert len(output_data) == number_of_experiment_exec
-- 
2.43.0


From 6b94040e2e18008830f842eb1f11aa3b4e7072f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:21 +0000
Subject: [PATCH 39/43] fix: keep the caller's quaternion signs when
 calibrating

---
 .../dual_quaternion_hand_eye_calibration.py                     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 10310d1..f038316 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -204,6 +204,7 @@ def compute_hand_eye_calibration(dq_B_H_vec_inliers, dq_W_E_vec_inliers,
                      atol=1.e-8), dq_W_E_vec_inliers[0]
 
   if enforce_same_non_dual_scalar_sign:
+    dq_W_E_vec_inliers = copy.deepcopy(dq_W_E_vec_inliers)
     for i in range(n_quaternions):
       dq_W_E = dq_W_E_vec_inliers[i]
       dq_B_H = dq_B_H_vec_inliers[i]
@@ -499,6 +500,7 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
   start_time = timeit.default_timer()
 
   # Enforce the same sign of the rotation quaternion.
+  dq_W_E_vec = copy.deepcopy(dq_W_E_vec)
   for i in range(num_poses):
     dq_B_H = dq_B_H_vec[i]
     dq_W_E = dq_W_E_vec[i]
-- 
2.43.0


From 660a7d8084f5f698f423c65bfd7fe3ba8d009be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:23 +0000
Subject: [PATCH 40/43] fix: report a file in place of a directory to be
 created

---
 .../python/hand_eye_calibration/bash_utils.py                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
index 44486a3..0857844 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
@@ -38,11 +38,11 @@ def str_to_bool(value):
 
 def create_path(path):
   directory = os.path.dirname(path)
-  if directory and not os.path.exists(directory):
+  if directory and not os.path.isdir(directory):
     try:
       os.makedirs(directory)
     except OSError as exc:  # Guard against race condition
-      if exc.errno != errno.EEXIST:
+      if exc.errno != errno.EEXIST or not os.path.isdir(directory):
         raise
 
 
-- 
2.43.0


From a2ed47c3e2113be068016dcbc644afb60b05a5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:32 +0000
Subject: [PATCH 41/43] fix: label the cells of the error maps under Python 3

---
 .../bin/generate_plots.py                            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/generate_plots.py b/hand_eye_calibration_experiments/bin/generate_plots.py
index fc5b87b..6b53622 100755
--- a/hand_eye_calibration_experiments/bin/generate_plots.py
+++ b/hand_eye_calibration_experiments/bin/generate_plots.py
@@ -232,15 +232,15 @@ def generate_optimization_circle_error_plot(
       x_ticks_start = np.rint(loop_x[:-1] * 180 / np.pi).astype(int)
       x_ticks_end = np.rint(loop_x[1:] * 180 / np.pi).astype(int)
       x_tick_labels = (
-          '[' + np.char.array(x_ticks_start) + ',' +
-          np.char.array(x_ticks_end) + ')')
+          '[' + np.char.array(x_ticks_start.astype(str)) + ',' +
+          np.char.array(x_ticks_end.astype(str)) + ')')
     else:
       x_tick_labels = (
-          '[' + np.char.array(loop_x[:-1]) + ',' +
-          np.char.array(loop_x[1:]) + ')')
+          '[' + np.char.array(loop_x[:-1].astype(str)) + ',' +
+          np.char.array(loop_x[1:].astype(str)) + ')')
     y_tick_labels = (
-        '[' + np.char.array(loop_y[:-1]) + ',' +
-        np.char.array(loop_y[1:]) + ')')
+        '[' + np.char.array(loop_y[:-1].astype(str)) + ',' +
+        np.char.array(loop_y[1:].astype(str)) + ')')
     x_ticks = range(x_steps - 1)
     y_ticks = range(y_steps - 1)
     plt.setp(axes, xticks=x_ticks, xticklabels=x_tick_labels,
-- 
2.43.0


From 92fc266017c0ba1749da1652c696270b4bbbe066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:59 +0000
Subject: [PATCH 42/43] fix: quote the file names passed to the estimator

---
 .../bin/compute_set_of_hand_eye_calibrations.py             | 6 +++---
 .../bin/optimization_experiments.py                         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index 06d6995..04df1df 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -231,9 +231,9 @@ if __name__ == "__main__":
               raise Exception("There is no initial guess!")
             optimization_start_time = timeit.default_timer()
             run("rosrun hand_eye_calibration_batch_estimation batch_estimator -v 1 \
-              --pose1_csv=%s --pose2_csv=%s \
-              --init_guess_file=%s \
-              --output_file=%s \
+              --pose1_csv=\"%s\" --pose2_csv=\"%s\" \
+              --init_guess_file=\"%s\" \
+              --output_file=\"%s\" \
               --model_config=%s" % (pose_file_B_H, pose_file_W_E,
                                     initial_guess_calibration_file,
                                     optimized_calibration_file,
diff --git a/hand_eye_calibration_experiments/bin/optimization_experiments.py b/hand_eye_calibration_experiments/bin/optimization_experiments.py
index 27c74cc..37fe75d 100755
--- a/hand_eye_calibration_experiments/bin/optimization_experiments.py
+++ b/hand_eye_calibration_experiments/bin/optimization_experiments.py
@@ -308,9 +308,9 @@ def run_optimization_experiment(time_offset_range, angle_offset_range,
     try:
       optimization_start_time = timeit.default_timer()
       run("rosrun hand_eye_calibration_batch_estimation batch_estimator -v 1 \
-          --pose1_csv=%s --pose2_csv=%s \
-          --init_guess_file=%s \
-          --output_file=%s \
+          --pose1_csv=\"%s\" --pose2_csv=\"%s\" \
+          --init_guess_file=\"%s\" \
+          --output_file=\"%s\" \
           --model_config=%s" % (pose_file_B_H, pose_file_W_E,
                                 initial_guess_calibration_file,
                                 optimized_calibration_file,
-- 
2.43.0


From 5ca46fee49a978afa13ceeaa556fbb83471dcb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:02 +0000
Subject: [PATCH 43/43] fix: pass the sensor types under the names the
 estimator knows

---
 .../bin/compute_set_of_hand_eye_calibrations.py                | 3 ++-
 .../bin/optimization_experiments.py                            | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index 04df1df..8351eab 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -223,7 +223,8 @@ if __name__ == "__main__":
 
           model_config_string = ("pose1/absoluteMeasurements={},"
                                  "pose2/absoluteMeasurements={}").format(
-              is_absolute_sensor_B_H, is_absolute_sensor_W_E).lower()
+              str(is_absolute_sensor_B_H).lower(),
+              str(is_absolute_sensor_W_E).lower())
 
           optimization_runtime = 0.
           try:
diff --git a/hand_eye_calibration_experiments/bin/optimization_experiments.py b/hand_eye_calibration_experiments/bin/optimization_experiments.py
index 37fe75d..99603d9 100755
--- a/hand_eye_calibration_experiments/bin/optimization_experiments.py
+++ b/hand_eye_calibration_experiments/bin/optimization_experiments.py
@@ -287,7 +287,8 @@ def run_optimization_experiment(time_offset_range, angle_offset_range,
 
     model_config_string = ("pose1/absoluteMeasurements={},"
                            "pose2/absoluteMeasurements={}").format(
-        is_absolute_sensor_B_H, is_absolute_sensor_W_E).lower()
+        str(is_absolute_sensor_B_H).lower(),
+        str(is_absolute_sensor_W_E).lower())
 
     # Prepare output file path and folder.
     optimized_calibration_file = ("{}/optimization/{}_run_{}_it_{}_pose_pair_{}_" +
-- 
2.43.0

