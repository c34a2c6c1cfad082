From d4092b8a726a2dd0f43fa513e80d8d863a7704ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:42 +0000
Subject: [PATCH 01/21] fix: accept coord_transformations in Tracker.update
 when there are no detections

---
 norfair/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 275ecee..1aced94 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -176,7 +176,7 @@ class Tracker:
         List[TrackedObject]
             The list of active tracked objects.
         """
-        if coord_transformations is not None:
+        if coord_transformations is not None and detections is not None:
             for det in detections:
                 det.update_coordinate_transformation(coord_transformations)
 
-- 
2.43.0


From 18aaff3ca994d50a184f661f16d287d1bea932a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:42 +0000
Subject: [PATCH 02/21] fix: reset the ReID countdown of an object that is
 matched to a detection

---
 norfair/tracker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 1aced94..f263d0c 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -625,6 +625,7 @@ class TrackedObject:
         self._conditionally_add_to_past_detections(detection)
 
         self.last_detection = detection
+        self.reid_hit_counter = None
         self.hit_counter = min(self.hit_counter + 2 * period, self.hit_counter_max)
 
         if self.is_initializing and self.hit_counter > self.initialization_delay:
-- 
2.43.0


From b524d4f8695aac47caba1a7dc13e96d906282319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:42 +0000
Subject: [PATCH 03/21] fix: build the mask of newly detected coordinates point
 by point

---
 norfair/tracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index f263d0c..b46678c 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -663,8 +663,8 @@ class TrackedObject:
         detected_at_least_once_mask = np.array(
             [(m,) * self.dim_points for m in self.detected_at_least_once_points]
         ).flatten()
-        now_detected_mask = np.hstack(
-            (points_over_threshold_mask,) * self.dim_points
+        now_detected_mask = np.array(
+            [(m,) * self.dim_points for m in points_over_threshold_mask]
         ).flatten()
         first_detection_mask = np.logical_and(
             now_detected_mask, np.logical_not(detected_at_least_once_mask)
-- 
2.43.0


From 3767741c63264a305071c3a1dc85a6af38e8dd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:42 +0000
Subject: [PATCH 04/21] fix: do not loop forever in match_dets_and_objs for
 large thresholds

---
 norfair/tracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index b46678c..ede5beb 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -376,8 +376,8 @@ class Tracker:
                 obj_idx = flattened_arg_min % distance_matrix.shape[1]
                 det_idxs.append(det_idx)
                 obj_idxs.append(obj_idx)
-                distance_matrix[det_idx, :] = distance_threshold + 1
-                distance_matrix[:, obj_idx] = distance_threshold + 1
+                distance_matrix[det_idx, :] = np.inf
+                distance_matrix[:, obj_idx] = np.inf
                 current_min = distance_matrix.min()
 
             return det_idxs, obj_idxs
-- 
2.43.0


From f8359f6bf2095436fda27327759c09f38e78f8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:42 +0000
Subject: [PATCH 05/21] fix: compute absolute_points from the relative points
 every time

---
 norfair/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index ede5beb..1d1d2f2 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -789,5 +789,5 @@ class Detection:
     ):
         if coordinate_transformation is not None:
             self.absolute_points = coordinate_transformation.rel_to_abs(
-                self.absolute_points
+                self.points
             )
-- 
2.43.0


From f054f90d05d993ddea99c73b3f2b9d9f06f5eb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 06/21] fix: compare labels by equality, not by printed form,
 in VectorizedDistance

---
 norfair/distances.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/norfair/distances.py b/norfair/distances.py
index d7d7e4c..f16623c 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -151,26 +151,21 @@ class VectorizedDistance(Distance):
         if not objects or not candidates:
             return distance_matrix
 
-        object_labels = np.array([o.label for o in objects]).astype(str)
-        candidate_labels = np.array([c.label for c in candidates]).astype(str)
-
         # iterate over labels that are present both in objects and detections
-        for label in np.intersect1d(
-            np.unique(object_labels), np.unique(candidate_labels)
-        ):
+        for label in {o.label for o in objects} & {c.label for c in candidates}:
             # generate masks of the subset of object and detections for this label
-            obj_mask = object_labels == label
-            cand_mask = candidate_labels == label
+            obj_mask = np.array([o.label == label for o in objects])
+            cand_mask = np.array([c.label == label for c in candidates])
 
             stacked_objects = []
             for o in objects:
-                if str(o.label) == label:
+                if o.label == label:
                     stacked_objects.append(o.estimate.ravel())
             stacked_objects = np.stack(stacked_objects)
 
             stacked_candidates = []
             for c in candidates:
-                if str(c.label) == label:
+                if c.label == label:
                     if "Detection" in str(type(c)):
                         stacked_candidates.append(c.points.ravel())
                     else:
-- 
2.43.0


From b751d83759d41e4819e72b98f1e7b56dcfb71ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 07/21] fix: print objects that were never matched in
 print_objects_as_table

---
 norfair/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/utils.py b/norfair/utils.py
index 98e0d90..0e58b3e 100644
--- a/norfair/utils.py
+++ b/norfair/utils.py
@@ -41,7 +41,7 @@ def print_objects_as_table(tracked_objects: Sequence):
             str(obj.id),
             str(obj.age),
             str(obj.hit_counter),
-            f"{obj.last_distance:.4f}",
+            "-" if obj.last_distance is None else f"{obj.last_distance:.4f}",
             str(obj.initializing_id),
         )
     console.print(table)
-- 
2.43.0


From c17f410a033d14adf639071bf8bbf61fe743f0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 08/21] fix: clip get_cutout to the image when points have
 negative coordinates

---
 norfair/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/norfair/utils.py b/norfair/utils.py
index 0e58b3e..2001e85 100644
--- a/norfair/utils.py
+++ b/norfair/utils.py
@@ -60,10 +60,11 @@ def get_terminal_size(default: Tuple[int, int] = (80, 24)) -> Tuple[int, int]:
 
 def get_cutout(points, image):
     """Returns a rectangular cut-out from a set of points on an image"""
-    max_x = int(max(points[:, 0]))
-    min_x = int(min(points[:, 0]))
-    max_y = int(max(points[:, 1]))
-    min_y = int(min(points[:, 1]))
+    # negative coordinates are outside of the image, not counted from its end
+    max_x = max(int(max(points[:, 0])), 0)
+    min_x = max(int(min(points[:, 0])), 0)
+    max_y = max(int(max(points[:, 1])), 0)
+    min_y = max(int(min(points[:, 1])), 0)
     return image[min_y:max_y, min_x:max_x]
 
 
-- 
2.43.0


From 9611072ac3add541921777dc3153d231f0ec9a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 09/21] fix: parse detection files that contain a single row

---
 norfair/metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index b1e056d..c4ff923 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -110,7 +110,9 @@ class DetectionFileParser:
         # frame, id, bb_left, bb_top, bb_right, bb_down, conf, x, y, z
         detections_path = os.path.join(input_path, "det/det.txt")
 
-        self.matrix_detections = np.loadtxt(detections_path, dtype="f", delimiter=",")
+        self.matrix_detections = np.loadtxt(
+            detections_path, dtype="f", delimiter=",", ndmin=2
+        )
         row_order = np.argsort(self.matrix_detections[:, 0])
         self.matrix_detections = self.matrix_detections[row_order]
         # Coordinates refer to box corners
-- 
2.43.0


From e53ef7a432bce77c3a910e03ec179c54d7637e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 10/21] fix: keep the prediction matrix two-dimensional when it
 has a single row

---
 norfair/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index c4ff923..afb2385 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -205,7 +205,7 @@ class Accumulators:
                 -1,
             ]
             if np.shape(self.matrix_predictions)[0] == 0:
-                self.matrix_predictions = new_row
+                self.matrix_predictions = np.array([new_row])
             else:
                 self.matrix_predictions = np.vstack((self.matrix_predictions, new_row))
         self.frame_number += 1
-- 
2.43.0


From 248da44073c13661a3d2dea9efb3728581e63c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 11/21] fix: use the camera id in the default output file name

---
 norfair/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/video.py b/norfair/video.py
index 83abbd4..58828e1 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -258,7 +258,7 @@ class Video:
         if self.input_path is not None:
             file_name = self.input_path.split("/")[-1].split(".")[0]
         else:
-            file_name = "camera_{self.camera}"
+            file_name = f"camera_{self.camera}"
         file_name = f"{file_name}_out.{self.output_extension}"
 
         return os.path.join(self.output_path, file_name)
-- 
2.43.0


From 0b2970cdff78264b1279afbdb42dcccb868296f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 12/21] fix: pass integer sizes to cv2.resize in Video.show

---
 norfair/video.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/video.py b/norfair/video.py
index 58828e1..29828d4 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -234,8 +234,8 @@ class Video:
             frame = cv2.resize(
                 frame,
                 (
-                    frame.shape[1] // downsample_ratio,
-                    frame.shape[0] // downsample_ratio,
+                    int(frame.shape[1] // downsample_ratio),
+                    int(frame.shape[0] // downsample_ratio),
                 ),
             )
         cv2.imshow("Output", frame)
-- 
2.43.0


From 645635f50a210ebcb73f88c3ebb202d50dc8b2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 13/21] fix: accept upper case hex colors, as documented

---
 norfair/drawing/color.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/drawing/color.py b/norfair/drawing/color.py
index 40fc4d9..b38a9fb 100644
--- a/norfair/drawing/color.py
+++ b/norfair/drawing/color.py
@@ -25,14 +25,14 @@ def hex_to_bgr(hex_value: str) -> ColorType:
     ValueError
         if the string is invalid
     """
-    if re.match("#[a-f0-9]{6}$", hex_value):
+    if re.match("#[a-fA-F0-9]{6}$", hex_value):
         return (
             int(hex_value[5:7], 16),
             int(hex_value[3:5], 16),
             int(hex_value[1:3], 16),
         )
 
-    if re.match("#[a-f0-9]{3}$", hex_value):
+    if re.match("#[a-fA-F0-9]{3}$", hex_value):
         return (
             int(hex_value[3] * 2, 16),
             int(hex_value[2] * 2, 16),
-- 
2.43.0


From c36c69017a016db2f76a77023b96cacd6855bb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 14/21] fix: return the frame from draw_points when there is
 nothing to draw

---
 norfair/drawing/draw_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index e513e30..23edaf5 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -113,7 +113,7 @@ def draw_points(
     # end
 
     if drawables is None:
-        return
+        return frame
 
     if text_color is not None:
         text_color = parse_color(text_color)
-- 
2.43.0


From 828920c24cfa19be0ed298de826cde7e54022515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 15/21] fix: place the text of objects without live points in
 draw_points

---
 norfair/drawing/draw_points.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index 23edaf5..5901a9e 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -160,7 +160,9 @@ def draw_points(
                     )
 
         if draw_labels or draw_ids or draw_scores:
-            position = d.points[d.live_points].mean(axis=0)
+            # a fully dead object is only drawn with hide_dead_points=False
+            anchor_mask = d.live_points if d.live_points.any() else slice(None)
+            position = d.points[anchor_mask].mean(axis=0)
             position -= radius
             text = _build_text(
                 d, draw_labels=draw_labels, draw_ids=draw_ids, draw_scores=draw_scores
-- 
2.43.0


From 74b7d99fc3a31af01db6cf2b99890b74c49f481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 16/21] fix: initialise a hidden object that re-identification
 lifts above the initialization delay

---
 norfair/tracker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 1d1d2f2..ecf59d6 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -719,6 +719,9 @@ class TrackedObject:
         """Merge with a not yet initialized TrackedObject instance"""
         self.reid_hit_counter = None
         self.hit_counter = self.initial_period * 2
+        if self.is_initializing and self.hit_counter > self.initialization_delay:
+            self.is_initializing = False
+            self._acquire_ids()
         self.point_hit_counter = tracked_object.point_hit_counter
         self.last_distance = tracked_object.last_distance
         self.current_min_distance = tracked_object.current_min_distance
-- 
2.43.0


From 6d5e4903e2eae025a701cd2f0299986c9f194c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:45 +0000
Subject: [PATCH 17/21] fix: match integer distance matrices (they cannot hold
 infinity)

---
 norfair/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index ecf59d6..720b9ca 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -364,7 +364,7 @@ class Tracker:
         """
         # NOTE: This implementation is terribly inefficient, but it doesn't
         #       seem to affect the fps at all.
-        distance_matrix = distance_matrix.copy()
+        distance_matrix = distance_matrix.astype(float)
         if distance_matrix.size > 0:
             det_idxs = []
             obj_idxs = []
-- 
2.43.0


From 9679351fbec1985e34672a5981536d126aeb9319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:09 +0000
Subject: [PATCH 18/21] fix: reject hex colors followed by a newline

---
 norfair/drawing/color.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/drawing/color.py b/norfair/drawing/color.py
index b38a9fb..e71a5e3 100644
--- a/norfair/drawing/color.py
+++ b/norfair/drawing/color.py
@@ -25,14 +25,14 @@ def hex_to_bgr(hex_value: str) -> ColorType:
     ValueError
         if the string is invalid
     """
-    if re.match("#[a-fA-F0-9]{6}$", hex_value):
+    if re.fullmatch("#[a-fA-F0-9]{6}", hex_value):
         return (
             int(hex_value[5:7], 16),
             int(hex_value[3:5], 16),
             int(hex_value[1:3], 16),
         )
 
-    if re.match("#[a-fA-F0-9]{3}$", hex_value):
+    if re.fullmatch("#[a-fA-F0-9]{3}", hex_value):
         return (
             int(hex_value[3] * 2, 16),
             int(hex_value[2] * 2, 16),
-- 
2.43.0


From 9521957b8494121e2ea7b92d08837b36887cd74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:37 +0000
Subject: [PATCH 19/21] fix: parse detection files without any row

---
 norfair/metrics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index afb2385..0e3c0fd 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -113,6 +113,9 @@ class DetectionFileParser:
         self.matrix_detections = np.loadtxt(
             detections_path, dtype="f", delimiter=",", ndmin=2
         )
+        if self.matrix_detections.size == 0:
+            # numpy can't know the number of columns of an empty file
+            self.matrix_detections = np.zeros((0, 10), dtype="f")
         row_order = np.argsort(self.matrix_detections[:, 0])
         self.matrix_detections = self.matrix_detections[row_order]
         # Coordinates refer to box corners
-- 
2.43.0


From eaafa7b259d63be923d00bcb423b4bf346f69271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:10 +0000
Subject: [PATCH 20/21] fix: iterating a video crashed when the clock had not
 moved since the start

---
 norfair/video.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/norfair/video.py b/norfair/video.py
index 29828d4..e049455 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -160,7 +160,9 @@ class Video:
                 ret, frame = self.video_capture.read()
                 if ret is False or frame is None:
                     break
-                process_fps = self.frame_counter / (time.time() - start)
+                elapsed = time.time() - start
+                # the clock may not have moved since the start
+                process_fps = self.frame_counter / elapsed if elapsed > 0 else 0
                 progress_bar.update(
                     self.task, advance=1, refresh=True, process_fps=process_fps
                 )
-- 
2.43.0


From 94d543993c37821ef0464c43f0b4d70e393858cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:52 +0000
Subject: [PATCH 21/21] fix: looking up sequence information crashed on
 superscript digits
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

str.isdigit() also accepts characters such as '²', which int() rejects.
---
 norfair/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 0e3c0fd..442132c 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -31,7 +31,7 @@ class InformationFile:
                 break
         else:
             raise ValueError(f"Couldn't find '{variable_name}' in {self.path}")
-        if result.isdigit():
+        if result.isdecimal():
             return int(result)
         else:
             return result
-- 
2.43.0

