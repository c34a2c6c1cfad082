"""Further planted bugs: (id, property, edits, needs, breaks, demo)."""
from plants1 import HEAD_TRK
T, D, F = "norfair/tracker.py", "norfair/distances.py", "norfair/filter.py"
CM, FC, MT, VD, U = "norfair/camera_motion.py", "norfair/drawing/fixed_camera.py", "norfair/metrics.py", "norfair/video.py", "norfair/utils.py"
COL, DP, DB, DR, DU, PA = ("norfair/drawing/color.py", "norfair/drawing/draw_points.py", "norfair/drawing/draw_boxes.py",
                           "norfair/drawing/drawer.py", "norfair/drawing/utils.py", "norfair/drawing/path.py")
P = []


def bug(bid, prop, edits, needs, breaks, demo):
    P.append((bid, prop, edits, needs, breaks, demo))


bug("c01-never-matched-reported", "C01",
    [(T, "            if not o.is_initializing and o.hit_counter_is_positive\n",
      "            if not o.is_initializing\n            and (o.hit_counter_is_positive or o.last_distance is None)\n")],
    "no initialisation delay, re-identification on, and an object never matched after its birth",
    "hidden objects are reported as active",
    HEAD_TRK + '''
t = Tracker(dist, 5, hit_counter_max=3, initialization_delay=0, reid_distance_function=reid,
            reid_distance_threshold=1, reid_hit_counter_max=5)
t.update([det(0)])
for k in range(4):
    r = t.update([])
    assert all(o.hit_counter >= 0 for o in r), k
''')
bug("c02-no-hit-when-full", "C02",
    [(T, "        self.hit_counter = min(self.hit_counter + 2 * period, self.hit_counter_max)\n",
      "        if self.hit_counter + period < self.hit_counter_max:\n"
      "            self.hit_counter = min(self.hit_counter + 2 * period, self.hit_counter_max)\n")],
    "a match while the counter is within one period of its maximum",
    "the match does not raise the counter to the maximum",
    HEAD_TRK + '''
t = Tracker(dist, 5, hit_counter_max=6, initialization_delay=1)
for k in range(8):
    t.update([det(0)])
o = t.get_active_objects()[0]
assert o.hit_counter == 6, o.hit_counter
''')
bug("c03-merge-gives-ids", "C03",
    [(T, "        self.initializing_id: Optional[int] = self._obj_factory.get_initializing_id()\n",
      "        self.initializing_id: Optional[int] = (\n            self._obj_factory.get_initializing_id()\n            if self.is_initializing\n            else self._obj_factory.initializing_count + 1\n        )\n")],
    "two objects initialised at birth (period above the delay)",
    "the initialising ids of two objects are equal",
    HEAD_TRK + '''
t = Tracker(dist, 5, hit_counter_max=6, initialization_delay=0)
t.update([det(0), det(100), det(200)])
ids = [o.initializing_id for o in t.tracked_objects]
assert len(set(ids)) == 3, ids
''')
bug("c03-total-count", "C03",
    [(T, "        return self._obj_factory.count\n", "        return max((o.id for o in self.tracked_objects if o.id is not None), default=0)\n")],
    "the most recently initialised object is gone",
    "the total object count falls",
    HEAD_TRK + '''
t = Tracker(dist, 5, hit_counter_max=2, initialization_delay=0)
t.update([det(0)])
t.update([det(0), det(100)])
for k in range(5):
    t.update([det(0)])
    assert t.total_object_count == 2, (k, t.total_object_count)
''')
bug("c04-single-precision", "C04",
    [(T, "        distance_matrix = distance_matrix.astype(float)\n", "        distance_matrix = distance_matrix.astype(np.float32)\n")],
    "a threshold just above a distance, or two distances that only differ beyond single precision",
    "a pair at the threshold is matched or one below it is not",
    HEAD_TRK + '''
t = Tracker(dist, 5)
m = np.array([[1.0 + 2e-9, 1.0]])
c, o = t.match_dets_and_objs(m, 2.0)
assert list(o) == [1], o
c, o = t.match_dets_and_objs(np.array([[0.1]]), 0.1)
assert len(c) == 0
''')
bug("c04-stop-at-tie", "C04",
    [(T, "                current_min = distance_matrix.min()\n\n            return", "                previous_min, current_min = current_min, distance_matrix.min()\n                if current_min == previous_min and current_min == 0:\n                    break\n\n            return")],
    "two pairs at distance exactly zero",
    "a pair below the threshold is left unmatched",
    HEAD_TRK + '''
t = Tracker(dist, 5)
c, o = t.match_dets_and_objs(np.array([[0.0, 3.0], [3.0, 0.0]]), 5.0)
assert sorted(zip(c, o)) == [(0, 0), (1, 1)], (c, o)
''')
bug("c05-duplicate-by-value", "C05",
    [(T, "                    d for i, d in enumerate(candidates) if i not in matched_cand_indices\n",
      "                    d\n                    for i, d in enumerate(candidates)\n                    if i not in matched_cand_indices\n                    and not any(\n                        d.label == candidates[j].label\n                        and getattr(d, \"points\", d) is getattr(candidates[j], \"points\", None)\n                        for j in matched_cand_indices\n                    )\n")],
    "two detections sharing one points array, one of them matched",
    "a detection is neither matched nor becomes an object",
    HEAD_TRK + '''
t = Tracker(dist, 5, hit_counter_max=6, initialization_delay=2)
p = np.array([[1.0, 1.0]])
t.update([Detection(p)])
t.update([Detection(p), Detection(p)])
assert len(t.tracked_objects) == 2, t.tracked_objects
''')
bug("c06-distance-cache", "C06",
    [(D, "                distance = self.distance_function(candidate, obj)\n                distance_matrix[c, o] = distance\n",
      "                if o > 0 and objects[o - 1].label == obj.label and obj is objects[o - 1]:\n                    distance = distance_matrix[c, o - 1]\n                else:\n                    distance = self.distance_function(candidate, obj)\n                distance_matrix[c, o] = max(distance, 0)\n")],
    "a distance function with negative values (a similarity)",
    "negative distances become zero",
    '''
from norfair import Detection
from norfair.distances import ScalarDistance
class O: pass
o = O(); o.label = None; o.estimate = np.zeros((1, 2))
m = ScalarDistance(lambda a, b: -2.5).get_distances([o], [Detection(np.zeros((1, 2)))])
assert m[0, 0] == -2.5, m
''')
bug("c06-label-by-truth", "C06",
    [(D, "        for label in {o.label for o in objects} & {c.label for c in candidates}:\n",
      "        labels = {o.label for o in objects} & {c.label for c in candidates}\n        if len(labels) > 1:\n            labels.discard(None)\n        for label in labels:\n")],
    "detections and objects with and without labels together, in a vectorized distance",
    "pairs without label stay at infinity",
    '''
from norfair import Detection
from norfair.distances import VectorizedDistance
class O: pass
objs, dets = [], []
for l in (None, "a"):
    o = O(); o.label = l; o.estimate = np.zeros((1, 2)); objs.append(o)
    dets.append(Detection(np.ones((1, 2)), label=l))
m = VectorizedDistance(lambda c, o: np.abs(c[:, None, :] - o[None]).sum(2)).get_distances(objs, dets)
assert m[0, 0] == 2 and m[1, 1] == 2 and np.isinf(m[0, 1]), m
''')
bug("c07-mean-rms", "C07",
    [(D, "    return np.linalg.norm(detection.points - tracked_object.estimate, axis=1).mean()\n",
      "    difference = detection.points - tracked_object.estimate\n    if difference.shape[0] > 2:\n        difference = difference[np.abs(difference).sum(axis=1) > 0]\n    return np.linalg.norm(difference, axis=1).mean() if len(difference) else 0.0\n")],
    "three or more points, one of which coincides with its estimate",
    "points at distance zero are left out of the mean",
    '''
from norfair import Detection
from norfair.distances import mean_euclidean
class O: pass
o = O(); o.estimate = np.zeros((3, 2))
d = mean_euclidean(Detection(np.array([[3.0, 4.0], [0, 0], [0, 0]])), o)
assert abs(d - 5 / 3) < 1e-9, d
''')
bug("c08-touching", "C08",
    [(D, "    return 1 - area_intersection / (\n        area_candidates[:, None] + area_objects - area_intersection\n    )\n",
      "    union = area_candidates[:, None] + area_objects - area_intersection\n    return 1 - area_intersection / np.maximum(union, 1)\n")],
    "boxes smaller than one unit (normalised coordinates)",
    "the distance of small boxes is wrong",
    '''
from norfair.distances import iou
b = np.array([[0.1, 0.1, 0.4, 0.6]])
assert abs(iou(b, b)[0, 0]) < 1e-9, iou(b, b)
''')
bug("c09-r-sticks", "C09",
    [(F, "            kalman_r = np.diagonal(R).reshape((self.dim_z, 1))\n", "            kalman_r = np.diagonal(R).reshape((self.dim_z, 1))\n            self.default_r = kalman_r\n")],
    "an update with a measurement noise followed by one without",
    "the noise of one update is used for the following ones",
    '''
from norfair.filter import OptimizedKalmanFilter
a, b = OptimizedKalmanFilter(4, 2), OptimizedKalmanFilter(4, 2)
z = np.array([[1.0], [2.0]])
a.update(z, R=np.diag([50.0, 50.0]))
g = a.default_r.copy()
assert (g == 4).all(), g
''')
bug("c10-r-zero", "C10",
    [(F, "            r=self.R,\n", "            r=self.R or 4,\n")],
    "a measurement noise of zero",
    "the configured noise zero is replaced by the default",
    '''
from norfair.filter import OptimizedKalmanFilterFactory
f = OptimizedKalmanFilterFactory(R=0.0).create_filter(np.array([[1.0, 2.0]]))
f.predict()
f.update(np.array([[7.0], [9.0]]))
assert np.allclose(f.x[:2].ravel(), [7, 9]), f.x
''')
bug("c10-nofilter-view", "C10",
    [(F, "        no_filter.x[:dim_z] = np.expand_dims(initial_detection.flatten(), 0).T\n        return no_filter\n",
      "        no_filter.x[:dim_z] = np.expand_dims(initial_detection.flatten(\"K\"), 0).T\n        return no_filter\n")],
    "points whose memory is laid out column by column",
    "the coordinates of the filter are in the wrong order",
    '''
from norfair.filter import NoFilterFactory
p = np.asfortranarray(np.array([[1.0, 2.0], [3.0, 4.0]]))
f = NoFilterFactory().create_filter(p)
assert f.x[:4].ravel().tolist() == [1, 2, 3, 4], f.x
''')
bug("c11-born-seen", "C11",
    [(T, "            self.detected_at_least_once_points = (\n                initial_detection.scores > self.detection_threshold\n            )\n",
      "            self.detected_at_least_once_points = (\n                initial_detection.scores > min(self.detection_threshold, 0)\n            )\n")],
    "a point whose score at birth is positive but below the threshold, seen later",
    "a point not seen yet counts as seen: its unreliable first position moves the estimate",
    HEAD_TRK + '''
t = Tracker(dist, 500, detection_threshold=0.5, hit_counter_max=6, initialization_delay=0)
mk = lambda x, s: Detection(np.array([[x, 0.0], [x * 3, 5.0]]), scores=np.array([0.9, s]))
t.update([mk(1.0, 0.2)])
t.update([mk(100.0, 0.9)])
o = t.tracked_objects[0]
assert np.allclose(o.estimate[1], [300, 5]), o.estimate
''')
bug("c12-no-floor-unscored", "C12",
    [(T, "            self.point_hit_counter[points_over_threshold_mask] += 2 * period\n", "            self.point_hit_counter[points_over_threshold_mask] += 2 * period\n            self.point_hit_counter[self.point_hit_counter < 0] = 0\n"),
     (T, "        self.point_hit_counter[self.point_hit_counter < 0] = 0\n        H_vel", "        H_vel")],
    "a match without scores after the point counter had fallen far below zero",
    "a point does not become live although it was matched often enough",
    HEAD_TRK + '''
t = Tracker(dist, 500, hit_counter_max=30, initialization_delay=2, pointwise_hit_counter_max=2)
for _ in range(16): t.update([det(0)])
o = t.tracked_objects[0]
for _ in range(9): t.update([])
t.update([det(0)]); t.update([det(0)])
assert o.live_points.all(), o.point_hit_counter
''')
bug("c13-merge-extend", "C13",
    [(T, "        for past_detection in tracked_object.past_detections:\n            self._conditionally_add_to_past_detections(past_detection)\n",
      "        self.past_detections = (\n            list(self.past_detections) + list(tracked_object.past_detections)\n        )[-self.past_detections_length :]\n")],
    "re-identification",
    "the stored ages are not ordered after a re-identification",
    HEAD_TRK + '''
t = Tracker(dist, 5, hit_counter_max=6, initialization_delay=2, reid_distance_function=reid,
            reid_distance_threshold=1000, reid_hit_counter_max=50, past_detections_length=4)
for _ in range(30): t.update([det(0)])
o = t.get_active_objects()[0]
for _ in range(8): t.update([])
for _ in range(4): t.update([det(200)])
assert o in t.tracked_objects
ages = [d.age for d in o.past_detections]
assert ages == sorted(ages), ages
''')
bug("c13-length-one", "C13",
    [(T, "        elif self.age >= self.past_detections[0].age * self.past_detections_length:\n",
      "        elif self.age > 1 and self.age >= self.past_detections[0].age * self.past_detections_length:\n")],
    "one remembered detection, and a match one frame after birth",
    "a detection that should replace the oldest one is not stored",
    HEAD_TRK + '''
t = Tracker(dist, 5, hit_counter_max=6, initialization_delay=2, past_detections_length=1)
a, b = det(0), det(0.5)
t.update([a]); t.update([b])
o = t.tracked_objects[0]
assert o.past_detections == [b], o.past_detections
''')
bug("c14-zero-max", "C14",
    [(T, "        if self.reid_hit_counter is None:\n            if self.hit_counter <= 0:\n", "        if not self.reid_hit_counter:\n            if self.hit_counter <= 0:\n")],
    "a hidden object whose countdown reaches zero",
    "the countdown starts again instead of going below zero: the object is never destroyed",
    HEAD_TRK + '''
t = Tracker(dist, 5, hit_counter_max=3, initialization_delay=0, reid_distance_function=reid,
            reid_distance_threshold=1, reid_hit_counter_max=2)
t.update([det(0)])
for k in range(20): t.update([])
assert not t.tracked_objects, t.tracked_objects
''')
bug("c14-only-still-initialising", "C14",
    [(T, "                unmatched_init_trackers + dead_objects,\n                matched_not_init_trackers,\n",
      "                unmatched_init_trackers + dead_objects,\n                [o for o in matched_not_init_trackers if o.is_initializing],\n")],
    "the matched object becomes initialised by the very match",
    "an object matched while initialising is not offered for re-identification",
    HEAD_TRK + '''
t = Tracker(dist, 5, hit_counter_max=6, initialization_delay=1, reid_distance_function=reid,
            reid_distance_threshold=1000, reid_hit_counter_max=50)
for _ in range(4): t.update([det(0)])
o = t.get_active_objects()[0]
for _ in range(9): t.update([])
t.update([det(200)]); t.update([det(200)])
assert o in t.get_active_objects() and len(t.tracked_objects) == 1, t.tracked_objects
''')
bug("c15-h22", "C15",
    [(CM, "        self.inverse_homography_matrix = np.linalg.inv(homography_matrix)\n",
      "        self.inverse_homography_matrix = np.linalg.inv(\n            homography_matrix / homography_matrix[2, 2]\n        )\n")],
    "a homography whose last entry is zero",
    "points become NaN",
    '''
from norfair.camera_motion import HomographyTransformation
import warnings; warnings.simplefilter("ignore")
h = HomographyTransformation(np.array([[0.0, 0, 1], [0, 1, 0], [1, 0, 0]]))
p = np.array([[2.0, 3.0], [4.0, 5.0]])
assert np.allclose(h.abs_to_rel(h.rel_to_abs(p)), p), h.rel_to_abs(p)
''')
bug("c15-integer-points", "C15",
    [(CM, "        return points - self.movement_vector\n", "        return (points - self.movement_vector).astype(points.dtype)\n")],
    "integer points and a movement that is not a whole number",
    "the transformation is no inverse: fractions are cut off",
    '''
from norfair.camera_motion import TranslationTransformation
t = TranslationTransformation(np.array([0.5, 0.25]))
p = np.array([[3, 4], [5, 6]])
assert np.allclose(t.abs_to_rel(t.rel_to_abs(p)), p), t.rel_to_abs(p)
''')
bug("c16-absolute-once", "C16",
    [(T, "            self.absolute_points = coordinate_transformation.rel_to_abs(\n",
      "            if not np.array_equal(self.absolute_points, self.points):\n                return\n            self.absolute_points = coordinate_transformation.rel_to_abs(\n")],
    "a detection object used again with another transformation",
    "the absolute points of the detection belong to an older transformation",
    HEAD_TRK + '''
from norfair.camera_motion import TranslationTransformation
t = Tracker(dist, 500)
d = det(10, 10)
t.update([d], coord_transformations=TranslationTransformation(np.array([1.0, 1.0])))
t.update([d], coord_transformations=TranslationTransformation(np.array([5.0, 5.0])))
assert np.allclose(d.absolute_points, [[5, 5]]), d.absolute_points
''')
bug("c17-copy-shared", "C17",
    [(CM, "            del self.transformations_getter\n            self.transformations_getter = copy.deepcopy(\n                self.transformations_getter_copy\n            )\n",
      "            self.transformations_getter = self.transformations_getter_copy\n")],
    "two failed estimations with a change of the reference frame between them",
    "the second failure does not restart the accumulated motion",
    '''
import norfair.camera_motion as cm
class G(cm.TransformationGetter):
    n = 0
    def __init__(self): self.data = 0
    def __call__(self, c, p):
        G.n += 1
        if G.n in (1, 4): raise ValueError("boom")
        self.data += 1
        return True, cm.TranslationTransformation(np.array([float(self.data), 0.0]))
m = cm.MotionEstimator(transformations_getter=G())
img = (np.random.default_rng(0).random((60, 80, 3)) * 255).astype(np.uint8)
r = [m.update(img) for _ in range(5)]
assert r[0] is None and r[3] is None
assert [x.movement_vector[0] for x in (r[1], r[2], r[4])] == [1, 2, 1], [x.movement_vector[0] for x in (r[1], r[2], r[4])]
''')
bug("c17-proportion-of-unique", "C17",
    [(CM, "        proportion_points_used = np.sum(points_used) / len(points_used)\n", "        proportion_points_used = np.mean(points_used[: len(prev_pts) // 4 * 4])\n")],
    "a number of points that is no multiple of four, with outliers at the end",
    "the proportion of used points, and with it the reference frame, is wrong",
    '''
import norfair.camera_motion as cm
class CV:
    RANSAC = 8
    def findHomography(self, *a, **k): return np.eye(3), np.array([[1], [1], [1], [1], [0]], np.uint8)
cm.cv2 = CV()
g = cm.HomographyTransformationGetter(proportion_points_used_threshold=0.9)
u, t = g(np.random.rand(5, 2), np.random.rand(5, 2))
assert u
''')
bug("c18-size-trunc", "C18",
    [(FC, "                (np.array(original_size) * np.array(self.scale)).round().astype(int)\n", "                (np.array(original_size) * np.array(self.scale)).astype(int)\n")],
    "a scaled size whose fraction is a half or more",
    "the canvas is smaller than documented",
    '''
from norfair.drawing.fixed_camera import FixedCamera
from norfair.camera_motion import TranslationTransformation
f = FixedCamera(scale=1.3)
b = f.adjust_frame(np.ones((9, 12, 3), np.uint8), TranslationTransformation(np.array([0.0, 0.0])))
assert b.shape == (12, 16, 3), b.shape
''')
bug("c19-given-number-continues", "C19",
    [(MT, "        self.frame_number += 1\n\n        if self.frame_number > self.length:\n", "        self.frame_number = frame_number + 1\n\n        if self.frame_number > self.length:\n")],
    "explicit frame numbers that are not the internal ones",
    "the file is closed at the wrong frame, later frames are lost",
    '''
import tempfile
from norfair.metrics import PredictionsTextFile
class I:
    def search(self, variable_name): return 3
class O:
    id = 1; estimate = np.array([[0.0, 0], [1, 1]])
with tempfile.TemporaryDirectory() as d:
    p = PredictionsTextFile(d + "/seq", save_path=d, information_file=I())
    p.update([O()], frame_number=5)
    p.update([O()])
    p.update([O()])
    assert p.text_file.closed
    assert [l.split(",")[0] for l in open(d + "/predictions/seq.txt")] == ["5", "2", "3"]
''')
bug("c19-empty-first-video", "C19",
    [(MT, "            self.matrixes_predictions.append(self.matrix_predictions)\n            return\n",
      "            if len(self.matrix_predictions) > 0:\n                self.matrixes_predictions.append(self.matrix_predictions)\n            return\n")],
    "a video without any predictions",
    "the matrices no longer belong to the videos in order",
    '''
from norfair import metrics
from norfair.metrics import Accumulators
class M: metrics = None
metrics.mm = M
class I:
    def search(self, variable_name): return 2
a = Accumulators()
a.create_accumulator("/x/one", information_file=I())
a.update([]); a.update([])
assert len(a.matrixes_predictions) == 1, a.matrixes_predictions
''')
bug("c20-negative-confidence", "C20",
    [(MT, "                conf = det[6]\n", "                conf = max(det[6], 0)\n")],
    "a negative confidence (several public detectors give -1 or logarithms)",
    "the score is not the confidence of the row",
    '''
import tempfile
from norfair.metrics import DetectionFileParser
class I:
    def search(self, variable_name): return 1
with tempfile.TemporaryDirectory() as d:
    os.mkdir(d + "/det")
    open(d + "/det/det.txt", "w").write("1,-1,10,20,5,6,-0.5,-1,-1,-1\\n")
    p = DetectionFileParser(d, information_file=I())
    x = list(p)[0][0]
    assert x.scores.tolist() == [-0.5, -0.5], x.scores
''')
bug("c21-frames-counted", "C21",
    [(VD, "                if ret is False or frame is None:\n                    break\n",
      "                if ret is False or frame is None:\n                    break\n                if 0 < self.progress_bar.tasks[0].total < self.frame_counter:\n                    break\n")],
    "a file that delivers more frames than its header announces",
    "the last frames are not delivered",
    '''
import tempfile, norfair.video as v
class Cap:
    def __init__(self, p): self.n = 0
    def get(self, k): return 2.0
    def read(self):
        self.n += 1
        return (self.n <= 4, np.zeros((2, 2, 3), np.uint8) if self.n <= 4 else None)
    def release(self): pass
v.cv2.VideoCapture = Cap
v.cv2.destroyAllWindows = lambda: None
with tempfile.TemporaryDirectory() as d:
    open(d + "/a.mp4", "w").write("x")
    n = sum(1 for f in v.Video(input_path=d + "/a.mp4", output_path=d))
    assert n == 4, n
''')
bug("c21-size-of-source", "C21",
    [(VD, "                frame.shape[1],\n                frame.shape[0],\n            )  # OpenCV format", "                int(self.input_width) or frame.shape[1],\n                int(self.input_height) or frame.shape[0],\n            )  # OpenCV format")],
    "frames written with another size than the source's",
    "the output has the size of the source: the frames are lost",
    '''
import tempfile, norfair.video as v
sizes = []
class Cap:
    def __init__(self, p): pass
    def get(self, k): return 10.0
class W:
    def __init__(self, p, f, fps, size): sizes.append(tuple(size))
    def write(self, f): pass
v.cv2.VideoCapture, v.cv2.VideoWriter = Cap, W
v.cv2.waitKey = lambda n: -1
with tempfile.TemporaryDirectory() as d:
    open(d + "/a.mp4", "w").write("x")
    v.Video(input_path=d + "/a.mp4", output_path=d).write(np.zeros((30, 40, 3), np.uint8))
assert sizes == [(40, 30)], sizes
''')
bug("c22-palette-alias", "C22",
    [(COL, "            colors = []\n            for c in palette:\n                colors.append(parse_color(c))\n\n            cls._colors = colors\n",
      "            colors = [parse_color(c) for c in palette]\n            cls._colors = palette if colors == palette else colors\n")],
    "a palette given as a list of tuples that the caller changes later",
    "the palette changes with the caller's list",
    '''
from norfair.drawing.color import Palette
l = [(1, 2, 3), (4, 5, 6)]
Palette.set(l)
l[0] = l[1] = (9, 9, 9)
assert Palette.choose_color(0) in ((1, 2, 3), (4, 5, 6)), Palette.choose_color(0)
''')
bug("c22-hash-of-text", "C22",
    [(COL, "        return cls._colors[abs(hash(hashable)) % len(cls._colors)]\n", "        return cls._colors[abs(hash(str(hashable))) % len(cls._colors)]\n")],
    "equal values that are written differently (1, 1.0, True, numpy integers)",
    "equal hashables get different colors",
    '''
from norfair.drawing.color import Palette
assert all(Palette.choose_color(k) == Palette.choose_color(float(k)) for k in range(20))
''')
bug("c23-text-color-leaks", "C23",
    [(DB, "            if text_color is None:\n                obj_text_color = obj_color\n            else:\n                obj_text_color = text_color\n",
      "            if text_color is None:\n                text_color = obj_color\n            obj_text_color = text_color\n")],
    "two objects of different colors",
    "the text of the second box has the color of the first",
    '''
import norfair.drawing.drawer as dr
from norfair.drawing import draw_boxes, Palette
from norfair.drawing.drawer import Drawable
seen = []
dr.Drawer.text = classmethod(lambda cls, frame, text, position, size=None, color=None, thickness=None, **k: (seen.append((text, tuple(color))), frame)[1])
p = np.array([[1, 1], [5, 5]])
draw_boxes(np.zeros((50, 50, 3), np.uint8), [Drawable(points=p, id=i, live_points=np.ones(2, bool)) for i in (1, 2)])
assert seen == [(str(i), tuple(Palette.choose_color(i))) for i in (1, 2)], seen
''')
bug("c23-zero-score", "C23",
    [(DU, "    if draw_scores and drawable.scores is not None:\n", "    if draw_scores and drawable.scores is not None and np.any(drawable.scores):\n")],
    "a detection whose scores are all zero",
    "the score is not shown",
    '''
from norfair.drawing.utils import _build_text
from norfair.drawing.drawer import Drawable
d = Drawable(points=np.zeros((1, 2)), label="car", scores=np.array([0.0]))
assert _build_text(d, draw_labels=True, draw_ids=True, draw_scores=True) == "car-0.0"
''')
bug("c24-shared-between-drawers", "C24",
    [(PA, "        self.past_points = defaultdict(lambda: [])\n        self.max_history", "        self.max_history"),
     (PA, "    Works just like [`Paths`][norfair.drawing.Paths] but supports camera motion.\n", "    Works just like [`Paths`][norfair.drawing.Paths] but supports camera motion.\n"),
     (PA, "        max_history=20,\n    ):\n\n        if", "        max_history=20,\n        past_points=defaultdict(lambda: []),\n    ):\n        self.past_points = past_points\n        if")],
    "two path drawers in one process",
    "an object's history contains the points of another drawer",
    '''
from norfair.drawing.path import AbsolutePaths
class N:
    def abs_to_rel(self, p): return np.array(p)
class O:
    id = 1; live_points = np.array([True]); abs_to_rel = None
    def get_estimate(self, absolute=False): return np.array([[3.0, 3.0]])
a, b = AbsolutePaths(), AbsolutePaths()
f = np.zeros((100, 100, 3), np.uint8)
a.draw(f, [O()], N()); b.draw(f, [O()], N())
assert len(b.past_points[1]) == 1, b.past_points
''')
bug("c25-delay-none-only", "C25",
    [(T, "            self.initialization_delay = int(self.hit_counter_max / 2)\n        elif initialization_delay < 0 or", "            self.initialization_delay = int(self.hit_counter_max / 2)\n        elif int(initialization_delay) < 0 or")],
    "a delay between minus one and zero",
    "a negative delay is accepted",
    HEAD_TRK + '''
try:
    Tracker(dist, 5, initialization_delay=-0.5)
except ValueError:
    pass
else:
    raise AssertionError("a negative delay is accepted")
''')
bug("c26-consumes-list", "C26",
    [(T, "        for detection in unmatched_detections:\n            self.tracked_objects.append(\n", "        while unmatched_detections:\n            detection = unmatched_detections.pop(0)\n            self.tracked_objects.append(\n")],
    "a list of detections of which none matches, kept by the caller",
    "the caller's list is emptied",
    HEAD_TRK + '''
t = Tracker(dist, 5, reid_distance_function=None)
l = [det(0), det(100)]
t.update(l)
assert len(l) == 2, l
''')
bug("c27-first-last", "C27",
    [(U, "    min_x = max(int(min(points[:, 0])), 0)\n", "    min_x = max(int(points[0, 0] if points[0, 0] < points[-1, 0] else points[-1, 0]), 0)\n")],
    "three or more points, the leftmost one in the middle",
    "columns of the box are missing",
    '''
from norfair.utils import get_cutout
img = np.arange(400).reshape(20, 20)
r = get_cutout(np.array([[8, 1], [2, 5], [12, 9]]), img)
assert r.shape == (8, 10), r.shape
''')
