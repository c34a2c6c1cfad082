"""Planted bugs for C01-C16 and C25-C27: (id, property, edits, needs, breaks, demo)."""
T, D, F, CM, U = ("norfair/tracker.py", "norfair/distances.py", "norfair/filter.py",
                  "norfair/camera_motion.py", "norfair/utils.py")
P = []


def bug(bid, prop, edits, needs, breaks, demo):
    P.append((bid, prop, edits, needs, breaks, demo))


HEAD_TRK = '''
from norfair import Detection, Tracker
from norfair.tracker import TrackedObject
def det(x, y=0.0, **kw):
    return Detection(np.array([[float(x), float(y)]]), **kw)
def dist(d, o):
    a = d.points if isinstance(d, Detection) else d.estimate
    return float(np.linalg.norm(a - o.estimate))
def reid(new, old):
    return float(np.linalg.norm(new.estimate - old.estimate))
'''

bug("c02-merge-period", "C02",
    [(T, "        self.hit_counter = self.initial_period * 2\n", "        self.hit_counter = tracked_object.initial_period * 2\n")],
    "re-identification between objects created with different periods",
    "a re-identified object restarts at twice the period of the absorbed object",
    HEAD_TRK + '''
t = Tracker(dist, 5, hit_counter_max=8, initialization_delay=3, reid_distance_function=reid,
            reid_distance_threshold=1000, reid_hit_counter_max=50)
for _ in range(4): t.update([det(0)], period=1)
for _ in range(12): t.update([])
t.update([det(200)], period=2)
t.update([det(200)], period=2)
r = t.get_active_objects()
assert len(r) == 1 and r[0].id == 1, r
assert r[0].hit_counter == 2, r[0].hit_counter
''')

bug("c02-counter-floor", "C02",
    [(T, "        self.hit_counter -= 1\n        self.point_hit_counter -= 1", "        self.hit_counter = max(self.hit_counter - 1, -1)\n        self.point_hit_counter -= 1")],
    "an object kept hidden for several updates by re-identification",
    "the hit counter stops falling once it is negative",
    HEAD_TRK + '''
t = Tracker(dist, 5, hit_counter_max=3, initialization_delay=1, reid_distance_function=reid,
            reid_distance_threshold=1, reid_hit_counter_max=50)
for _ in range(4): t.update([det(0)])
o = t.get_active_objects()[0]
h = o.hit_counter
for k in range(8):
    t.update([])
    assert o.hit_counter == h - 1 - k, (k, o.hit_counter)
''')

bug("c02-init-at-birth", "C02",
    [(T, "        self.is_initializing: bool = self.hit_counter <= self.initialization_delay\n",
      "        self.is_initializing: bool = self.initialization_delay > 0\n")],
    "an object born in an update whose period exceeds the (positive) initialisation delay",
    "an object whose counter already exceeds the delay is not initialised",
    HEAD_TRK + '''
t = Tracker(dist, 5, hit_counter_max=10, initialization_delay=2)
r = t.update([det(0)], period=3)
assert len(r) == 1 and r[0].id == 1, r
''')

bug("c03-no-initializing-id", "C03",
    [(T, "        self.initializing_id: Optional[int] = self._obj_factory.get_initializing_id()\n",
      "        self.initializing_id: Optional[int] = (\n            self._obj_factory.get_initializing_id() if self.is_initializing else None\n        )\n")],
    "objects that are initialised as soon as they are created",
    "objects initialised at birth have no initialising id",
    HEAD_TRK + '''
t = Tracker(dist, 5, hit_counter_max=3, initialization_delay=0)
r = t.update([det(0), det(100)])
ids = [o.initializing_id for o in r]
assert None not in ids and len(set(ids)) == 2, ids
''')

bug("c04-below-or-equal", "C04",
    [(T, "            while current_min < distance_threshold:\n", "            while current_min <= distance_threshold < np.inf or current_min < distance_threshold:\n")],
    "a pair whose distance is exactly the threshold",
    "matching returns pairs that are not strictly below the threshold",
    HEAD_TRK + '''
t = Tracker(dist, 1.0)
c, o = t.match_dets_and_objs(np.array([[1.0, 3.0], [2.0, 0.5]]), 1.0)
assert (list(map(int, c)), list(map(int, o))) == ([1], [1]), (c, o)
''')

bug("c04-rounded-argmin", "C04",
    [(T, "                flattened_arg_min = distance_matrix.argmin()\n", "                flattened_arg_min = distance_matrix.round(3).argmin()\n")],
    "two distances that differ by less than a thousandth, one of them possibly not below the threshold",
    "the greedy choice takes a pair of larger distance before the smallest one",
    HEAD_TRK + '''
t = Tracker(dist, 1.0)
c, o = t.match_dets_and_objs(np.array([[0.5004, 0.5001]]), 1.0)
assert [int(x) for x in o] == [1], (c, o)
c, o = t.match_dets_and_objs(np.array([[1.0002, 0.9999]]), 1.0)
assert [int(x) for x in o] == [1], (c, o)
''')

bug("c05-dead-initializing", "C05",
    [(T, "            [o for o in alive_objects if o.is_initializing],\n", "            [o for o in self.tracked_objects if o.is_initializing],\n")],
    "re-identification on and an initialising object whose hit counter has run out",
    "a detection is matched to an object whose hit counter had already run out",
    HEAD_TRK + '''
t = Tracker(dist, 5, hit_counter_max=6, initialization_delay=4, reid_distance_function=reid,
            reid_distance_threshold=1, reid_hit_counter_max=50)
t.update([det(0)])
o = t.tracked_objects[0]
for _ in range(4): t.update([])
assert o.hit_counter < 0
d = det(0)
t.update([d])
assert o.last_detection is not d
''')

bug("c06-unlabeled-stops-row", "C06",
    [(D, '                        print("\\nThere are detections with and without label!")\n                    continue\n',
      '                        print("\\nThere are detections with and without label!")\n                        break\n                    continue\n')],
    "an unlabelled object listed before an object with the candidate's label (or the other way round)",
    "pairs with equal labels are left at infinity",
    '''
from types import SimpleNamespace as N
from norfair.distances import ScalarDistance
sd = ScalarDistance(lambda c, o: 3.0)
m = sd.get_distances([N(label=None), N(label="a")], [N(label="a")])
assert np.isinf(m[0, 0]) and m[0, 1] == 3.0, m
''')

bug("c06-half-precision", "C06",
    [(D, "            (len(candidates), len(objects)),\n            fill_value=np.inf,\n            dtype=np.float32,\n        )\n        if not objects or not candidates:\n            return distance_matrix\n\n",
      "            (len(candidates), len(objects)),\n            fill_value=np.inf,\n            dtype=np.float16,\n        )\n        if not objects or not candidates:\n            return distance_matrix\n\n")],
    "distances beyond the range of half precision",
    "vectorized distances above 65504 become infinite, and others lose their value",
    '''
from types import SimpleNamespace as N
from norfair.distances import VectorizedDistance
vd = VectorizedDistance(lambda c, o: np.array([[70000.0]]))
p = np.zeros((1, 2))
m = vd.get_distances([N(label=None, estimate=p)], [N(label=None, estimate=p)])
assert m[0, 0] == 70000.0, m
''')

bug("c06-first-candidate-type", "C06",
    [(D, '                    if "Detection" in str(type(c)):\n', '                    if "Detection" in str(type(candidates[0])):\n')],
    "candidates of mixed kinds, detections and tracked objects",
    "the distance of a candidate is computed from the wrong points",
    '''
from norfair.distances import VectorizedDistance
class FakeDetection:
    def __init__(s, p): s.label, s.points, s.estimate = None, np.array([[p]]), np.array([[999.0]])
class Obj:
    def __init__(s, p): s.label, s.points, s.estimate = None, np.array([[888.0]]), np.array([[p]])
vd = VectorizedDistance(lambda c, o: np.abs(c[:, None, 0] - o[None, :, 0]))
m = vd.get_distances([Obj(1.0)], [FakeDetection(2.0), Obj(5.0)])
assert m.tolist() == [[1.0], [4.0]], m
''')

bug("c07-manhattan-3d", "C07",
    [(D, "    return np.linalg.norm(\n        detection.points - tracked_object.estimate, ord=1, axis=1\n    ).mean()\n",
      "    return 2 * np.abs(detection.points - tracked_object.estimate).mean()\n")],
    "points with three coordinates",
    "mean manhattan is wrong for three-dimensional points",
    '''
from types import SimpleNamespace as N
from norfair.distances import mean_manhattan
a, b = np.array([[0.0, 0.0, 0.0]]), np.array([[1.0, 2.0, 3.0]])
assert abs(mean_manhattan(N(points=a), N(estimate=b)) - 6) < 1e-9
''')

bug("c08-clip-after-product", "C08",
    [(D, "    area_intersection = np.prod(\n        np.clip(bottom_right - top_left, a_min=0, a_max=None), 2\n    )\n",
      "    area_intersection = np.clip(np.prod(bottom_right - top_left, 2), a_min=0, a_max=None)\n")],
    "boxes that are apart on both axes",
    "boxes that do not overlap get a distance below one",
    '''
from norfair.distances import iou
m = iou(np.array([[0.0, 0.0, 1.0, 1.0]]), np.array([[3.0, 3.0, 4.0, 4.0], [3.0, 0.0, 4.0, 1.0]]))
assert np.allclose(m, 1), m
''')

bug("c09-masked-noise", "C09",
    [(F, "        self.vel_variance += self.q_Q - np.multiply(\n            diagonal,\n            np.multiply(\n                np.square(vel_var_plus_pos_vel_cov_over_added_variances),\n                added_variances,\n            ),\n        )\n",
      "        self.vel_variance += np.multiply(\n            diagonal,\n            self.q_Q\n            - np.multiply(\n                np.square(vel_var_plus_pos_vel_cov_over_added_variances),\n                added_variances,\n            ),\n        )\n")],
    "a coordinate masked out of an update",
    "a masked coordinate's velocity variance misses the process noise",
    '''
from norfair.filter import OptimizedKalmanFilterFactory
f = OptimizedKalmanFilterFactory(Q=0.5).create_filter(np.array([[1.0, 2.0]]))
v = f.vel_variance.copy()
f.predict(); f.update(np.array([[1.0], [2.0]]), None, np.array([[1.0, 0, 0, 0], [0, 0.0, 0, 0]]))
assert abs(f.vel_variance[1, 0] - (v[1, 0] + 0.5)) < 1e-12, f.vel_variance
''')

bug("c09-scalar-r", "C09",
    [(F, "            kalman_r = np.diagonal(R).reshape((self.dim_z, 1))\n", "            kalman_r = np.full((self.dim_z, 1), R[0, 0])\n")],
    "a measurement noise matrix with different variances per coordinate",
    "coordinates are updated with another coordinate's measurement noise",
    '''
from norfair.filter import OptimizedKalmanFilterFactory
def run(R):
    f = OptimizedKalmanFilterFactory().create_filter(np.array([[0.0, 0.0]]))
    f.predict(); f.update(np.array([[1.0], [1.0]]), R, None)
    return f.x
a = run(np.diag([1.0, 50.0])); b = run(np.diag([50.0, 50.0]))
assert abs(a[1, 0] - b[1, 0]) < 1e-9, (a, b)
''')

bug("c10-filterpy-p", "C10",
    [(F, "        filter.P[dim_z:, dim_z:] *= self.P\n", "        filter.P[:dim_z, :dim_z] *= self.P\n")],
    "a configured P",
    "P scales the position block of the initial covariance, not the velocity block",
    '''
from norfair.filter import FilterPyKalmanFilterFactory
f = FilterPyKalmanFilterFactory(P=7.0).create_filter(np.array([[1.0, 2.0]]))
assert np.allclose(np.diag(f.P), [1, 1, 7, 7]), f.P
''')

bug("c11-score-equal", "C11",
    [(T, "            points_over_threshold_mask = detection.scores > self.detection_threshold\n", "            points_over_threshold_mask = detection.scores >= self.detection_threshold\n")],
    "a score exactly at a configured detection threshold",
    "a point whose score does not exceed the threshold moves the estimate",
    HEAD_TRK + '''
t = Tracker(lambda d, o: 0.0, 10, hit_counter_max=6, initialization_delay=1, detection_threshold=0.5)
pts = lambda v: np.array([[0.0, 0.0], [v, v]])
for _ in range(4): t.update([Detection(pts(10.0), scores=np.array([1.0, 1.0]))])
t.update([Detection(pts(50.0), scores=np.array([1.0, 0.5]))])
e = t.get_active_objects()[0].estimate
assert np.allclose(e[1], 10.0), e
''')

bug("c11-forget-seen", "C11",
    [(T, "        self.detected_at_least_once_points = np.logical_or(\n            self.detected_at_least_once_points, points_over_threshold_mask\n        )\n",
      "        self.detected_at_least_once_points = points_over_threshold_mask\n")],
    "a point that is seen, then missed, then seen again",
    "a point seen before takes the measured position instead of being filtered",
    HEAD_TRK + '''
t = Tracker(lambda d, o: 0.0, 10, hit_counter_max=6, initialization_delay=1, detection_threshold=0.5)
pts = lambda v: np.array([[0.0, 0.0], [v, v]])
for _ in range(4): t.update([Detection(pts(10.0), scores=np.array([1.0, 1.0]))])
t.update([Detection(pts(10.0), scores=np.array([1.0, 0.1]))])
t.update([Detection(pts(30.0), scores=np.array([1.0, 1.0]))])
e = t.get_active_objects()[0].estimate
assert abs(e[1, 0] - 30.0) > 0.5, e
''')

bug("c12-no-period-max", "C12",
    [(T, "        self.pointwise_hit_counter_max: int = max(pointwise_hit_counter_max, period)\n", "        self.pointwise_hit_counter_max: int = pointwise_hit_counter_max\n")],
    "an object created with a period larger than the configured pointwise maximum",
    "point counters are capped below the creation period",
    HEAD_TRK + '''
t = Tracker(dist, 10, hit_counter_max=20, initialization_delay=1, pointwise_hit_counter_max=2)
for _ in range(3): t.update([det(0)], period=5)
assert t.get_active_objects()[0].point_hit_counter.tolist() == [5]
''')

bug("c12-clip-before-raise", "C12",
    [(T, "        if detection.scores is not None:\n            assert len(detection.scores.shape) == 1\n", "        self.point_hit_counter[self.point_hit_counter < 0] = 0\n        if detection.scores is not None:\n            assert len(detection.scores.shape) == 1\n"),
     (T, "        self.point_hit_counter[self.point_hit_counter < 0] = 0\n        H_vel = np.zeros(H_pos.shape)", "        H_vel = np.zeros(H_pos.shape)")],
    "an object unmatched for more updates than its points had left, then matched",
    "a point is revived too early by a single match",
    HEAD_TRK + '''
t = Tracker(dist, 10, hit_counter_max=20, initialization_delay=1, pointwise_hit_counter_max=2)
for _ in range(20): t.update([det(0)])
for _ in range(9): t.update([])
t.update([det(0)])
o = t.get_active_objects()[0]
assert o.point_hit_counter.tolist() == [0] and not o.live_points.any(), o.point_hit_counter
''')

bug("c13-strict-age", "C13",
    [(T, "        elif self.age >= self.past_detections[0].age * self.past_detections_length:\n", "        elif self.age > self.past_detections[0].age * self.past_detections_length:\n")],
    "an object whose age is exactly the oldest stored age times the configured length",
    "a detection that should replace the oldest one is not stored",
    HEAD_TRK + '''
t = Tracker(dist, 10, hit_counter_max=6, initialization_delay=1, past_detections_length=2)
hist = []
for k in range(12):
    t.update([det(0)])
    o = t.tracked_objects[0]
    hist.append([d.age for d in o.past_detections])
ages = [0]
for age in range(1, 12):
    if len(ages) < 2: ages.append(age)
    elif age >= ages[0] * 2: ages = ages[1:] + [age]
    assert hist[age] == ages, (age, hist[age], ages)
''')

bug("c13-zero-length", "C13",
    [(T, "        if past_detections_length > 0:\n", "        if past_detections_length >= 0:\n")],
    "past_detections_length of zero",
    "an object remembers a detection although none may be stored",
    HEAD_TRK + '''
t = Tracker(dist, 10, past_detections_length=0)
for _ in range(3): t.update([det(0)])
assert len(t.tracked_objects[0].past_detections) == 0
''')

bug("c14-countdown-kept", "C14",
    [(T, "        self.last_detection = detection\n        self.reid_hit_counter = None\n", "        countdown, self.last_detection = self.reid_hit_counter, detection\n        self.reid_hit_counter = countdown if self.is_initializing else None\n")],
    "re-identification on and an initialising object matched in the update in which its counter falls below zero",
    "a matched object is destroyed by its countdown",
    HEAD_TRK + '''
t = Tracker(dist, 5, hit_counter_max=9, initialization_delay=6, reid_distance_function=reid,
            reid_distance_threshold=1, reid_hit_counter_max=2)
t.update([det(0)])
o = t.tracked_objects[0]
t.update([])
for k in range(6):
    t.update([det(0)])
    assert o in t.tracked_objects, k
assert o.reid_hit_counter is None
''')

bug("c14-seen-union", "C14",
    [(T, "        self.detected_at_least_once_points = (\n            tracked_object.detected_at_least_once_points\n        )\n        self.filter",
      "        self.detected_at_least_once_points = np.logical_or(\n            self.detected_at_least_once_points,\n            tracked_object.detected_at_least_once_points,\n        )\n        self.filter")],
    "re-identification with an object that has not seen all of its points yet",
    "the object does not take over the point state of the absorbed one",
    HEAD_TRK + '''
mk = lambda x, s: Detection(np.array([[x, 0.0], [x, 5.0]]), scores=np.array(s))
t = Tracker(lambda d, o: float(abs(d.points[0, 0] - o.estimate[0, 0])), 5, hit_counter_max=6, initialization_delay=1, detection_threshold=0.5,
            reid_distance_function=lambda a, b: 0.0, reid_distance_threshold=1, reid_hit_counter_max=50)
for _ in range(4): t.update([mk(0.0, [1.0, 1.0])])
for _ in range(8): t.update([])
for _ in range(2): t.update([mk(100.0, [1.0, 0.1])])
o = t.get_active_objects()
assert len(o) == 1 and o[0].id == 1
assert o[0].detected_at_least_once_points.tolist() == [True, False], o[0].detected_at_least_once_points
''')

bug("c15-shared-scale", "C15",
    [(CM, "        last_column = points_transformed[:, -1]\n        last_column[last_column == 0] = 0.0000001\n        points_transformed = points_transformed / last_column.reshape(-1, 1)\n        return points_transformed[:, :2]\n",
      "        last_column = points_transformed[:, -1]\n        last_column[last_column == 0] = 0.0000001\n        points_transformed = points_transformed / last_column.mean()\n        return points_transformed[:, :2]\n")],
    "several points and a homography with a perspective part",
    "points are not transformed independently of each other",
    '''
from norfair.camera_motion import HomographyTransformation
h = HomographyTransformation(np.array([[1.0, 0, 2], [0, 1, 3], [0.01, 0.002, 1]]))
p = np.array([[1.0, 2.0], [30.0, 40.0]])
assert np.allclose(h.rel_to_abs(h.abs_to_rel(p)), p)
''')

bug("c15-in-place", "C15",
    [(CM, "    def abs_to_rel(self, points: np.ndarray):\n        return points + self.movement_vector\n", "    def abs_to_rel(self, points: np.ndarray):\n        points = np.asarray(points, dtype=float)\n        points += self.movement_vector\n        return points\n")],
    "a float array of points that is used again after the transformation",
    "the input array is modified",
    '''
from norfair.camera_motion import TranslationTransformation
p = np.array([[1.0, 2.0]])
TranslationTransformation(np.array([5.0, 5.0])).abs_to_rel(p)
assert p.tolist() == [[1.0, 2.0]], p
''')

bug("c16-only-alive", "C16",
    [(T, "        for obj in self.tracked_objects:\n            obj.tracker_step()\n            obj.update_coordinate_transformation(coord_transformations)\n",
      "        for obj in self.tracked_objects:\n            obj.tracker_step()\n        for obj in alive_objects:\n            obj.update_coordinate_transformation(coord_transformations)\n")],
    "camera motion while an object is hidden by re-identification",
    "the relative estimate of a hidden object uses an outdated transformation",
    HEAD_TRK + '''
from norfair.camera_motion import TranslationTransformation as TT
seen = []
def rd(new, old):
    seen.append(old.estimate.copy()); return 1e9
t = Tracker(dist, 5, hit_counter_max=3, initialization_delay=1, reid_distance_function=rd,
            reid_distance_threshold=1, reid_hit_counter_max=50)
for _ in range(4): t.update([det(0)], coord_transformations=TT(np.array([0.0, 0.0])))
o = t.get_active_objects()[0]
for k in range(8): t.update([], coord_transformations=TT(np.array([10.0 * k, 0.0])))
assert np.allclose(o.estimate, o.get_estimate(absolute=True) + [70.0, 0.0]), (o.estimate, o.get_estimate(absolute=True))
''')

bug("c16-first-transformation", "C16",
    [(T, "        if coordinate_transformation is not None:\n            self.abs_to_rel = coordinate_transformation.abs_to_rel\n",
      "        if coordinate_transformation is not None and (\n            self.abs_to_rel is None or self.hit_counter >= 0\n        ):\n            self.abs_to_rel = coordinate_transformation.abs_to_rel\n")],
    "an object whose counter turns negative while the camera moves",
    "the relative estimate does not use the latest transformation",
    HEAD_TRK + '''
from norfair.camera_motion import TranslationTransformation as TT
t = Tracker(dist, 500, hit_counter_max=3, initialization_delay=0)
t.update([det(0)], coord_transformations=TT(np.array([0.0, 0.0])))
o = t.get_active_objects()[0]
t.update([], coord_transformations=TT(np.array([0.0, 0.0])))
t.update([det(50)], coord_transformations=TT(np.array([50.0, 0.0])))
assert o.hit_counter == 1, o
assert np.allclose(o.estimate, o.get_estimate(absolute=True) + [50.0, 0.0]), o.estimate
''')

bug("c25-rank-four", "C25",
    [(U, "    elif len(points.shape) > 2:\n", "    elif len(points.shape) == 3:\n")],
    "a points array of rank four or more",
    "an array of higher rank is accepted",
    '''
from norfair import Detection
try:
    Detection(np.zeros((1, 1, 1, 2)))
except ValueError:
    pass
else:
    raise SystemExit("accepted")
''')

bug("c25-delay-rounding", "C25",
    [(T, "            self.initialization_delay = int(self.hit_counter_max / 2)\n", "            self.initialization_delay = int(self.hit_counter_max / 2 + 0.25) if self.hit_counter_max > 2 else 1\n")],
    "a hit counter maximum of one with the default delay",
    "the default delay is not half the maximum rounded down",
    '''
from norfair import Tracker
for m in range(1, 40):
    assert Tracker("euclidean", 1, hit_counter_max=m).initialization_delay == m // 2, m
''')

bug("c26-shared-variance", "C26",
    [(F, "class OptimizedKalmanFilter:\n", "@lru_cache(maxsize=None)\ndef _initial_variance(dim_z, value):\n    return np.zeros((dim_z, 1)) + value\n\n\nclass OptimizedKalmanFilter:\n"),
     (F, "import numpy as np\nfrom filterpy", "from functools import lru_cache\n\nimport numpy as np\nfrom filterpy"),
     (F, "        self.vel_variance = np.zeros((dim_z, 1)) + vel_variance\n", "        self.vel_variance = _initial_variance(dim_z, vel_variance)\n")],
    "two trackers (or objects) with filters of the same size and settings",
    "updates of one tracker change the estimates of another",
    '''
from norfair import Detection, Tracker
def run(other):
    t = Tracker("euclidean", 1000, initialization_delay=0, hit_counter_max=5)
    u = Tracker("euclidean", 1000, initialization_delay=0, hit_counter_max=5)
    for k in range(6):
        t.update([Detection(np.array([[3.0 * k * k, 0.0, 7.0]]))])
        if other:
            u.update([Detection(np.array([[50.0 * k, 0.0, -7.0]]))])
    return t.get_active_objects()[0].estimate
a = run(False)
b = run(True)
assert np.array_equal(a, b), (a, b)
''')

bug("c26-zeroes-scores", "C26",
    [(T, "            points_over_threshold_mask = detection.scores > self.detection_threshold\n",
      "            points_over_threshold_mask = detection.scores > self.detection_threshold\n            detection.scores[np.logical_not(points_over_threshold_mask)] = 0\n")],
    "a matched detection with a positive score under the threshold",
    "the caller's scores array is overwritten",
    HEAD_TRK + '''
t = Tracker(dist, 10, initialization_delay=0, hit_counter_max=3, detection_threshold=0.5)
t.update([det(0, scores=np.array([1.0]))])
s = np.array([0.25])
t.update([det(0, scores=s)])
assert s[0] == 0.25, s
''')

bug("c27-border", "C27",
    [(U, "    return image[min_y:max_y, min_x:max_x]\n", "    height, width = image.shape[:2]\n    return image[min_y : min(max_y, height - 1), min_x : min(max_x, width - 1)]\n")],
    "points that reach the right or bottom border of the image",
    "the last row or column inside the box is cut off",
    '''
from norfair.utils import get_cutout
img = np.arange(30).reshape(5, 6)
c = get_cutout(np.array([[2.0, 1.0], [6.0, 5.0]]), img)
assert np.array_equal(c, img[1:5, 2:6]), c
''')

bug("c01-list-before-creation", "C01",
    [(T, "        # Create new tracked objects from remaining unmatched detections\n", "        active_objects = self.get_active_objects()\n        # Create new tracked objects from remaining unmatched detections\n"),
     (T, "        return self.get_active_objects()\n\n    @property\n    def current_object_count", "        return active_objects\n\n    @property\n    def current_object_count")],
    "an object initialised in the very update that creates it",
    "update returns a list that misses objects the accessor reports",
    HEAD_TRK + '''
t = Tracker(dist, 10, hit_counter_max=5, initialization_delay=2)
t.update([det(0)])
r = t.update([det(0), det(100)], period=3)
assert [o.id for o in r] == [o.id for o in t.get_active_objects()] and len(r) == t.current_object_count == 2, r
''')

bug("c01-absorbed-stays", "C01",
    [(T, "                            self.tracked_objects.remove(matched_candidate)\n",
      "                            if not matched_candidate.is_initializing:\n                                self.tracked_objects.remove(matched_candidate)\n")],
    "re-identification absorbs an object that is still initialising",
    "an absorbed object stays in the tracker and is reported later",
    HEAD_TRK + '''
t = Tracker(dist, 5, hit_counter_max=9, initialization_delay=4, reid_distance_function=reid,
            reid_distance_threshold=1000, reid_hit_counter_max=50)
for _ in range(8): t.update([det(0)])
for _ in range(12): t.update([])
for _ in range(2): t.update([det(200)])
assert len(t.tracked_objects) == 1, t.tracked_objects
for _ in range(6): t.update([det(200)])
assert [o.id for o in t.get_active_objects()] == [1]
''')

bug("c03-global-reset", "C03",
    [(T, "        self.count = 0\n        self.initializing_count = 0\n", "        self.count = 0\n        self.initializing_count = 0\n        _TrackedObjectFactory.global_count = 0\n")],
    "a tracker created after another one has already given out ids",
    "global ids repeat across trackers",
    HEAD_TRK + '''
a = Tracker(dist, 5, hit_counter_max=3, initialization_delay=0)
ga = a.update([det(0)])[0].global_id
b = Tracker(dist, 5, hit_counter_max=3, initialization_delay=0)
gb = b.update([det(0)])[0].global_id
assert ga != gb, (ga, gb)
''')

bug("c03-merge-global-id", "C03",
    [(T, "        self.filter = tracked_object.filter\n",
      "        self.filter, self.global_id = (\n            tracked_object.filter,\n            tracked_object.global_id or self.global_id,\n        )\n")],
    "the object absorbed by re-identification became initialised in the same update",
    "a re-identified object changes its global id",
    HEAD_TRK + '''
t = Tracker(dist, 5, hit_counter_max=6, initialization_delay=1, reid_distance_function=reid,
            reid_distance_threshold=1000, reid_hit_counter_max=50)
for _ in range(4): t.update([det(0)])
o = t.get_active_objects()[0]
g = o.global_id
for _ in range(8): t.update([])
t.update([det(200)]); t.update([det(200)]); t.update([det(200)])
assert t.get_active_objects() == [o] and o.global_id == g, (o.global_id, g)
''')

bug("c05-nan-first-row", "C05",
    [(T, "            if np.isnan(distance_matrix).any():", "            if np.isnan(distance_matrix[0]).any():")],
    "a distance that is NaN for a detection other than the first",
    "distances containing NaN are not rejected",
    HEAD_TRK + '''
def bad(d, o):
    return float("nan") if d.points[0, 0] > 50 else 1.0
t = Tracker(bad, 10, initialization_delay=0, hit_counter_max=4)
t.update([det(0), det(100)])
try:
    t.update([det(0), det(100)])
except ValueError:
    pass
else:
    raise AssertionError("NaN distance accepted")
''')

bug("c07-distance-threshold", "C07",
    [(D, "            (distances < keypoint_distance_threshold)\n", "            (distances <= keypoint_distance_threshold)\n")],
    "a point at exactly the distance threshold",
    "points that are not closer than the threshold vote",
    '''
from types import SimpleNamespace as N
from norfair.distances import create_keypoints_voting_distance
f = create_keypoints_voting_distance(5, 0.5)
s = np.array([0.9, 0.9])
o = N(estimate=np.array([[0.0, 0.0], [0.0, 0.0]]), last_detection=N(scores=s))
assert f(N(points=np.array([[3.0, 4.0], [0.0, 0.0]]), scores=s), o) == 0.5
''')

bug("c08-rank-unchecked", "C08",
    [(D, "        and len(bboxes.shape) == 2\n        and bboxes.shape[1] == 4\n", "        and bboxes.shape[1] == 4\n")],
    "candidates of rank three whose second dimension is four",
    "malformed candidates are not rejected with an assertion error",
    '''
from norfair.distances import iou
try:
    iou(np.ones((2, 4, 2)), np.array([[0.0, 0.0, 1.0, 1.0]]))
except AssertionError:
    pass
except Exception as e:
    raise SystemExit(f"not an assertion error: {e!r}")
else:
    raise SystemExit("accepted")
''')

bug("c10-nofilter-all-or-nothing", "C10",
    [(F, "            diagonal = np.diagonal(H).reshape((self.dim_z, 1))\n            one_minus_diagonal = 1 - diagonal\n\n            detection_points_flatten",
      "            diagonal = np.diagonal(H).reshape((self.dim_z, 1))\n            one_minus_diagonal = 1 - diagonal.min() * np.ones(diagonal.shape)\n\n            detection_points_flatten")],
    "a partial measurement",
    "measured coordinates report the measurement plus their old value",
    '''
from norfair.filter import NoFilterFactory
f = NoFilterFactory().create_filter(np.array([[1.0, 2.0]]))
f.predict(); f.update(np.array([[3.0], [4.0]]), None, np.array([[1.0, 0, 0, 0], [0, 0.0, 0, 0]]))
assert f.x[:2, 0].tolist() == [3.0, 2.0], f.x
''')

bug("c14-hidden-first", "C14",
    [(T, "                unmatched_init_trackers + dead_objects,\n", "                dead_objects or unmatched_init_trackers,\n")],
    "a hidden object and an unmatched initialised one at the same time",
    "an unmatched initialised object below the re-identification threshold is not revived",
    HEAD_TRK + '''
t = Tracker(dist, 5, hit_counter_max=6, initialization_delay=1, reid_distance_function=lambda a, b: reid(a, b),
            reid_distance_threshold=30, reid_hit_counter_max=50)
for _ in range(4): t.update([det(1000)])
for _ in range(7): t.update([])
for _ in range(5): t.update([det(0)])
o = [x for x in t.get_active_objects() if x.id == 2][0]
t.update([]); t.update([det(20)]); t.update([det(20)])
assert [x.id for x in t.get_active_objects()] == [2], t.get_active_objects()
assert abs(o.estimate[0, 0] - 20) < 1, o.estimate
''')

bug("c07-vote-either-score", "C07",
    [(D, "            * (detection.scores > detection_threshold)\n", "            * (np.maximum(detection.scores, 0.5 * detection_threshold) >= detection_threshold)\n")],
    "a detection score exactly at the threshold",
    "points whose detection score does not exceed the threshold vote",
    '''
from types import SimpleNamespace as N
from norfair.distances import create_keypoints_voting_distance
f = create_keypoints_voting_distance(5, 0.25)
p = np.zeros((2, 2))
o = N(estimate=p, last_detection=N(scores=np.array([0.9, 0.9])))
assert f(N(points=p, scores=np.array([0.25, 1.0])), o) == 0.5
''')

bug("c07-normalized-in-place", "C07",
    [(D, "        difference = (detection.points - tracked_object.estimate).astype(float)\n", "        difference = np.asarray(detection.points, dtype=float)\n        difference -= tracked_object.estimate\n")],
    "a detection with a float array of points that is used again",
    "the normalised distance modifies the detection",
    '''
from types import SimpleNamespace as N
from norfair.distances import create_normalized_mean_euclidean_distance
f = create_normalized_mean_euclidean_distance(10, 20)
d, o = N(points=np.array([[3.0, 4.0]])), N(estimate=np.array([[1.0, 1.0]]))
a = f(d, o); b = f(d, o)
assert a == b and d.points.tolist() == [[3.0, 4.0]], (a, b, d.points)
''')
