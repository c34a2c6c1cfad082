"""Planted bugs for C28."""
from plants1 import HEAD_TRK
T = "norfair/tracker.py"
P = []


def bug(bid, prop, edits, needs, breaks, demo):
    P.append((bid, prop, edits, needs, breaks, demo))


COUNT = HEAD_TRK + '''
from norfair.filter import FilterFactory
class F:
    def __init__(self, p):
        self.n = p.size
        self.x = np.zeros((2 * p.size, 1)); self.x[: p.size, 0] = p.reshape(-1)
        self.p = self.u = 0
    def predict(self):
        self.p += 1
        self.x[: self.n] += self.x[self.n:]
    def update(self, z, R=None, H=None):
        self.u += 1
        self.x[: self.n] = z
class Fac(FilterFactory):
    def create_filter(self, initial_detection):
        return F(initial_detection)
'''
bug("c28-hidden-not-advanced", "C28",
    [(T, "        # Advances the tracker's state\n        self.filter.predict()\n",
      "        # Advances the tracker's state\n        if self.hit_counter_is_positive or self.is_initializing:\n            self.filter.predict()\n")],
    "re-identification on and an object that is hidden for some updates",
    "the position of a hidden object is not advanced",
    COUNT + '''
t = Tracker(dist, 5, hit_counter_max=3, initialization_delay=0, reid_distance_function=reid, reid_distance_threshold=1,
            reid_hit_counter_max=6, filter_factory=Fac())
t.update([det(0)])
for k in range(1, 6):
    t.update([])
    assert t.tracked_objects[0].filter.p == k, (k, t.tracked_objects[0].filter.p)
''')
bug("c28-skipped-frames-predicted", "C28",
    [(T, "        self._conditionally_add_to_past_detections(detection)\n\n        self.last_detection = detection\n",
      "        self._conditionally_add_to_past_detections(detection)\n\n        if period > self.initial_period:\n            self.filter.predict()\n        self.last_detection = detection\n")],
    "a period that grows after the object was created",
    "the filter is advanced twice in an update",
    COUNT + '''
t = Tracker(dist, 5, hit_counter_max=9, initialization_delay=0, filter_factory=Fac())
t.update([det(0)], period=1)
t.update([det(0)], period=3)
assert t.tracked_objects[0].filter.p == 1, t.tracked_objects[0].filter.p
''')
bug("c28-merge-corrects", "C28",
    [(T, "        self.filter = tracked_object.filter\n",
      "        self.filter = tracked_object.filter\n        self.filter.update(\n            np.expand_dims(tracked_object.last_detection.absolute_points.flatten(), 0).T\n        )\n")],
    "re-identification",
    "the filter handed over is corrected a second time with the same detection",
    COUNT + '''
t = Tracker(dist, 5, hit_counter_max=4, initialization_delay=1, reid_distance_function=reid, reid_distance_threshold=1000,
            reid_hit_counter_max=9, filter_factory=Fac())
for _ in range(3): t.update([det(0)])
for _ in range(6): t.update([])
t.update([det(100)])
new = [o for o in t.tracked_objects if o.age == 0][0].filter
t.update([det(100)])
assert len(t.tracked_objects) == 1 and t.tracked_objects[0].filter is new
assert new.u == 1 and new.p == 1, (new.u, new.p)
''')
bug("c28-velocity-of-ages", "C28",
    [(T, "        return self.filter.x.T.flatten()[self.dim_z :].reshape(-1, self.dim_points)\n",
      "        velocity = self.filter.x[self.dim_z :]\n        return velocity.reshape(self.num_points, -1, order=\"F\" if self.num_points == 1 else \"A\")\n")],
    "a filter whose state is laid out column by column in memory and several points",
    "the velocities of the points are mixed up",
    COUNT + '''
class G(F):
    def __init__(self, p):
        super().__init__(p)
        m = np.asfortranarray(np.zeros((2 * p.size, 1)))
        m[:] = self.x
        m[p.size:, 0] = np.arange(p.size)
        self.x = m
class Fac2(FilterFactory):
    def create_filter(self, initial_detection):
        return G(initial_detection)
t = Tracker(dist, 5, filter_factory=Fac2(), initialization_delay=0)
t.update([Detection(np.array([[1., 2.], [3., 4.], [5., 6.]]))])
v = t.tracked_objects[0].estimate_velocity
assert v.tolist() == [[0., 1.], [2., 3.], [4., 5.]], v
''')
bug("c28-late-step", "C28",
    [(T, "        for obj in self.tracked_objects:\n            obj.tracker_step()\n            obj.update_coordinate_transformation(coord_transformations)\n",
      "        for obj in self.tracked_objects:\n            obj.tracker_step()\n            if obj in dead_objects and detections:\n                obj.filter.predict()\n            obj.update_coordinate_transformation(coord_transformations)\n")],
    "re-identification on, a hidden object, and detections in the update",
    "hidden objects are advanced twice when there are detections",
    COUNT + '''
t = Tracker(dist, 5, hit_counter_max=3, initialization_delay=0, reid_distance_function=reid, reid_distance_threshold=1,
            reid_hit_counter_max=6, filter_factory=Fac())
t.update([det(0)])
old = t.tracked_objects[0].filter
for k in range(1, 6):
    t.update([det(500)])
    assert old.p == k, (k, old.p)
''')
