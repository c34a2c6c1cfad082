"""Planted bugs for C17-C24: (id, property, edits, needs, breaks, demo)."""
CM, FC, MT, VD = "norfair/camera_motion.py", "norfair/drawing/fixed_camera.py", "norfair/metrics.py", "norfair/video.py"
COL, DP, DB, DR, UT, PA = ("norfair/drawing/color.py", "norfair/drawing/draw_points.py", "norfair/drawing/draw_boxes.py",
                           "norfair/drawing/drawer.py", "norfair/drawing/utils.py", "norfair/drawing/path.py")
P = []


def bug(bid, prop, edits, needs, breaks, demo):
    P.append((bid, prop, edits, needs, breaks, demo))


# -- C17 -----------------------------------------------------------------------
bug("c17-homography-order", "C17",
    [(CM, "            homography_matrix = homography_matrix @ self.data\n", "            homography_matrix = self.data @ homography_matrix\n")],
    "a second change of the reference frame, with motions that do not commute (a rotation or zoom after a translation)",
    "the accumulated homography is composed in the wrong order",
    '''
from norfair.camera_motion import HomographyTransformationGetter
rng = np.random.default_rng(0)
def ap(H, p):
    q = np.hstack((p, np.ones((len(p), 1)))) @ H.T
    return q[:, :2] / q[:, 2:]
def rot(a, s, x, y):
    return np.array([[s*np.cos(a), -s*np.sin(a), x], [s*np.sin(a), s*np.cos(a), y], [0, 0, 1.0]])
g = HomographyTransformationGetter(proportion_points_used_threshold=1.1)
p0 = rng.uniform(0, 400, size=(40, 2))
H1, H2 = rot(0.3, 1.2, 30, -10), rot(-0.1, 0.9, -50, 20)
p1 = ap(H1, p0); p2 = ap(H2, p1)
g(p1, p0)
_, t = g(p2, p1)
assert np.allclose(t.abs_to_rel(p0), p2, atol=0.05), np.abs(t.abs_to_rel(p0) - p2).max()
''')

bug("c17-reference-only-first", "C17",
    [(CM, """        try:
            flow_mode += self.data
        except TypeError:
            pass
""", """        if self.data is not None:
            flow_mode = np.around((flow_mode + self.data) / self.bin_size) * self.bin_size
""")],
    "a bin size that differs between the accumulated motion and the flow: two reference changes whose sum is not representable in bins (user sets bin_size between calls)",
    "the accumulated translation is quantised again",
    '''
from norfair.camera_motion import TranslationTransformationGetter
g = TranslationTransformationGetter(bin_size=0.5, proportion_points_used_threshold=1.1)
p = np.arange(20.0).reshape(10, 2)
g(p + [0.5, 1.5], p)
g.bin_size = 2.0
_, t = g(p + [2.0, 4.0], p)
assert np.allclose(t.movement_vector, [2.5, 5.5]), t.movement_vector
''')

bug("c17-mask-of-every-frame", "C17",
    [(CM, """        if update_prvs:
            self.gray_prvs = self.gray_next
            self.prev_pts = None
            self.prev_mask = mask
        else:
            self.prev_pts = prev_pts
""", """        self.prev_mask = mask
        if update_prvs:
            self.gray_prvs = self.gray_next
            self.prev_pts = None
        else:
            self.prev_pts = prev_pts
            if len(prev_pts) < self.max_points // 8:
                self.prev_pts = None
""")],
    "a reference frame kept until most of its points are lost",
    "points are sampled again without moving the reference frame",
    '''
import cv2
from norfair import camera_motion
from norfair.camera_motion import MotionEstimator
samples = []
real = cv2.goodFeaturesToTrack
def good(img, *a, **k):
    samples.append(img.copy())
    return real(img, *a, **k)
cv2.goodFeaturesToTrack = good
class Keep:
    def __call__(self, curr, prev):
        return False, None
f = np.zeros((120, 160, 3), np.uint8)
for x in (20, 60, 100):
    cv2.rectangle(f, (x, 30), (x + 12, 60), (255, 255, 255), -1)
e = MotionEstimator(max_points=200, transformations_getter=Keep())
for k in range(4):
    e.update(np.roll(f, k, axis=1))
assert len(samples) == 1, len(samples)
''')

bug("c17-failure-keeps-reference", "C17",
    [(CM, """            self.transformations_getter = copy.deepcopy(
                self.transformations_getter_copy
            )

""", """            self.transformations_getter = copy.deepcopy(
                self.transformations_getter_copy
            )
            update_prvs = prev_pts is None

""")],
    "an estimation that raises although optical flow was found",
    "the reference frame stays where it is after a failed estimation",
    '''
import cv2
from norfair.camera_motion import MotionEstimator
class Fail:
    n = 0
    def __call__(self, curr, prev):
        Fail.n += 1
        if Fail.n == 2:
            raise ValueError("no")
        return False, None
rng = np.random.default_rng(1)
f = np.zeros((120, 160, 3), np.uint8)
for x in (20, 60, 100):
    cv2.rectangle(f, (x, 30), (x + 12, 60), (255, 255, 255), -1)
e = MotionEstimator(transformations_getter=Fail())
e.update(f)
g = np.roll(f, 5, axis=1)
e.update(g)
assert np.array_equal(e.gray_prvs, cv2.cvtColor(g, cv2.COLOR_BGR2GRAY))
assert e.prev_pts is None
''')

# -- C18 -----------------------------------------------------------------------
bug("c18-centre-rounding", "C18",
    [(FC, "            np.array(self._background.shape[:2]) // 2 - np.array(frame.shape[:2]) // 2\n",
      "            (np.array(self._background.shape[:2]) - np.array(frame.shape[:2])) // 2\n")],
    "an even canvas with an odd frame (the two halves round differently)",
    "the frame is not centred as before: it appears one pixel off",
    '''
from norfair.drawing import FixedCamera
from norfair.camera_motion import TranslationTransformation
T = TranslationTransformation(np.array([0, 0]))
f = np.full((5, 7, 3), 9, np.uint8)
c = FixedCamera(scale=2, attenuation=0.05)
r = c.adjust_frame(f, T)
ys, xs = np.nonzero(r[..., 0])
assert (ys.min(), xs.min()) == (10 // 2 - 5 // 2, 14 // 2 - 7 // 2), (ys.min(), xs.min())
''')

bug("c18-crop-left-top-only", "C18",
    [(FC, """            frame_x1 = max(
                min(background_size_x - background_x0, background_x1 - background_x0), 0
            )
""", """            frame_x1 = max(
                min(background_size_x - max(background_x0, 0), background_x1 - background_x0), 0
            )
""")],
    "a canvas narrower than the frame, or a frame that leaves the canvas on the left while reaching beyond its right edge",
    "rendering fails when both sides have to be cropped",
    '''
from norfair.drawing import FixedCamera
from norfair.camera_motion import TranslationTransformation
c = FixedCamera(scale=0.5)
f = np.arange(20 * 40 * 3).reshape(20, 40, 3).astype(np.uint8)
r = c.adjust_frame(f, TranslationTransformation(np.array([0, 0])))
assert r.shape == (10, 20, 3)
assert np.array_equal(r, f[5:15, 10:30])
''')

bug("c18-in-place-attenuation", "C18",
    [(FC, """            self._background = (self._background * self._attenuation_factor).astype(
                frame.dtype
            )
""", """            np.multiply(
                self._background,
                self._attenuation_factor,
                out=self._background,
                casting="unsafe",
            )
            if background_is_dark(self._background):
                self._background[:] = 0
"""), (FC, "class FixedCamera:\n", "def background_is_dark(background):\n    return background.max(initial=0) <= 1\n\n\nclass FixedCamera:\n")],
    "a canvas whose brightest pixel is 1, and attenuation that would keep it (attenuation 0)",
    "dark canvases are wiped instead of attenuated",
    '''
from norfair.drawing import FixedCamera
from norfair.camera_motion import TranslationTransformation
c = FixedCamera(scale=3, attenuation=0)
f = np.ones((4, 4, 3), np.uint8)
c.adjust_frame(f, TranslationTransformation(np.array([0, 0])))
r = c.adjust_frame(f, TranslationTransformation(np.array([4, 4])))
assert (r == 1).sum() == 2 * 4 * 4 * 3, (r == 1).sum()
''')

# -- C19 -----------------------------------------------------------------------
bug("c19-frame-number-zero", "C19",
    [(MT, "        if frame_number is None:\n            frame_number = self.frame_number\n", "        frame_number = frame_number or self.frame_number\n")],
    "an explicit frame number 0",
    "the given frame number 0 is replaced by the internal counter",
    '''
import tempfile, types
from norfair.metrics import PredictionsTextFile
class Info:
    def search(self, variable_name): return 2
with tempfile.TemporaryDirectory() as d:
    f = PredictionsTextFile(os.path.join(d, "seq"), save_path=d, information_file=Info())
    o = types.SimpleNamespace(id=3, estimate=np.array([[1.0, 2.0], [4.0, 6.0]]))
    f.update([o], frame_number=0)
    f.update([o])
    t = open(os.path.join(d, "predictions", "seq.txt")).read().split("\\n")
    assert t[0].startswith("0,3,"), t
''')

bug("c19-last-frame-open", "C19",
    [(MT, "        if self.frame_number > self.length:\n            self.text_file.close()\n",
      "        if frame_number >= self.length:\n            self.text_file.close()\n")],
    "explicit frame numbers that do not end with the sequence length (every second frame, or in another order)",
    "the file is closed too early or never",
    '''
import tempfile, types
from norfair.metrics import PredictionsTextFile
class Info:
    def search(self, variable_name): return 3
with tempfile.TemporaryDirectory() as d:
    f = PredictionsTextFile(os.path.join(d, "seq"), save_path=d, information_file=Info())
    o = types.SimpleNamespace(id=3, estimate=np.array([[1.0, 2.0], [4.0, 6.0]]))
    for n in (3, 2, 1):
        f.update([o], frame_number=n)
    assert f.text_file.closed
    t = open(os.path.join(d, "predictions", "seq.txt")).read().split()
    assert [x.split(",")[0] for x in t] == ["3", "2", "1"], t
''')

bug("c19-shared-first-row", "C19",
    [(MT, "            if np.shape(self.matrix_predictions)[0] == 0:\n                self.matrix_predictions = np.array([new_row])\n",
      "            if self.frame_number == 1 or np.shape(self.matrix_predictions)[0] == 0:\n                self.matrix_predictions = np.array([new_row])\n")],
    "several objects in the first frame",
    "only the last object of the first frame is kept",
    '''
import types
from norfair.metrics import Accumulators
class Info:
    def search(self, variable_name): return 3
try:
    import motmetrics
except ImportError:
    import norfair.metrics as m
    m.mm = types.SimpleNamespace(metrics=None)
a = Accumulators()
a.create_accumulator("/x/seq", information_file=Info())
o = [types.SimpleNamespace(id=k, estimate=np.array([[1.0 + k, 2.0], [4.0, 6.0]])) for k in range(3)]
a.update(o); a.update([]); a.update(o[:1])
assert len(a.matrixes_predictions[0]) == 4, a.matrixes_predictions
''')

# -- C20 -----------------------------------------------------------------------
bug("c20-search-anywhere", "C20",
    [(MT, "            if line[: len(variable_name)] == variable_name:\n                result = line[len(variable_name) + 1 :]\n",
      "            key, _, value = line.partition(\"=\")\n            if key == variable_name:\n                result = value.strip()\n")],
    "a line that starts with the key but is not exactly key=value (a blank before the equals sign, another separator)",
    "keys are compared differently: such a line is not found",
    '''
import tempfile
from norfair.metrics import InformationFile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "seqinfo.ini")
    open(p, "w").write("[Sequence]\\nname:abc\\nframeRateMax=60\\n")
    i = InformationFile(p)
    assert i.search("name") == "abc"
''')

bug("c20-frames-from-rows", "C20",
    [(MT, "        indexes = np.argwhere(self.matrix_detections[:, 0] == frame_number)\n",
      "        start, stop = np.searchsorted(\n            self.matrix_detections[:, 0], [frame_number, frame_number + 0.5]\n        )\n        indexes = np.arange(start, stop).reshape(-1, 1)\n")],
    "a row with a fractional frame number just after a frame",
    "rows of no frame are delivered with the frame before",
    '''
import tempfile
from norfair.metrics import DetectionFileParser
class Info:
    def search(self, variable_name): return 2
with tempfile.TemporaryDirectory() as d:
    os.makedirs(os.path.join(d, "det"))
    open(os.path.join(d, "det", "det.txt"), "w").write("2,-1,1,2,3,4,0.5,-1,-1,-1\\n1,-1,1,2,3,4,0.5,-1,-1,-1\\n1.25,-1,7,7,7,7,0.5,-1,-1,-1\\n")
    n = [len(x) for x in DetectionFileParser(d, information_file=Info())]
    assert n == [1, 1], n
''')

bug("c20-resume", "C20",
    [(MT, "    def __iter__(self):\n        self.frame_number = 1\n        return self\n\n    def __next__(self):\n        if self.frame_number <= self.length:\n            self.frame_number += 1\n            # Frame",
      "    def __iter__(self):\n        if self.frame_number > self.length:\n            self.frame_number = 1\n        return self\n\n    def __next__(self):\n        if self.frame_number <= self.length:\n            self.frame_number += 1\n            # Frame")],
    "a second iteration after one that was abandoned early",
    "iterating again continues where the abandoned iteration stopped",
    '''
import tempfile
from norfair.metrics import DetectionFileParser
class Info:
    def search(self, variable_name): return 3
with tempfile.TemporaryDirectory() as d:
    os.makedirs(os.path.join(d, "det"))
    open(os.path.join(d, "det", "det.txt"), "w").write("".join(f"{k},-1,{k},2,3,4,0.5,-1,-1,-1\\n" for k in (3, 1, 2)))
    p = DetectionFileParser(d, information_file=Info())
    for x in p:
        break
    assert [y[0].points[0, 0] for y in p] == [1, 2, 3]
''')

# -- C21 -----------------------------------------------------------------------
FAKE = '''
import cv2, tempfile
class Cap:
    def __init__(self, *a): self.k, self.released = 0, False
    def get(self, p): return {cv2.CAP_PROP_FRAME_COUNT: 3, cv2.CAP_PROP_FPS: 25.0, cv2.CAP_PROP_FRAME_HEIGHT: 4, cv2.CAP_PROP_FRAME_WIDTH: 6}.get(p, 0)
    def read(self):
        self.k += 1
        return (True, np.full((4, 6, 3), self.k, np.uint8)) if self.k <= Cap.n else (False, None)
    def release(self): self.released = True
class Wri:
    made = []
    def __init__(self, *a):
        self.a, self.frames, self.released = a, [], False
        Wri.made.append(self)
    def write(self, f): self.frames.append(f)
    def release(self): self.released = True
Cap.n = 3
cv2.VideoCapture, cv2.VideoWriter = Cap, Wri
cv2.waitKey = lambda *a: -1
cv2.destroyAllWindows = lambda *a: None
from norfair import Video
'''
bug("c21-hidden-folder", "C21",
    [(VD, '            file_name = self.input_path.split("/")[-1].split(".")[0]\n', '            file_name = os.path.splitext(os.path.basename(self.input_path))[0]\n')],
    "an input file name with more than one dot",
    "the name of the output changes for such inputs",
    FAKE + '''
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.b.mp4"); open(p, "w").close()
    v = Video(input_path=p, output_path=d)
    assert v.get_output_file_path() == os.path.join(d, "a_out.mp4"), v.get_output_file_path()
''')

bug("c21-fps-zero", "C21",
    [(VD, "            output_fps\n            if output_fps is not None\n            else self.video_capture.get(cv2.CAP_PROP_FPS)\n",
      "            output_fps\n            if output_fps is not None and output_fps >= 1\n            else self.video_capture.get(cv2.CAP_PROP_FPS)\n")],
    "a configured frame rate below one frame per second (time lapse)",
    "the configured frame rate is ignored",
    FAKE + '''
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.mp4"); open(p, "w").close()
    v = Video(input_path=p, output_path=os.path.join(d, "o.mp4"), output_fps=0.5)
    v.write(np.zeros((4, 6, 3), np.uint8))
    assert Wri.made[0].a[2] == 0.5, Wri.made[0].a
''')

bug("c21-release-input-only-file", "C21",
    [(VD, "        self.video_capture.release()\n        cv2.destroyAllWindows()\n\n    def _fail", "        if self.frame_counter > 1:\n            self.video_capture.release()\n        cv2.destroyAllWindows()\n\n    def _fail")],
    "a source whose very first read fails",
    "the source is never released",
    FAKE + '''
Cap.n = 0
v = Video(camera=0)
assert list(v) == []
assert v.video_capture.released
''')

# -- C22 -----------------------------------------------------------------------
bug("c22-short-hex-channel", "C22",
    [(COL, "            int(hex_value[1] * 2, 16),\n", "            int(hex_value[1], 16) * 17 - (hex_value[1] == \"F\"),\n")],
    "a three-digit color whose red digit is an upper-case F",
    "such colors lose one unit of red",
    '''
from norfair.drawing.color import hex_to_bgr
assert hex_to_bgr("#F08") == hex_to_bgr("#FF0088"), hex_to_bgr("#F08")
''')

bug("c22-palette-half-set", "C22",
    [(COL, "            colors = []\n            for c in palette:\n                colors.append(parse_color(c))\n\n            cls._colors = colors\n",
      "            colors = []\n            for c in palette:\n                c = parse_color(c)\n                if c not in colors:\n                    colors.append(c)\n\n            cls._colors = colors\n")],
    "a palette that lists a color twice",
    "the palette installed is not the one given",
    '''
from norfair import Palette
Palette.set(["red", "red", "blue"])
n = [Palette.choose_color(k) for k in range(3)]
from norfair import Color
assert n == [Color.red, Color.red, Color.blue], n
''')

bug("c22-none-like", "C22",
    [(COL, "        if hashable is None:\n            return cls._default_color\n", "        if hashable is None or hashable != hashable:\n            return cls._default_color\n        if isinstance(hashable, str) and not hashable:\n            return cls._default_color\n")],
    "an empty string as label",
    "the default color, which is not in the palette, is chosen for a hashable",
    '''
from norfair import Palette
Palette.set(["red", "blue"])
assert Palette.choose_color("") in [(0, 0, 255), (255, 0, 0)], Palette.choose_color("")
''')

# -- C23 -----------------------------------------------------------------------
REC = '''
import cv2
calls = []
def rec(name, n):
    real = getattr(cv2, name)
    def f(*a, **k):
        calls.append((name, a, k))
        return real(*a, **k)
    setattr(cv2, name, f)
for name in ("circle", "rectangle", "putText", "line"): rec(name, 0)
from norfair import Detection
from norfair.drawing import Drawable, draw_boxes, draw_points
'''
bug("c23-live-prefix", "C23",
    [(DP, "            for point, live in zip(d.points, d.live_points):\n                if live or not hide_dead_points:\n",
      "            shown = d.points[: np.count_nonzero(d.live_points)] if hide_dead_points else d.points\n            for point, live in zip(shown, d.live_points):\n                if live or not hide_dead_points:\n")],
    "a dead point before a live one in the same object",
    "live points behind a dead one are not drawn",
    REC + '''
f = np.zeros((60, 80, 3), np.uint8)
draw_points(f, [Drawable(points=np.array([[5.0, 5], [20, 20], [40, 40]]), live_points=np.array([True, False, True]), id=1)], draw_labels=False, draw_ids=False)
c = sorted(tuple(a[1]) if len(a) > 1 else tuple(k["center"]) for n, a, k in calls if n == "circle")
assert c == [(5, 5), (40, 40)], c
''')

bug("c23-id-zero", "C23",
    [(UT, "    if draw_ids and drawable.id is not None:\n", "    if draw_ids and (drawable.id or drawable.id == \"\"):\n")],
    "an object whose id is 0",
    "the id 0 is not shown",
    REC + '''
f = np.zeros((60, 80, 3), np.uint8)
draw_boxes(f, [Drawable(points=np.array([[5.0, 25], [40, 40]]), id=0, label="car", live_points=np.array([True, True]))], draw_labels=True, draw_ids=True)
t = {a[1] for n, a, k in calls if n == "putText"}
assert t == {"car-0"}, t
''')

bug("c23-estimate-shifted", "C23",
    [(DB, "        points = d.points.astype(int)\n", "        points = d.points.astype(int, copy=False)\n"),
     (DB, "            text_anchor = (\n                points[0, 0] - thickness // 2,\n                points[0, 1] - thickness // 2 - 1,\n            )\n",
      "            points[0] -= thickness // 2\n            text_anchor = (points[0, 0], points[0, 1] - 1)\n")],
    "a detection whose points are integers, drawn with a thick line and a text",
    "drawing moves the corners of the detection",
    REC + '''
f = np.zeros((60, 80, 3), np.uint8)
d = Detection(np.array([[5, 25], [40, 40]]), label="car")
draw_boxes(f, [d], draw_labels=True, thickness=4)
assert d.points.tolist() == [[5, 25], [40, 40]], d.points
''')

bug("c23-empty-text-returns", "C23",
    [(DB, "        if text:\n            if text_color is None:\n", "        if not text:\n            if not draw_box:\n                break\n        else:\n            if text_color is None:\n")],
    "boxes not drawn, and an object without a text before one with a text",
    "the objects after an object without text get no text",
    REC + '''
f = np.zeros((60, 80, 3), np.uint8)
b = np.array([[5.0, 25], [40, 40]])
draw_boxes(f, [Detection(b), Detection(b + 3, label="car")], draw_labels=True, draw_box=False)
assert "car" in {a[1] for n, a, k in calls if n == "putText"}
''')

# -- C24 -----------------------------------------------------------------------
PATHS = '''
import types
from norfair.drawing import AbsolutePaths, Paths
class T:
    def __init__(self, v=(0, 0)): self.v = np.array(v, dtype=float)
    def abs_to_rel(self, p): return np.array(p) + self.v
    def rel_to_abs(self, p): return np.array(p) - self.v
class O:
    def __init__(self, id, p, live=True):
        self.id, self.p, self.live_points, self.abs_to_rel = id, np.array(p, dtype=float), np.array([live] * len(p)), None
        self.estimate = self.p
    def get_estimate(self, absolute=False): return self.p
'''
bug("c24-stationary-skipped", "C24",
    [(PA, "            self.past_points[obj.id].insert(0, points_to_draw)\n",
      "            history = self.past_points[obj.id]\n            if not history or not np.array_equal(history[0], points_to_draw):\n                history.insert(0, points_to_draw)\n")],
    "an object that does not move between two frames",
    "no point set is remembered for such a frame",
    PATHS + '''
d = AbsolutePaths(max_history=5)
f = np.zeros((60, 80, 3), np.uint8)
for x in (5, 5, 9):
    d.draw(f.copy(), [O(1, [[x, 7]])], T())
h = [float(np.array(p).reshape(-1)[0]) for p in d.past_points[1]]
assert h == [9, 5, 5], h
''')

bug("c24-history-truncated-first", "C24",
    [(PA, "            self.past_points[obj.id] = self.past_points[obj.id][: self.max_history]\n",
      "            if len(self.past_points[obj.id]) > self.max_history:\n                self.past_points[obj.id].pop(self.max_history - 1)\n")],
    "more frames with the object than the history is long",
    "the second oldest point set is dropped instead of the oldest",
    PATHS + '''
d = AbsolutePaths(max_history=3)
f = np.zeros((60, 80, 3), np.uint8)
for x in range(6):
    d.draw(f.copy(), [O(1, [[x, 7]])], T())
h = [float(np.array(p).reshape(-1)[0]) for p in d.past_points[1]]
assert h == [5, 4, 3], h
''')

bug("c24-mask-kept-when-empty", "C24",
    [(PA, "        self.mask = (self.mask * self.attenuation_factor).astype(\"uint8\")\n",
      "        if len(tracked_objects) > 0 or self.mask.max() > 127:\n            self.mask = (self.mask * self.attenuation_factor).astype(\"uint8\")\n")],
    "frames without objects after the mask has become dark",
    "the path stops fading",
    PATHS + '''
d = Paths(attenuation=0.5, color=(200, 200, 200), radius=3, thickness=2)
f = np.zeros((60, 80, 3), np.uint8)
d.draw(f, [O(1, [[20, 20]])])
m = [int(d.draw(f, []).max()) for k in range(4)]
assert m == [100, 50, 25, 12], m
''')

bug("c24-skip-lit", "C24",
    [(PA, """            for point in points_to_draw:
                self.mask = Drawer.circle(
""", """            for point in points_to_draw:
                x, y = point.astype(int)
                height, width = self.mask.shape[:2]
                if 0 <= x < width and 0 <= y < height and self.mask[y, x].any():
                    continue
                self.mask = Drawer.circle(
""")],
    "a point of interest on a pixel that is already lit (an object that returns to its path, filled circles)",
    "the circle of such a point is not drawn",
    PATHS + '''
d = Paths(color=(200, 200, 200), radius=3, thickness=-1, attenuation=0.5)
f = np.zeros((60, 80, 3), np.uint8)
d.draw(f, [O(1, [[20, 20]])])
r = d.draw(f, [O(1, [[22, 20]])])
assert r[20, 22].tolist() == [200, 200, 200], r[20, 22]
''')
