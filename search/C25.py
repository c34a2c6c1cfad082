"""Oracle: the documented validity conditions."""
from search.common import *

RULE = "random tracker settings around the validity boundaries, all distance names, point arrays of rank 1-4"
NAMES = {"frobenius": "s", "mean_manhattan": "s", "mean_euclidean": "s", "iou": "v", "iou_opt": "v"}
SCIPY = ["braycurtis", "canberra", "chebyshev", "cityblock", "correlation", "cosine", "dice", "euclidean", "hamming", "jaccard",
         "jensenshannon", "kulczynski1", "mahalanobis", "matching", "minkowski", "rogerstanimoto", "russellrao", "seuclidean",
         "sokalmichener", "sokalsneath", "sqeuclidean", "yule"]
BADN = ["", "Frobenius", "frobenius ", "iou2", "manhattan", "l2", "none", "euclid", "mean"]


def corners():
    out = [dict(k="dist", name=n) for n in list(NAMES) + SCIPY + BADN + ["#int", "#none", "#list", "#fn", "#lambda", "#obj", "#cls"]]
    out.append(dict(k="def"))
    for h in (1, 2, 3, 7, 15):
        for d in (None, -1, 0, 1, h - 1, h, h + 1):
            for p in (-1, 0, 1, 4):
                out.append(dict(k="trk", h=h, d=d, p=p, pw=4, thr=1.0, dthr=0.0, rm=None, rt=0.0, reid=False))
    for h in (1, 5):
        for d in (-0.5, -0.01, 0.5, h - 0.5, h + 0.5, h - 1e-9):
            for p in (0, 4):
                out.append(dict(k="trk", h=h, d=d, p=p, pw=4, thr=1.0, dthr=0.0, rm=None, rt=0.0, reid=False))
    for shape in ([2], [3], [1, 2], [4, 2], [4, 3], [2, 2, 2], [1, 1, 2], [1, 2, 1, 2], [0, 2]):
        for sc in (False, True):
            out.append(dict(k="pts", shape=shape, sc=sc, dt="float"))
            out.append(dict(k="pts", shape=shape, sc=sc, dt="int"))
    return out


def gen(rng, k):
    if rng.random() < 0.7:
        h = int(rng.integers(1, 40))
        return dict(k="trk", h=h, d=None if rng.random() < 0.3 else int(rng.integers(-3, h + 4)), p=int(rng.integers(-3, 9)), pw=int(rng.integers(0, 9)),
                    thr=rnd(rng, -1, 99), dthr=rnd(rng, 0, 1), rm=None if rng.random() < 0.5 else int(rng.integers(0, 50)), rt=rnd(rng, 0, 9),
                    reid=bool(rng.random() < 0.5))
    return dict(k="pts", shape=[int(x) for x in rng.integers(1, 5, size=rng.integers(1, 5))], sc=bool(rng.random() < 0.5), dt=["float", "int"][rng.integers(2)])


def fdist(a, b):
    return 0.0


class CallMe:
    def __call__(self, a, b):
        return 0.0


def check(c):
    import norfair.distances as D
    from norfair.tracker import Detection, Tracker
    from norfair.utils import validate_points

    if c["k"] == "dist":
        n = c["name"]
        arg = {"#int": 3, "#none": None, "#list": ["iou"], "#fn": fdist, "#lambda": lambda a, b: 0.0, "#obj": CallMe(), "#cls": CallMe}.get(n, n)
        good = n in NAMES or n in SCIPY or n in ("#fn", "#lambda", "#obj", "#cls")
        try:
            t = Tracker(distance_function=arg, distance_threshold=1)
        except ValueError:
            need(not good, f"{n} was rejected")
            return
        need(good, f"distance {n!r} was accepted")
        d = t.distance_function
        if n.startswith("#"):
            need(type(d) is D.ScalarDistance and d.distance_function is arg, f"{n} is not used as the scalar distance")
        elif n in NAMES:
            need(type(d) is (D.ScalarDistance if NAMES[n] == "s" else D.VectorizedDistance), f"{n} gave a {type(d).__name__}")
            need(d.distance_function is getattr(D, "iou" if n == "iou_opt" else n), f"{n} gave function {d.distance_function}")
        else:
            need(type(d) is D.ScipyDistance, f"{n} gave a {type(d).__name__}")
            if n in ("euclidean", "cityblock", "sqeuclidean", "chebyshev", "canberra", "cosine", "braycurtis", "minkowski"):
                from scipy.spatial.distance import cdist
                a, b = np.array([[1.0, 2, 3, 5], [0, 1, 4, 1]]), np.array([[2.0, 2, 1, 1], [3, 0, 1, 7], [1, 1, 1, 2]])
                need(close(d.distance_function(a, b), cdist(a, b, metric=n)), f"{n} does not compute scipy's {n}")
        return
    if c["k"] == "def":
        t = Tracker(fdist, 2.5)
        for n, v in dict(distance_threshold=2.5, hit_counter_max=15, initialization_delay=7, pointwise_hit_counter_max=4, detection_threshold=0, past_detections_length=4,
                         reid_distance_threshold=0, reid_hit_counter_max=None, reid_distance_function=None).items():
            need(getattr(t, n) == v, f"default of {n} is {getattr(t, n)!r}, documented {v!r}")
        return
    if c["k"] == "trk":
        bad = c["p"] < 0 or (c["d"] is not None and not 0 <= c["d"] < c["h"])
        from norfair.filter import NoFilterFactory
        fac = NoFilterFactory()
        kw = dict(distance_function=fdist, distance_threshold=c["thr"], hit_counter_max=c["h"], initialization_delay=c["d"],
                  pointwise_hit_counter_max=c["pw"], detection_threshold=c["dthr"], filter_factory=fac, past_detections_length=c["p"],
                  reid_distance_function=fdist if c["reid"] else None, reid_distance_threshold=c["rt"], reid_hit_counter_max=c["rm"])
        try:
            t = Tracker(**kw)
        except ValueError as e:
            need(bad, f"valid configuration rejected: {e}")
            return
        need(not bad, "invalid configuration accepted")
        want = dict(distance_threshold=c["thr"], hit_counter_max=c["h"], initialization_delay=c["h"] // 2 if c["d"] is None else c["d"],
                    pointwise_hit_counter_max=c["pw"], detection_threshold=c["dthr"], past_detections_length=c["p"],
                    reid_distance_threshold=c["rt"], reid_hit_counter_max=c["rm"])
        for n, v in want.items():
            need(getattr(t, n) == v and type(getattr(t, n)) is type(v), f"setting {n} is {getattr(t, n)!r}, expected {v!r}")
        need(t.filter_factory is fac, "filter factory replaced")
        need((t.reid_distance_function is None) == (not c["reid"]), "reid distance")
        if c["reid"]:
            need(type(t.reid_distance_function) is D.ScalarDistance and t.reid_distance_function.distance_function is fdist, "reid distance")
        need(len(t.tracked_objects) == 0 and t.total_object_count == 0 and t.current_object_count == 0, "a new tracker is not empty")
        need(t.tracked_objects is not Tracker(**kw).tracked_objects, "trackers share their object list")
        return
    a = (np.arange(int(np.prod(c["shape"]))).reshape(c["shape"]) * (1 if c["dt"] == "int" else 1.5)).astype(int if c["dt"] == "int" else float)
    a0 = a.copy()
    sc = np.ones(c["shape"][0]) if c["sc"] else None
    for f in (validate_points, lambda x: Detection(x, scores=sc, label="l", data=3, embedding=4)):
        try:
            r = f(a)
        except ValueError:
            need(len(c["shape"]) > 2, "valid points were rejected")
            continue
        need(len(c["shape"]) <= 2, f"points of shape {c['shape']} were accepted")
        exp = a0[None] if a0.ndim == 1 else a0
        if isinstance(r, Detection):
            need(np.array_equal(r.absolute_points, exp) and r.absolute_points.shape == exp.shape, "absolute points")
            need(not np.shares_memory(r.absolute_points, a), "absolute points are not a copy")
            need(r.scores is sc and r.label == "l" and r.data == 3 and r.embedding == 4, "detection fields")
            r = r.points
        need(r.shape == exp.shape and np.array_equal(r, exp) and r.dtype == a.dtype, f"points became {r.tolist()}")
        need(np.array_equal(a, a0), "points modified")
