"""Oracle: copies of the inputs; the same tracker run alone."""
from search.trk import *

RULE = "random histories on two trackers (same or different configuration, shared filter factory and distance), interleaved against alone; inputs compared with copies"


def gen(rng, k):
    co = bool(rng.random() < 0.4)
    return dict(a=gen_case(rng, coords=co, frames=int(rng.integers(3, 12))), b=gen_case(rng, coords=co, frames=int(rng.integers(3, 12))), share=bool(rng.random() < 0.7),
                samedets=bool(rng.random() < 0.5))


def view(t, s, g0):
    return [(o.id, o.initializing_id, o.age, o.hit_counter, np.asarray(o.estimate).round(9).tolist(), np.asarray(o.filter.x).round(9).tolist(),
             o.live_points.tolist(), o.last_detection.data["u"], o.last_distance, [d.data["u"] for d in o.past_detections]) for o in s.ret] + [
        t.total_object_count, t.current_object_count, len(s.tracked)]


def check(c):
    from norfair.filter import NoFilterFactory, OptimizedKalmanFilterFactory

    fac = lambda: NoFilterFactory() if c["a"]["nofilter"] else OptimizedKalmanFilterFactory()
    solo = [view(s.t, s, 0) for s in steps(c["a"], ff=fac())]
    f = fac()
    other = c["b"]
    ta = build(c["a"], ff=f)
    tb = build(other, ff=f if c["share"] else None)
    ib = steps(other, tracker=tb)
    both = []
    ia = watched(c["a"], ta)
    for s in ia:
        both.append(view(s.t, s, 0))
        next(ib, None)
    for k, (x, y) in enumerate(zip(solo, both)):
        need(x == y, f"update {k}: a tracker reports {y} beside another tracker, {x} alone")
    need(len(solo) == len(both), "a tracker stops beside another one")


def watched(c, t):
    """steps with copies of all inputs compared afterwards"""
    prev = []
    import search.trk as T

    orig = T.detection
    made = []

    def det(d, like=None):
        x = orig(d, like)
        made.append((x, x.points, x.points.copy(), x.scores, None if x.scores is None else x.scores.copy(), copy.deepcopy(x.data), x.label))
        return x

    T.detection = det
    try:
        for s in T.steps(c, tracker=t):
            if s.dets is not None:
                need(len(s.dets) == len(s.given) and all(a is b for a, b in zip(s.dets, s.given)), f"update {s.k} modified the list of detections")
            for x, p, pc, sc, scc, data, label in made:
                need(x.points is p and np.array_equal(p, pc), f"update {s.k} modified the points of a detection")
                need(x.scores is sc and (sc is None or np.array_equal(sc, scc)), f"update {s.k} modified the scores of a detection")
                need(x.data == data and x.label == label, f"update {s.k} modified the data or label of a detection")
            if s.ct is not None:
                for n, v in vars(s.ct).items():
                    want = vars(T.transform(s.f)).get(n)
                    if isinstance(v, np.ndarray):
                        need(np.array_equal(v, want), f"update {s.k} modified the transformation ({n})")
            yield s
    finally:
        T.detection = orig
