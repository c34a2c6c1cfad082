"""Oracle: entry (i, j) is the distance of that very pair if the labels are
equal, +inf otherwise; distances encode which pair they were asked for."""
from search.common import *

RULE = "up to 6 x 6 candidates and objects with mixed labels (None, str, int, tuple, frozenset, bool, float), scalar, vectorized and scipy"
LAB = [None, "a", "b", 1, "1", 2.5, ("a", 1), True, 0, "", 1.0, "None"]


def corners():
    out = []
    for kind in ("scalar", "vector", "scipy"):
        for trk in (False, True):
            out += [dict(kind=kind, trk=trk, c=[0, 1, 0, 2], o=[2, 0, 1], n=1, d=2, seed=3), dict(kind=kind, trk=trk, c=[3, 7, 4, 10], o=[4, 3, 8], n=2, d=2, seed=3),
                    dict(kind=kind, trk=trk, c=[], o=[1], n=1, d=2, seed=1), dict(kind=kind, trk=trk, c=[1], o=[], n=1, d=2, seed=1),
                    dict(kind=kind, trk=trk, c=[1, 1, 0], o=[1, 1, 0], n=2, d=2, seed=2, neg=True), dict(kind=kind, trk=trk, c=[1, 1], o=[1, 1], n=2, d=2, seed=1), dict(kind=kind, trk=trk, c=[1], o=[2], n=1, d=2, seed=1)]
    return out


def gen(rng, k):
    few = [int(x) for x in rng.integers(0, len(LAB), int(rng.integers(1, 5)))]
    return dict(kind=["scalar", "vector", "scipy"][rng.integers(3)], trk=bool(rng.random() < 0.4), mix=bool(rng.random() < 0.2), neg=bool(rng.random() < 0.25), c=[few[rng.integers(len(few))] for _ in range(rng.integers(0, 7))],
                o=[few[rng.integers(len(few))] for _ in range(rng.integers(0, 7))], n=int(rng.integers(1, 4)), d=int(rng.choice([2, 3])), seed=int(rng.integers(1 << 20)))


def make(rng, labels, c, tracked):
    from norfair import Detection, Tracker

    pts = [np.round(rng.uniform(-20, 20, (c["n"], c["d"])), 2) for _ in labels]
    dets = [Detection(p, label=LAB[l]) for p, l in zip(pts, labels)]
    if not tracked or not dets:
        return dets, pts
    t = Tracker(distance_function="euclidean", distance_threshold=-1, initialization_delay=0, hit_counter_max=5)
    t.update(dets)
    # the objects move on, so that estimate and last detection differ
    mv = [np.round(rng.uniform(-3, 3, (c["n"], c["d"])), 2) for _ in labels]
    out = []
    for o in t.tracked_objects:
        i = [k for k in range(len(dets)) if o.last_detection is dets[k]][0]
        o.filter.x[: o.dim_z] += mv[i].reshape(-1, 1)
        out.append((i, o))
    out = [o for _, o in sorted(out, key=lambda x: x[0])]
    return out, [o.estimate for o in out]


def check(c):
    from norfair.distances import ScalarDistance, ScipyDistance, VectorizedDistance

    rng = np.random.default_rng(c["seed"])
    cand, cp = make(rng, c["c"], c, c["trk"])
    if c.get("mix") and len(cand) > 1:  # detections and tracked objects in one list
        a, ap = make(rng, c["c"], c, not c["trk"])
        cand, cp = [x if i % 2 else y for i, (x, y) in enumerate(zip(cand, a))], [x if i % 2 else y for i, (x, y) in enumerate(zip(cp, ap))]
    objs, op = make(rng, c["o"], c, True)
    # negative values: similarities, e.g. 0 for a perfect match and less for better ones
    k = -30.0 if c.get("neg") else 0.0
    f = lambda a, b: np.float32(round(float(np.abs(a.ravel() * 1.5 - b.ravel()).sum()) + k, 3))
    calls = []
    if c["kind"] == "scalar":
        def df(x, o):
            calls.append((x, o))
            i = [k for k in range(len(cand)) if cand[k] is x]
            j = [k for k in range(len(objs)) if objs[k] is o]
            need(len(i) == 1 and len(j) == 1, "distance called with something that is not a candidate and an object")
            return f(cp[i[0]], op[j[0]])
        D = ScalarDistance(df)
    elif c["kind"] == "vector":
        D = VectorizedDistance(lambda a, b: np.array([[f(x, y) for y in b] for x in a]))
    else:
        D = ScipyDistance("cityblock")
        f = lambda a, b: np.abs(a.ravel() - b.ravel()).sum()
    r = D.get_distances(objs, cand)
    need(r.shape == (len(cand), len(objs)), f"shape {r.shape}")
    for i, x in enumerate(cand):
        for j, o in enumerate(objs):
            if LAB[c["c"][i]] == LAB[c["o"][j]]:
                need(close(r[i, j], f(cp[i], op[j]), 1e-5), f"entry {i},{j} (label {x.label!r}) is {r[i, j]}, the pair's distance is {f(cp[i], op[j])}")
            else:
                need(r[i, j] == np.inf, f"entry {i},{j} is {r[i, j]} although the labels are {x.label!r} and {o.label!r}")
    if c["kind"] == "scalar":
        need(all(x.label == o.label for x, o in calls), "distance called for different labels")
