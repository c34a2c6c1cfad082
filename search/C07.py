"""Oracle: plain Python loops over the documented formulas."""
from search.common import *

RULE = "random point sets (1-7 points, 1-3 dims; int and float), scores and thresholds, incl. ties at the thresholds"


class O:
    pass


def corners():
    out = []
    for d in ("frobenius", "mean_manhattan", "mean_euclidean", "norm", "vote"):
        for n in (1, 2, 4):
            for dt in ("float", "int"):
                for dim in ((2,) if d == "norm" else (1, 2, 3)):
                    out.append(dict(fn=d, n=n, d=dim, dt=dt, seed=n, same=False, hw=[480, 640], kt=5.0, dth=0.5))
        out.append(dict(fn=d, n=3, d=2, dt="float", seed=5, same=True, hw=[480, 640], kt=5.0, dth=0.5))
    return out


def gen(rng, k):
    fn = ["frobenius", "mean_manhattan", "mean_euclidean", "norm", "vote", "vote"][rng.integers(6)]
    return dict(fn=fn, n=int(rng.integers(1, 8)), d=2 if fn == "norm" else int(rng.integers(1, 4)), dt=["float", "int"][rng.integers(2)],
                seed=int(rng.integers(1 << 30)), same=bool(rng.random() < 0.1), hw=[int(rng.integers(1, 2000)), int(rng.integers(1, 2000))],
                kt=float(rng.choice([0.0, 1.0, 5.0, rnd(rng, 0, 20)])), dth=float(rng.choice([0.0, 0.5, rnd(rng, 0, 1)])))


def check(c):
    import norfair.distances as D

    rng = np.random.default_rng(c["seed"])
    n, d = c["n"], c["d"]
    p = np.round(rng.normal(size=(n, d)) * 6)
    if c["dt"] == "int":
        p = p.astype(int)
    e = np.round(rng.normal(size=(n, d)) * 6)
    if c["same"]:
        e = p.astype(float)
    # scores on a grid, so that ties with the thresholds happen
    sc, ls = rng.integers(0, 5, size=n) / 4, rng.integers(0, 5, size=n) / 4
    det, obj, last = O(), O(), O()
    det.points, det.scores, det.label = p, sc, None
    last.points, last.scores, last.label = rng.normal(size=(n, d)), ls, None
    obj.estimate, obj.last_detection, obj.label = e, last, None
    keep = [x.copy() for x in (p, e, sc, ls, last.points)]
    df = [[float(p[i][j]) - float(e[i][j]) for j in range(d)] for i in range(n)]
    eu = [math.sqrt(sum(x * x for x in r)) for r in df]
    fn = c["fn"]
    if fn == "frobenius":
        f, want = D.frobenius, math.sqrt(sum(x * x for r in df for x in r))
    elif fn == "mean_euclidean":
        f, want = D.mean_euclidean, sum(eu) / n
    elif fn == "mean_manhattan":
        f, want = D.mean_manhattan, sum(sum(abs(x) for x in r) for r in df) / n
    elif fn == "norm":
        h, w = c["hw"]
        f, want = D.create_normalized_mean_euclidean_distance(h, w), sum(math.hypot(r[0] / w, r[1] / h) for r in df) / n
    else:
        f = D.create_keypoints_voting_distance(c["kt"], c["dth"])
        want = 1 / (1 + sum(eu[i] < c["kt"] and sc[i] > c["dth"] and ls[i] > c["dth"] for i in range(n)))
    for _ in range(2):
        got = f(det, obj)
        need(close(got, want), f"{fn}: got {got}, documented formula gives {want}")
        for a, b in zip((p, e, sc, ls, last.points), keep):
            need(np.array_equal(a, b), f"{fn} modified its arguments")
        need(det.points is p and obj.estimate is e and det.scores is sc, f"{fn} replaced attributes of its arguments")
