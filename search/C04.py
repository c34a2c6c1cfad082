"""Oracle: the conditions of a greedy one-to-one matching, checked pair by pair."""
from search.common import *

RULE = "random matrices up to 7 x 7 (real, with differences beyond single precision, integer, float32, with ties and infinities), thresholds up to 1e30"
TIMEOUT = 10


def corners():
    return [dict(m=[[0.5]], t=0.5, dt="f8"), dict(m=[[1, 2], [2, 1]], t=5, dt="i8"), dict(m=[[3e9, 5e8], [1e9, 2e10]], t=1e11, dt="f4"),
            dict(m=[[1, 1], [1, 1]], t=2, dt="f8"), dict(m=[["inf", 1], ["inf", 1]], t=2, dt="f4"), dict(m=[], t=1, dt="f8", n=0, k=3),
            dict(m=[[], []], t=1, dt="f8", n=2, k=0), dict(m=[["inf", "inf"]], t="inf", dt="f8"), dict(m=[[7, 9], [8, 7]], t=4e18, dt="i8"),
            dict(m=[[0.3]], t=0.3, dt="f8"), dict(m=[[0.3]], t=0.30000000000000004, dt="f8"), dict(m=[[0.1]], t=0.1, dt="f8"),
            dict(m=[[0.7 + 1e-12, 0.7]], t=1, dt="f8"), dict(m=[[0.7 + 1e-12], [0.7]], t=1, dt="f8"), dict(m=[[1 - 1e-15]], t=1, dt="f8"),
            dict(m=[[16777217.0, 16777216.0], [16777216.0, 16777215.0]], t=16777217, dt="f8"), dict(m=[[-1, -2], [-2, -1]], t=0, dt="f8"),
            dict(m=[[1e-300, 2e-300]], t=1e-200, dt="f8"), dict(m=[[-5.0]], t=-5, dt="f8"), dict(m=[[1e300, 2e300]], t=1e301, dt="f8")]


def gen(rng, k):
    n, m = int(rng.integers(0, 8)), int(rng.integers(0, 8))
    kind = int(rng.integers(4))
    dt = ["f8", "f4", "i8", "f4"][kind]
    if kind == 2:
        a = rng.integers(-3, 12, (n, m)).tolist()
    elif kind == 3:
        a = (rng.integers(0, 9, (n, m)) / 8).tolist()
    else:
        sc = float(rng.choice([1, 1, 100, 1e12]))
        a = np.float32(rng.uniform(-0.2 * sc, sc, (n, m))).astype(float).tolist()
    if kind == 0 and rng.random() < 0.4 and n and m:  # differences beyond single precision
        v = float(rng.uniform(0, 2))
        a = [[v + 1e-13 * int(rng.integers(-3, 4)) for _ in range(m)] for _ in range(n)]
        for i in range(n):
            a[i] = [x if rng.random() < 0.8 else "inf" for x in a[i]]
        return dict(m=a, t=v + 1e-13 * int(rng.integers(-2, 5)), dt=dt, n=n, k=m)
    if kind != 2 and n and m:
        for i in range(n):
            for j in range(m):
                if rng.random() < 0.15:
                    a[i][j] = "inf"
    t = [0.5, 1, 0, -1, 3, 50, 1e6, 1e9, 1e13, 1e30, "inf"][rng.integers(11)]
    return dict(m=a, t=t, dt=dt, n=n, k=m)


def nontrivial(c):
    return bool(c["m"]) and bool(c["m"][0])


def check(c):
    from norfair import Tracker

    n, m = c.get("n", len(c["m"])), c.get("k", len(c["m"][0]) if c["m"] else 0)
    a = np.array([[float(x) for x in r] for r in c["m"]]).reshape(n, m).astype(c["dt"])
    thr = float(c["t"])
    t = Tracker(distance_function="euclidean", distance_threshold=1)
    b = a.copy()
    x, y = t.match_dets_and_objs(b, thr)
    x, y = [int(i) for i in x], [int(i) for i in y]
    need(len(x) == len(y), "lists of different length")
    need(len(set(x)) == len(x) and len(set(y)) == len(y), f"an index is matched twice: {x} {y}")
    need(all(0 <= i < n for i in x) and all(0 <= j < m for j in y), "index out of range")
    for i, j in zip(x, y):
        need(a[i, j] < thr, f"pair {i},{j} at {a[i, j]} with threshold {thr}")
    row, col = dict(zip(x, y)), dict(zip(y, x))
    for i in range(n):
        for j in range(m):
            if a[i, j] < thr and row.get(i) != j:
                need((i in row and a[i, row[i]] <= a[i, j]) or (j in col and a[col[j], j] <= a[i, j]),
                     f"pair {i},{j} at {a[i, j]} left over: {list(zip(x, y))}")
