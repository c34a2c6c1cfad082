"""Oracle: scalar interval arithmetic per pair."""
from search.common import *

RULE = "random valid boxes on a small integer grid and in floats (0-6 x 0-6; touching, nested, equal, disjoint), malformed candidates"


def corners():
    g = [[0, 0, 2, 2], [1, 1, 3, 3], [2, 0, 4, 2], [0, 0, 2, 2], [0.5, 0.5, 1.5, 1.5], [-5, -5, -3, -4], [0, 0, 100, 1]]
    out = [dict(a=g, b=g, dt=dt, bad=None) for dt in ("float", "float32")]
    out += [dict(a=[], b=g, dt="float", bad=None), dict(a=g, b=[], dt="float", bad=None), dict(a=g[:1], b=g[1:2], dt="float", bad=None)]
    gi = [[0, 0, 2, 2], [1, 1, 3, 3], [2, 0, 4, 2]]
    out += [dict(a=gi, b=gi, dt="int", bad=None), dict(a=[[3, 1, 9, 8]], b=gi, dt="int", bad=None)]
    for bad in ("list", "cols3", "cols5", "flat", "3d"):
        out.append(dict(a=gi, b=gi, dt="float", bad=bad))
    return out


def box(rng, integer, off):
    if integer:
        x0, y0 = rng.integers(-5, 6, size=2)
        return [int(x0 + off), int(y0 - off), int(x0 + off + rng.integers(1, 6)), int(y0 - off + rng.integers(1, 6))]
    x0, y0 = rng.normal(size=2) * 5
    return [round(float(v), 3) for v in (x0, y0, x0 + rng.uniform(0.1, 9), y0 + rng.uniform(0.1, 9))]


def gen(rng, k):
    it = rng.random() < 0.6
    off = int(rng.choice([0, 0, 100]))
    a = [box(rng, it, off) for _ in range(rng.integers(0, 7))]
    b = [box(rng, it, off) for _ in range(rng.integers(0, 7))]
    if a and b and rng.random() < 0.3:
        b[0] = list(a[-1])
    return dict(a=a, b=b, dt="int" if it and rng.random() < 0.5 else "float", bad=None if rng.random() < 0.95 else ["list", "cols3", "cols5", "flat", "3d"][rng.integers(5)])


def check(c):
    from norfair.distances import get_distance_by_name, iou

    dt = {"float": float, "int": int, "float32": np.float32}[c["dt"]]
    a, b = np.array(c["a"], dt).reshape(-1, 4), np.array(c["b"], dt).reshape(-1, 4)
    if c["bad"]:
        x = {"list": a.tolist(), "cols3": a[:, :3], "cols5": np.hstack([a, a[:, :1]]), "flat": a.ravel(), "3d": a[:, :, None]}[c["bad"]]
        try:
            iou(x, b)
        except AssertionError:
            return None
        except Exception as e:
            raise Broken(f"malformed candidates ({c['bad']}) raised {type(e).__name__} instead of an assertion error")
        raise Broken(f"malformed candidates ({c['bad']}) were accepted")
    a0, b0 = a.copy(), b.copy()
    want = np.zeros((len(a), len(b)))
    for i, p in enumerate(a.tolist()):
        for j, q in enumerate(b.tolist()):
            w = max(0, min(p[2], q[2]) - max(p[0], q[0]))
            h = max(0, min(p[3], q[3]) - max(p[1], q[1]))
            u = (p[2] - p[0]) * (p[3] - p[1]) + (q[2] - q[0]) * (q[3] - q[1]) - w * h
            want[i, j] = 1 - w * h / u
    fs = [iou, get_distance_by_name("iou").distance_function]
    for f in fs:
        got = np.asarray(f(a, b))
        need(got.shape == want.shape and close(got, want, 1e-4 if c["dt"] == "float32" else 1e-6),
             f"iou {got.tolist()} expected {want.tolist()}")
        need(np.array_equal(a, a0) and np.array_equal(b, b0), "iou modified its arguments")
