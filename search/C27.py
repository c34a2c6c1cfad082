"""Oracle: pixel-by-pixel membership."""
from search.common import *

RULE = "random images (1-20 px sides, gray or BGR) and 1-6 points inside, across and outside the image"


def corners():
    out = []
    for pts in ([[1, 1], [3, 4]], [[-3, -2], [2, 3]], [[-5, -5], [-2, -2]], [[2.9, 1.1], [4.999, 3]], [[100, 100], [120, 130]],
                [[-1.5, 2], [50, 60]], [[3, 3]], [[-0.5, -0.5], [0.5, 0.5]], [[2, 8], [8, 2], [5, -3]]):
        for shape in ([8, 10, 3], [8, 10], [1, 1, 3]):
            for dt in ("float", "int"):
                out.append(dict(pts=pts, shape=shape, dt=dt))
    return out


def gen(rng, k):
    shape = [int(rng.integers(1, 21)), int(rng.integers(1, 21))] + ([3] if rng.random() < 0.7 else [])
    n = int(rng.integers(1, 7))
    pts = [[rnd(rng, -8, 28, 2), rnd(rng, -8, 28, 2)] for _ in range(n)]
    return dict(pts=pts, shape=shape, dt=["float", "int"][rng.integers(2)])


def check(c):
    from norfair.utils import get_cutout

    p = np.array(c["pts"], float if c["dt"] == "float" else int)
    img = (np.arange(int(np.prod(c["shape"]))) % 251).astype(np.uint8).reshape(c["shape"])
    p0, i0 = p.copy(), img.copy()
    got = get_cutout(p, img)
    lo = [math.trunc(min(r[k] for r in p.tolist())) for k in (0, 1)]
    hi = [math.trunc(max(r[k] for r in p.tolist())) for k in (0, 1)]
    rows = [y for y in range(img.shape[0]) if lo[1] <= y < hi[1]]
    cols = [x for x in range(img.shape[1]) if lo[0] <= x < hi[0]]
    need(got.shape[0] == len(rows) and got.shape[1] == len(cols) or got.size == 0 and (not rows or not cols),
         f"cut-out has shape {got.shape}, expected {(len(rows), len(cols))}")
    if rows and cols:
        need(np.array_equal(got, i0[np.ix_(rows, cols)]), "cut-out shows other pixels")
    need(np.array_equal(p, p0) and np.array_equal(img, i0), "inputs modified")
