"""Oracle: explicit projective formulas, one point at a time."""
from search.common import *

RULE = "random translations and homographies (well-conditioned, w not near 0), 0-8 points, both directions"


def corners():
    out = []
    for kind in ("t", "h"):
        for n in (0, 1, 2, 5):
            for dt in ("float", "int", "float32"):
                out.append(dict(kind=kind, n=n, dt=dt, seed=n + 3, mv=[3.5, -2.25], h=[[1.1, 0.1, 5], [-0.2, 0.9, -7], [0.001, 0.002, 1]], scale=50))
    out.append(dict(kind="h", n=4, dt="float", seed=1, mv=[0, 0], h=[[1, 0, 0], [0, 1, 0], [0, 0, 1]], scale=50))
    out.append(dict(kind="h", n=4, dt="float", seed=1, mv=[0, 0], h=[[0.5, 0, 0], [0, 2, 0], [0, 0, -3]], scale=50))
    out.append(dict(kind="h", n=6, dt="float", seed=1, mv=[0, 0], h=[[1, 2, 3], [0, 1, 4], [5, 6, 0]], scale=3))
    # simple numbers: points whose last coordinate is exactly 1, -1, 2, .. or small
    for last in ([0, 0, -1], [0, 0, 2], [0.25, 0.5, -1], [1, 0, 1], [1, -1, -1], [0.001, 0, 1], [0.0009765625, 0, 0], [0, 0, 0.0005]):
        h = [[1, 0, 2], [0, 1, -1], last] if last[2] else [[1, 0, 2], [0, 1, 4], last]
        for dt in ("float", "int"):
            out.append(dict(kind="h", n=0, dt=dt, seed=1, mv=[0, 0], h=h, scale=1, near=True, grid=3))
    return out


def gen(rng, k):
    if rng.random() < 0.25:
        while True:
            h = rng.integers(-3, 4, size=(3, 3)) * [[1.0], [1.0], [float(rng.choice([1, 0.5, 0.125, 0.0078125]))]]
            if abs(np.linalg.det(h)) > 1e-3:
                break
        return dict(kind="h", n=0, dt=["float", "int"][rng.integers(2)], seed=1, mv=[0, 0], h=h.tolist(), scale=1, near=True, grid=int(rng.integers(1, 6)))
    while True:
        h = (rng.normal(size=(3, 3)) * [[1, 1, 10], [1, 1, 10], [0.01, 0.01, 1]]).round(4)
        if abs(np.linalg.det(h)) > 1e-2 and np.linalg.cond(h) < 1e5:
            break
    return dict(kind=["t", "h"][int(rng.random() < 0.7)], n=int(rng.integers(0, 9)), dt=["float", "int", "float32"][rng.integers(3)],
                seed=int(rng.integers(1 << 30)), mv=[rnd(rng, -99, 99), rnd(rng, -99, 99)], h=h.tolist(), scale=float(rng.choice([1, 20, 500])))


def check(c):
    from norfair.camera_motion import HomographyTransformation, TranslationTransformation

    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    p = rng.normal(size=(n, 2)) * c["scale"]
    if c.get("grid"):
        g = c["grid"]
        p = np.array([[x, y] for x in range(-g, g + 1) for y in range(-g, g + 1)], float)
        n = len(p)
    p = p.astype({"float": float, "int": int, "float32": np.float32}[c["dt"]])
    if c["kind"] == "t":
        mv = np.array(c["mv"], float)
        t = TranslationTransformation(mv)
        fw = lambda x, y: (x + mv[0], y + mv[1])
        bw = lambda x, y: (x - mv[0], y - mv[1])
        par = (mv, mv.copy())
    else:
        H = np.array(c["h"], float)
        t = HomographyTransformation(H)
        G = np.linalg.inv(H)
        par = (H, H.copy())

        def ap(M):
            def f(x, y):
                v = M @ np.array([x, y, 1.0])
                return (v[0] / v[2], v[1] / v[2])
            return f

        fw, bw = ap(H), ap(G)
        for M in (H, G):
            if n:
                w = np.array([M[2] @ np.array([x, y, 1.0]) for x, y in p])
                keep = np.abs(w) > (1e-4 if c.get("near") else 0.05 * (1 + np.abs(M[2]).max()))
                p = p[keep]
                n = len(p)
    p0 = p.copy()
    for first, second, f in (("abs_to_rel", "rel_to_abs", fw), ("rel_to_abs", "abs_to_rel", bw)):
        q = getattr(t, first)(p)
        exp = np.array([f(float(x), float(y)) for x, y in p0], float).reshape(n, 2)
        need(np.array_equal(p, p0) and p.dtype == p0.dtype, f"{first} modified its input")
        need(np.array_equal(par[0], par[1]), f"{first} modified the transformation's parameter")
        need(np.asarray(q).shape == (n, 2) and close(q, exp, 1e-5), f"{first}: {np.asarray(q).tolist()} expected {exp.tolist()}")
        r = getattr(t, second)(q)
        need(np.asarray(r).shape == (n, 2) and close(r, p0, 1e-4 * (1 + c["scale"])), f"{second}({first}(p)): {np.asarray(r).tolist()} expected {p0.tolist()}")
