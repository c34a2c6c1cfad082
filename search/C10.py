"""Oracle: explicit matrices written from the documentation."""
from search.common import *

RULE = "random factories, parameters and detections (1-8 points, 1-3 dims); non-trivial: every case creates a filter and checks all its matrices"


def corners():
    out = []
    for fac in ("fpy", "opt", "no"):
        for n, d in ((1, 2), (2, 2), (3, 3), (5, 2), (1, 1)):
            for par in (None, [2.5, 0.3, 7.0, 0.5, 3.0]):
                for dt in ("float", "int", "float32"):
                    out.append(dict(fac=fac, n=n, d=d, par=par, dt=dt, seed=1, steps=[]))
    for fac in ("fpy", "opt", "no"):
        for par in ([0.0, 0.1, 10.0, 0.0, 1.0], [4, 0, 10, 0, 1], [4.0, 0.1, 0.0, 0.0, 0.0], [0, 0, 0, 0, 0], [4.0, 0.1, 10.0, -0.5, 1.0]):
            out.append(dict(fac=fac, n=2, d=2, par=par, dt="float", seed=1, steps=[]))
        for lay in ("F", "step", "rev"):
            for n, d in ((2, 2), (3, 2), (2, 3), (4, 1)):
                out.append(dict(fac=fac, n=n, d=d, par=None, dt="float", seed=3, steps=["half"], lay=lay))
    for H in ("none", "ones", "zeros", "half"):
        out.append(dict(fac="no", n=2, d=2, par=None, dt="float", seed=2, steps=[H] * 4))
    return out


def gen(rng, k):
    return dict(fac=["fpy", "opt", "no", "no"][rng.integers(4)], n=int(rng.integers(1, 9)), d=int(rng.integers(1, 4)),
                par=None if rng.random() < 0.2 else [rnd(rng, 0.1, 9) if rng.random() < 0.9 else 0.0 for _ in range(5)], lay=["C", "C", "F", "step", "rev"][rng.integers(5)], dt=["float", "int", "float32"][rng.integers(3)],
                seed=int(rng.integers(1 << 30)), steps=[["none", "ones", "zeros", "half", "half"][rng.integers(5)] for _ in range(rng.integers(0, 6))])


def check(c):
    from norfair.filter import (FilterPyKalmanFilterFactory, NoFilterFactory, OptimizedKalmanFilterFactory)

    rng = np.random.default_rng(c["seed"])
    n, d = c["n"], c["d"]
    dz = n * d
    par = c["par"]
    det = (rng.normal(size=(n, d)) * 100).astype({"float": float, "int": int, "float32": np.float32}[c["dt"]])
    lay = c.get("lay", "C")  # the memory layout of the array is not part of its value
    if lay == "F":
        det = np.asfortranarray(det)
    elif lay == "step":
        big = np.zeros((2 * n, 3 * d), dtype=det.dtype)
        big[::2, ::3] = det
        det = big[::2, ::3]
    elif lay == "rev":
        det = det[::-1, ::-1].copy()[::-1, ::-1]
    d0 = det.copy()
    if c["fac"] == "fpy":
        fac = FilterPyKalmanFilterFactory(*par[:3]) if par else FilterPyKalmanFilterFactory()
        pr = par[:3] if par else [4.0, 0.1, 10.0]
    elif c["fac"] == "opt":
        names = ["R", "Q", "pos_variance", "pos_vel_covariance", "vel_variance"]
        fac = OptimizedKalmanFilterFactory(**dict(zip(names, par))) if par else OptimizedKalmanFilterFactory()
        pr = par or [4.0, 0.1, 10.0, 0.0, 1.0]
    else:
        fac = NoFilterFactory()
    f, g = fac.create_filter(det), fac.create_filter(det)
    need(f is not g, "the factory returned the same filter twice")
    need(np.array_equal(det, d0), "detection modified")
    x = np.zeros((2 * dz, 1))
    for i in range(n):
        for j in range(d):
            x[i * d + j, 0] = det[i, j]
    for flt in (f, g):
        need(close(flt.x, x), f"initial state {flt.x.ravel().tolist()} expected {x.ravel().tolist()}")
        if c["fac"] == "fpy":
            F = np.eye(2 * dz)
            for i in range(dz):
                F[i, dz + i] = 1
            Q, P = np.eye(2 * dz), np.eye(2 * dz)
            for i in range(dz, 2 * dz):
                Q[i, i], P[i, i] = pr[1], pr[2]
            for nme, v in (("F", F), ("H", np.eye(dz, 2 * dz)), ("R", pr[0] * np.eye(dz)), ("Q", Q), ("P", P)):
                need(close(getattr(flt, nme), v), f"{nme} is {np.asarray(getattr(flt, nme)).tolist()}")
        elif c["fac"] == "opt":
            for nme, v in (("pos_variance", pr[2]), ("pos_vel_covariance", pr[3]), ("vel_variance", pr[4]), ("default_r", pr[0])):
                need(close(getattr(flt, nme), np.full((dz, 1), v)), f"{nme} is {np.asarray(getattr(flt, nme)).tolist()}")
            need(close(flt.q_Q, pr[1]), "process noise")
    # independence: using one changes neither the other nor the detection
    z = rng.normal(size=(dz, 1))
    f.predict()
    f.update(z)
    f.x += 1
    need(close(g.x, x) and np.array_equal(det, d0), "filters or detection share storage")
    h = fac.create_filter(det)
    need(close(h.x, x), "a new filter is influenced by an older one")
    det += 1
    need(close(g.x, x), "filter aliases the detection")
    if c["fac"] != "no":
        return
    for t, H in enumerate(c["steps"]):
        if rng.random() < 0.5:
            g.predict()
        need(close(g.x, x), f"step {t}: predict changed the state")
        z = rng.normal(size=(dz, 1)) * 10
        hm = np.ones(dz) if H in ("none", "ones") else np.zeros(dz) if H == "zeros" else (rng.random(dz) < 0.5).astype(float)
        kw = {}
        if H != "none":
            M = np.eye(dz, 2 * dz)
            M[np.arange(dz), np.arange(dz)] = hm
            kw["H"] = M
        if rng.random() < 0.3:
            kw["R"] = np.diag(rng.uniform(0.1, 5, size=dz))
        zc = z.copy()
        g.update(z, **kw)
        need(np.array_equal(z, zc), "update modified the measurement")
        for i in range(dz):
            if hm[i]:
                x[i, 0] = zc[i, 0]
        need(close(g.x, x), f"step {t}: state {g.x.ravel().tolist()} expected {x.ravel().tolist()}")
        z += 5
        need(close(g.x, x), f"step {t}: state aliases the measurement")
