"""Oracle: the textbook Kalman filter with full matrices."""
from search.common import *

RULE = "random filters (1-12 coordinates), parameters and histories of predict/update with random masks; non-trivial: at least one update"


def corners():
    out = []
    for dz in (1, 2, 6):
        for H in ("none", "ones", "zeros", "half"):
            for R in ("none", "mat"):
                out.append(dict(dz=dz, q=0.1, r=4.0, pv=10.0, pvc=0.0, vv=1.0, seed=dz, steps=[["pu", H, R]] * 4))
    out.append(dict(dz=2, q=0.1, r=4.0, pv=10.0, pvc=0.0, vv=1.0, seed=1, steps=[["p", "none", "none"]] * 3 + [["u", "none", "none"]]))
    return out


def gen(rng, k):
    pv, vv = rnd(rng, 0.1, 20), rnd(rng, 0.1, 5)
    pvc = rnd(rng, -0.9, 0.9) * (pv * vv) ** 0.5
    st = [[["p", "u", "pu"][rng.integers(3)], ["none", "ones", "zeros", "half", "half"][rng.integers(5)],
           ["none", "mat"][int(rng.random() < 0.3)]] for _ in range(int(rng.integers(1, 8)))]
    return dict(dz=int(rng.integers(1, 13)), q=rnd(rng, 0.01, 3), r=rnd(rng, 0.05, 10), pv=pv, pvc=round(pvc, 4), vv=vv,
                seed=int(rng.integers(1 << 30)), steps=st)


def check(c):
    from norfair.filter import OptimizedKalmanFilter

    rng = np.random.default_rng(c["seed"])
    dz = c["dz"]
    f = OptimizedKalmanFilter(2 * dz, dz, pos_variance=c["pv"], pos_vel_covariance=c["pvc"], vel_variance=c["vv"], q=c["q"], r=c["r"])
    need(close(f.x, np.zeros((2 * dz, 1))), "initial state is not zero")
    x0 = rng.normal(size=(2 * dz, 1)) * 10
    f.x[:] = x0
    xs = [np.array([x0[i, 0], x0[dz + i, 0]]) for i in range(dz)]
    Ps = [np.array([[c["pv"], c["pvc"]], [c["pvc"], c["vv"]]], float) for _ in range(dz)]
    F = np.array([[1.0, 1], [0, 1]])
    Q = c["q"] * np.eye(2)
    pend = False
    for t, (what, H, R) in enumerate(c["steps"]):
        # predicting moves the mean; the covariance prediction belongs to the update that follows
        if "p" in what:
            f.predict()
            for i in range(dz):
                xs[i] = F @ xs[i]
        if "u" in what:
            z = rng.normal(size=(dz, 1)) * 10
            h = np.ones(dz) if H in ("none", "ones") else np.zeros(dz) if H == "zeros" else (rng.random(dz) < 0.5).astype(float)
            r = np.full(dz, c["r"])
            kw = {}
            if H != "none":
                Hm = np.eye(dz, 2 * dz)
                Hm[np.arange(dz), np.arange(dz)] = h
                kw["H"] = Hm
            if R == "mat":
                r = rng.uniform(0.1, 9, size=dz)
                kw["R"] = np.diag(r)
            args = {k: v.copy() for k, v in kw.items()}
            zc = z.copy()
            f.update(z, **kw)
            need(np.array_equal(z, zc) and all(np.array_equal(args[k], kw[k]) for k in kw), f"step {t}: update modified its arguments")
            for i in range(dz):
                Pp = F @ Ps[i] @ F.T + Q
                if h[i]:
                    S = Pp[0, 0] + r[i]
                    K = Pp[:, 0] / S
                    xs[i] = xs[i] + K * (z[i, 0] - xs[i][0])
                    Pp = Pp - np.outer(K, Pp[0, :])
                Ps[i] = Pp
        X = np.array([v[0] for v in xs] + [v[1] for v in xs])[:, None]
        need(close(f.x, X), f"step {t} ({what}): state {f.x.ravel().tolist()} expected {X.ravel().tolist()}")
        for name, val in (("pos_variance", [P[0, 0] for P in Ps]), ("pos_vel_covariance", [P[0, 1] for P in Ps]),
                          ("vel_variance", [P[1, 1] for P in Ps])):
            got = getattr(f, name)
            need(close(np.asarray(got).ravel(), val), f"step {t} ({what}): {name} {np.asarray(got).ravel().tolist()} expected {val}")
