"""Oracle: a filter that records what it is fed; and two histories that differ
only in points at or below the threshold give the same estimates."""
from search.common import *

RULE = "random histories of one object, all filters, with scores around the threshold"


def gen(rng, k):
    npts, dim = int(rng.integers(1, 5)), int(rng.choice([1, 2, 3, 2])) if False else int(rng.choice([2, 2, 3]))
    thr = float(rng.choice([0, 0.3, 0.5]))
    vals = [0.0, 0.1, 0.3, 0.5, 0.6, 0.9]
    fr = []
    for _ in range(int(rng.integers(1, 9))):
        f = dict(p=[[rnd(rng, -40, 40, 2) for _ in range(dim)] for _ in range(npts)], q=[[rnd(rng, -40, 40, 2) for _ in range(dim)] for _ in range(npts)],
                 per=int(rng.choice([1, 1, 2])), gap=int(rng.choice([0, 0, 1])))
        if rng.random() < 0.85:
            f["s"] = [float(rng.choice(vals)) for _ in range(npts)]
            f["sd"] = "i" if rng.random() < 0.1 else "f"
        fr.append(f)
    return dict(thr=thr, fr=fr, ff=int(rng.integers(3)), n=npts, d=dim, rec=bool(rng.random() < 0.5))


def run(c, other, rec):
    from norfair import Detection, Tracker
    from norfair.filter import FilterPyKalmanFilterFactory, NoFilterFactory, OptimizedKalmanFilterFactory

    inner = [OptimizedKalmanFilterFactory, NoFilterFactory, FilterPyKalmanFilterFactory][c["ff"]]()
    log = []

    class Fac:
        def create_filter(self, x):
            f = inner.create_filter(x)
            if rec:
                up = f.update

                def update(z, R=None, H=None):
                    log.append((np.array(z, copy=True), None if H is None else np.array(H, copy=True), R, f.x.copy()))
                    r = up(z, R, H)
                    log.append(f.x.copy())
                    return r

                f.update = update
            return f

    t = Tracker(distance_function=lambda d, o: 0.0, distance_threshold=1, hit_counter_max=30, initialization_delay=0, detection_threshold=c["thr"],
                filter_factory=Fac())
    n, d, thr = c["n"], c["d"], c["thr"]
    seen, out = None, []
    for k, f in enumerate(c["fr"]):
        pts = np.array(f["p"], float)
        sc = None if "s" not in f else np.array(f["s"], float)
        if sc is not None and f["sd"] == "i":
            sc = (sc * 2).astype(int)
        over = np.ones(n, bool) if sc is None else sc > thr
        if other and k:
            pts[~over] = np.array(f["q"], float)[~over]
        if f["gap"] and k:
            t.update(period=f["per"])
        log.clear()
        det = Detection(pts.copy(), scores=None if sc is None else sc.copy())
        t.update([det], period=f["per"])
        need(len(t.tracked_objects) == 1, "the object was not matched")
        o = t.tracked_objects[0]
        est, vel = o.estimate, o.estimate_velocity
        out.append((est.copy(), vel.copy()))
        w = f"match {k}"
        need(close(det.points, pts) and (sc is None or close(det.scores, sc)), f"{w}: the detection was modified")
        if k == 0:
            need(close(est, pts) and close(vel, 0 * pts), "the object does not start at its detection")
            seen = over.copy()
            need(list(o.detected_at_least_once_points) == list(seen), "points seen at creation")
            continue
        first = over & ~seen
        need(close(est[first], pts[first], 1e-9), f"{w}: first seen points {est[first]} instead of {pts[first]}")
        need(np.all(vel[~seen] == 0), f"{w}: a point never seen before has velocity {vel[~seen]}")
        if rec:
            need(len(log) == 2, f"{w}: filter updated {len(log) // 2} times")
            (z, H, R, x0), x1 = log
            need(z.shape == (n * d, 1), f"{w}: measurement of shape {z.shape}")
            m = np.repeat(over, d)
            need(close(z[m].ravel(), pts.ravel()[m]), f"{w}: measurement {z.ravel()}")
            Hx = np.hstack([np.diag(m.astype(float)), np.zeros((n * d, n * d))])
            need(H is None and sc is None or close(H, Hx), f"{w}: measurement matrix is not the mask {m}")
            need(R is None, f"{w}: measurement noise given")
            need(close(est[over & seen], x1[: n * d].reshape(n, d)[over & seen]), f"{w}: estimate of seen points is not the filter's")
            need(close(vel[seen], x1[n * d:].reshape(n, d)[seen]), f"{w}: velocity of seen points is not the filter's")
            need(close(est[~over], x0[: n * d].reshape(n, d)[~over]), f"{w}: a masked point moved")
        seen |= over
        need(list(o.detected_at_least_once_points) == list(seen), f"{w}: points seen")
    return out


def check(c):
    a = run(c, False, c["rec"])
    b = run(c, True, False)
    for k, ((e1, v1), (e2, v2)) in enumerate(zip(a, b)):
        need(close(e1, e2) and close(v1, v2), f"match {k}: points at or below the threshold changed the estimate: {e1.tolist()} {e2.tolist()}")
