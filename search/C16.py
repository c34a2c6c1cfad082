"""Oracle: the transformation's own formulas, applied by the harness."""
from search.trk import *

RULE = "random histories with translations or homographies on most frames, no-filter and Kalman; plus objects without transformations"


def gen(rng, k):
    c = gen_case(rng, coords=rng.random() < 0.9, frames=int(rng.integers(2, 14)), reid=bool(rng.random() < 0.3), nf=bool(rng.random() < 0.7))
    c["again"] = bool(rng.random() < 0.3)
    return c


def fwd(f, p, inv=False):
    p = np.asarray(p, float)
    if "t" in f:
        m = np.array(f["t"], float)
        return p - m if inv else p + m
    H = np.array(f["h"], float)
    if inv:
        H = np.linalg.inv(H)
    q = np.hstack([p, np.ones((len(p), 1))]) @ H.T
    return q[:, :2] / q[:, 2:]


def check(c):
    latest = {}
    hold = []
    for s in steps(c):
        if s.odd:
            return
        f = s.f
        has = "t" in f or "h" in f
        for d, dd in zip(s.given or [], f["d"] or []):
            rel = np.array(dd["p"], float)
            need(np.allclose(d.points, rel), f"update {s.k}: relative points of a detection changed")
            want = fwd(f, rel, True) if has else rel
            need(close(d.absolute_points, want, 1e-5), f"update {s.k}: absolute points {d.absolute_points.tolist()} expected {want.tolist()}")
        for r in s.pre + s.new:
            if any(r is x for x in s.gone):
                continue
            o, i = r.o, id(r.o)
            hold.append(o)
            w = f"update {s.k}: {name(o)}"
            if has:
                latest[i] = f
            if i not in latest:
                try:
                    o.get_estimate(absolute=True)
                    need(False, f"{w}: absolute estimate without any transformation is not an error")
                except ValueError:
                    pass
                x = np.asarray(o.filter.x).T.flatten()[: o.estimate.size].reshape(o.estimate.shape)
                need(np.allclose(o.estimate, x), f"{w}: estimate is not returned as it is")
                continue
            a, e, g = o.get_estimate(absolute=True), o.get_estimate(), o.estimate
            need(close(e, fwd(latest[i], a), 1e-5), f"{w}: relative estimate {e.tolist()} is not the transformed absolute one {fwd(latest[i], a).tolist()}")
            need(close(e, g), f"{w}: estimate attribute differs from get_estimate()")
            x = np.asarray(o.filter.x).T.flatten()[: a.size].reshape(a.shape)
            need(np.allclose(a, x), f"{w}: absolute estimate is transformed")
        for r in s.new:
            if has:
                need(close(r.o.get_estimate(absolute=True), r.last.absolute_points, 1e-6), f"update {s.k}: new {name(r.o)} does not start at the absolute points")
        if c["nofilter"]:
            for r in s.pre:
                d = s.hit.get(id(r.o))
                if d is None:
                    continue
                over = np.ones(len(d.points), bool) if d.scores is None else d.scores > c["dthr"]
                x = np.asarray(r.o.filter.x).T.flatten()[: d.points.size].reshape(d.points.shape)
                need(close(x[over], d.absolute_points[over], 1e-6), f"update {s.k}: {name(r.o)} is not updated with the absolute points")
        if c["again"] and s.given and has:
            # a detection that is processed again gets the new transformation of its relative points
            d = s.given[0]
            g = dict(t=[3.0, -4.5])
            d.update_coordinate_transformation(transform(g))
            need(close(d.absolute_points, fwd(g, np.array(f["d"][0]["p"], float), True), 1e-5), "processing a detection again does not start from its relative points")
            d.update_coordinate_transformation(s.ct)
