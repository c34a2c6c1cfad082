"""Oracle: histories recomputed from the requested points of interest, compared
with the lines cv2 is asked to draw and with the remembered point sets; masks
recomputed by drawing the requested circles with the real cv2."""
from search.common import *

RULE = ("1-12 frames, 0-4 tracked objects of real trackers with 1-4 points and changing live points, camera movements, default and custom points of interest, "
        "history lengths 0-6 and the default, attenuation 0-1, default and given colors, radii and thicknesses")


def gen(rng, k):
    n = int(rng.integers(1, 5))
    K = int(rng.integers(0, 4))
    T = int(rng.integers(1, 13))
    frames = []
    for t in range(T):
        frames.append(dict(pos=[[rnd(rng, 5, 80, 1), rnd(rng, 5, 50, 1)] for _ in range(K)], seen=[bool(rng.random() < 0.8) for _ in range(K)],
                           live=[[bool(x) for x in rng.integers(0, 2, size=n)] if rng.random() < 0.5 else [bool(rng.random() < 0.7)] * n for _ in range(K)],
                           shown=[bool(rng.random() < 0.85) for _ in range(K)], flip=bool(rng.integers(2)), cam=[rnd(rng, -9, 9, 1), rnd(rng, -9, 9, 1)]))
    return dict(absolute=bool(k % 2), n=n, frames=frames, history=[None, 0, 1, 2, 3, 6][rng.integers(6)], interest=[None, "all", "first", "two", "none", "far"][rng.integers(6)],
                color=[None, [1, 2, 3]][rng.integers(2)], radius=[None, 0, 2][rng.integers(3)], thickness=[None, 1, 2][rng.integers(3)],
                attenuation=[None, 0, 1, 0.5, 0.01, rnd(rng, 0, 1)][rng.integers(6)], shape=[[60, 90, 3], [160, 100, 3]][rng.integers(2)], how=["list", "tuple"][rng.integers(2)])


def corners():
    out = []
    for absolute in (False, True):
        for hist in ((None, 0, 1, 2, 5) if absolute else (None,)):
            for interest in (None, "all"):
                frames = []
                for t in range(9):
                    frames.append(dict(pos=[[10.0 + 6 * t, 12.5], [70.9 - 5 * t, 40.5 - t], [40.0, 5.0 + 4 * t]], seen=[True] * 3,
                                       live=[[True, True], [t % 3 != 1] * 2, [t % 2 == 0, t % 4 == 0]], shown=[True, True, t != 4], flip=t % 2 == 1, cam=[1.5 * t, -0.5 * t]))
                out.append(dict(absolute=absolute, n=2, frames=frames, history=hist, interest=interest, color=None, radius=None, thickness=None, attenuation=None, shape=[60, 90, 3], how="list"))
    for att in (0, 1, 0.5):
        out.append(dict(absolute=False, n=1, frames=[dict(pos=[[10.0 + 20 * t, 20.0]], seen=[True], live=[[True]], shown=[t < 2], flip=False, cam=[0, 0]) for t in range(6)],
                        history=None, interest=None, color=[200, 100, 255], radius=3, thickness=2, attenuation=att, shape=[60, 90, 3], how="list"))
    # more frames than the default history
    out.append(dict(absolute=True, n=1, frames=[dict(pos=[[5.0 + 3 * t, 20.0]], seen=[True], live=[[True]], shown=[True], flip=False, cam=[t, 0]) for t in range(25)],
                    history=None, interest=None, color=None, radius=None, thickness=None, attenuation=None, shape=[60, 90, 3], how="list"))
    # a drawer that sees no object, then one
    for absolute in (False, True):
        out.append(dict(absolute=absolute, n=1, frames=[dict(pos=[[20.0, 20.0]], seen=[True], live=[[True]], shown=[t > 2], flip=False, cam=[0, 0]) for t in range(5)],
                        history=2, interest=None, color=None, radius=None, thickness=None, attenuation=None, shape=[60, 90, 3], how="list"))
    return out


INTEREST = {
    None: lambda p: np.mean(np.array(p), axis=0)[None],
    "all": lambda p: np.array(p),
    "first": lambda p: np.array(p)[:1],
    "two": lambda p: np.array([np.min(p, axis=0), np.max(p, axis=0)]),
    "none": lambda p: np.zeros((0, 2)),
    "far": lambda p: np.array(p)[:1] + [[400.25, -300.5]],
}
NAMES = dict(circle=["img", "center", "radius", "color", "thickness"], line=["img", "pt1", "pt2", "color", "thickness"],
             addWeighted=["src1", "alpha", "src2", "beta", "gamma"])


def ints(p):
    return tuple(int(v) for v in np.trunc(np.asarray(p, dtype=float)))


def fits(got, want):
    """got: integers; want: numbers that are cut off, give or take a rounding error"""
    return all(g in (int(np.trunc(w)), int(np.trunc(w - 1e-6)), int(np.trunc(w + 1e-6))) for g, w in zip(got, want))


def same_multiset(got, want, alternatives):
    """one element of want for each of got, up to the alternatives of an element"""
    if len(got) != len(want):
        return False
    left = list(want)
    for g in got:
        for k, w in enumerate(left):
            if any(fits(g, a) for a in alternatives(w)):
                del left[k]
                break
        else:
            return False
    return True


def both(w):
    return [w, w[2:] + w[:2]]


def one(w):
    return [w]


def check(c):
    import cv2

    from norfair import Detection, Tracker
    from norfair.camera_motion import TranslationTransformation
    from norfair.drawing import AbsolutePaths, Paths

    K, n = len(c["frames"][0]["pos"]), c["n"]
    tracker = Tracker(distance_function=lambda d, o: 0.0 if d.label == o.label else 99.0, distance_threshold=1, initialization_delay=0, hit_counter_max=100,
                      pointwise_hit_counter_max=3)
    kw = {k: tuple(v) if isinstance(v, list) else v for k, v in c.items() if k in ("color", "radius", "thickness") and v is not None}
    f = INTEREST[c["interest"]]
    if c["interest"] is not None:
        kw["get_points_to_draw"] = lambda p: f(p)
    if c["absolute"]:
        if c["history"] is not None:
            kw["max_history"] = c["history"]
        d, L = AbsolutePaths(**kw), 20 if c["history"] is None else c["history"]
    else:
        if c["attenuation"] is not None:
            kw["attenuation"] = c["attenuation"]
        d, factor = Paths(**kw), 1 - (0.01 if c["attenuation"] is None else c["attenuation"])
    # another drawer of the same kind, which must have nothing to do with this one
    other = AbsolutePaths(**kw) if c["absolute"] else Paths(**kw)
    rng = np.random.default_rng(3)
    hist, mask = {}, np.zeros(c["shape"], np.uint8)
    real = {k: getattr(cv2, k) for k in NAMES}
    calls = []

    def wrap(name):
        def g(*a, **k):
            args = dict(zip(NAMES[name], a))
            args.update(k)
            r = real[name](*a, **k)
            calls.append((name, args, r))
            return r

        return g

    for t, fr in enumerate(c["frames"]):
        cam = TranslationTransformation(np.array(fr["cam"], dtype=float)) if c["absolute"] else None
        dets = [Detection(np.array([[p[0] + i, p[1] + 2 * i] for i in range(n)]), label=f"o{j}") for j, (p, s) in enumerate(zip(fr["pos"], fr["seen"])) if s]
        objs = tracker.update(dets, coord_transformations=cam) if cam is not None else tracker.update(dets)
        shown = []
        for o in objs:
            j = int(o.label[1:])
            o.point_hit_counter = np.where(np.array(fr["live"][j]), 2, 0)
            if fr["shown"][j]:
                shown.append(o)
        if fr["flip"]:
            shown = shown[::-1]
        if c["how"] == "tuple":
            shown = tuple(shown)
        frame = rng.integers(0, 256, size=c["shape"]).astype(np.uint8)
        f0 = frame.copy()
        est = [(o.id, o.estimate.copy(), o.get_estimate(absolute=True).copy() if cam is not None else None, bool(o.live_points.any())) for o in shown]
        before = [(o.filter.x.tobytes(), o.hit_counter, o.point_hit_counter.tobytes(), o.age) for o in shown]
        del calls[:]
        try:
            for k in NAMES:
                setattr(cv2, k, wrap(k))
            try:
                r = d.draw(frame, shown, cam) if c["absolute"] else d.draw(frame, shown)
            except Exception as e:
                raise Broken(f"frame {t}: draw raised {type(e).__name__}: {e}")
        finally:
            for k in NAMES:
                setattr(cv2, k, real[k])
        if c.get("other", True) and t % 3 != 2:
            state = (d.mask.copy() if isinstance(getattr(d, "mask", None), np.ndarray) else None)
            try:
                other.draw(f0[::-1].copy(), shown, cam) if c["absolute"] else other.draw(f0[::-1].copy(), shown)
            except Exception as e:
                raise Broken(f"frame {t}: draw of another drawer raised {type(e).__name__}: {e}")
            need(state is None or np.array_equal(state, d.mask), f"frame {t}: another drawer changed the mask")
        need(before == [(o.filter.x.tobytes(), o.hit_counter, o.point_hit_counter.tobytes(), o.age) for o in shown], f"frame {t}: an object was modified")
        circles = [ints(a["center"]) for k, a, _ in calls if k == "circle"]
        need(isinstance(r, np.ndarray) and r.shape == f0.shape and r.dtype == np.uint8, f"frame {t}: no image is returned")
        if c["absolute"]:
            lines = [ints(a["pt1"]) + ints(a["pt2"]) for k, a, _ in calls if k == "line"]
            want, cw = [], []
            for id_, _, ab, alive in est:
                if not alive:
                    continue
                P = f(ab)
                cw += [tuple(p) for p in cam.abs_to_rel(P)] if len(P) else []
                h = hist.setdefault(id_, [])
                last = P
                for q in h:
                    want += [tuple(x) + tuple(y) for x, y in zip(cam.abs_to_rel(last), cam.abs_to_rel(q))]
                    last = q
                h.insert(0, P)
                del h[L:]
            need(same_multiset(circles, cw, one), f"frame {t}: circles {circles}, expected {cw}")
            need(same_multiset(lines, want, both), f"frame {t}: lines {lines}, expected {want}")
            h = getattr(d, "past_points", None)
            if isinstance(h, dict):
                for id_ in list(hist):
                    got = [np.array(x) for x in h[id_]] if id_ in h else []
                    need(len(got) <= L, f"frame {t}: {len(got)} past point sets remembered, at most {L} configured")
                    need(len(got) == len(hist[id_]) and all(close(x.reshape(-1), np.asarray(y).reshape(-1)) for x, y in zip(got, hist[id_])),
                         f"frame {t}: history of {id_}: {[x.tolist() for x in got]}, expected {[np.asarray(y).tolist() for y in hist[id_]]}")
                for id_ in h:
                    need(id_ in hist or not len(h[id_]), f"frame {t}: a history of id {id_}")
            continue
        cw = [tuple(p) for _, e, _, _ in est for p in f(e)]
        need(same_multiset(circles, cw, one), f"frame {t}: circles {circles}, expected {cw}")
        need(np.array_equal(frame, f0), f"frame {t}: the frame was modified")
        need(r is not frame, f"frame {t}: the frame itself is returned")
        # the mask: faded, then the circles that were asked for
        faded = mask.astype(float) * factor
        got = getattr(d, "mask", None)
        need(all(k != "line" for k, _, _ in calls), f"frame {t}: lines drawn")
        m = np.floor(np.maximum(faded - 1e-6, 0)).astype(np.uint8)
        hi = np.ceil(np.minimum(faded + 1e-6, 255)).astype(np.uint8)
        for k, a, _ in calls:
            if k == "circle":
                for im in (m, hi):
                    real["circle"](im, ints(a["center"]), int(a["radius"]), tuple(int(x) for x in a["color"]), int(a["thickness"]))
        if isinstance(got, np.ndarray) and got.shape == tuple(c["shape"]):
            g = got.astype(int)
            bad = (g < np.minimum(m, hi).astype(int)) | (g > np.maximum(m, hi).astype(int))
            need(not bad.any(), f"frame {t}: mask {g[bad][:3].tolist()}, expected {m[bad][:3].tolist()} (faded by {factor})")
            mask = got.copy()
        else:
            mask = m
        lo = np.minimum(f0.astype(int) + np.minimum(m, hi), 255)
        up = np.minimum(f0.astype(int) + np.maximum(m, hi), 255)
        rr = r.astype(int)
        bad = (rr < lo - 1) | (rr > up + 1)
        need(not bad.any(), f"frame {t}: blended pixels {rr[bad][:3].tolist()}, expected {lo[bad][:3].tolist()}")
