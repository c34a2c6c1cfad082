"""Oracle: an explicit state machine over scripted OpenCV results (what OpenCV
computes is replaced by scripted values, its arguments are recorded), plus real
frames with a known integer displacement."""
import contextlib
import copy
import itertools

from search.common import *

RULE = ("scripted histories of 1-12 frames: translations with ties and empty point sets, homographies found/not found with any mask and 0-9 points, "
        "getters that fail, flows that fail, masks, and real shifted images")


def corners():
    out = []
    for thr in (0.0, 0.5, 0.9, 1.0, 1.1):
        out.append(dict(kind="t", bin=0.5, thr=thr, seed=3, steps=[[5, 3], [4, 1], [6, 2], [1, 1], [0, 0], [7, 7], [4, 4]]))
        out.append(dict(kind="h", thr=thr, seed=4, steps=[[6, 4, 1], [3, 0, 1], [8, 8, 1], [9, 1, 1], [4, 2, 1], [5, 5, 0], [0, 0, 1], [None, 0, 1], [6, 1, 1], [6, 6, 1]]))
    for thr in (0.5, 1.1):
        out.append(dict(kind="t", bin=0.25, thr=thr, seed=8, steps=[[5, 3], [4, 1], [6, 2, 2.0], [5, 5], [1, 1, 0.5], [4, 1, 3.0], [3, 1]]))
    for s in range(4):
        for mp in (21, 64, 200):
            out.append(dict(kind="e", seed=s, draw=0, mp=mp, lose=0.7, steps=[["ok", 0], ["ok", 0], ["ok", 0], ["ok", 1], ["ok", 0], ["ok", 0], ["ok", 0]]))
    for s in range(6):
        out.append(dict(kind="e", seed=s, draw=s % 2, steps=[["ok", 0], ["ok", 1], ["ok", 0], ["noflow", 0], ["ok", 0], ["raise", 0], ["ok", 0], ["ok", 1], ["ok", 0], ["none", 1], ["ok", 0]]))
    out.append(dict(kind="f", seed=1, steps=[[0, 0]]))
    for st in (0, 1, 2):
        out.append(dict(kind="s", seed=st, n=9, pts=st, fail=0, steps=[]))
        out.append(dict(kind="s", seed=st + 9, n=0, pts=st, fail=0, steps=[]))
    out.append(dict(kind="r", getter="t", seed=5, steps=[[0, 0], [3, -2], [8, 5], [30, 10], [60, 40], [55, 42]]))
    return out


def gen(rng, k):
    kind = "thes"[k % 4]
    n = int(rng.integers(1, 13))
    if kind == "t":
        return dict(kind="t", bin=float(rng.choice([0.5, 0.25, 1, 2])), thr=float(rng.choice([0.3, 0.5, 0.75, 0.9])), seed=int(rng.integers(1 << 30)),
                    steps=[[int(rng.integers(0, 9)), int(rng.integers(1, 9))] + ([float(rng.choice([0.5, 0.25, 1, 2, 3]))] if rng.random() < 0.1 else []) for _ in range(n)])
    if kind == "h":
        st = []
        for _ in range(n):
            m = int(rng.integers(2, 11))
            st.append([m, int(rng.integers(0, m + 1)), int(rng.random() < 0.85)])
        return dict(kind="h", thr=float(rng.choice([0.3, 0.5, 0.9])), seed=int(rng.integers(1 << 30)), steps=st)
    if kind == "s":
        return dict(kind="s", seed=int(rng.integers(1 << 30)), n=int(rng.integers(0, 12)), pts=int(rng.integers(3)), fail=0, steps=[])
    return dict(kind="e", seed=int(rng.integers(1 << 30)), draw=int(rng.integers(2)), mp=int(rng.choice([8, 21, 64, 200])), lose=float(rng.choice([0.1, 0.5, 0.8])),
                steps=[[str(rng.choice(["ok", "ok", "ok", "noflow", "raise", "none"])), int(rng.integers(2))] for _ in range(n)])


@contextlib.contextmanager
def patched(**kw):
    import cv2

    old = {k: getattr(cv2, k) for k in kw}
    for k, v in kw.items():
        setattr(cv2, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(cv2, k, v)


def check(c):
    rng = np.random.default_rng(c["seed"])
    globals()["check_" + c["kind"]](c, rng)


def check_t(c, rng):
    from norfair.camera_motion import TranslationTransformationGetter

    b, thr = c["bin"], c["thr"]
    g = TranslationTransformationGetter(bin_size=b, proportion_points_used_threshold=thr)
    acc = np.zeros(2)
    first, past = True, []
    for n, kinds, *nb in c["steps"]:
        if nb:  # another bin size from now on
            b = g.bin_size = nb[0]
        prev = rng.integers(-50, 50, size=(n, 2)).astype(float)
        fl = rng.integers(-3, 4, size=(max(kinds, 1), 2)).astype(float) * b
        flow = fl[rng.integers(0, len(fl), size=n)] if n else np.zeros((0, 2))
        jit = rng.integers(-1, 2, size=(n, 2)) * (b / 8)
        curr = prev + flow + jit
        c0, p0 = curr.copy(), prev.copy()
        try:
            flag, t = g(curr, prev)
        except Exception:
            need(n == 0, f"estimation failed with {n} points")
            continue
        need(n > 0, "a translation without points")
        rows = [tuple(np.around((x - y) / b)) for x, y in zip(c0, p0)]
        cnt = {r: rows.count(r) for r in rows}
        best = max(cnt.values())
        modes = [np.array(r) * b + acc for r, v in cnt.items() if v == best]
        mv = np.asarray(t.movement_vector)
        need(any(close(mv, m) for m in modes), f"movement {mv.tolist()} is none of {[m.tolist() for m in modes]}")
        told = best / n < thr
        need(bool(flag) == told, f"flag {flag} with proportion {best}/{n} and threshold {thr}")
        need(np.array_equal(curr, c0) and np.array_equal(prev, p0), "points modified")
        x = np.array([[1.5, -2.0]])
        past.append((t, x, t.abs_to_rel(x).copy()))
        for q, x, y in past:
            need(close(q.abs_to_rel(x), y), "an earlier transformation changed")
        if told:
            acc = mv.copy()


def check_h(c, rng):
    import cv2
    from norfair.camera_motion import HomographyTransformationGetter

    thr = c["thr"]
    conf = dict(method=cv2.LMEDS, ransac_reproj_threshold=2.5, max_iters=77, confidence=0.9)
    g = HomographyTransformationGetter(proportion_points_used_threshold=thr, **conf)
    acc, past = None, []
    for n, used, found in c["steps"]:
        if n is None:
            prev = curr = None
        else:
            prev, curr = rng.normal(size=(n, 2)) * 20, rng.normal(size=(n, 2)) * 20
        H = np.eye(3) + rng.integers(-2, 3, size=(3, 3)) / 8
        while abs(np.linalg.det(H)) < 0.05:
            H = np.eye(3) + rng.integers(-2, 3, size=(3, 3)) / 8
        mask = np.zeros((n or 0, 1), np.uint8)
        mask[:used] = 1
        seen = []

        def find(src, dst, method=0, ransacReprojThreshold=3, mask=None, maxIters=2000, confidence=0.995, _m=mask):
            seen.append((np.array(src), np.array(dst), dict(method=method, ransac_reproj_threshold=ransacReprojThreshold, max_iters=maxIters, confidence=confidence)))
            return (H.copy(), _m) if found else (None, None)

        err = r = None
        with patched(findHomography=find):
            try:
                r = g(curr, prev)
            except Exception as e:
                err = e
        few = n is None or n < 4
        need(len(seen) == (0 if few else 1), f"{len(seen)} homographies looked for with {n} points")
        if few:
            need(err is None, f"too few points: {err}")
            need(bool(r[0]), "too few points: the reference does not move")
            if acc is None:
                need(r[1] is None, "a transformation out of nothing")
            else:
                need(close(r[1].homography_matrix, acc), "too few points: not the accumulated motion")
            continue
        s, d, k = seen[0]
        need(np.array_equal(s, prev) and np.array_equal(d, curr), "homography between the wrong points")
        need(k == conf, f"configuration {k}")
        if not found:
            need(err is not None, "no homography found but no error")
            return
        need(err is None, f"failed: {err!r}")
        want = H if acc is None else H @ acc
        x = rng.normal(size=(2, 2))
        need(close(r[1].homography_matrix, want), f"homography {r[1].homography_matrix.tolist()} expected {want.tolist()}")
        told = used / n < thr
        need(bool(r[0]) == told, f"flag {r[0]} with proportion {used}/{n} and threshold {thr}")
        past.append((r[1], r[1].homography_matrix.copy()))
        for t, m in past:
            need(np.array_equal(t.homography_matrix, m), "an earlier transformation changed")
        if told:
            acc = want


def check_s(c, rng):
    from norfair.camera_motion import _get_sparse_flow as f

    n = c["n"]
    new, ref, mask = object(), object(), object()
    pts = [None, rng.normal(size=(n, 1, 2)).astype(np.float32), rng.normal(size=(n, 2)).astype(np.float32)][c["pts"]]
    sampled = rng.normal(size=(n, 1, 2)).astype(np.float32)
    status = rng.integers(0, 2, size=(n, 1)).astype(np.uint8)
    log = []

    def good(image, maxCorners=None, qualityLevel=None, minDistance=None, mask=None, blockSize=None, **k):
        log.append(("good", image is ref, maxCorners, qualityLevel, minDistance, mask, blockSize))
        return sampled

    nxt = [None]

    def lk(a, b, p, q, **k):
        log.append(("lk", a is ref, b is new, p is (sampled if pts is None else pts)))
        nxt[0] = np.asarray(p) + 7
        return nxt[0], status, np.zeros((n, 1))

    with patched(goodFeaturesToTrack=good, calcOpticalFlowPyrLK=lk):
        curr, prev = f(new, ref, pts, 11, 12, 13, mask, quality_level=0.14)
    want = ([("good", True, 11, 0.14, 12, mask, 13)] if pts is None else []) + [("lk", True, True, True)]
    need(log == want, f"calls {log}")
    src = (sampled if pts is None else pts).reshape(-1, 2)
    keep = [i for i in range(n) if status[i, 0] == 1]
    need(np.asarray(prev).shape == (len(keep), 2) and close(prev, src[keep]), "previous points are not the ones found again")
    need(np.asarray(curr).shape == (len(keep), 2) and close(curr, src[keep] + 7), "current points are not where they were found")


class Getter:
    """scripted; a deep copy has to start from the state given at construction"""
    n = itertools.count()

    def __init__(self, script):
        self.script, self.used, self.args = script, 0, []

    def __deepcopy__(self, memo):
        g = Getter(self.script)
        g.used = self.used
        return g

    def __call__(self, curr_pts, prev_pts):
        self.used += 1
        self.script["args"] = (curr_pts, prev_pts)
        self.script["used"] = self.used
        if self.script["what"] == "raise":
            raise RuntimeError("scripted")
        return self.script["flag"], self.script["out"]


def check_e(c, rng):
    from norfair.camera_motion import MotionEstimator

    script = {}
    me = MotionEstimator(max_points=c.get("mp", 21), min_distance=22, block_size=5, quality_level=0.2, transformations_getter=Getter(script), draw_flow=bool(c["draw"]))
    log, cur = [], {}

    def cvt(frame, code):
        g = frame.astype(float).sum(axis=2)
        cur["gray"] = g
        return g

    def good(image, maxCorners=None, qualityLevel=None, minDistance=None, mask=None, blockSize=None, **k):
        log.append(("good", image, mask, maxCorners, qualityLevel, minDistance, blockSize))
        p = np.array(rng.integers(0, 30, size=(8, 1, 2)), np.float32)
        return p

    def lk(a, b, p, q, **k):
        log.append(("lk", a, b, p))
        if script["what"] == "noflow":
            raise RuntimeError("scripted")
        st = np.ones((len(p), 1), np.uint8)
        if "lose" in c:
            st[rng.random(len(st)) < c["lose"]] = 0
        elif len(st) > 3:
            st[rng.integers(len(st))] = 0
        cur["prev"] = np.asarray(p).reshape(-1, 2)[st[:, 0] == 1]
        cur["curr"] = cur["prev"] + 1
        return np.asarray(p) + 1, st, st.astype(float)

    ref = rmask = pts = None
    used = 0
    for k, (what, flag) in enumerate(c["steps"]):
        frame = rng.integers(0, 255, size=(6, 7, 3)).astype(np.uint8)
        mask = None if rng.random() < 0.5 else rng.integers(0, 2, size=(6, 7)).astype(np.uint8)
        script.clear()
        # without a flow both of norfair's getters tell to move or fail
        script.update(what=what, flag=bool(flag) or what == "noflow", out=None if what == "none" else object())
        log.clear()
        cur.clear()
        with patched(cvtColor=cvt, goodFeaturesToTrack=good, calcOpticalFlowPyrLK=lk):
            r = me.update(frame, mask)
        gray = cur["gray"]
        if ref is None:
            ref, rmask = gray, mask
        goods, lks = [x for x in log if x[0] == "good"], [x for x in log if x[0] == "lk"]
        where = f"frame {k} of {c['steps']}: "
        need(len(goods) == (pts is None), where + ("points resampled" if pts is not None else "points not sampled"))
        for g in goods:
            need(g[1] is ref, where + "points sampled on another frame than the reference")
            need(g[2] is rmask, where + "points sampled with another mask than the reference's")
            need(g[3:] == (c.get("mp", 21), 0.2, 22, 5), where + f"configuration {g[3:]}")
        need(len(lks) == 1 and lks[0][1] is ref and lks[0][2] is gray, where + "flow between the wrong frames")
        if pts is not None:
            need(close(np.asarray(lks[0][3]).reshape(-1, 2), pts), where + "not the reference's points")
        need("args" in script, where + "no estimation")
        if what == "noflow":
            need(script["args"] == (None, None), where + "points of a failed flow")
        else:
            need(close(script["args"][0], cur["curr"]) and close(script["args"][1], cur["prev"]), where + "estimated from other points")
        used += 1
        need(script["used"] == used, where + "the getter does not have the state it should have")
        need(r is (None if what == "raise" else script["out"]), where + "another transformation returned")
        if what == "raise":
            used = 0
        if what == "raise" or script["flag"]:
            ref, rmask, pts = gray, mask, None
        else:
            pts = cur["prev"].copy()


def check_f(c, rng):
    """defaults"""
    from norfair.camera_motion import HomographyTransformationGetter, MotionEstimator

    need(isinstance(MotionEstimator().transformations_getter, HomographyTransformationGetter), "homographies are the documented default")


def check_r(c, rng):
    """real images: a window moving over a texture"""
    import cv2
    from norfair.camera_motion import HomographyTransformationGetter, MotionEstimator, TranslationTransformationGetter

    big = cv2.GaussianBlur(rng.integers(0, 255, size=(400, 500, 3)).astype(np.uint8), (0, 0), 3)
    big = cv2.normalize(big, None, 0, 255, cv2.NORM_MINMAX)
    me = MotionEstimator(transformations_getter={"t": TranslationTransformationGetter, "h": HomographyTransformationGetter}[c["getter"]]())
    p = np.array([[100.0, 80.0], [40, 60], [10, 90]])
    for dx, dy in c["steps"]:
        x, y = 100 + dx, 100 + dy
        t = me.update(np.ascontiguousarray(big[y:y + 160, x:x + 200]))
        rel = t.abs_to_rel(p)
        need(np.abs(rel - (p - [dx, dy])).max() < 1.5, f"camera at {dx, dy}: {rel.tolist()} expected {(p - [dx, dy]).tolist()}")
