"""Oracle: the requested circles, rectangles and texts computed from the
objects' public attributes, compared with the calls cv2 receives; a part of
the cases also runs the real cv2."""
from search.common import *

RULE = ("0-4 objects of every kind (detections, tracked objects of a real tracker, drawables) with 1-5 points (integers or not), dead points, missing scores, labels and ids; "
        "all combinations of the drawing options, deprecated parameters and every way to choose a color; None and empty lists")


def obj(rng, box):
    n = 2 if box else int(rng.integers(1, 6))
    pts = [[rnd(rng, -5, 90, 1), rnd(rng, -5, 60, 1)] for _ in range(n)]
    kind = ["detection", "tracked", "own"][rng.integers(3)]
    if rng.random() < 0.4:
        pts = [[int(x), int(y)] for x, y in pts]
    live = [bool(x) for x in rng.integers(0, 2, size=n)]
    if rng.random() < 0.3:
        live = [False] * n
    return dict(kind=kind, points=pts, live=live, id=[None, 0, 7, "seven"][rng.integers(4)], label=[None, "car", 3, "a-b", 0][rng.integers(5)],
                scores=[None, [rnd(rng, 0, 1, 5) for _ in range(n)], "scalar"][rng.integers(3)], score=[rnd(rng, 0, 1, 6), 0.0][int(rng.random() < 0.15)]) if rng.random() < 0.85 else \
        dict(kind=kind, points=pts, live=live, id=3, label="car", scores=[0.0] * n, score=0)


def options(rng, box):
    o = dict(draw_labels=bool(rng.integers(2)), draw_ids=bool(rng.integers(2)), draw_scores=bool(rng.integers(2)), color=["by_id", "by_label", "random", "red", "#00ff00", [1, 2, 3], None][rng.integers(7)])
    if box:
        o["draw_box"] = bool(rng.integers(4))
    else:
        o["draw_points"] = bool(rng.integers(4))
        o["hide_dead_points"] = bool(rng.integers(2))
        o["radius"] = [None, 0, 3][rng.integers(3)]
    o["thickness"] = [None, 1, 4, -1][rng.integers(4)]
    o["text_size"] = [None, 1, 0.5][rng.integers(3)]
    o["text_color"] = [None, "blue", "#123456"][rng.integers(3)]
    o["text_thickness"] = [None, 2][rng.integers(2)]
    for k in list(o):
        if rng.random() < 0.3:
            del o[k]
    return o


def gen(rng, k):
    box = bool(k % 2)
    return dict(box=box, objs=[obj(rng, box) for _ in range(rng.integers(0, 5))], opts=options(rng, box), shape=[[60, 90, 3], [700, 900, 3], [1, 1, 3]][rng.integers(3)],
                how=["list", "tuple", "array", "deprecated"][rng.integers(4)])


def corners():
    rng = np.random.default_rng(5)
    out = [dict(box=b, objs=o, opts={}, shape=[60, 90, 3], how=h) for b in (False, True) for o in (None, []) for h in ("list", "deprecated")]
    for b in (False, True):
        for l in (False, True):
            for i in (False, True):
                for s in (False, True):
                    objs = [dict(kind=k, points=[[1.9, 2.2], [30.99, 20.5]], live=[True, False], id=idv, label=lab, scores=sc, score=0.123456)
                            for k in ("detection", "tracked", "own") for idv in (None, 5) for lab in (None, "car") for sc in (None, [0.25, 0.5], "scalar", [0.0, 0.0], [1.0, -1.0])]
                    objs += [dict(kind=k, points=[[1.9, 2.2], [30.99, 20.5]], live=[True, False], id=5, label="car", scores="scalar", score=0.0) for k in ("detection", "own")]
                    out.append(dict(box=b, objs=objs, opts=dict(draw_labels=l, draw_ids=i, draw_scores=s), shape=[60, 90, 3], how="list"))
    for hide in (False, True):
        for p in (False, True):
            objs = [dict(kind=k, points=[[1, 2], [3, 4], [5, 6]], live=lv, id=1, label="x", scores=None, score=0)
                    for k in ("tracked", "own") for lv in ([False] * 3, [True] * 3, [True, False, True], [False, False, True])]
            out.append(dict(box=False, objs=objs, opts=dict(hide_dead_points=hide, draw_points=p), shape=[60, 90, 3], how="list"))
    for b in (False, True):
        for th in (1, 4, 7):
            for fl in (False, True):
                objs = [dict(kind=k, points=[[5, 25], [40, 40]], live=[True, True], id=3, label="x", scores=None, score=0, float=fl) for k in ("detection", "tracked", "own")]
                out.append(dict(box=b, objs=objs, opts=dict(draw_labels=True, thickness=th), shape=[60, 90, 3], how="list"))
    # corner points in every order
    objs = [dict(kind="own", points=p, live=[True, True], id=1, label="x", scores=None, score=0) for p in ([[1, 2], [30, 40]], [[30, 40], [1, 2]], [[30, 2], [1, 40]], [[5, 5], [5, 5]])]
    out.append(dict(box=True, objs=objs, opts={}, shape=[60, 90, 3], how="list"))
    return out


def build(o):
    from norfair import Detection, Tracker
    from norfair.drawing import Drawable

    # integer points when they are integers all of them
    pts = np.array(o["points"])
    if o.get("float"):
        pts = pts.astype(float)
    sc = o["score"] if o["scores"] == "scalar" else None if o["scores"] is None else np.array(o["scores"])
    live = np.array(o["live"])
    n = len(pts)
    if o["kind"] == "detection":
        d = Detection(pts, scores=sc, label=o["label"])
        return d, pts, np.ones(n, bool), None, o["label"], sc
    if o["kind"] == "own":
        d = Drawable(points=pts, id=o["id"], label=o["label"], scores=sc, live_points=live)
        return d, pts, live, o["id"], o["label"], sc
    t = Tracker(distance_function=lambda a, b: 0.0, distance_threshold=1, initialization_delay=0, hit_counter_max=3)
    objs = t.update([Detection(pts, label=o["label"])]) or t.update([Detection(pts, label=o["label"])])
    x = objs[0]
    x.point_hit_counter = np.where(live, 2, 0)
    if o["id"] is None:
        x.id = None
    return x, x.estimate.copy(), live, x.id, o["label"], None


def state(x):
    import copy

    out = {}
    for k, v in sorted(vars(x).items()):
        if isinstance(v, np.ndarray):
            out[k] = (v.shape, v.dtype.str, v.tobytes())
        elif hasattr(v, "x") and isinstance(getattr(v, "x", None), np.ndarray):
            out[k] = v.x.tobytes()
        elif isinstance(v, (int, float, str, bool, type(None))):
            out[k] = v
        else:
            out[k] = id(v)
    return out


def text_of(o, opts):
    _, _, _, id_, label, sc = o
    t = []
    if opts["draw_labels"] and label is not None:
        t.append(str(label))
    if opts["draw_ids"] and id_ is not None:
        t.append(str(id_))
    m = None
    if opts["draw_scores"] and sc is not None:
        m = float(np.mean(sc))
    return t, m


def same_text(got, want):
    t, m = want
    if m is None:
        return got == "-".join(t)
    pre = "-".join(t) + ("-" if t else "")
    if not got.startswith(pre):
        return False
    try:
        v = float(got[len(pre):])
    except ValueError:
        return False
    return abs(v - m) <= 0.5e-4 + 1e-9


class Rec:
    def __init__(self, real):
        self.calls, self.real = [], real

    def wrap(self, name, names):
        f = self.real[name]

        def g(*a, **k):
            args = dict(zip(names, a))
            args.update(k)
            self.calls.append((name, args))
            return f(*a, **k)

        return g


SIG = dict(circle=["img", "center", "radius", "color", "thickness"], rectangle=["img", "pt1", "pt2", "color", "thickness"],
           putText=["img", "text", "org", "fontFace", "fontScale", "color", "thickness"])
OTHER = ["line", "polylines", "fillPoly", "ellipse", "arrowedLine", "drawMarker", "fillConvexPoly", "addWeighted"]


def check(c):
    import cv2

    from norfair.drawing import draw_boxes, draw_points

    f = draw_boxes if c["box"] else draw_points
    opts = {k: tuple(v) if isinstance(v, list) else v for k, v in c["opts"].items()}
    defaults = dict(draw_labels=not c["box"], draw_ids=True, draw_scores=False, draw_box=True, draw_points=True, hide_dead_points=True)
    full = {**defaults, **opts}
    objs = [build(o) for o in c["objs"]] if c["objs"] is not None else None
    lst = None if objs is None else [o[0] for o in objs]
    if lst is not None and c["how"] == "tuple":
        lst = tuple(lst)
    if lst is not None and c["how"] == "array" and lst:
        a = np.empty(len(lst), dtype=object)
        for i, x in enumerate(lst):
            a[i] = x
        lst = a
    frame = np.zeros(c["shape"], np.uint8)
    before = [state(o[0]) for o in objs or []]
    real = {n: getattr(cv2, n) for n in list(SIG) + OTHER}
    rec = Rec(real)
    try:
        for n in SIG:
            setattr(cv2, n, rec.wrap(n, SIG[n]))
        for n in OTHER:
            setattr(cv2, n, rec.wrap(n, ["img"]))
        try:
            r = f(frame, **(dict(detections=lst) if c["how"] == "deprecated" else dict(drawables=lst)), **opts)
        except Exception as e:
            raise Broken(f"{f.__name__} raised {type(e).__name__}: {e}")
    finally:
        for n in real:
            setattr(cv2, n, real[n])
    need(r is frame, "the frame is not returned")
    need([state(o[0]) for o in objs or []] == before, "an object was modified")
    for n, a in rec.calls:
        need(n in SIG, f"cv2.{n} called")
        need(a["img"] is frame, f"cv2.{n} on something else than the frame")
    from norfair.drawing.color import Palette, parse_color

    def color_ok(a, id_, label, text=False):
        got = a.get("color")
        if got is None or len(got) != 3:
            return False
        got = tuple(int(v) for v in got)
        col = full.get("color")
        if text and full.get("text_color") is not None:
            return got == tuple(parse_color(full["text_color"]))
        if col == "random":
            return got in [tuple(x) for x in Palette._colors]
        want = Palette.choose_color(id_) if col in (None, "by_id") else Palette.choose_color(label) if col == "by_label" else parse_color(col)
        return got == tuple(want)

    circles, rects, texts = [], [], []
    colored = []
    for o in objs or []:
        x, pts, live, id_, label, sc = o
        hidden = not c["box"] and full["hide_dead_points"] and not live.any()
        if hidden:
            continue
        P = [tuple(int(v) for v in np.trunc(p)) for p in pts]
        if c["box"]:
            if full["draw_box"]:
                colored.append((("rectangle",) + (tuple(sorted((P[0][0], P[1][0]))), tuple(sorted((P[0][1], P[1][1])))), id_, label))
                rects.append((tuple(sorted((P[0][0], P[1][0]))), tuple(sorted((P[0][1], P[1][1])))))
        elif full["draw_points"]:
            colored += [(("circle", p), id_, label) for p, l in zip(P, live) if l or not full["hide_dead_points"]]
            circles += [p for p, l in zip(P, live) if l or not full["hide_dead_points"]]
        t = text_of(o, full)
        if t[0] or t[1] is not None:
            texts.append(t + (id_, label))
    got = [tuple(int(v) for v in a["center"]) for n, a in rec.calls if n == "circle"]
    need(sorted(got) == sorted(circles), f"circles {got}, expected {circles}")
    got = [(tuple(sorted((int(a["pt1"][0]), int(a["pt2"][0])))), tuple(sorted((int(a["pt1"][1]), int(a["pt2"][1]))))) for n, a in rec.calls if n == "rectangle"]
    need(sorted(got) == sorted(rects), f"rectangles {got}, expected {rects}")
    # every part in a color of an object that has this part
    for n, a in rec.calls:
        if n == "circle":
            key = ("circle", tuple(int(v) for v in a["center"]))
        elif n == "rectangle":
            key = ("rectangle", tuple(sorted((int(a["pt1"][0]), int(a["pt2"][0])))), tuple(sorted((int(a["pt1"][1]), int(a["pt2"][1])))))
        else:
            continue
        need(any(k == key and color_ok(a, i, l) for k, i, l in colored), f"{key} drawn in color {a.get('color')}")
    # texts in the order of the objects; a text may be drawn several times in a row (shadow)
    calls = [a for n, a in rec.calls if n == "putText" and a["text"]]
    shown = [a["text"] for a in calls]

    def fits(k, j):
        """texts[j:] are shown by shown[k:], each once or twice"""
        if j == len(texts):
            return k == len(shown)
        for rep in (2, 1):
            if k + rep <= len(shown) and all(same_text(s, texts[j][:2]) for s in shown[k:k + rep]) and color_ok(calls[k + rep - 1], *texts[j][2:], text=True) and fits(k + rep, j + 1):
                return True
        return False

    need(fits(0, 0), f"texts {shown} in {[a.get('color') for a in calls]}, expected {texts}")
