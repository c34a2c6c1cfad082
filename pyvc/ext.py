"""Trusted contracts of external libraries (each is sampled against the real
library by selfcheck.py)."""
import z3

from .core import *
from . import npmodel as N
from .interp import *


def kalman_filter(it, a, k):
    """filterpy.kalman.KalmanFilter(dim_x, dim_z): documented initial state."""
    ctx = it.ctx
    dx = k.get("dim_x", a[0] if a else None)
    dz = k.get("dim_z", a[1] if len(a) > 1 else None)
    o = ctx.new_obj("filterpy.KalmanFilter", dim_x=dx, dim_z=dz)
    eye = it.modattr(it.models["numpy"], "eye")
    zeros = it.modattr(it.models["numpy"], "zeros")
    for n, v in (("x", it.call(zeros, [(dx, 1)], {})), ("P", it.call(eye, [dx], {})), ("Q", it.call(eye, [dx], {})),
                 ("F", it.call(eye, [dx], {})), ("H", it.call(zeros, [(dz, dx)], {})), ("R", it.call(eye, [dz], {}))):
        ctx.setattr(o, n, v)
    ctx.setattr(o, "B", None)
    ctx.eng.used.add("filterpy.kalman.KalmanFilter.__init__")
    return o


def filterpy():
    m = ModelModule("filterpy", {})
    kal = ModelModule("filterpy.kalman", {"KalmanFilter": Native("KalmanFilter", kalman_filter)})
    m.attrs["kalman"] = kal
    return {"filterpy": m, "filterpy.kalman": kal}


def sids(ctx, v, seen=None):
    """Storage reachable from a value."""
    seen = set() if seen is None else seen
    if isinstance(v, NDArr):
        seen.add(v.sid)
    elif isinstance(v, Obj):
        if ("o", v.oid) not in seen:
            seen.add(("o", v.oid))
            for n in ctx.mem.get(("names", v.oid), ()):
                sids(ctx, ctx.mem.get(("attr", v.oid, n)), seen)
    elif isinstance(v, ListObj):
        if ("l", v.lid) not in seen:
            seen.add(("l", v.lid))
            for p in ctx.seq(v).parts:
                for x in getattr(p, "items", ()):
                    sids(ctx, x, seen)
    elif isinstance(v, tuple):
        for x in v:
            sids(ctx, x, seen)
    elif isinstance(v, Opt):
        sids(ctx, v.val, seen)
    return seen


def cv2_model():
    """cv2 constants; calls are opaque unless a property gives them a contract."""
    consts = dict(RANSAC=8, COLOR_BGR2GRAY=6, FONT_HERSHEY_SIMPLEX=0, LINE_AA=16, FILLED=-1)
    return {"cv2": ModelModule("cv2", dict(consts))}


def scipy_model():
    def cdist(it, a, k):
        raise Unsupported("scipy cdist")

    d = ModelModule("scipy.spatial.distance", {"cdist": Native("cdist", cdist)})
    sp = ModelModule("scipy.spatial", {"distance": d})
    return {"scipy": ModelModule("scipy", {"spatial": sp}), "scipy.spatial": sp, "scipy.spatial.distance": d}


def rich_model():
    ign = Native("print", lambda it, a, k: None)

    def thing(it, a, k):
        return Opaque("rich", None, {"getattr": lambda it, o, n: ign, "call": lambda it, a, k: None})

    n = Native("rich", thing)
    return {"rich": ModelModule("rich", {"print": ign}), "rich.console": ModelModule("rich.console", {"Console": n}),
            "rich.table": ModelModule("rich.table", {"Table": n}),
            "rich.progress": ModelModule("rich.progress", {x: n for x in ("BarColumn", "Progress", "ProgressColumn", "TimeRemainingColumn")})}


def all_models():
    m = {}
    m.update(filterpy())
    m.update(scipy_model())
    m.update(cv2_model())
    m.update(rich_model())
    return m
