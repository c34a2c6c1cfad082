"""Driver for tracker-level harnesses: runs norfair.Tracker on random
histories with distances given by a table (a hash of the detections' uids), so
that the oracle knows every distance, and records the state of every object
before and after each update."""
import copy
import zlib

from search.common import *


def h(*a):
    return zlib.crc32(repr(a).encode()) % 4096 / 4096.0


def table(seed, ga, ua, gb, ub, la, lb):
    """distance of candidate (gt ga, uid ua) and object (last detection gb, ub)"""
    v = h(seed, ua, ub)
    v = v * 0.5 if ga == gb else 0.35 + v * 0.65
    return round(v * 32) / 32  # ties happen; exact in float32


def share(rng, frames):
    """some detections of a frame use the very same arrays as an earlier one"""
    for f in frames:
        ds = f["d"] or []
        for j in range(1, len(ds)):
            if rng.random() < 0.5:
                i = int(rng.integers(j))
                ds[j]["p"], ds[j]["sp"] = ds[i]["p"], i
                if "s" in ds[i]:
                    ds[j]["s"] = ds[i]["s"]
                else:
                    ds[j].pop("s", None)


def gen_case(rng, reid=None, coords=False, nf=None, frames=None, small=False, scores=None):
    hcm = int(rng.integers(1, 7))
    npts, dim = int(rng.integers(1, 4)), int(rng.choice([2, 2, 2, 3]))
    if coords:
        dim = 2
    reid = bool(rng.random() < 0.5) if reid is None else reid
    sc = bool(rng.random() < 0.6) if scores is None else scores
    labels = [[None], [None], ["a", "b"], [None, "a"], ["a", 1, "1"]][rng.integers(5)]
    ngt = int(rng.integers(1, 5))
    glab = [labels[rng.integers(len(labels))] for _ in range(ngt)]
    pdet = float(rng.choice([0.3, 0.5, 0.7, 0.9]))
    fr = []
    uid = 0
    for k in range(int(frames or rng.integers(4, 26))):
        dets = []
        if rng.random() < 0.12:
            dets = None
        else:
            order = rng.permutation(ngt)
            for g in order:
                if rng.random() < pdet:
                    uid += 1
                    d = dict(u=uid, g=int(g), l=glab[g], p=[[rnd(rng, -50, 50, 2) for _ in range(dim)] for _ in range(npts)])
                    if sc and rng.random() < 0.9:
                        d["s"] = [float(rng.choice([0.0, 0.2, 0.5, 0.9])) for _ in range(npts)]
                    dets.append(d)
        f = dict(d=dets, per=int(rng.choice([1, 1, 1, 2, 3])))
        if coords and rng.random() < 0.9:
            if rng.random() < 0.5:
                f["t"] = [rnd(rng, -30, 30, 2), rnd(rng, -30, 30, 2)]
            else:
                f["h"] = [[1, rnd(rng, -.2, .2, 3), rnd(rng, -9, 9, 2)], [rnd(rng, -.2, .2, 3), 1, rnd(rng, -9, 9, 2)], [0, 0, 1]]
        fr.append(f)
    if rng.random() < 0.2:
        share(rng, fr)
    off = -float(rng.choice([0.5, 1, 2])) if rng.random() < 0.15 else 0.0
    perconst = rng.random() < 0.6
    if perconst:
        for f in fr:
            f["per"] = fr[0]["per"]
    return dict(hcm=hcm, delay=None if rng.random() < 0.2 else int(rng.integers(0, hcm)), pw=int(rng.integers(1, 6)),
                dthr=float(rng.choice([0, 0.2, 0.5])), pdl=int(rng.integers(0, 5)), reid=reid,
                rmax=(None if not reid and rng.random() < 0.8 else int(rng.integers(0, 5))) if rng.random() < 0.9 else None,
                thr=float(rng.choice([0.4, 0.5, 0.75])) + off, rthr=float(rng.choice([0.3, 0.6, 0.9])) + off, off=off, frames=fr,
                seed=int(rng.integers(1 << 20)), nofilter=bool(rng.random() < 0.5) if nf is None else nf, npts=npts, dim=dim)


class Rec:
    """state of one object at one moment"""

    def __init__(self, o):
        self.o = o
        self.hc, self.age, self.init = o.hit_counter, o.age, bool(o.is_initializing)
        self.id, self.gid, self.iid = o.id, o.global_id, o.initializing_id
        self.last = o.last_detection
        self.live = np.array(o.live_points, copy=True)
        self.past = list(o.past_detections)
        self.pastages = [d.age for d in o.past_detections]
        self.rhc = getattr(o, "reid_hit_counter", None)
        self.est = np.array(o.filter.x, copy=True)


class Step:
    pass


def build(c, df=None, ff=None, rdf=None):
    from norfair import Tracker
    from norfair.filter import NoFilterFactory, OptimizedKalmanFilterFactory

    sd, off = c["seed"], c.get("off", 0.0)

    def dist(det, obj):
        l = obj.last_detection
        return table(sd, det.data["g"], det.data["u"], l.data["g"], l.data["u"], det.label, obj.label) + off

    def rdist(new, old):
        a, b = new.last_detection, old.last_detection
        return table(sd + 1, a.data["g"], a.data["u"], b.data["g"], b.data["u"], None, None) + off

    kw = dict(distance_function=df or dist, distance_threshold=c["thr"], hit_counter_max=c["hcm"], initialization_delay=c["delay"],
              pointwise_hit_counter_max=c["pw"], detection_threshold=c["dthr"], past_detections_length=c["pdl"],
              filter_factory=ff or (NoFilterFactory() if c["nofilter"] else OptimizedKalmanFilterFactory()))
    if c["reid"]:
        kw.update(reid_distance_function=rdf or rdist, reid_distance_threshold=c["rthr"])
    if c["rmax"] is not None:
        kw.update(reid_hit_counter_max=c["rmax"])
    return Tracker(**kw)


def detection(d, like=None):
    from norfair import Detection

    p = np.array(d["p"], float) if like is None else like.points
    s = None if "s" not in d else np.array(d["s"], float) if like is None else like.scores
    return Detection(points=p, scores=s, data=dict(g=d["g"], u=d["u"]), label=d["l"])


def detections(ds):
    out = []
    for d in ds:
        out.append(detection(d, out[d["sp"]] if "sp" in d else None))
    return out


def transform(f):
    from norfair.camera_motion import HomographyTransformation, TranslationTransformation

    if "t" in f:
        return TranslationTransformation(np.array(f["t"], float))
    if "h" in f:
        return HomographyTransformation(np.array(f["h"], float))
    return None


def steps(c, tracker=None, **kw):
    """generator of Steps: pre / post records by object, detections, returned"""
    t = tracker or build(c, **kw)
    for k, f in enumerate(c["frames"]):
        s = Step()
        s.t, s.k, s.f, s.c = t, k, f, c
        s.dets = None if f["d"] is None else detections(f["d"])
        s.period, s.ct = f["per"], transform(f)
        s.pre = [Rec(o) for o in t.tracked_objects]
        s.count0 = t.total_object_count
        s.given = None if s.dets is None else list(s.dets)
        kwu = dict(period=s.period)
        if s.period == 1 and k % 3 == 1:
            del kwu["period"]  # the default
        if s.ct is not None:
            kwu["coord_transformations"] = s.ct
        s.ret = t.update(s.dets, **kwu) if s.dets is not None or k % 2 else t.update(**kwu)
        s.tracked = list(t.tracked_objects)
        s.gone = [r for r in s.pre if not any(o is r.o for o in s.tracked)]
        s.post = {id(r.o): Rec(r.o) for r in s.pre}
        s.new = [Rec(o) for o in s.tracked if not any(o is r.o for r in s.pre)]
        frame = s.given or []
        isdet = lambda d: any(d is x for x in frame)
        # who got which detection of this frame
        s.hit, s.merged, s.absorbed = {}, {}, {}
        groups = {}
        for r in s.pre:
            p = s.post[id(r.o)]
            if isdet(p.last):
                groups.setdefault(id(p.last), []).append(r)
        for g in groups.values():
            stay = [r for r in g if not any(r is x for x in s.gone)]
            out = [r for r in g if any(r is x for x in s.gone)]
            if len(g) == 1:
                s.hit[id(g[0].o)] = s.post[id(g[0].o)].last
            elif len(g) == 2 and len(stay) == 1 and len(out) == 1:
                s.hit[id(out[0].o)] = s.post[id(out[0].o)].last
                s.merged[id(stay[0].o)] = out[0]
                s.absorbed[id(out[0].o)] = stay[0]
            else:
                s.odd = f"detection absorbed by {len(g)} objects"
                yield s
                return
        s.odd = None
        yield s
        if s.odd:
            return


def delay(c):
    return c["hcm"] // 2 if c["delay"] is None else c["delay"]


def dist(c, d, r):
    return table(c["seed"], d.data["g"], d.data["u"], r.last.data["g"], r.last.data["u"], None, None) + c.get("off", 0.0)


def reid_on(c):
    return c["rmax"] is not None


def below(c, d, r):
    """distance of detection d to object record r if they may match, else None"""
    if d.label != r.o.label:
        return None
    v = dist(c, d, r)
    return v if v < c["thr"] else None


def name(o):
    return f"object #{getattr(o, 'initializing_id', '?')}"
