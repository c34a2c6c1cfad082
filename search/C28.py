"""Oracle: a filter of the harness that counts how often it is advanced and
corrected, and a distance function that looks at those counts."""
from search.trk import *

RULE = "random histories with re-identification on/off, periods 1-3, a filter that counts its calls, scalar distances that look at the object's filter"


class F:
    made = 0

    def __init__(self, pts):
        n = pts.size
        self.x = np.zeros((2 * n, 1))
        self.x[:n, 0] = np.asarray(pts, float).reshape(-1)
        self.x[n:, 0] = np.arange(n) * 0.5 - 1
        self.predicts = self.updates = 0
        self.n = n
        F.made += 1

    def predict(self):
        self.predicts += 1
        self.x[: self.n] += self.x[self.n:]

    def update(self, z, R=None, H=None):
        self.updates += 1
        z = np.asarray(z, float).reshape(-1)
        m = np.ones(self.n, bool) if H is None else np.diag(np.asarray(H)[:, : self.n]) > 0
        self.x[: self.n, 0][m] = (0.5 * self.x[: self.n, 0] + 0.5 * z)[m]


def gen(rng, k):
    c = gen_case(rng, nf=True)
    c["omit"] = bool(rng.random() < 0.5)
    return c


def check(c):
    from norfair.filter import FilterFactory

    class Fac(FilterFactory):
        def create_filter(self, initial_detection):
            return F(initial_detection)

    sd, off = c["seed"], c.get("off", 0.0)
    before = {}  # object -> (predicts, updates) before this update
    frame = [0]

    def seen(o, what, corrected=False):
        if id(o) not in before:
            return
        f, p, u = before[id(o)]
        need(o.filter is f, f"update {frame[0]}: {what}: the filter of {name(o)} was replaced")
        need(f.predicts == p + 1, f"update {frame[0]}: {what}: the filter of {name(o)} had been advanced {f.predicts - p} times")
        need(f.updates == u + (1 if corrected else 0), f"update {frame[0]}: {what}: the filter of {name(o)} had been corrected {f.updates - u} times")

    def dist(det, obj):
        seen(obj, "a distance to a detection")
        need(close(obj.estimate.reshape(-1), obj.filter.x[: obj.filter.n, 0]), f"update {frame[0]}: the distance sees another estimate")
        l = obj.last_detection
        return table(sd, det.data["g"], det.data["u"], l.data["g"], l.data["u"], det.label, obj.label) + off

    def rdist(new, old):
        seen(new, "a re-identification distance", True)
        seen(old, "a re-identification distance")
        a, b = new.last_detection, old.last_detection
        return table(sd + 1, a.data["g"], a.data["u"], b.data["g"], b.data["u"], None, None) + off

    t = build(c, df=dist, rdf=rdist, ff=Fac())
    hold = []
    for k, fr in enumerate(c["frames"]):
        frame[0] = k
        dets = None if fr["d"] is None else detections(fr["d"])
        before.clear()
        pre = list(t.tracked_objects)
        hold += pre
        st = {}
        for o in pre:
            before[id(o)] = (o.filter, o.filter.predicts, o.filter.updates)
            st[id(o)] = (o.filter.x.copy(), o.last_detection)
        F.made = 0
        kw = {} if c.get("omit") and fr["per"] == 1 else dict(period=fr["per"])
        t.update(dets, **kw) if dets is not None else t.update(**kw)
        post = list(t.tracked_objects)
        isdet = lambda d: dets is not None and any(d is x for x in dets)
        fresh = [o for o in post if id(o) not in st]
        need(F.made == len(fresh), f"update {k}: {F.made} filters created for {len(fresh)} new objects")
        for o in fresh:
            f = o.filter
            need(isinstance(f, F) and f.predicts == 0 and f.updates == 0, f"update {k}: the filter of the new {name(o)} was advanced {f.predicts} times, corrected {f.updates} times")
        owners = {}
        for o in pre:
            f0, p, u = before[id(o)]
            if any(o is x for x in post):
                f = o.filter
                if f is f0:
                    hit = isdet(o.last_detection) and o.last_detection is not st[id(o)][1]
                    need(f.predicts == p + 1, f"update {k}: the filter of {name(o)} was advanced {f.predicts - p} times")
                    need(f.updates == u + (1 if hit else 0), f"update {k}: the filter of {name(o)}, {'matched' if hit else 'not matched'}, was corrected {f.updates - u} times")
                    if not hit:
                        n = f.n
                        x = st[id(o)][0].copy()
                        x[:n] += x[n:]
                        need(np.array_equal(f.x, x), f"update {k}: the state of the unmatched {name(o)} is not its prediction")
                else:
                    donor = [q for q in pre if before[id(q)][0] is f and not any(q is x for x in post)]
                    need(len(donor) == 1, f"update {k}: {name(o)} has a filter that is nobody's")
                    _, p, u = before[id(donor[0])]
                    need(f.predicts == p + 1 and f.updates == u + 1, f"update {k}: the filter handed over to {name(o)} was advanced {f.predicts - p} times, corrected {f.updates - u} times")
                need(id(f) not in owners, f"update {k}: two objects share a filter")
                owners[id(f)] = o
        for o in post:
            f = o.filter
            x = f.x.copy()
            npts, dim = o.last_detection.points.shape
            e, v = o.estimate, o.estimate_velocity
            need(np.shape(e) == (npts, dim) and close(np.asarray(e).reshape(-1), x[: f.n, 0]), f"update {k}: estimate {np.asarray(e).tolist()} of state {x[:, 0].tolist()}")
            need(np.shape(v) == (npts, dim) and close(np.asarray(v).reshape(-1), x[f.n:, 0]), f"update {k}: velocity {np.asarray(v).tolist()} of state {x[:, 0].tolist()}")
            need(np.array_equal(f.x, x), f"update {k}: reading the estimates changed the filter")
