"""Oracle: the tracked objects' own public state after each update."""
from search.trk import *

RULE = "random histories (1-25 updates, 0-4 detections or none, labels, periods, re-identification on/off); non-trivial = some object is reported and one is not"


def gen(rng, k):
    return gen_case(rng)


def check(c):
    gone = {}
    for s in steps(c):
        t = s.t
        ids = lambda l: sorted(id(o) for o in l)
        need(len(set(ids(s.ret))) == len(s.ret), f"update {s.k}: an object is listed twice")
        for o in s.ret:
            need(not o.is_initializing, f"update {s.k}: {name(o)} is reported while it is initialising")
            need(o.hit_counter >= 0, f"update {s.k}: {name(o)} is reported with hit counter {o.hit_counter}")
            need(id(o) not in gone, f"update {s.k}: {name(o)} is reported although it was {gone.get(id(o), ('', ''))[1]}")
            need(any(o is x for x in s.tracked), f"update {s.k}: {name(o)} is reported but not tracked")
        want = [o for o in s.tracked if not o.is_initializing and o.hit_counter >= 0]
        need(ids(want) == ids(s.ret), f"update {s.k}: {len(s.ret)} objects reported, {len(want)} tracked objects are initialised and live")
        need(len(set(ids(s.tracked))) == len(s.tracked), f"update {s.k}: an object is tracked twice")
        a = t.get_active_objects()
        need(ids(a) == ids(s.ret), f"update {s.k}: the active-objects accessor differs from the returned list")
        need(t.current_object_count == len(s.ret), f"update {s.k}: current object count {t.current_object_count}, {len(s.ret)} objects returned")
        # an absorbed object must be gone: nobody else may still be tracked with its detection
        last = [id(o.last_detection) for o in s.tracked]
        need(len(set(last)) == len(last), f"update {s.k}: an object absorbed by another is still tracked")
        if s.odd:
            return
        for r in s.gone:
            gone[id(r.o)] = (r.o, "absorbed" if id(r.o) in s.absorbed else "discarded")
        if not reid_on(c):
            for r in s.pre:
                if r.hc < 0:
                    need(not any(o is r.o for o in s.ret), f"update {s.k}: {name(r.o)} reported after its hit counter was {r.hc}")
