"""Oracle: countdowns kept by the harness; greedy conditions on the table of
re-identification distances; what a re-identified object must have taken over."""
from search.trk import *

RULE = "random histories with re-identification; non-trivial = at least one object is hidden"


def gen(rng, k):
    c = gen_case(rng, reid=True, frames=int(rng.integers(8, 36)))
    if rng.random() < 0.9:
        c["rmax"] = int(rng.integers(0, 6))
    return c


def check(c):
    cd = {}
    hold = []
    on = reid_on(c)
    for s in steps(c):
        w0 = f"update {s.k}"
        need(not s.odd, f"{w0}: {s.odd}")
        hidden, alive = [], []
        for r in s.pre:
            i = id(r.o)
            w = f"{w0}: {name(r.o)}"
            gone, absorbed = any(r is x for x in s.gone), i in s.absorbed
            if on:
                over = cd[i] is not None and cd[i] < 0
                if over:
                    need(gone and not absorbed, f"{w} is kept although its countdown is {cd[i]}")
                    continue
                need(not gone or absorbed, f"{w} was destroyed although its countdown is {cd[i]} (hit counter {r.hc})")
                cd[i] = cd[i] - 1 if cd[i] is not None else (c["rmax"] if r.hc <= 0 else None)
                if i in s.hit or i in s.merged:
                    cd[i] = None
            elif r.hc < 0:
                continue
            (alive if r.hc >= 0 else hidden).append(r)
        for r in s.new:
            cd[id(r.o)] = None
            hold.append(r.o)
        # candidates: matched while still initialising
        cands = [r for r in alive if r.init and id(r.o) in s.hit]
        wanting = [r for r in alive if not r.init and id(r.o) not in s.hit] + hidden
        rd = lambda a, b: table(c["seed"] + 1, s.hit[id(a.o)].data["g"], s.hit[id(a.o)].data["u"], b.last.data["g"], b.last.data["u"], None, None) + c.get("off", 0.0)
        for i, a in s.merged.items():
            b = [x for x in s.pre if id(x.o) == i][0]
            w = f"{w0}: {name(b.o)} re-identified as {name(a.o)}"
            need(any(a is x for x in cands), f"{w}, which was not matched while initialising")
            need(any(b is x for x in wanting), f"{w} although it was matched or is still initialising")
            need(rd(a, b) < c["rthr"] and a.o.label == b.o.label, f"{w} at distance {rd(a, b)}, threshold {c['rthr']}")
            if b.id is not None:
                need((b.o.id, b.o.global_id) == (b.id, b.gid), f"{w}: ids changed from {(b.id, b.gid)} to {(b.o.id, b.o.global_id)}")
            need(b.o.initializing_id == b.iid, f"{w}: initialising id changed")
            need(b.o.last_detection is a.o.last_detection, f"{w}: last detection not taken over")
            need(np.array_equal(b.o.live_points, a.o.live_points), f"{w}: point state not taken over")
            need(np.array_equal(b.o.detected_at_least_once_points, a.o.detected_at_least_once_points), f"{w}: points seen so far not taken over")
            need(np.allclose(b.o.estimate, a.o.estimate) and np.allclose(b.o.estimate_velocity, a.o.estimate_velocity), f"{w}: position not taken over")
            need(not any(o is a.o for o in s.tracked), f"{w}: the absorbed object is still tracked")
        taken = {id(a.o): b for b in s.pre for i, a in s.merged.items() if id(b.o) == i}
        for a in cands:
            for b in wanting:
                if a.o.label != b.o.label:
                    continue
                v = rd(a, b)
                if v >= c["rthr"]:
                    continue
                x = id(a.o) in taken and rd(a, taken[id(a.o)]) <= v
                y = id(b.o) in s.merged and rd(s.merged[id(b.o)], b) <= v
                need(x or y, f"{w0}: {name(b.o)} and {name(a.o)} at re-identification distance {v} were not merged")
