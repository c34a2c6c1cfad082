"""Oracle: a counter per point, kept by the harness."""
from search.trk import *

RULE = "random histories with scores on, below and above the threshold, re-identification on/off"


def gen(rng, k):
    return gen_case(rng, scores=None if rng.random() < 0.2 else True)


def check(c):
    cnt, cap = {}, {}
    for s in steps(c):
        if s.odd:
            return
        per = s.period
        upd = {}
        for r in s.pre:
            i = id(r.o)
            if any(r is x for x in s.gone) and i not in s.absorbed:
                continue
            v = cnt[i] - 1
            if i in s.hit:
                d = s.hit[i]
                over = np.ones(len(v), bool) if d.scores is None else d.scores > c["dthr"]
                v = np.clip(v + 2 * per * over, 0, cap[i])
            upd[i] = v
        for i, o in s.merged.items():
            upd[i] = upd[id(o.o)]
        for i, v in upd.items():
            cnt[i] = v
        for r in s.pre:
            i = id(r.o)
            if i in upd:
                need(r.o.live_points.tolist() == (upd[i] > 0).tolist(),
                     f"update {s.k}: {name(r.o)} live points {r.o.live_points.tolist()}, counters should be {upd[i].tolist()}")
        for r in s.new:
            d = r.last
            over = np.ones(len(d.points), bool) if d.scores is None else d.scores > c["dthr"]
            cnt[id(r.o)], cap[id(r.o)] = over.astype(int), max(c["pw"], per)
            hold.append(r.o)
            need(r.live.tolist() == over.tolist(), f"update {s.k}: new {name(r.o)} live points {r.live.tolist()} expected {over.tolist()}")
    hold.clear()


hold = []
