"""Oracle: where each detection of the frame ended up, and the greedy
conditions on the table of distances, initialised objects first."""
from search.trk import *

RULE = "random histories; distances from a table with ties; some with NaN distances, which must be rejected"


def gen(rng, k):
    c = gen_case(rng)
    c["nan"] = int(rng.integers(1, 40)) if rng.random() < 0.15 else 0
    return c


def nan_case(c):
    n = [0]

    def df(det, obj):
        n[0] += 1
        return float("nan") if n[0] == c["nan"] else 1.0 * (n[0] % 3) / 2

    t = build(c, df=df)
    try:
        for s in steps(c, tracker=t):
            need(n[0] < c["nan"], f"update {s.k}: a NaN distance was accepted")
    except ValueError as e:
        need(n[0] >= c["nan"], f"ValueError without NaN distances: {e}")


def check(c):
    if c.get("nan"):
        return nan_case(c)
    for s in steps(c):
        w = f"update {s.k}"
        need(not s.odd, f"{w}: {s.odd}")
        dets = s.given or []
        uses = {id(d): 0 for d in dets}
        for d in s.hit.values():
            uses[id(d)] += 1
        for r in s.new:
            need(id(r.last) in uses, f"{w}: new {name(r.o)} does not start from a detection of this update")
            uses[id(r.last)] += 1
            need(np.allclose(r.o.estimate, r.last.points), f"{w}: new {name(r.o)} does not start at its detection")
        for d in dets:
            need(uses[id(d)] == 1, f"{w}: detection {d.data['u']} used {uses[id(d)]} times")
        alive = [r for r in s.pre if r.hc >= 0 and (not reid_on(c) or r.rhc is None or r.rhc >= 0)]
        for r in s.pre:
            if not any(r is a for a in alive):
                need(id(r.o) not in s.hit, f"{w}: {name(r.o)} was matched although its counter had run out ({r.hc})")
        rest = dets
        for what, objs in (("initialised", [r for r in alive if not r.init]), ("initialising", [r for r in alive if r.init])):
            got = {id(s.hit[id(r.o)]): r for r in objs if id(r.o) in s.hit}
            for d in list(got.values()):
                x = s.hit[id(d.o)]
                need(below(c, x, d) is not None, f"{w}: {name(d.o)} matched at distance {dist(c, x, d)}, threshold {c['thr']}, labels {x.label!r} {d.o.label!r}")
            for x in rest:
                for r in objs:
                    v = below(c, x, r)
                    if v is None:
                        continue
                    a = id(x) in got and dist(c, x, got[id(x)]) <= v
                    b = id(r.o) in s.hit and dist(c, s.hit[id(r.o)], r) <= v
                    need(a or b, f"{w}: detection {x.data['u']} and {what} {name(r.o)} at distance {v} left over")
            rest = [x for x in rest if id(x) not in got]
