"""Oracle: the documented counter rules, applied to each observed match."""
from search.trk import *

RULE = "random histories with every configuration of maximum, delay and period, re-identification on/off"


def gen(rng, k):
    return gen_case(rng)


def check(c):
    D = delay(c)
    p0 = {}
    for s in steps(c):
        if s.odd:
            return
        per = s.period
        for r in s.pre:
            p = s.post[id(r.o)]
            w = f"update {s.k}: {name(r.o)}"
            gone = any(r is x for x in s.gone)
            absorbed = id(r.o) in s.absorbed
            if not reid_on(c):
                if r.hc < 0:
                    need(gone, f"{w}: hit counter was {r.hc} but it is still tracked")
                    continue
                need(not gone or absorbed, f"{w}: discarded although its hit counter was {r.hc}")
            elif gone and not absorbed:
                continue  # discarded before it was stepped (C14)
            need(p.age == r.age + 1, f"{w}: age {r.age} -> {p.age}")
            if id(r.o) in s.merged:
                want = 2 * p0[id(r.o)]
            else:
                want = r.hc - 1
                if id(r.o) in s.hit:
                    want = min(want + 2 * per, c["hcm"])
            need(p.hc == want, f"{w}: hit counter {r.hc} -> {p.hc}, expected {want}")
            need(p.init == (r.init and p.hc <= D), f"{w}: initialising {r.init} -> {p.init} with counter {p.hc}, delay {D}")
        for r in s.new:
            w = f"update {s.k}: new {name(r.o)}"
            p0[id(r.o)] = per
            keep.append(r.o)
            need(r.age == 0, f"{w} has age {r.age}")
            need(r.hc == per, f"{w} has hit counter {r.hc}, period {per}")
            need(r.init == (per <= D), f"{w}: initialising {r.init}, counter {r.hc}, delay {D}")
    keep.clear()


keep = []
