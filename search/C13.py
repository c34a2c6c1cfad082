"""Oracle: the documented storing rule, replayed by the harness."""
from search.trk import *

RULE = "random histories of up to 40 updates, past_detections_length 0-4, re-identification on/off"


def gen(rng, k):
    return gen_case(rng, frames=int(rng.integers(4, 40)), reid=bool(rng.random() < 0.3))


def check(c):
    L = c["pdl"]
    mem = {}
    hold = []
    for s in steps(c):
        if s.odd:
            return
        for r in s.new:
            mem[id(r.o)] = [(r.last, 0)] if L else []
            hold.append(r.o)
        for r in s.pre:
            i = id(r.o)
            if any(r is x for x in s.gone) and i not in s.absorbed:
                continue
            if i in s.merged:
                continue
            if i in s.hit and L:
                add(mem[i], s.hit[i], r.age + 1, L)
        for i, o in s.merged.items():
            r = [x for x in s.pre if id(x.o) == i][0]
            if L:
                for d, _ in list(mem[id(o.o)]):
                    add(mem[i], d, r.age + 1, L)
        for r in s.pre + s.new:
            i = id(r.o)
            if any(r is x for x in s.gone):
                continue
            w = f"update {s.k}: {name(r.o)}"
            got = list(r.o.past_detections)
            need(len(got) <= L, f"{w} remembers {len(got)} past detections, configured {L}")
            ages = [d.age for d in got]
            need(ages == sorted(ages), f"{w}: past detections are not ordered by age: {ages}")
            need([id(d) for d in got] == [id(d) for d, _ in mem[i]] and ages == [a for _, a in mem[i]],
                 f"{w}: past detections {[(d.data['u'], d.age) for d in got]}, expected {[(d.data['u'], a) for d, a in mem[i]]}")


def add(l, d, age, L):
    if len(l) < L:
        l.append((d, age))
    elif age >= l[0][1] * L:
        l.pop(0)
        l.append((d, age))
