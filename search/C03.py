"""Oracle: the numbers themselves, over several trackers of one process."""
from search.trk import *

RULE = "random histories on one to three trackers, run one after another or interleaved"


def gen(rng, k):
    return dict(cs=[gen_case(rng, frames=int(rng.integers(4, 16))) for _ in range(int(rng.integers(1, 4)))], inter=bool(rng.random() < 0.5))


def check(cc):
    runs = [steps(c) for c in cc["cs"]]
    seen, gids, hold = [dict() for _ in runs], {}, []
    given = [0] * len(runs)
    iids = [set() for _ in runs]
    order = list(range(len(runs)))
    if cc["inter"]:
        live = [iter(r) for r in runs]
        todo = []
        for k in range(30):
            todo += order
        seq = ((i, live[i]) for i in todo)
    else:
        seq = ((i, iter(runs[i])) for i in order for _ in range(1))
    for i, gen_ in seq:
        for s in gen_:
            if not one(i, s, seen[i], gids, hold, given, iids[i]):
                break
            if cc["inter"]:
                break


def one(i, s, seen, gids, hold, given, iids):
    new = []
    for o in s.tracked + [r.o for r in s.gone]:
        w = f"tracker {i}, update {s.k}: {name(o)}"
        need((o.id is None) == bool(o.is_initializing), f"{w}: id {o.id} while initialising is {o.is_initializing}")
        need((o.global_id is None) == bool(o.is_initializing), f"{w}: global id {o.global_id} while initialising is {o.is_initializing}")
        if id(o) in seen and seen[id(o)][0] is not None:
            need((o.id, o.global_id) == seen[id(o)][:2], f"{w}: ids changed from {seen[id(o)][:2]} to {(o.id, o.global_id)}")
        elif o.id is not None:
            new.append(o)
        if id(o) in seen:
            need(o.initializing_id == seen[id(o)][2], f"{w}: initialising id changed")
        else:
            need(o.initializing_id is not None and o.initializing_id not in iids, f"{w}: initialising id {o.initializing_id} was given before")
            iids.add(o.initializing_id)
        seen[id(o)] = (o.id, o.global_id, o.initializing_id)
        hold.append(o)
    ids = sorted(o.id for o in new)
    need(ids == list(range(given[i] + 1, given[i] + 1 + len(ids))), f"tracker {i}, update {s.k}: ids {ids} given after {given[i]}")
    given[i] += len(ids)
    for o in new:
        need(o.global_id not in gids, f"tracker {i}, update {s.k}: global id {o.global_id} was given before")
        gids[o.global_id] = o
    need(s.t.total_object_count == given[i], f"tracker {i}, update {s.k}: total object count {s.t.total_object_count}, {given[i]} ids given")
    return not s.odd
