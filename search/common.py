"""Shared by the replay/search harnesses (run under the interpreter that has
norfair's dependencies).  A harness module defines
    corners() -> list of cases          deterministic cases, tried first
    gen(rng, k) -> case                 a JSON-able case
    check(case) -> None | str           None if the property held, else what failed
The oracle inside check() is independent of the code under test."""
import json
import math
import os
import sys

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

TOL = 1e-6


def close(a, b, tol=TOL):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(np.all((np.isfinite(a) & np.isfinite(b) & (np.abs(a - b) <= tol * (1 + np.maximum(np.abs(a), np.abs(b))))) | (a == b) | (np.isnan(a) & np.isnan(b))))


def rnd(rng, lo, hi, nd=3):
    return round(float(rng.uniform(lo, hi)), nd)


def need(cond, msg):
    if not cond:
        raise Broken(msg)


class Broken(Exception):
    """The property does not hold on this case."""
