"""Shared helpers for the drivers that exercise the real kMCpy code.

Everything here uses kMCpy's public objects; the only thing recorded is what a
user of the library can observe.
"""
from __future__ import annotations

import json
import logging
import math
import os
import random
import sys
import traceback
import warnings

warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)

REPO = os.environ.get("KMCPY_REPO", "/repo")
sys.path.insert(0, REPO)

import numpy as np  # noqa: E402
from pymatgen.core import Lattice, Structure  # noqa: E402

KB = 8.617333262145e-2  # meV/K, as documented in the unit conventions
SCALE = 1000            # barriers are compared in 1/1000 meV
ZERO, BADRATE = -1, -2


def rng_for(seed, *salt):
    return random.Random("|".join(str(x) for x in (seed,) + salt))


def write_json(path, obj):
    with open(path, "w") as fh:
        json.dump(obj, fh)


def args():
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("--out", required=True)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=50)
    ap.add_argument("--mode", default="")
    ap.add_argument("--inp", default="")
    ap.add_argument("--tier", default="quick")
    return ap.parse_args()


def exc_name(exc):
    return type(exc).__name__


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = "; ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in tb[-3:])
    return f"{exc_name(exc)} at {where}"[:300]


def to_barrier(rate, temperature, nu):
    """Integer barrier (1/1000 meV) encoded by a rate; ZERO for rate 0."""
    rate = float(rate)
    if rate == 0.0:
        return ZERO
    if not (rate > 0.0) or math.isinf(rate):
        return BADRATE
    value = -KB * temperature * math.log(rate / nu) * SCALE
    if abs(value) > 2e9:
        return BADRATE
    return int(round(value))


def as_int(value, scale=1, tol=1e-5):
    """Nearest integer of value*scale, or a sentinel when it is not integral."""
    value = float(value) * scale
    if not math.isfinite(value) or abs(value - round(value)) > tol or abs(value) > 2e9:
        return 1999999999
    return int(round(value))
