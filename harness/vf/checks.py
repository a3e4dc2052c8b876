"""One function per property."""

import random

from vf import core
from vf.canary import canary, several

CHECKS = {}


def load_all():
    """Imports every module that registers checks."""
    import importlib

    for m in MODULES:
        importlib.import_module("vf." + m)


MODULES = ["checks_paths", "checks_state", "checks_shapes", "checks_build", "checks_session", "checks_objects"]


def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco


@check("C01")
def c01(ck):
    from vf import cands

    big = 4 if ck.quick() else 5
    ck.model("CandidatesMachine", f"""SPECIFICATION Spec
CONSTANTS MaxObjects = {big - 1} MaxOrder = 3
INVARIANTS NoDuplicates Grows SoFar Complete
CHECK_DEADLOCK FALSE
""", "depth-first enumeration = set of walks, every filter")
    ck.model("CandidatesMachine", """SPECIFICATION Spec
CONSTANTS MaxObjects = 2 MaxOrder = 3
PROPERTY Terminates
CHECK_DEADLOCK FALSE
""", "the enumeration ends")
    inputs = cands.gen(ck.seed, ck.quick())

    def drop(c, k):
        del c["out"][k]

    ck.conform("cands", "CandidatesTrace", inputs, canary=several(
        canary("dropped", lambda r: list(range(len(r["out"]))), drop),
        canary("repeated", lambda r: list(range(len(r["out"]))), lambda c, k: c["out"].insert(k, c["out"][k])),
        canary("foreign", lambda r: [k for k, s in enumerate(r["out"]) if s],
               lambda c, k: c["out"].__setitem__(k, [c["n"]] * len(c["out"][k]))),
    ))
