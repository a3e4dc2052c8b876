"""C13, C20: scenes from documents, names and keys, against BuildersTrace.tla."""

from vf import builders, core
from vf.canary import canary, several
from vf.checks import check
from vf.checks_shapes import bump
from vf.checks_state import batches

CONSTS = {"Docs": "{}", "Locs": "{}"}


def of(kind, f=lambda r: [0]):
    return lambda r: f(r) if r["kind"] == kind else []


def off(by):
    return lambda c, p: bump(c, p, by)


def coords(r):
    return [("walls", k, e, d) for k in range(len(r["walls"])) for e in (0, 1) for d in (0, 1)]


def swap_names(side):
    def change(c, _):
        a = c[side]
        a[0]["name"], a[-1]["name"] = a[-1]["name"], a[0]["name"]
    return change


@check("C13")
def c13(ck):
    ck.model("MCGeoImport", f"""SPECIFICATION Spec
CONSTANTS MaxFeatures = {2 if ck.quick() else 3} Size = 1
Docs <- MCDocs
Locs <- MCLocs
INVARIANTS Complete Prefix Closes Chained InBox
{"PROPERTY Ends2" if ck.quick() else ""}
CHECK_DEADLOCK FALSE
""", "the machine reading documents position by position, over every small document")
    for s in batches(ck, 14):
        docs = core.generate(ck.scratch, "GenGeo", """SPECIFICATION GenSpec
CONSTANTS Depth = 6 Size = 8
INVARIANT Dump
CHECK_DEADLOCK FALSE
""", 120 if ck.quick() else 600, 6, s)
        ck.conform("builders", "BuildersTrace", list(builders.gen_geo(s, docs)), consts=CONSTS, canary=several(
            canary("wall", of("geo", coords), off(40)),
            canary("lost", of("geo", lambda r: list(range(len(r["walls"])))), lambda c, k: (c["walls"].pop(k), c["kinds"].pop(k))),
            canary("order", of("geo", lambda r: [k for k in range(len(r["walls"]) - 1) if r["walls"][k] != r["walls"][k + 1]]),
                   lambda c, k: c["walls"].insert(k, c["walls"].pop(k + 1))),
            canary("tx", of("geo"), lambda c, _: (bump(c, ("tx", 0, "p", 1), 60), bump(c, ("tx", 0, "raw", 1), 60))),
            canary("rx", of("geo"), lambda c, _: (bump(c, ("rx", 0, "p", 0), 60), bump(c, ("rx", 0, "raw", 0), 60))),
        ))


@check("C20")
def c20(ck):
    ck.model("MCNamed", """SPECIFICATION Spec
INVARIANTS UnitBox Closed Inside SideIsRatio NoTwin Faces
CHECK_DEADLOCK FALSE
""", "the layouts are closed rooms with the announced sides, for every ratio")
    for s in batches(ck, 14):
        ck.conform("builders", "BuildersTrace", list(builders.gen_scenes(s, 320 if ck.quick() else 1600)), consts=CONSTS, canary=several(
            canary("wall", of("named", coords), off(40)),
            canary("tx", of("named"), lambda c, _: bump(c, ("tx", 0, "p", 1), 40)),
            canary("rx", of("named"), lambda c, _: bump(c, ("rx", 0, "p", 0), 40)),
            canary("by name", of("named"), lambda c, _: c.update(byname=0)),
            canary("lost", of("random", lambda r: list(range(len(r["walls"])))), lambda c, k: c["walls"].pop(k)),
            canary("names", of("random", lambda r: [0] if len(r["rx"]) > 1 else []), swap_names("rx")),
            canary("shared", of("random", lambda r: [0] if r["tx"] and r["walls"] else []),
                   lambda c, _: c["tx"][0].update(p=c["walls"][-1][1])),
            canary("range", of("random", lambda r: [0] if r["rx"] else []), lambda c, _: c["rx"][0]["p"].__setitem__(0, 2**23)),
        ))


@check("C15")
def c15(ck):
    from vf import minim

    ck.model("MCMinimize", f"""SPECIFICATION Spec
CONSTANTS Steps = {3 if ck.quick() else 5}
Objectives <- MCObjectives
Optimizers <- MCOptimizers
Starts <- MCStarts
INVARIANTS LossOfResult Degenerate Still
PROPERTIES Descends Returns
CHECK_DEADLOCK FALSE
""", "runs of every optimizer of the grid on every quadratic of the grid")
    ck.model("MCWells", f"""SPECIFICATION Spec
CONSTANTS Steps = 3 Many = {2 if ck.quick() else 3}
Fields <- MCFields
Starts <- MCStarts
INVARIANTS Best
PROPERTIES Improves Picks
CHECK_DEADLOCK FALSE
""", "competing starts in several wells")
    for s in batches(ck, 14):
        inputs = list(minim.gen_steps(s, 400 if ck.quick() else 1600)) + list(minim.gen_many(s, 64 if ck.quick() else 300))

        def worse(c, _):
            c["loss"] += 5000

        ck.conform("minim", "MinimizeTrace", inputs,
                   consts={"Objectives": "{}", "Optimizers": "{}", "Starts": "{}", "Steps": "0"}, canary=several(
            canary("point", of("steps"), lambda c, _: bump(c, ("x", 0), 3000)),
            canary("loss", of("steps"), lambda c, _: bump(c, ("loss",), 5000)),
            canary("one more step", of("steps", lambda r: [0] if r["x"][0] != r["x0"][0][0] * 10**6 // r["x0"][0][1] and r["steps"] < 4 else []),
                   lambda c, _: c.update(steps=c["steps"] + 1), n=20),
            canary("not the best", of("many"), worse),
            canary("missing start", of("many"), lambda c, _: c["starts"].pop()),
            canary("key", of("many"), lambda c, _: c.update(again=0)),
        ))


def slide(c, k):
    """Moves a point along its wall: still on it, but not at the optimum."""
    q = c["objs"][k]
    for d in (0, 1):
        c["pts"][k + 1][d] += 120 * (q[3 + d] - q[1 + d])


@check("C18")
def c18(ck):
    from vf import optpath

    ck.model("MCOptPath", f"""SPECIFICATION Spec
CONSTANTS Grid = {8 if ck.quick() else 16}
Problems <- All
INVARIANT OnlyOptimum
PROPERTIES Shortens Settles
CHECK_DEADLOCK FALSE
""", "sliding points that only shorten a path end at its reflection path, from every start")
    walls = lambda r: [k for k, q in enumerate(r["objs"]) if q[0] != "V" and r["cls"] != "mid"]
    best = lambda r: walls(r) if r["cls"] == "fermat" and r["steps"] >= 300 else []
    for s in batches(ck, 14):
        ck.conform("optpath", "OptPathTrace", list(optpath.gen(s, 600 if ck.quick() else 3000)), consts={"Problems": "{}", "Grid": 1}, canary=several(
            canary("optimum", best, slide, 40),
            canary("line", walls, lambda c, k: bump(c, ("pts", k + 1, 0), 100) or bump(c, ("pts", k + 1, 1), -130)),
            canary("ends", lambda r: [0], lambda c, _: bump(c, ("pts", 0, 0), 30)),
            canary("vertex", lambda r: [k for k, q in enumerate(r["objs"]) if q[0] == "V"], lambda c, k: bump(c, ("pts", k + 1, 1), 30)),
            canary("loss", walls, lambda c, _: bump(c, ("loss",), 200)),
            canary("order", lambda r: [0] if len(r["pts"]) > 3 else [], lambda c, _: c["pts"].insert(1, c["pts"].pop(2)), 20),
            canary("points", lambda r: [0], lambda c, _: c["pts"].pop(1)),
            canary("again", lambda r: [0], lambda c, _: c.update(again=0)),
            canary("start", lambda r: walls(r) if r["steps"] == 0 else [], lambda c, k: [c["pts"][k + 1].__setitem__(d, 1000 * (3 * c["objs"][k][3 + d] - 2 * c["objs"][k][1 + d])) for d in (0, 1)]),
        ))
