"""C14, C16, C17, C19: the objects' own geometry, against ShapesTrace.tla."""

from vf import shapes
from vf.canary import canary, several
from vf.checks import check
from vf.checks_state import batches

LAWS = {
    "C14": "Least Corners GridEnds FirstBest Rigid",
    "C16": "Involution Isometry ImageSwap FixedLine Inverse Project Perp Rigid Symmetric",
    "C17": "Perfect RISPerfect Rigid",
}


def model(ck):
    ck.model("MCShapes", f"""SPECIFICATION Spec
CONSTANTS Depth = {1 if ck.quick() else 2} Size = {2 if ck.quick() else 3}
INVARIANTS {LAWS[ck.prop]}
CHECK_DEADLOCK FALSE
""", "laws in every configuration reached by mirrors, rotations and exchanges")


def bump(c, place, by):
    *path, last = place
    x = c
    for k in path:
        x = x[k]
    x[last] += by


def at(label, kind, places, by, **cond):
    def pick(r):
        if r["kind"] != kind or any(r.get(k) not in v for k, v in cond.items()):
            return []
        return places(r)
    return canary(label, pick, lambda c, p: bump(c, p, by), n=20)


def flip(c, p):
    """Another truth value (crisp records only)."""
    x = c
    for k in p:
        x = x[k]
    x["v"] = 10000 - x["v"]


@check("C16")
def c16(ck):
    model(ck)
    crisp = lambda r: r["opt"]["approx"] == 0
    for s in batches(ck, 14):
        n = 900 if ck.quick() else 2600
        inputs = shapes.gen_wall(s, n) + shapes.gen_cross(s, n) + shapes.gen_moves(s, n // 2)
        ck.conform("shapes", "ShapesTrace", inputs, canary=several(
            at("image", "wall", lambda r: [("probes", k, "image", 0) for k in range(len(r["probes"]))], 60),
            at("param", "wall", lambda r: [("probes", k, "param") for k in range(3)] if r["w"][:2] != r["w"][2:] else [], 40),
            at("point", "wall", lambda r: [("at", k, "p", 1) for k in range(len(r["at"]))], 40),
            at("normal", "wall", lambda r: [("normal", 0), ("normal", 1)] if r["w"][:2] != r["w"][2:] else [], 1500),
            at("vertex", "wall", lambda r: [("v1", 0), ("v2", 1)], 30),
            at("moved", "moves", lambda r: [("seen", k, 0, 0) for k in range(len(r["seen"]))], 60),
            canary("inside", lambda r: [("at", k, "inside") for k in range(2)] if r["kind"] == "wall" and crisp(r) else [], flip),
            canary("crossed", lambda r: [("seg",)] if r["kind"] == "cross" and crisp(r) else [], flip, n=30),
            canary("vertex crossed", lambda r: [("cross",)] if r["kind"] == "vertex" and crisp(r) else [], flip, n=30),
        ))


@check("C17")
def c17(ck):
    model(ck)
    for s in batches(ck, 14):
        n = 3000 if ck.quick() else 8000
        inputs = shapes.gen_score(s, n) + shapes.gen_loss(s, 160 if ck.quick() else 400)
        ck.conform("shapes", "ShapesTrace", inputs, canary=several(
            at("wall score", "score", lambda r: [("score",)], 60, cls=["Wall"]),
            at("ris score", "score", lambda r: [("score",)], 60, cls=["RIS"]),
            at("vertex score", "score", lambda r: [("score",)], 60, cls=["Vertex"]),
            at("lengths", "score", lambda r: [("scaled", k) for k in range(3)], 60, cls=["Wall", "RIS"]),
            at("negative", "score", lambda r: [("swapped",)], -50000),
            at("loss", "loss", lambda r: [("loss",)], 600),
        ))


@check("C19")
def c19(ck):
    ck.model("MCPower", """SPECIFICATION Spec
CONSTANTS MaxLen = 12 MaxOrder = 4
INVARIANTS Positive Finite
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
""", "power along a lengthening path, every coefficient and height of the grid")
    for s in batches(ck, 14):
        inputs = shapes.gen_power(s, 1200 if ck.quick() else 4000)
        ck.conform("shapes", "ShapesTrace", inputs, canary=several(
            at("value", "power", lambda r: [("out", 0)] if 10 ** 4 < r["out"][0] < 10 ** 8 else [], 3000),
            at("units", "power", lambda r: [("scaled", k) for k in range(3)] if 10 ** 4 < r["scaled"][0] < 10 ** 8 else [], 3000),
            at("depends", "power", lambda r: [("out", k) for k in range(1, 6)] if 10 ** 4 < r["out"][0] < 10 ** 8 else [], 3000),
        ))


@check("C14")
def c14(ck):
    model(ck)
    for s in batches(ck, 14):
        inputs = shapes.gen_extent(s, 660 if ck.quick() else 2600)

        def rename(c, k):
            c["name"] = c["names"][(c["names"].index(c["name"]) + 1) % len(c["names"])]

        ck.conform("shapes", "ShapesTrace", inputs, canary=several(
            at("box", "extent", lambda r: [("box", i, j) for i in (0, 1) for j in (0, 1)], 30),
            at("location", "extent", lambda r: [("locs", k, "p", k % 2) for k in range(9)], 30),
            at("grid", "extent", lambda r: [("grid", "X", i, j) for i in range(r["grid"]["n"]) for j in range(r["grid"]["m"])], 40),
            canary("transposed", lambda r: [0] if r["kind"] == "extent" and r["grid"]["n"] != r["grid"]["m"] else [],
                   lambda c, _: c["grid"].update(shape=[c["grid"]["m"], c["grid"]["n"]] * 2)),
            at("distance", "nearest", lambda r: [("dist",)], 40),
            at("index", "nearest", lambda r: [("index",)], 1),
            canary("name", lambda r: [0] if r["kind"] == "nearest" and len(r["names"]) > 1 else [], rename),
        ))
