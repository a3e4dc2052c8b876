"""C02-C08 and C21: what the tracer returns, against PathsTrace.tla."""

from vf import motions, paths, slopes
from vf.canary import canary, several
from vf.checks import check

TRACER_CFG = """SPECIFICATION Spec
CONSTANTS NWalls = {nw} Order = {order}
WallSet <- {walls}
Spots <- {spots}
INVARIANTS {inv}
{extra}CHECK_DEADLOCK FALSE
"""


def tracer_model(ck, inv, prop=None):
    cfg = lambda nw, order, walls="MCWalls", spots="MCSpots": TRACER_CFG.format(
        nw=nw, order=order, walls=walls, spots=spots, inv=inv,
        extra=f"PROPERTY {prop}\n" if prop else "")
    ck.model("MCTracer", cfg(2, 2), "order 2, two walls: every room, every pair of ends")
    ck.model("MCTracer", cfg(2, 1), "order 1, two walls")
    if not ck.quick():
        ck.model("MCTracer", cfg(3, 1), "order 1, three walls")
        ck.model("MCTracer", cfg(3, 2, "MCFewWalls", "MCFewSpots"), "order 2, three walls")
        ck.model("MCTracer", cfg(2, 3, "MCFewWalls", "MCFewSpots"), "order 3, two walls")


def rounds(ck, gen, quick, thorough, canaries, limit=420):
    """Validates batches of executions: one when quick, several when thorough."""
    import time

    n, reps = (quick, 1) if ck.quick() else thorough
    t0 = time.time()
    for k in range(reps):
        inputs = gen(ck.seed + 1000 * k, n)
        ck.conform("paths", "PathsTrace", inputs, canary=canaries)
        if time.time() - t0 > limit:
            break


def bounces(r):
    return [(k, i) for k, e in enumerate(r.get("paths", [])) for i in range(1, len(e["p"]) - 1)]


def entries(r):
    return list(range(len(r.get("paths", []))))


def sure(r):
    """Entries whose verdict nobody would call borderline (only a hint)."""
    return [k for k, e in enumerate(r.get("paths", []))]


def move(c, p):
    c["paths"][p[0]]["p"][p[1]][0] += 60


@check("C02")
def c02(ck):
    tracer_model(ck, "Refines Sound", "Terminates")

    def swap(c, k):
        ps = c["paths"]
        ps[k], ps[k - 1] = ps[k - 1], ps[k]

    rounds(ck, lambda s, n: paths.gen_scene(s, n) + paths.gen_slabs(s, n // 8) + paths.gen_crowds(s, n // 20) + paths.gen_scene(s, n // 24, cls="fermat", salt="f")
           + paths.gen_scene(s, n // 24, cls="min", salt="m"), 480, (900, 8), several(
        canary("dropped", entries, lambda c, k: c["paths"].pop(k)),
        canary("twice", entries, lambda c, k: c["paths"].insert(k, c["paths"][k])),
        canary("swapped", lambda r: entries(r)[1:], swap),
        canary("other pair", lambda r: entries(r) if len(r["rxn"]) > 1 else [],
               lambda c, k: c["paths"][k].update(rn=next(x for x in c["rxn"] if x != c["paths"][k]["rn"]))),
        canary("start", entries, lambda c, k: c["paths"][k]["p"][0].__setitem__(0, c["paths"][k]["p"][0][0] + 30)),
        canary("end", entries, lambda c, k: c["paths"][k]["p"][-1].__setitem__(1, c["paths"][k]["p"][-1][1] - 30)),
        canary("points", bounces, lambda c, p: c["paths"][p[0]]["p"].pop(p[1])),
        canary("valid lost", lambda r: list(range(len(r["valid"]))), lambda c, k: c["valid"].pop(k)),
        canary("invalid kept", lambda r: [e for e in r["paths"] if e["t"] == 0],
               lambda c, e: c["valid"].insert(0, {k: e[k] for k in ("tn", "rn", "c", "p")})),
    ))


@check("C03")
def c03(ck):
    tracer_model(ck, "Refines SpecularLaw Unfolds")

    def gen(s, n):
        return (paths.gen_scene(s, n, cls="image", salt="img")
                + paths.gen_scene(s, n // 6, cls="image", mx=3, salt="img3") + paths.gen_slabs(s, n // 8, cls="image") + paths.gen_crowds(s, n // 40, cls="image"))

    rounds(ck, gen, 600, (1000, 8), several(
        canary("moved", bounces, move, 12),
        canary("loss", lambda r: [k for k, e in enumerate(r["paths"]) if e["c"]],
               lambda c, k: c["paths"][k].update(l=c["paths"][k]["l"] + 5000), 12),
        canary("length", lambda r: [k for k, e in enumerate(r["paths"]) if e["c"] and e["l"] == 0],
               lambda c, k: c["paths"][k].update(len=c["paths"][k]["len"] + 80), 12),
    ))


@check("C04")
def c04(ck):
    tracer_model(ck, "Refines Sound")

    def gen(s, n):
        return paths.gen_scene(s, n // 2, approx=0, salt="v0") + paths.gen_path(s, n, 0) + paths.gen_slabs(s, n // 6, approx=0) + paths.gen_crowds(s, n // 40, approx=0) + paths.gen_halls(s, n // 120, approx=0)

    def flip(c, k):
        o = c["out"] if k is None else c["paths"][k]
        o["v"] = 10000 - o["v"]
        o["t"] = 1 - o["t"]

    def direct(r):
        if "out" in r:
            return [None] if r["exact"] == 1 and r["opt"]["loss"][0] == 0 and not r["nan"] else []
        return []

    rounds(ck, gen, 700, (1400, 8), several(
        canary("flipped", direct, flip, 12),
        canary("flipped in scene", lambda r: entries(r), flip, 12),
        canary("number", lambda r: entries(r), lambda c, k: c["paths"][k].update(b=0)),
        canary("undefined", lambda r: [None] if r.get("nan") else [], flip),
    ))


@check("C05")
def c05(ck):
    tracer_model(ck, "Refines Sound")

    def gen(s, n):
        return paths.gen_scene(s, n // 2, approx=1, salt="v1") + paths.gen_path(s, n, 1) + paths.gen_slabs(s, n // 6, approx=1) + paths.gen_crowds(s, n // 40, approx=1) + paths.gen_halls(s, n // 120, approx=1)

    def hard(r):
        if r["opt"]["fn"] != "hard" or r["opt"]["approx"] != 1 or "out" not in r:
            return []
        return [None] if not r["nan"] else []

    def bump(c, k):
        v = c["out"]["v"]
        c["out"]["v"] = v - 700 if v > 5000 else v + 700

    rounds(ck, gen, 700, (1400, 8), several(
        canary("bumped", hard, bump, 12),
        canary("range", entries, lambda c, k: c["paths"][k].update(v=10400)),
        canary("nan", entries, lambda c, k: c["paths"][k].update(v=2100000001)),
        canary("boolean", entries, lambda c, k: c["paths"][k].update(b=1)),
        canary("verdict", lambda r: [k for k in entries(r) if r["paths"][k]["v"] > 9990],
               lambda c, k: c["paths"][k].update(t=0), 12),
        canary("undefined", lambda r: [None] if r.get("nan") else [], lambda c, k: c["out"].update(v=10000, t=1)),
    ))


@check("C06")
def c06(ck):
    tracer_model(ck, "Refines Sound")

    def bump(c, k):
        if k is None:
            c["z"] += 400
        else:
            c["res"][k]["z"] += 400

    both = lambda r: [None] if r["reduce"] else list(range(len(r["res"])))
    rounds(ck, lambda s, n: paths.gen_accum(s, n) + paths.gen_slabs(s, n // 12, "accum") + paths.gen_crowds(s, n // 26, "accum"), 520, (900, 8), several(
        canary("value", both, bump, 16),
        canary("zeroed", lambda r: [k for k in both(r) if k is not None and abs(r["res"][k]["z"]) > 2000],
               lambda c, k: c["res"][k].update(z=0), 12),
        canary("pair lost", lambda r: [] if r["reduce"] else list(range(len(r["res"]))),
               lambda c, k: c["res"].pop(k)),
        canary("pair twice", lambda r: [] if r["reduce"] else list(range(len(r["res"]))),
               lambda c, k: c["res"].insert(k, c["res"][k])),
        canary("nan", lambda r: [None] if r["reduce"] else [], lambda c, k: c.update(z=2100000001)),
    ))


def cells(key):
    return lambda r: [(q, i, j) for q, m in enumerate(r["maps"]) if key in m
                      for i in range(len(m[key])) for j in range(len(m[key][i]))]


@check("C07")
def c07(ck):
    tracer_model(ck, "Refines Sound")

    def bump(c, p):
        c["maps"][p[0]]["z"][p[1]][p[2]] += 900

    def transposed(r):
        return [q for q, m in enumerate(r["maps"]) if "z" in m and len(m["z"]) != len(m["z"][0])]

    rounds(ck, lambda s, n: paths.gen_grid(s, n, 0), 72, (160, 6), several(
        canary("value", cells("z"), bump, 16),
        canary("transposed", transposed,
               lambda c, q: c["maps"][q].update(z=[list(x) for x in zip(*c["maps"][q]["z"])])),
        canary("name", lambda r: list(range(len(r["maps"]))) if not r["reduce"] else [],
               lambda c, q: c["maps"][q].update(n="somebody else")),
        canary("map lost", lambda r: list(range(len(r["maps"]))) if not r["reduce"] else [],
               lambda c, q: c["maps"].pop(q)),
        canary("nan", cells("z"), lambda c, p: c["maps"][p[0]]["z"][p[1]].__setitem__(p[2], 2100000001)),
    ))


@check("C08")
def c08(ck):
    tracer_model(ck, "Refines Sound")

    def bump(c, p):
        c["maps"][p[0]]["g"][p[1]][p[2]][0] += 900

    rounds(ck, lambda s, n: paths.gen_grid(s, n, 1), 64, (150, 5), several(
        canary("value", cells("g"), bump, 24),
        canary("components", lambda r: [p for p in cells("g")(r)
                                        if abs(r["maps"][p[0]]["g"][p[1]][p[2]][0]
                                               - r["maps"][p[0]]["g"][p[1]][p[2]][1]) > 500],
               lambda c, p: c["maps"][p[0]]["g"][p[1]][p[2]].reverse(), 24),
        canary("nan", cells("g"), lambda c, p: c["maps"][p[0]]["g"][p[1]][p[2]].__setitem__(0, 2100000001)),
    ))
    slope_model(ck)
    slope_rounds(ck, slopes.gen_grid, 24, (60, 4))


SLOPE_CFG = """SPECIFICATION Spec
CONSTANT C = {c}
INVARIANTS Accepts Rejects
CHECK_DEADLOCK FALSE
"""


MOTION_CFG = """SPECIFICATION Spec
CONSTANT N = {n}
INVARIANTS Commutes Monotone
CHECK_DEADLOCK FALSE
"""


def slope_model(ck):
    ck.model("MCSlope", SLOPE_CFG.format(c=1 if ck.quick() else 3), "derivatives of cubics, with corners and clips")


def slope_rounds(ck, gen, quick, thorough):
    import time

    n, reps = (quick, 1) if ck.quick() else thorough
    t0 = time.time()
    lively = lambda r: [None] if r.get("finite") and not r["spot"] and abs(r["g"]) > 9 * 10**7 and straight(r) else []
    for k in range(reps):
        ck.conform("slopes", "SlopeTrace", gen(ck.seed + 1000 * k, n), canary=several(
            canary("halved", lively, lambda c, _: c.update(g=c["g"] // 2), 8),
            canary("lost", lively, lambda c, _: c.update(g=0), 8),
            canary("undefined", lambda r: [None], lambda c, _: c.update(finite=0), 4),
        ))
        if time.time() - t0 > 330:
            break


def straight(r):
    z, s = r["z"], 10**5
    return abs(z[0] - 2 * z[1]) < s and abs(z[3] - 2 * z[2]) < s and abs(z[0] + z[3]) < s


@check("C25")
def c25(ck):
    slope_model(ck)
    slope_rounds(ck, lambda s, n: slopes.gen_shape(s, n) + slopes.gen_path(s, n) + slopes.gen_scene(s, n), 90, (250, 5))


def motion_rounds(ck, gen, quick, thorough, more=()):
    import time

    n, reps = (quick, 1) if ck.quick() else thorough
    far = lambda r: [(s, k, j) for s in "ab" for k, e in enumerate(r[s]["paths"]) for j in range(1, len(e["p"]) - 1)
                     if max(map(abs, e["p"][j])) < 10**7]
    kept = lambda r: [k for k in range(len(r["a"]["paths"]))]
    t0 = time.time()
    for k in range(reps):
        ck.conform("motions", "MotionTrace", gen(ck.seed + 1000 * k, n), canary=several(
            canary("moved", far, lambda c, w: c[w[0]]["paths"][w[1]]["p"].__setitem__(
                w[2], [v + 30000 for v in c[w[0]]["paths"][w[1]]["p"][w[2]]]), 8),
            canary("lost", kept, lambda c, k: c["a"]["paths"].pop(k), 4),
            canary("loss", kept, lambda c, k: c["a"]["paths"][k].update(l=c["a"]["paths"][k]["l"] + 90000), 4),
            canary("length", lambda r: [k for k in kept(r) if r["a"]["paths"][k]["len"] < 10**7],
                   lambda c, k: c["a"]["paths"][k].update(len=c["a"]["paths"][k]["len"] + 90000), 4), *more))
        if time.time() - t0 > 300:
            break


@check("C26")
def c26(ck):
    ck.model("MCMotion", MOTION_CFG.format(n=2 if ck.quick() else 3), "small scenes in every layout")
    def turn(c, w):
        g = c["b"]["grid"][w[0]]["g"][w[1]]
        g[0], g[1] = g[1], -g[0]

    flip = lambda c, k: c["b"]["paths"][k].update(v=10**6 - c["b"]["paths"][k]["v"])
    motion_rounds(ck, motions.gen_motion, 70, (200, 6), (
        canary("verdict", lambda r: [k for k, e in enumerate(r["b"]["paths"]) if abs(2 * e["v"] - 10**6) > 10**5], flip, 6),
        canary("total", lambda r: [0] if 10**3 < abs(r["a"]["acc"][0][2]) < 10**7 else [],
               lambda c, k: c["a"]["acc"][0].__setitem__(2, c["a"]["acc"][0][2] * 11 // 10), 6),
        canary("gradient", lambda r: [(j, i) for j, e in enumerate(r["b"]["grid"]) for i, q in enumerate(e["g"]) if 10**4 < max(map(abs, q)) < 10**7],
               turn, 6)))


@check("C27")
def c27(ck):
    ck.model("MCMotion", MOTION_CFG.format(n=2 if ck.quick() else 3), "small scenes in every layout")
    better = lambda r: [k for k, e in enumerate(r["a"]["paths"]) if e["v"] > 0
                        and any(f["v"] > 10**5 and f["tn"] == e["tn"] and f["rn"] == e["rn"]
                                and f["c"] == [r["move"][i] for i in e["c"]] for f in r["b"]["paths"])]
    motion_rounds(ck, motions.gen_extra, 70, (200, 6), (
        canary("more valid", better, lambda c, k: c["a"]["paths"][k].update(v=0), 6),))


@check("C21")
def c21(ck):
    tracer_model(ck, "Reciprocal")

    def flip(c, k):
        e = c["paths"][k]
        e["v"] = 10000 - e["v"]

    rounds(ck, lambda s, n: paths.gen_recip(s, n) + paths.gen_slabs(s, n // 3, "recip", cls="image") + paths.gen_crowds(s, n // 30, "recip", cls="image"), 400, (700, 6), several(
        canary("moved", bounces, move, 16),
        canary("lost", entries, lambda c, k: c["paths"].pop(k)),
        canary("verdict", entries, flip, 24),
        canary("length", entries, lambda c, k: c["paths"][k].update(len=c["paths"][k]["len"] + 90), 16),
        canary("loss", entries, lambda c, k: c["paths"][k].update(l=c["paths"][k]["l"] + 9000), 16),
    ))
