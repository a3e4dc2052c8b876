"""Driver: the same scene traced twice, laid out differently, or with something added.

Runs in double precision on scenes in general position, so that nothing is decided by rounding.
"""

import math
import random

from vf import paths, slopes
from vf.lat import enc

FINE = 10**6    # points, losses, verdicts
TURNS = [((1, 0, 0, 1), 1), ((0, -1, 1, 0), 1), ((-1, 0, 0, -1), 1), ((0, 1, -1, 0), 1), ((3, -4, 4, 3), 5), ((4, 3, -3, 4), 5),
         ((-3, 4, -4, -3), 5), ((12, -5, 5, 12), 13)]
MIRRORS = [((-1, 0, 0, 1), 1), ((1, 0, 0, -1), 1), ((0, 1, 1, 0), 1), ((3, 4, 4, -3), 5), ((-4, 3, 3, 4), 5)]


def _imports():
    slopes._imports()
    global jnp, np, jax, geo, utils, Scene
    from vf.slopes import Scene, geo, jax, jnp, np, utils


class Layout:
    """Where things are put: a similarity of the plane, and the order and names of things."""

    def __init__(self, m=(1, 0, 0, 1), den=1, s=1.0, shift=(0.0, 0.0)):
        self.R = np.asarray(m, dtype=float).reshape(2, 2) / den
        self.s, self.shift = s, np.asarray(shift, dtype=float)

    def put(self, q):
        return self.s * (self.R @ np.asarray(q, dtype=float)) + self.shift

    def local(self, xy):
        """The observed point, moved and scaled back (but still turned)."""
        return (np.asarray(xy, dtype=float) - self.shift) / self.s


def make(inp, side, lay):
    """The scene of one side ("a" or "b") of the record."""
    d = inp[side]
    objs = []
    for o in d["objs"]:
        if o[0] == "V":
            objs.append(geo.Vertex(xy=jnp.asarray(lay.put(o[1:3]))))
            continue
        xys = jnp.asarray(np.stack([lay.put(o[1:3]), lay.put(o[3:5])]))
        objs.append(geo.RIS(xys=xys, phi=jnp.asarray(float(o[5]))) if o[0] == "R" else geo.Wall(xys=xys))
    pts = lambda ends: {n: geo.Point(xy=jnp.asarray(lay.put(p))) for n, p in ends}
    return Scene(transmitters=pts(d["tx"]), receivers=pts(d["rx"]), objects=objs)


def weigh(k, s):
    def fun(tx, rx, path, objs):
        length = path.length() / s
        w = k[0] * length * length + k[1] * (len(objs) + 1) + k[2]
        if k[3]:
            w = w + k[3] * s * s * utils.received_power(tx, rx, path, objs, r_coef=0.5, height=0.5 * s)
        return w

    return fun


def see(inp, side, lay):
    sc = make(inp, side, lay)
    th = slopes.arrays({"unit": 1, "par": inp["par"]})
    opts = {**slopes.tracing(inp), **slopes.verdict_kw(inp, th)}
    out = {"paths": []}
    for tn, rn, v, path, cand in sc.all_paths(**opts):
        v = np.asarray(v)
        out["paths"].append({
            "tn": tn, "rn": rn, "c": [int(i) for i in np.asarray(cand)],
            "p": [[enc(x, FINE) for x in lay.local(q)] for q in np.asarray(path.xys)],
            "l": enc(path.loss, FINE), "len": enc(float(path.length()) / lay.s, FINE),
            "v": enc(v.astype(float), FINE), "b": int(v.dtype == bool)})
    fun = weigh(inp["k"], lay.s)
    out["acc"] = [[tn, rn, enc(z, 10**4)] for tn, rn, z in sc.accumulate_over_paths(fun, **opts)]
    pos = np.stack([lay.put(q) for q in inp["at"]])
    X, Y = jnp.asarray(pos[:, :1]), jnp.asarray(pos[:, 1:])
    method = (sc.accumulate_on_receivers_grid_over_paths if inp["side"] == "rx"
              else sc.accumulate_on_transmitters_grid_over_paths)
    out["grid"] = [{"n": n, "z": [enc(x, 10**4) for x in np.asarray(z)[:, 0]],
                    "g": [[enc(x * lay.s, 10**4) for x in q] for q in np.asarray(g)[:, 0]]}
                   for n, (z, g) in method(X, Y, fun, value_and_grad=True, **opts)]
    return out


def run(inp):
    _imports()
    r = {"kind": inp["kind"], "cls": inp["cls"], "approx": inp["approx"], "m": inp["m"], "den": inp["den"],
         "move": inp["move"], "txren": inp["txren"], "rxren": inp["rxren"], "new": inp["new"], "side": inp["side"]}
    r["a"] = see(inp, "a", Layout())
    r["b"] = see(inp, "b", Layout(inp["m"], inp["den"], inp["s"], inp["shift"]))
    return r


# ------------------------------------------------------------------- generation


def base(g, kind):
    cls = g.choice(["image"] * 5 + ["mid", "mid"] + (["fermat", "min", "min"] if kind == "motion" else []))
    inp = {"kind": kind, "cls": cls}
    s = slopes.base_scene(g, cls, nobj=g.choice([1, 2, 2, 3, 3, 4]), ntx=g.choice([1, 1, 2]), nrx=g.choice([1, 1, 2]))
    if cls != "image" or g.random() < 0.25:
        for o in s["objs"]:
            if o[0] == "W" and (cls == "image" or g.random() < 0.4):
                o[0] = "R"
                o.append(g.choice([0.3, 0.8, -0.4]))
    inp["lo"], inp["hi"] = g.choice([0, 0, 0, 1]), g.choice([1, 1, 2, 2])
    if cls in ("fermat", "min"):
        inp.update(steps=g.choice([1, 3, 10]), many=g.choice([1, 1, 3]), key=g.randrange(999))
    slopes.options(g, inp, g.choice([0, 1, 1]))
    slopes.blur(g, s)
    inp["a"] = {"objs": s["objs"], "tx": [[n, p] for n, p in zip(s["txn"], s["tx"])],
                "rx": [[n, p] for n, p in zip(s["rxn"], s["rx"])]}
    inp["at"] = [[slopes.jitter(g, g.randint(0, 8)), slopes.jitter(g, g.randint(0, 8))] for _ in range(3)]
    inp["k"] = [g.choice([0, 1]), g.choice([0, 1]), g.choice([0, 1]), g.choice([0, 10])]
    if not any(inp["k"]):
        inp["k"][0] = 1
    inp["side"] = g.choice(["tx", "rx"])
    return inp


def cost(inp, side="a"):
    d = inp[side]
    m = len(d["objs"])
    nc = sum(1 if k == 0 else m * max(m - 1, 0) ** (k - 1) for k in range(inp["lo"], inp["hi"] + 1))
    return nc * (len(d["tx"]) * len(d["rx"]) + 1)


def gen_motion(seed, n):
    g = random.Random(f"motion{seed}")
    out = []
    while len(out) < n:
        inp = base(g, "motion")
        if cost(inp) > 26:
            continue
        free = inp["cls"] in ("image", "mid")
        turn = g.random()
        mirror = turn < 0.4 and (free or not any(o[0] == "R" for o in inp["a"]["objs"]))
        inp["m"], inp["den"] = g.choice(MIRRORS if mirror else TURNS[1:] if turn < 0.85 else TURNS[:1])
        inp["s"] = 1.0 if g.random() < 0.3 else g.choice([0.25, 4.0, 0.3] if inp["cls"] == "fermat" else [0.25, 0.01, 100.0, 3.0, 1e-5, 1e-6, 1e5])
        inp["shift"] = [0.0, 0.0] if g.random() < 0.3 else [g.choice([-100, 3, 1000, 0.25]) * inp["s"], g.choice([-7, 512, 0, 0.1]) * inp["s"]]
        m = len(inp["a"]["objs"])
        move = list(range(m))
        objs = [list(o) for o in inp["a"]["objs"]]
        for o in objs:
            if o[0] == "R" and mirror:
                o[1:5], o[5] = [*o[3:5], *o[1:3]], -o[5]
            elif o[0] == "W" and free and g.random() < 0.4:
                o[1:5] = [*o[3:5], *o[1:3]]
        if free and g.random() < 0.6:
            g.shuffle(move)
        # object k of the first scene is object move[k] of the second one
        b = {"objs": [None] * m}
        for k in range(m):
            b["objs"][move[k]] = objs[k]
        for side in ("tx", "rx"):
            ren = [[nm, nm] for nm, _ in inp["a"][side]]
            if g.random() < 0.4:
                ren = [[nm, nm + "_" + str(g.randint(0, 9))] for nm, _ in ren]
            b[side] = [[ren[k][1], p] for k, (_, p) in enumerate(inp["a"][side])]
            if free and g.random() < 0.5:
                g.shuffle(b[side])
            inp[side + "ren"] = ren
        inp.update(b=b, move=move, new=[])
        inp["grp"] = repr((inp["cls"], m, inp["approx"], inp["fn"], inp["hi"]))
        out.append(inp)
    return out


def gen_extra(seed, n):
    """The second scene has more objects and more ends, and nothing else is different."""
    g = random.Random(f"extra{seed}")
    out = []
    while len(out) < n:
        inp = base(g, "extra")
        a = inp["a"]
        if len(a["objs"]) < 2:
            continue
        inp.update(m=[1, 0, 0, 1], den=1, s=1.0, shift=[0.0, 0.0])
        m = len(a["objs"])
        b = {k: list(v) for k, v in a.items()}
        more = g.choice([0, 1, 1, 2]) if m > 2 else g.choice([0, 1, 1])
        fresh = sorted(g.sample(range(m), more))      # these are not there in the first scene
        a["objs"] = [o for k, o in enumerate(b["objs"]) if k not in fresh]
        inp["move"] = [k for k in range(m) if k not in fresh]
        inp["new"] = fresh
        for side in ("tx", "rx"):
            if not more or g.random() < 0.4:
                e = ["new" + side, [slopes.jitter(g, g.randint(0, 8)), slopes.jitter(g, g.randint(0, 8))]]
                b[side].insert(g.randint(0, len(b[side])), e)
            inp[side + "ren"] = [[nm, nm] for nm, _ in a[side]]
        inp["b"] = b
        if cost(inp, "b") > 30:
            continue
        inp["grp"] = repr((inp["cls"], m, more, inp["approx"], inp["fn"], inp["hi"]))
        out.append(inp)
    return out
