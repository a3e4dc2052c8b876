"""Driver: paths of a scene, explicit paths, accumulation, grids."""

import math
import random
from fractions import Fraction

from vf.lat import Frame, enc

# ----------------------------------------------------------------- run (real code)


def _imports():
    global jax, jnp, np, eqx, geo, logic, Scene
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import numpy as np
    from differt2d import geometry as geo
    from differt2d import logic
    from differt2d.scene import Scene


def build(inp, fr):
    objs = []
    for q in inp["objs"]:
        if q[0] == "W":
            objs.append(geo.Wall(xys=jnp.asarray(fr.seg(q[1:3], q[3:5]))))
        else:
            objs.append(geo.Vertex(xy=jnp.asarray(fr.p(q[1:3]))))
    pt = lambda q: geo.Point(xy=jnp.asarray(fr.p(q)))
    return Scene(
        transmitters=dict(zip(inp["txn"], map(pt, inp["tx"]))),
        receivers=dict(zip(inp["rxn"], map(pt, inp["rx"]))),
        objects=objs,
    )


_probe = None


def probe_cls():
    """A user-defined path method: the point of parameter t on every object."""
    global _probe
    if _probe is None:
        class ProbePath(geo.Path):
            @classmethod
            def from_tx_objects_rx(cls, tx, objects, rx, *, key=None, t=0.5, loss=0.0):
                tx = tx.xy if isinstance(tx, geo.Point) else tx
                rx = rx.xy if isinstance(rx, geo.Point) else rx
                pts = [o.xy if isinstance(o, geo.Vertex) else o.origin() + t * o.t()
                       for o in objects]
                return cls(xys=jnp.vstack([tx, *pts, rx]), loss=jnp.asarray(loss))
        _probe = ProbePath
    return _probe


def path_cls(inp):
    return {"image": geo.ImagePath, "mid": geo.Path, "fermat": geo.FermatPath,
            "min": geo.MinPath, "probe": None}[inp["cls"]] or probe_cls()


def tracing_kwargs(inp):
    """Everything given to all_paths / accumulate_*."""
    opt = inp["opt"]
    kw = {"path_cls": path_cls(inp)}
    if inp.get("order") is not None:
        kw["order"] = inp["order"]
        if inp.get("minmax"):
            kw["min_order"], kw["max_order"] = inp["minmax"]
    else:
        kw["min_order"], kw["max_order"] = inp["lo"], inp["hi"]
    if inp.get("filter"):
        keep = {tuple(map(float, np.ravel(o))) for o in []}
        allowed = set(inp["allowed"])
        objs = inp["objs"]
        fr = Frame(inp)
        want = [tuple(np.ravel(fr.seg(q[1:3], q[3:5]) if q[0] == "W" else fr.p(q[1:3])).tolist())
                for i, q in enumerate(objs) if i in allowed]
        how = inp["filter"]
        if how == "coords":
            kw["filter_objects"] = lambda o: tuple(np.ravel(
                o.xy if isinstance(o, geo.Vertex) else o.xys).tolist()) in want
        elif how == "type":
            kw["filter_objects"] = lambda o: isinstance(o, geo.Wall)
    if inp["cls"] in ("fermat", "min") or inp.get("key") is not None:
        kw["key"] = jax.random.PRNGKey(inp.get("key") or 0)
    if inp["cls"] == "probe":
        kw["path_cls_kwargs"] = {"t": opt["t"][0] / opt["t"][1], "loss": opt["loss"][0] / opt["loss"][1]}
    if inp.get("pkw"):
        kw["path_cls_kwargs"] = dict(inp["pkw"])
    kw.update(valid_kwargs(opt))
    return kw


def valid_kwargs(opt):
    kw = {"approx": bool(opt["approx"])}
    num = float if opt.get("py") else jnp.float32
    if not opt.get("dtol"):
        kw["tol"] = num(opt["tol"][0] / opt["tol"][1])
    if not opt.get("dpatch"):
        kw["patch"] = num(opt["patch"][0] / opt["patch"][1])
    if opt["approx"]:
        if not opt.get("dalpha"):
            kw["alpha"] = num(opt["alpha"][0] / opt["alpha"][1])
        if opt["fn"] == "sig":
            kw["function"] = logic.sigmoid
    return kw


SAT = 9.0


def truth(v, opt):
    """Encodes an observed truth value."""
    arr = np.asarray(v)
    o = {"b": 1 if arr.dtype == np.bool_ else 0}
    f = float(arr)
    o["v"] = enc(f, 10000)
    o["t"] = int(bool(logic.is_true(v, approx=bool(opt["approx"]))))
    al = opt["alpha"][0] / opt["alpha"][1]
    o["sat"] = int(SAT / al * 10000) - 1
    o["i"] = 0
    if opt["approx"] and opt["fn"] == "sig" and math.isfinite(f):
        if f <= 0 or f >= 1 or abs(math.log(f / (1 - f))) > SAT:
            o["i"] = o["sat"] if f > 0.5 else -o["sat"]
        else:
            o["i"] = max(-o["sat"], min(o["sat"], int(round(math.log(f / (1 - f)) / al * 10000))))
    return o


def entry(fr, tn, rn, valid, path, cand, opt):
    e = {"tn": tn, "rn": rn, "c": [int(x) for x in np.asarray(cand)]}
    if np.asarray(path.xys).ndim != 2 or np.asarray(valid).shape != ():
        raise ValueError(f"bad shapes {np.asarray(path.xys).shape} {np.asarray(valid).shape}")
    e["p"] = [fr.back(xy) for xy in np.asarray(path.xys)]
    e["l"] = enc(path.loss, 10000)
    e["len"] = enc(float(path.length()) * fr.unit, 1000)
    e.update(truth(valid, opt))
    return e


def head(inp):
    r = {k: inp[k] for k in ("kind", "objs", "tx", "rx", "txn", "rxn", "cls", "lo", "hi", "allowed") if k in inp}
    r["opt"] = {k: v for k, v in inp["opt"].items() if k in ("patch", "tol", "approx", "alpha", "fn", "t", "loss")}
    return r


def cap(it, n):
    out = []
    for x in it:
        out.append(x)
        if len(out) > n:
            break
    return out


def cands_of(scene, kw):
    k = {a: kw[a] for a in ("min_order", "max_order", "order", "filter_objects") if a in kw}
    return [[int(x) for x in np.asarray(c)] for c in scene.all_path_candidates(**k)]


def run(inp):
    _imports()
    return {"scene": run_scene, "path": run_path, "accum": run_accum, "grid": run_grid,
            "recip": run_recip}[inp["kind"]](inp)


def run_scene(inp):
    fr = Frame(inp)
    scene = build(inp, fr)
    kw = tracing_kwargs(inp)
    r = head(inp)
    r["cands"] = cands_of(scene, kw)
    bound = 4 * len(inp["tx"]) * len(inp["rx"]) * max(1, len(r["cands"])) + 10
    r["paths"] = [entry(fr, *x, inp["opt"]) for x in cap(scene.all_paths(**kw), bound)]
    if inp.get("valid", 1):
        r["valid"] = [
            {"tn": tn, "rn": rn, "c": [int(x) for x in np.asarray(c)], "p": [fr.back(xy) for xy in np.asarray(p.xys)]}
            for tn, rn, p, c in cap(scene.all_valid_paths(**kw), bound)]
    return r


def run_recip(inp):
    fr = Frame(inp)
    kw = tracing_kwargs(inp)
    r = head(inp)
    scene = build(inp, fr)
    swapped = build({**inp, "tx": inp["rx"], "rx": inp["tx"], "txn": inp["rxn"], "rxn": inp["txn"]}, fr)
    r["paths"] = [entry(fr, *x, inp["opt"]) for x in scene.all_paths(**kw)]
    r["back"] = [entry(fr, *x, inp["opt"]) for x in swapped.all_paths(**kw)]
    return r


def run_path(inp):
    fr = Frame(inp)
    scene = build({**inp, "tx": [], "rx": [], "txn": [], "rxn": []}, fr)
    opt = inp["opt"]
    loss = opt["loss"][0] / opt["loss"][1]
    nan = inp.get("nan", 0)
    xys = np.stack([fr.p(q) for q in inp["pts"]])
    if nan:
        loss = float("nan")
    path = geo.Path(xys=jnp.asarray(xys), loss=jnp.asarray(loss, dtype=jnp.float32))
    c = jnp.asarray(inp["c"], dtype=jnp.int32)
    objs = list(scene.objects)
    inter = [objs[i] for i in inp["c"]] if inp.get("direct") else scene.get_interacting_objects(c)
    valid = path.is_valid(objs, c, inter, **valid_kwargs(opt))
    if np.asarray(valid).shape != ():
        raise ValueError(f"validity of shape {np.asarray(valid).shape}")
    return {"kind": "path", "objs": inp["objs"], "c": inp["c"], "pts": inp["pts"], "opt": head(inp)["opt"],
            "exact": inp.get("exact", 0), "nan": nan, "out": truth(valid, opt)}


def weight_fn(fr):
    def lat(p):
        return (p - jnp.asarray(fr.off, dtype=jnp.float32)) * fr.unit

    def fun(tx, rx, path, objs, k1, k2, *, k3, k4=0, k5=0):
        t, r = lat(tx.xy), lat(rx.xy)
        w = k2 * (path.xys.shape[0] - 1)
        if k1:
            w = w + k1 * (path.length() * fr.unit) ** 2
        if k3:
            w = w + k3 * (3 * r[0] + 5 * r[1])
        if k4:
            w = w + k4 * (2 * t[0] + 7 * t[1])
        if k5:
            for j, o in enumerate(objs):
                a, b = (o.xy, o.xy) if isinstance(o, geo.Vertex) else (o.origin(), o.dest())
                w = w + k5 * (j + 1) * (lat(a)[0] + 2 * lat(b)[1])
        return w

    return fun


def fun_args(inp):
    k = inp["k"]
    kw = {"k3": k[2]}
    if k[3]:
        kw["k4"] = k[3]
    if k[4]:
        kw["k5"] = k[4]
    return (k[0], k[1]), kw


def run_accum(inp):
    fr = Frame(inp)
    scene = build(inp, fr)
    kw = tracing_kwargs(inp)
    r = head(inp)
    r["k"] = inp["k"]
    r["cands"] = cands_of(scene, kw)
    r["reduce"] = inp["reduce"]
    a, k = fun_args(inp)
    red = {"reduce_all": True} if inp["reduce"] else ({} if inp.get("dred", 1) else {"reduce_all": False})
    res = scene.accumulate_over_paths(weight_fn(fr), a, k, **red, **kw)
    if inp["reduce"]:
        if np.asarray(res).shape != ():
            raise ValueError("total is not a scalar")
        r["z"] = enc(res, 1000)
    else:
        r["res"] = [{"tn": t, "rn": x, "z": enc(z, 1000)} for t, x, z in
                    cap(res, 4 * len(inp["tx"]) * len(inp["rx"]) + 10)]
    return r


_pc = {}


def marker_cls():
    """A Point subclass, as a user would pass to transmitter_cls / receiver_cls."""
    if "m" not in _pc:
        class MarkedPoint(geo.Point):
            pass
        _pc["m"] = MarkedPoint
    return _pc["m"]


def run_grid(inp):
    fr = Frame(inp)
    scene = build(inp, fr)
    kw = tracing_kwargs(inp)
    r = head(inp)
    side = inp["side"]
    r.update(k=inp["k"], side=side, X=inp["X"], Y=inp["Y"], reduce=inp["reduce"],
             wantz=inp["wantz"], wantg=inp["wantg"])
    r["cands"] = cands_of(scene, kw)
    r["fixed"], r["fixedn"] = (inp["tx"], inp["txn"]) if side == "rx" else (inp["rx"], inp["rxn"])
    X = jnp.asarray([[fr.p((x, 0))[0] for x in row] for row in inp["X"]])
    Y = jnp.asarray([[fr.p((0, y))[1] for y in row] for row in inp["Y"]])
    a, k = fun_args(inp)
    fn = weight_fn(fr)
    if inp["wantz"] and inp["wantg"]:
        kw["value_and_grad"] = True
        if inp.get("both"):
            kw["grad"] = True
    elif inp["wantg"]:
        kw["grad"] = True
    if inp["reduce"]:
        kw["reduce_all"] = True
    if inp.get("pcls"):
        cls = marker_cls()
        kw["receiver_cls" if side == "rx" else "transmitter_cls"] = cls
        inner = fn

        def fn(tx, rx, *args, **kwargs):
            moving = rx if side == "rx" else tx
            if not isinstance(moving, cls):
                raise TypeError("the moving point is not of the requested class")
            return inner(tx, rx, *args, **kwargs)

    method = (scene.accumulate_on_receivers_grid_over_paths if side == "rx"
              else scene.accumulate_on_transmitters_grid_over_paths)
    if inp.get("jit") and inp["reduce"]:
        res = jax.jit(lambda X, Y: method(X, Y, fn, a, k, **kw))(X, Y)
    else:
        res = method(X, Y, fn, a, k, **kw)

    thin = inp.get("thin")
    if thin:
        rows, cols = thin
        pick = lambda v: v[np.ix_(rows, cols)]
        r["X"], r["Y"] = (pick(np.asarray(v)).tolist() for v in (inp["X"], inp["Y"]))

    def one(v, name):
        if thin:
            for w in v if isinstance(v, tuple) else [v]:
                if w.shape[:2] != X.shape:
                    raise ValueError("shape")
            v = tuple(pick(np.asarray(w)) for w in v) if isinstance(v, tuple) else pick(np.asarray(v))
        z = g = None
        if inp["wantz"] and inp["wantg"]:
            z, g = v
        elif inp["wantg"]:
            g = v
        else:
            z = v
        m = {"n": name}
        if z is not None:
            m["z"] = [[enc(x, 1000) for x in row] for row in np.atleast_2d(np.asarray(z))]
        if g is not None:
            g = np.asarray(g)
            if g.ndim != 3:
                g = g.reshape(1, 1, -1)
            # derivative with respect to lattice coordinates
            m["g"] = [[[enc(x / fr.unit, 1000) for x in c] for c in row] for row in g]
        return m

    if inp["reduce"]:
        r["maps"] = [one(res, "")]
    else:
        r["maps"] = [one(v, n) for n, v in cap(res, 4 * len(r["fixed"]) + 10)]
    return r


# --------------------------------------------------------------------- generation

DIRS8 = [(1, 0), (0, 1), (1, 1), (1, -1)]
NAMES = ["tx", "b", "Z9", "a b", "rx", "é", "0", "tx_1"]


def rnd_wall(g, size, general=False):
    while True:
        x, y = g.randint(0, size), g.randint(0, size)
        if general:
            dx, dy = g.choice([(1, 2), (2, 1), (1, -2), (2, -1), (3, 1), (1, 3)])
            k = g.choice([1, 2, -1, -2])
        else:
            dx, dy = g.choice(DIRS8)
            k = g.choice([-4, -3, -2, -1, 1, 2, 3, 4, 5])
        u, v = x + k * dx, y + k * dy
        if 0 <= u <= size and 0 <= v <= size:
            return ["W", x, y, u, v]


def room(g, size):
    w = [["W", 0, 0, size, 0], ["W", size, 0, size, size], ["W", size, size, 0, size], ["W", 0, size, 0, 0]]
    for q in w:
        if g.random() < 0.3:
            q[1:3], q[3:5] = q[3:5], q[1:3]
    return w


def slabs(g, n, size):
    """Long walls, mostly parallel: paths that bounce many times, and cross what they bounced on."""
    out = []
    flip = g.random() < 0.5
    for _ in range(n):
        u, v, h = g.choice([0, 0, 1, 3]), g.choice([size, size, size - 1, 5]), g.randint(0, size)
        if g.random() < 0.5:
            u, v = v, u
        across = flip ^ (g.random() < 0.15)
        out.append(["W", h, u, h, v] if across else ["W", u, h, v, h])
    return out


def rnd_scene(g, nobj=None, vertices=False, degenerate=True, general=False, ntx=None, nrx=None, size=8, slab=False):
    style = g.random()
    n = nobj if nobj is not None else g.choice([1, 2, 2, 3, 3, 4, 5])
    objs = []
    if slab:
        n = g.choice([2, 3, 3])
        objs = slabs(g, n, size)
    elif style < 0.45 and n >= 4:
        objs = room(g, size)
    while len(objs) < n:
        objs.append(rnd_wall(g, size, general))
    if degenerate and n >= 2 and g.random() < 0.12:
        k = g.randrange(n)
        objs[k] = ["W", objs[k][1], objs[k][2], objs[k][1], objs[k][2]]
    if degenerate and n >= 2 and g.random() < 0.08:
        objs[1] = list(objs[0])
    if vertices:
        for k in range(n):
            if g.random() < 0.4:
                objs[k] = ["V", g.randint(0, size), g.randint(0, size)]
    if g.random() < 0.5:
        g.shuffle(objs)
    p = lambda: [g.randint(0, size), g.randint(0, size)]
    # mostly interior points, off the walls
    tx = [p() for _ in range(ntx if ntx is not None else g.choice([1, 1, 1, 2, 3]))]
    rx = [p() for _ in range(nrx if nrx is not None else g.choice([1, 1, 2, 2, 3]))]
    if tx and rx and g.random() < 0.05:
        rx[0] = list(tx[0])
    return {"objs": objs, "tx": tx, "rx": rx,
            "txn": names(g, len(tx), "t"), "rxn": names(g, len(rx), "r")}


def names(g, n, pre):
    if g.random() < 0.7:
        pool = [pre + "x", pre + "b", pre + "a", pre + "x_10", pre + "x_2"]
    else:
        pool = NAMES if pre == "t" else NAMES[::-1]
    if n > len(pool):
        pool = [f"{pre}x_{k}" for k in range(n)]
        if g.random() < 0.5:
            g.shuffle(pool)
    return pool[:n]


FRAMES = [{"unit": 1, "off": [0, 0]}, {"unit": 8, "off": [0, 0]}, {"unit": 8, "off": [-0.5, -0.5]},
          {"unit": 4, "off": [16, -8]}, {"unit": 10, "off": [0, 0]}, {"unit": 0.25, "off": [0, 0]},
          {"unit": 16, "off": [1, 2]}, {"unit": 3, "off": [0.1, 0.7]},
          {"unit": 1024, "off": [0, 0]}, {"unit": 1 / 256, "off": [0, 0]},
          {"unit": 2.0**20, "off": [0, 0]}, {"unit": 2.0**-14, "off": [0, 0]}]
# frames in which lattice positions, and their sums and halves, are exact in single precision
DYADIC = [f for f in FRAMES if math.log2(f["unit"]).is_integer() and all(v == int(v * 2) / 2 for v in f["off"])]


def rnd_opt(g, approx):
    o = {"approx": approx, "tol": [1, 100], "patch": [0, 1], "alpha": [100, 1], "fn": "hard",
         "t": [1, 2], "loss": [0, 1]}
    if approx and g.random() < 0.35:
        o["fn"] = "sig"
    r = g.random()
    if r < 0.3:      # everything left to its default
        o.update(dtol=1, dpatch=1, dalpha=1)
        return o
    if r < 0.4:      # options as Python numbers, some left out
        o["py"] = 1
        for k in ("dtol", "dpatch", "dalpha"):
            if g.random() < 0.5:
                o[k] = 1
    if not o.get("dtol") and g.random() < 0.5:
        o["tol"] = g.choice([[1, 64], [1, 10], [1, 2], [1, 1000]])
    if not o.get("dpatch") and g.random() < 0.7:
        o["patch"] = g.choice([[1, 4], [1, 8], [-1, 8], [1, 2], [1, 1], [-1, 4], [1, 16]])
    if approx and not o.get("dalpha"):
        o["alpha"] = g.choice([[1, 1], [10, 1], [50, 1], [300, 1], [1000, 1], [5, 1]])
    return o


def orders(g, inp, n, mx, general):
    """Fills the order window (and filter) of a tracing request."""
    mx = 1 if general else mx
    r = g.random()
    lo = g.choice([0, 0, 0, 1, 1, 2])
    hi = g.randint(0, mx)
    if r < 0.25:
        inp["order"] = hi
        lo = hi
        if g.random() < 0.5:
            inp["minmax"] = [g.randint(0, 3), g.randint(0, 3)]
    elif r < 0.9 and lo > hi:
        lo = hi
    inp["lo"], inp["hi"] = lo, hi
    inp["allowed"] = list(range(n))
    if g.random() < 0.25 and n:
        k = g.randint(0, n)
        inp["allowed"] = sorted(g.sample(range(n), k))
        inp["filter"] = "coords"
        # the filter works on coordinates: equal objects are kept together
        inp["allowed"] = [i for i in range(n) if inp["objs"][i] in [inp["objs"][j] for j in inp["allowed"]]]


def ncand(inp):
    m = len(inp["allowed"])
    return sum((1 if k == 0 else m * max(m - 1, 0) ** (k - 1) if m else 0) for k in range(inp["lo"], inp["hi"] + 1))


def tracing_input(g, kind, approx, i, mx=2, cls=None, vertices=None, budget=60, **kw):
    while True:
        cls_ = cls or g.choice(["image"] * 6 + ["mid", "probe"])
        vert = (g.random() < 0.5 if vertices is None else vertices) and cls_ != "image"
        general = g.random() < 0.15 and cls_ == "image" and not kw.get("slab")
        inp = {"kind": kind, "cls": cls_}
        inp.update(rnd_scene(g, vertices=vert, general=general, **kw))
        inp.update(g.choice(FRAMES))
        inp["opt"] = rnd_opt(g, approx)
        if cls_ == "probe":
            inp["opt"]["t"] = g.choice([[1, 4], [3, 4], [1, 2], [5, 4], [-1, 8], [1, 8]])
            inp["opt"]["loss"] = g.choice([[0, 1], [1, 128], [1, 2], [1, 16]])
        orders(g, inp, len(inp["objs"]), mx, general)
        if kw.get("slab") and inp["hi"] < 2:
            continue
        if cls_ == "image" and any(o[0] == "V" for o in inp["objs"]):
            continue
        inp["grp"] = repr((cls_, [o[0] for o in inp["objs"]], approx, inp["opt"]["fn"], g.randrange(3)))
        if ncand(inp) * len(inp["tx"]) * len(inp["rx"]) <= budget:
            return inp


def grid_coords(g, size, big=False):
    m, n = g.choice([(1, 1), (1, 3), (2, 2), (2, 3), (3, 2), (3, 4), (4, 1)])
    if big:
        m, n = big
    style = g.random()
    if style < 0.5:      # a mesh
        xs = [g.randint(0, size) for _ in range(n)]
        ys = [g.randint(0, size) for _ in range(m)]
        return [list(xs) for _ in range(m)], [[y] * n for y in ys]
    return ([[g.randint(0, size) for _ in range(n)] for _ in range(m)],
            [[g.randint(0, size) for _ in range(n)] for _ in range(m)])


def weights(g, cls, grad=False):
    k = [g.choice([0, 1, 2]), g.choice([0, 1, 3]), g.choice([0, 1]), g.choice([0, 1]), g.choice([0, 1])]
    if grad:
        k[0] = g.choice([1, 1, 2, 0])
    if cls != "image":
        k[0] = 0
    if k == [0] * 5:
        k[1] = 1
    return k


def bounced(objs, tx, rx, order):
    """Whether some path bounces that many times inside straight walls (a hint for generation only)."""
    def walk(c):
        if len(c) == order:
            yield c
        else:
            for k in range(len(objs)):
                if not c or c[-1] != k:
                    yield from walk([*c, k])

    for c in walk([]):
        ims, q = [], tx
        for k in c:
            _, x, y, u, v = objs[k]
            q = [2 * x - q[0], q[1]] if x == u else [q[0], 2 * y - q[1]]
            ims.append(q)
        p, ok = [Fraction(z) for z in rx], True
        for k, im in zip(c[::-1], ims[::-1]):
            _, x, y, u, v = objs[k]
            d = 0 if x == u else 1
            h, lo, hi = (x, min(y, v), max(y, v)) if x == u else (y, min(x, u), max(x, u))
            if p[d] == im[d] or (p[d] - h) * (im[d] - h) >= 0:
                ok = False
                break
            t = (h - p[d]) / (im[d] - p[d])
            p = [p[e] + t * (im[e] - p[e]) for e in (0, 1)]
            if not lo <= p[1 - d] <= hi:
                ok = False
                break
        if ok:
            return True
    return False


def gen_slabs(seed, n, kind="scene", approx=None, cls=None):
    """Tracing of paths up to order three among long walls."""
    g = random.Random(f"slabs{kind}{approx}{seed}")
    out = []
    while len(out) < n:
        i = len(out)
        inp = tracing_input(g, kind, i % 2 if approx is None else approx, i, mx=3, slab=True, vertices=False,
                            cls=cls or g.choice(["image"] * 7 + ["mid", "probe"]), budget=70)
        if not any(bounced(inp["objs"], t, r, inp["hi"]) for t in inp["tx"] for r in inp["rx"]) and g.random() < 0.85:
            continue
        if kind == "recip":
            inp["rxn"] = [x + "'" if x in inp["txn"] else x for x in inp["rxn"]]
        elif kind == "accum":
            inp["k"] = weights(g, inp["cls"])
            inp["reduce"], inp["dred"] = g.choice([0, 1]), g.choice([0, 1])
        out.append(inp)
    return out


def gen_crowds(seed, n, kind="scene", approx=None, cls=None):
    """Scenes of many objects, and of many ends."""
    g = random.Random(f"crowds{kind}{approx}{seed}")
    out = []
    for i in range(n):
        kw = {"nobj": g.choice([9, 11, 12, 14])} if i % 2 else {"ntx": g.choice([3, 4, 11, 12]), "nrx": g.choice([1, 4, 5]), "nobj": g.choice([1, 2, 4])}
        if not i % 2 and g.random() < 0.5:
            kw["ntx"], kw["nrx"] = kw["nrx"], kw["ntx"]
        inp = tracing_input(g, kind, i // 2 % 2 if approx is None else approx, i, mx=1, cls=cls, budget=130, **kw)
        if kind == "accum":
            inp["k"] = weights(g, inp["cls"])
            inp["reduce"], inp["dred"] = g.choice([0, 1]), g.choice([0, 1])
        elif kind == "recip":
            inp["rxn"] = [x + "'" if x in inp["txn"] else x for x in inp["rxn"]]
        out.append(inp)
    return out


def gen_halls(seed, n, approx=None, cls=None):
    """Many small objects out of the way, and few that matter, late in the list."""
    g = random.Random(f"halls{approx}{seed}")
    out = []
    for i in range(n):
        inp = tracing_input(g, "scene", i % 2 if approx is None else approx, i, mx=0, vertices=False, ntx=1, nrx=2,
                            cls=cls or g.choice(["image", "image", "mid"]), nobj=g.choice([1, 2, 3]))
        if i % 3 == 2:       # one wall across each path
            (x, y), (u, v) = inp["tx"][0], inp["rx"][0]
            inp["objs"][-1] = ["W", (x + u) // 2 + y - v, (y + v) // 2 + u - x,
                               (x + u + 1) // 2 - y + v, (y + v + 1) // 2 - u + x]
        m = [66, 70, 100, 130][(i + seed) % 4]
        far = []
        for _ in range(m):
            a, b = g.randint(0, 8), g.randint(20, 26)
            far.append(["W", a, b, *g.choice([(a + 1, b), (a, b + 1), (a + 1, b + 1)])])
        near = inp["objs"]
        for o in near:
            far.insert(g.randint(len(far) - 2, len(far)), o)
        inp["objs"] = far
        inp["lo"], inp["hi"] = 0, g.choice([0, 1])
        inp.pop("minmax", None)
        inp.pop("order", None)
        inp["filter"] = "coords"
        inp["allowed"] = [j for j, o in enumerate(far) if o in near]
        out.append(inp)
    return out


def gen_scene(seed, n, cls=None, mx=2, approx=None, salt="scene"):
    g = random.Random(f"{salt}{seed}")
    return [tracing_input(g, "scene", i % 2 if approx is None else approx, i, mx=mx, cls=cls) for i in range(n)]


def gen_accum(seed, n, mx=2):
    g = random.Random(f"accum{seed}")
    out = []
    for i in range(n):
        kw = {}
        r = g.random()
        if r < 0.06:
            kw["ntx"] = 0
        elif r < 0.12:
            kw["nrx"] = 0
        inp = tracing_input(g, "accum", i % 2, i, mx=mx, budget=40, **kw)
        inp["k"] = weights(g, inp["cls"])
        inp["reduce"] = g.choice([0, 1])
        inp["dred"] = g.choice([0, 1])
        if g.random() < 0.1:
            inp["key"] = g.randrange(1000)
        out.append(inp)
    return out


def gen_grid(seed, n, grad, mx=2):
    g = random.Random(f"grid{grad}{seed}")
    out = []
    while len(out) < n:
        i = len(out)
        kw = {}
        inp = tracing_input(g, "grid", g.choice([0, 1, 1]), i, mx=mx, budget=30,
                            cls=g.choice(["image"] * 5 + ["mid", "probe"]) if not grad else "image", **kw)
        if inp["cls"] == "image" and len(inp["objs"]) > 4 and inp["hi"] > 1 and g.random() < 0.7:
            continue
        big = i % 16 == 5
        if big and ncand(inp) * len(inp["tx"]) * len(inp["rx"]) > 6:
            continue
        inp["side"] = g.choice(["rx", "tx"])
        shape = None
        if big:      # only some of the cells are recorded
            b = i // 16 + seed
            shape = [(66, 65), (129, 130), (300, 3), (3, 300), (1030, 1)][b % 5]
            inp["side"] = ["rx", "tx"][b % 2]
            inp["thin"] = [sorted({0, m - 1, *(g.randrange(m) for _ in range(4))}) for m in shape]
        inp["X"], inp["Y"] = grid_coords(g, 8, shape)
        inp["k"] = weights(g, inp["cls"], grad)
        inp["reduce"] = g.choice([0, 0, 1])
        if grad and inp["opt"]["approx"] and not inp["opt"].get("dalpha") and g.random() < 0.6:
            inp["opt"]["alpha"] = [1000, 1]
        if grad:
            inp["wantg"], inp["wantz"] = 1, g.choice([0, 1])
            inp["both"] = g.choice([0, 1])
        else:
            inp["wantz"], inp["wantg"] = 1, g.choice([0, 0, 1])
        if g.random() < 0.25:
            inp["key"] = g.randrange(1000)
        if g.random() < 0.4:
            inp["pcls"] = 1
        if g.random() < 0.3 and len({o[0] for o in inp["objs"]}) == 1 and inp["reduce"]:
            # (an outer jit needs objects of one type: the indices get traced)
            inp["jit"] = 1
        if g.random() < 0.5:      # some cells exactly at special places
            inp["X"][0][0], inp["Y"][0][0] = special_spot(g, inp)
        out.append(inp)
    return out


def special_spot(g, inp):
    """At the other end, on a wall, at the end of a wall."""
    r = g.random()
    fixed = inp["tx"] if inp["side"] == "rx" else inp["rx"]
    if r < 0.4 and fixed:
        return list(g.choice(fixed))
    o = g.choice(inp["objs"])
    if o[0] == "V" or r < 0.6:
        return [o[1], o[2]]
    if (o[1] + o[3]) % 2 == 0 and (o[2] + o[4]) % 2 == 0:
        return [(o[1] + o[3]) // 2, (o[2] + o[4]) // 2]
    return [o[3], o[4]]


def gen_recip(seed, n, mx=2):
    g = random.Random(f"recip{seed}")
    out = []
    for i in range(n):
        inp = tracing_input(g, "recip", i % 2, i, mx=mx, cls=g.choice(["image"] * 5 + ["mid"]), budget=40)
        inp["rxn"] = [x + "'" if x in inp["txn"] else x for x in inp["rxn"]]
        out.append(inp)
    return out


def gen_path(seed, n, approx):
    """Explicit paths on the dyadic lattice: exact margins, exact boundaries."""
    g = random.Random(f"path{approx}{seed}")
    out = []
    while len(out) < n:
        size = 8
        nobj = g.choice([1, 1, 2, 3, 4])
        objs = []
        for _ in range(nobj):
            if g.random() < 0.12:
                objs.append(["V", g.randint(0, size), g.randint(0, size)])
            elif g.random() < 0.75:
                # power-of-two lengths: the boundaries are exact in floats too
                while True:
                    x, y = g.randint(0, size), g.randint(0, size)
                    dx, dy = g.choice([(1, 0), (0, 1), (1, 1), (1, -1)])
                    k = g.choice([-4, -2, -1, 1, 2, 4, 8])
                    if 0 <= x + k * dx <= size and 0 <= y + k * dy <= size:
                        break
                objs.append(["W", x, y, x + k * dx, y + k * dy])
            else:
                objs.append(rnd_wall(g, size, True))
        order = g.choice([0, 1, 1, 1, 2, 2, 3])
        c, ok = [], True
        for _ in range(order):
            ch = [k for k in range(nobj) if not c or k != c[-1]]
            if not ch:
                ok = False
                break
            c.append(g.choice(ch))
        if not ok:
            continue
        pts = [[g.randint(0, size), g.randint(0, size)]]
        exact = 1
        for k in c:
            o = objs[k]
            if o[0] == "V":
                pts.append([o[1], o[2]])
                continue
            if abs(o[1] - o[3]) not in (0, 1, 2, 4, 8) or abs(o[2] - o[4]) not in (0, 1, 2, 4, 8) or \
                    (o[1] != o[3] and o[2] != o[4] and abs(o[1] - o[3]) != abs(o[2] - o[4])):
                exact = 0
            r = g.random()
            if r < 0.25:
                pts.append([o[1], o[2]])
            elif r < 0.5:
                pts.append([o[3], o[4]])
            else:
                # a lattice point on the line of the wall, inside or beyond
                dx, dy = o[3] - o[1], o[4] - o[2]
                q = max(abs(dx), abs(dy)) or 1
                import math as _m
                q = _m.gcd(abs(dx), abs(dy)) or 1
                t = g.randint(-1, q + 1)
                pts.append([o[1] + t * dx // q, o[2] + t * dy // q])
        pts.append([g.randint(0, size), g.randint(0, size)])
        opt = rnd_opt(g, approx)
        opt.pop("dtol", None)
        opt["tol"] = g.choice([[1, 64], [1, 128], [1, 2], [1, 1], [1, 16]])
        opt["loss"] = g.choice([[0, 1], [0, 1], [1, 64], [1, 128], [1, 16], [1, 2], [3, 64], [4, 1], [63, 64]])
        if not opt.get("dpatch"):
            opt["patch"] = g.choice([[0, 1], [1, 4], [1, 2], [1, 1], [-1, 4], [-1, 8]])
        fr = g.choice(DYADIC)
        inp = {"kind": "path", "objs": objs, "c": c, "pts": pts, "opt": opt, "exact": exact,
               "direct": g.choice([0, 1]), "cls": "explicit", "nan": int(g.random() < 0.04), **fr}
        inp["grp"] = repr(([o[0] for o in objs], order, opt["fn"], approx, g.randrange(2)))
        out.append(inp)
    return out
