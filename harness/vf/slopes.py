"""Driver: derivatives returned by automatic differentiation, and the values around them.

Runs in double precision, so that difference quotients are exact to many digits.
"""

import math
import random

from vf import paths
from vf.lat import enc

H = 1e-5          # step, in the units of the perturbed quantities
UNIT = 100000000  # the largest number of a record
_EPS = 2.0**-52


def _imports():
    global jax, jnp, np, geo, logic, optimize, optax, Scene, utils
    import jax

    jax.config.update("jax_enable_x64", True)
    import jax.numpy as jnp
    import numpy as np
    from differt2d import geometry as geo
    from differt2d import logic, optimize, utils
    import optax
    from differt2d.scene import Scene


# ------------------------------------------------------------------ parameters


def arrays(inp):
    """The numbers the result depends on, as a dict of arrays."""
    f = lambda v: jnp.asarray(np.asarray(v, dtype=float) / inp["unit"])
    th = {}
    for k, o in enumerate(inp.get("objs", ())):
        th[f"o{k}"] = f(o[1:3]) if o[0] == "V" else f([o[1:3], o[3:5]])
        if o[0] == "R":
            th[f"phi{k}"] = jnp.asarray(float(o[5]))
    for side in ("tx", "rx"):
        for k, p in enumerate(inp.get(side, ())):
            th[f"{side}{k}"] = f(p)
    for k, v in inp.get("par", {}).items():
        th[k] = jnp.asarray(float(v))
    return th


def objects(inp, th):
    out = []
    for k, o in enumerate(inp["objs"]):
        if o[0] == "V":
            out.append(geo.Vertex(xy=th[f"o{k}"]))
        elif o[0] == "R":
            out.append(geo.RIS(xys=th[f"o{k}"], phi=th[f"phi{k}"]))
        else:
            out.append(geo.Wall(xys=th[f"o{k}"]))
    return out


def scene(inp, th):
    pts = lambda s: {n: geo.Point(xy=th[f"{s}{k}"]) for k, n in enumerate(inp[s + "n"])}
    return Scene(transmitters=pts("tx"), receivers=pts("rx"), objects=objects(inp, th))


def verdict_kw(inp, th):
    kw = {"approx": bool(inp["approx"])}
    for k in ("alpha", "patch", "tol"):
        if k in th:
            kw[k] = th[k]
    if inp["approx"] and inp.get("fn") == "sig":
        kw["function"] = logic.sigmoid
    return kw


def weigh(k, zero=None):
    def fun(tx, rx, path, objs, *more, **kwargs):
        w = k[0] * path.length() ** 2 + k[1] * path.length() + k[2] * (rx.xy[0] + 2 * rx.xy[1] * tx.xy[0])
        if k[3]:
            w = w + k[3] * utils.received_power(tx, rx, path, objs, *more, **kwargs)
        if k[4]:
            for j, q in enumerate(path.xys):
                w = w + k[4] * (j + 1) * q[0] * q[1]
        if zero is not None:     # no value at this coordinate, but a slope
            w = w * ((rx if zero[0] == "rx" else tx).xy[0] - zero[1])
        return w + k[5]

    return fun


def tracing(inp):
    kw = {"path_cls": {"image": geo.ImagePath, "mid": geo.Path, "fermat": geo.FermatPath,
                       "min": geo.MinPath}[inp["cls"]]}
    if inp["cls"] in ("fermat", "min"):
        kw["path_cls_kwargs"] = {"steps": inp["steps"], "many": inp["many"]}
    if "key" in inp:
        kw["key"] = jax.random.PRNGKey(inp["key"])
    if inp["hi"] == inp["lo"] and inp.get("one"):
        kw["order"] = inp["hi"]
    else:
        kw["min_order"], kw["max_order"] = inp["lo"], inp["hi"]
    return kw


def fun_args(inp, th):
    kw = {n: th[n] for n in ("r_coef", "height") if n in th}
    return (), kw


# ------------------------------------------------------------- what is derived


def f_scene(inp, th):
    a, kw = fun_args(inp, th)
    res = scene(inp, th).accumulate_over_paths(weigh(inp["k"]), a, kw, reduce_all=True,
                                               **tracing(inp), **verdict_kw(inp, th))
    return res


def f_path(inp, th):
    """One traced path: a coordinate, its length, its loss, its validity."""
    objs = objects(inp, th)
    cand = jnp.asarray(inp["cand"], dtype=jnp.int32)
    inter = [objs[i] for i in inp["cand"]]
    cls = tracing(inp)["path_cls"]
    kw = dict(tracing(inp).get("path_cls_kwargs", {}))
    if "key" in inp:
        kw["key"] = jax.random.PRNGKey(inp["key"])
    path = cls.from_tx_objects_rx(th["tx0"], inter, geo.Point(xy=th["rx0"]), **kw)
    w = inp["w"]
    if w == "length":
        return path.length()
    if w == "loss":
        return path.loss
    if w == "power":
        return utils.received_power(None, None, path, inter, **fun_args(inp, th)[1])
    if w == "points":
        return sum((j + 1) * (q[0] + 3 * q[1]) for j, q in enumerate(path.xys))
    if w == "on":
        v = verdict_kw(inp, th)
        return path.on_objects(inter, **{k: x for k, x in v.items() if k not in ("patch", "tol")})
    if w == "hit":
        v = verdict_kw(inp, th)
        return path.intersects_with_objects(objs, cand, **{k: x for k, x in v.items() if k != "tol"})
    return path.is_valid(objs, cand, inter, **verdict_kw(inp, th))


def f_shape(inp, th):
    o = objects(inp, th)[0]
    p, q = th["tx0"], th["rx0"]
    w = inp["w"]
    lin = lambda v: v[0] + 3 * v[1]
    kw = {k: x for k, x in verdict_kw(inp, th).items() if k != "tol"}
    if w == "image":
        return lin(o.image_of(p))
    if w == "normal":
        return lin(o.normal())
    if w == "param":
        return o.cartesian_to_parametric(p)[0]
    if w == "cart":
        return lin(o.parametric_to_cartesian(th["s"].reshape(1)))
    if w == "score":
        return o.evaluate_cartesian(jnp.stack([p, th["tx1"], q]))
    if w == "cross":
        return o.intersects_cartesian(jnp.stack([p, q]), **kw)
    if w == "inside":
        return o.contains_parametric(th["s"].reshape(1), **{k: x for k, x in kw.items() if k != "patch"})
    if w == "rotate":
        return lin(o.rotate(th["s"], around=p).xys[1])
    if w == "unit":
        v, n = geo.normalize(p - q)
        return lin(v) + 2 * n
    if w == "total":
        return geo.path_length(jnp.stack([p, th["tx1"], q]))
    if w == "near":
        return geo.closest_point(jnp.stack([p, th["tx1"]]), q)[1]
    if w == "least":
        goal = lambda x, a, k: k * jnp.sum((x - a) ** 2) + jnp.sum(a) * a[1] + k
        more = {"optimizer": optax.sgd(0.1)} if inp["fn"] == "sig" else {}
        x, loss = optimize.minimize(goal, q, args=(p, th["s"] if inp["approx"] else jnp.asarray(float(inp["flat"] == 0))),
                                    steps=inp["steps"], **more)
        return loss + lin(x)
    if w == "center":
        return lin(o.center()) + o.get_location("NE")[0]
    raise ValueError(w)


def run(inp):
    _imports()
    return run_grid(inp) if inp["kind"] == "gslope" else run_slope(inp)


def record(inp, vals, g, mag):
    """vals: at -h, -h/2, 0, h/2, h; g: the derivative along the direction, times h."""
    r = {"kind": inp["kind"], "spot": inp.get("spot", 0)}
    nums = [*vals, g]
    if not all(math.isfinite(v) for v in nums):
        r["finite"] = 0
        r["bad"] = [k for k, v in enumerate(nums) if not math.isfinite(v)]
        return r
    r["finite"] = 1
    d = [v - vals[2] for v in vals]
    noise = 256 * _EPS * (mag + max(abs(v) for v in vals))
    s = max([abs(x) for x in d] + [abs(g), noise, 1e-300])
    e = lambda x: int(round(x / s * UNIT))
    r.update(z=[e(d[0]), e(d[1]), e(d[3]), e(d[4])], g=e(g), noise=min(UNIT, int(noise / s * UNIT) + 1))
    return r


def run_slope(inp):
    f = {"scene": f_scene, "path": f_path, "shape": f_shape}[inp["what"]]
    th0 = arrays(inp)
    # the direction of the perturbation: a few numbers of the names given
    dirs = {}
    for n, v in th0.items():
        d = inp["dir"].get(n)
        dirs[n] = jnp.zeros_like(v) if d is None else jnp.asarray(np.asarray(d, dtype=float)).reshape(v.shape)

    def at(t):
        return f(inp, {n: th0[n] + t * dirs[n] for n in th0})

    vals = [float(at(t * H)) for t in (-1.0, -0.5, 0.0, 0.5, 1.0)]
    mode = inp["mode"]
    named = {n: v for n, v in th0.items() if n in inp["dir"]}
    F = lambda th: f(inp, {**th0, **th})
    if mode == "fwd":
        _, g = jax.jvp(F, (named,), ({n: dirs[n] for n in named},))
        g = float(g)
    else:
        G = jax.grad(F)
        if mode == "jit":
            G = jax.jit(G)
        gr = G(named)
        g = sum(float(jnp.sum(gr[n] * dirs[n])) for n in named)
    return record(inp, vals, g * H, 100.0)


def run_grid(inp):
    """Gradients over a grid: every base position comes with its four neighbours, along both axes."""
    th = arrays(inp)
    sc = scene(inp, th)
    side = inp["side"]
    base = [(x / inp["unit"], y / inp["unit"]) for x, y in inp["at"]]
    steps = [(0, 0)] + [(t * H, 0) for t in (-1, -0.5, 0.5, 1)] + [(0, t * H) for t in (-1, -0.5, 0.5, 1)]
    X = jnp.asarray([[x + dx for dx, _ in steps] for x, _ in base])
    Y = jnp.asarray([[y + dy for _, dy in steps] for _, y in base])
    a, kw = fun_args(inp, th)
    fun = weigh(inp["k"], (side, X[0, 0]) if inp.get("zero") else None)
    method = (sc.accumulate_on_receivers_grid_over_paths if side == "rx"
              else sc.accumulate_on_transmitters_grid_over_paths)
    opts = {**tracing(inp), **verdict_kw(inp, th)}
    if inp["reduce"]:
        z, g = method(X, Y, fun, a, kw, value_and_grad=True, reduce_all=True, **opts)
        outs = [(z, g)]
    else:
        outs = [v for _, v in method(X, Y, fun, a, kw, value_and_grad=True, **opts)]
    if inp["only"]:
        if inp["reduce"]:
            gs = [method(X, Y, fun, a, kw, grad=True, reduce_all=True, **opts)]
        else:
            gs = [g for _, g in method(X, Y, fun, a, kw, grad=True, **opts)]
        outs = [(z, g) for (z, _), g in zip(outs, gs)]
    many = []
    for z, g in outs:
        z, g = np.asarray(z), np.asarray(g)
        if z.shape != X.shape or g.shape != (*X.shape, 2):
            raise ValueError(f"shapes {z.shape} {g.shape} for a grid of {X.shape}")
        for i in range(len(base)):
            for ax in (0, 1):
                v = z[i, 1 + 4 * ax: 5 + 4 * ax]
                vals = [float(v[0]), float(v[1]), float(z[i, 0]), float(v[2]), float(v[3])]
                many.append({**record(inp, vals, float(g[i, 0, ax]) * H, 1000.0), "cell": i, "axis": ax})
    return {"many": many} if many else {"kind": inp["kind"], "finite": 1, "spot": 0, "z": [0] * 4, "g": 0, "noise": 1}


# ------------------------------------------------------------------- generation


def jitter(g, v):
    """Away from the lattice, so that ties and grazing rays are out of the way."""
    return v + g.randint(-400, 400) / 1000 + g.randint(-99, 99) / 97000


def vec(g, shape):
    """A direction of small numbers."""
    n = 1
    for s in shape:
        n *= s
    v = [g.choice([-1, -0.5, 0, 0.25, 0.5, 1]) for _ in range(n)]
    if not any(v):
        v[g.randrange(n)] = 1
    return v


def direction(g, inp, names):
    few = g.random()
    d = {}
    shape = {n: (1,) for n in inp.get("par", {})}
    for k, o in enumerate(inp.get("objs", ())):
        shape[f"o{k}"] = (2,) if o[0] == "V" else (4,)
        shape[f"phi{k}"] = (1,)
    for s in ("tx", "rx"):
        for k in range(len(inp.get(s, ()))):
            shape[f"{s}{k}"] = (2,)
    pick = [n for n in names if n in shape]
    if few < 0.6:
        pick = [g.choice(pick)]
    for n in pick:
        d[n] = vec(g, shape[n])
    return d


def base_scene(g, cls, size=8, **kw):
    while True:
        s = paths.rnd_scene(g, degenerate=False, vertices=cls != "image" and g.random() < 0.4, size=size, **kw)
        if all(o[0] == "V" or (o[1], o[2]) != (o[3], o[4]) for o in s["objs"]):
            return s


def blur(g, inp):
    for side in ("tx", "rx"):
        inp[side] = [[jitter(g, v) for v in p] for p in inp.get(side, [])]
    inp["objs"] = [[o[0], *[jitter(g, v) for v in o[1:]]] for o in inp.get("objs", [])]


def options(g, inp, smooth):
    inp["approx"] = smooth
    inp["fn"] = "sig" if smooth and g.random() < 0.5 else "hard"
    par = {}
    if smooth and g.random() < 0.85:
        par["alpha"] = g.choice([1.0, 2.0, 5.0, 5.0, 10.0, 30.0])
    if g.random() < 0.5:
        par["patch"] = g.choice([0.25, 0.125, -0.125, 0.0])
    if g.random() < 0.5:
        par["tol"] = g.choice([0.3, 0.02, 1.0])
    inp["par"] = par


def gen_scene(seed, n, what="slope"):
    g = random.Random(f"slope-scene{seed}")
    out = []
    while len(out) < n:
        cls = g.choice(["image"] * 6 + ["mid", "fermat", "min"])
        mx = g.choice([0, 1, 1, 2])
        inp = {"kind": "slope", "what": "scene", "cls": cls, "unit": g.choice([1, 1, 8, 0.5])}
        inp.update(base_scene(g, cls, nobj=g.choice([1, 2, 2, 3]), ntx=g.choice([1, 1, 2]), nrx=g.choice([1, 1, 2])))
        inp["lo"], inp["hi"] = g.choice([0, 0, mx]), mx
        if cls in ("fermat", "min"):
            if mx > 1:
                continue
            inp.update(steps=g.choice([1, 3, 20]), many=g.choice([1, 1, 3]), key=g.randrange(999))
        options(g, inp, g.choice([0, 1, 1, 1]))
        if g.random() < 0.5:
            inp["par"]["r_coef"] = g.choice([0.5, 0.25])
        if g.random() < 0.5:
            inp["par"]["height"] = g.choice([0.5, 1.0])
        inp["k"] = [g.choice([0, 1]), g.choice([0, 1]), g.choice([0, 1]), g.choice([0, 2]), g.choice([0, 1]), g.choice([0, 1])]
        if not any(inp["k"]):
            inp["k"][0] = 1
        inp["spot"] = int(g.random() < 0.15)
        if not inp["spot"]:
            blur(g, inp)
        names = [f"o{k}" for k in range(len(inp["objs"]))] * 2 + ["tx0", "tx1", "rx0", "rx1"] * 2 \
            + [n for n in inp["par"] if n != "alpha" or not inp["spot"]]
        inp["dir"] = direction(g, inp, names)
        inp["mode"] = g.choice(["rev", "rev", "fwd"])
        m = len(inp["objs"])
        nc = sum(1 if k == 0 else m * max(m - 1, 0) ** (k - 1) for k in range(inp["lo"], inp["hi"] + 1))
        if nc * len(inp["tx"]) * len(inp["rx"]) > 16:
            continue
        inp["grp"] = repr((cls, m, inp["approx"], inp["fn"], inp["hi"]))
        out.append(inp)
    return out


def gen_path(seed, n):
    g = random.Random(f"slope-path{seed}")
    out = []
    while len(out) < n:
        cls = g.choice(["image"] * 5 + ["mid", "fermat", "fermat", "min", "min"])
        inp = {"kind": "slope", "what": "path", "cls": cls, "unit": g.choice([1, 8, 0.5]), "lo": 0, "hi": 0}
        inp.update(base_scene(g, cls, nobj=g.choice([1, 2, 3, 4]), ntx=1, nrx=1))
        if cls in ("mid", "min", "fermat") and g.random() < 0.4:
            for o in inp["objs"]:
                if o[0] == "W" and g.random() < 0.5:
                    o[0] = "R"
                    o.append(g.choice([0.3, 0.8, -0.4]))
        order = g.choice([0, 1, 1, 2, 2, 3])
        c = []
        m = len(inp["objs"])
        for _ in range(order):
            ch = [k for k in range(m) if not c or k != c[-1]]
            if ch:
                c.append(g.choice(ch))
        inp["cand"] = c
        options(g, inp, 1)
        ws = ["length", "loss", "points", "valid", "valid", "on", "hit", "power"]
        inp["w"] = g.choice(ws)
        if inp["w"] == "power":
            inp["par"].update(r_coef=0.5, height=0.5)
        if cls in ("fermat", "min"):
            inp.update(steps=g.choice([1, 3, 20]), many=g.choice([1, 1, 3]), key=g.randrange(999))
        inp["spot"] = int(g.random() < 0.15)
        if not inp["spot"]:
            blur(g, inp)
        names = [f"o{k}" for k in c] * 2 + [f"o{k}" for k in range(m)] + [f"phi{k}" for k in c if inp["objs"][k][0] == "R"] \
            + ["tx0", "rx0"] * 2 + [n for n in inp["par"] if n != "alpha" or not inp["spot"]]
        inp["dir"] = direction(g, inp, names)
        inp["mode"] = g.choice(["rev", "rev", "fwd", "jit"])
        inp["grp"] = repr((cls, [inp["objs"][k][0] for k in c], inp["w"]))
        out.append(inp)
    return out


def gen_shape(seed, n):
    g = random.Random(f"slope-shape{seed}")
    out = []
    for i in range(n):
        w = g.choice(["image", "normal", "param", "cart", "score", "score", "cross", "cross", "inside", "rotate",
                      "unit", "total", "near", "center", "least"])
        kind = "R" if w == "score" and g.random() < 0.5 else "W"
        o = paths.rnd_wall(g, 8, g.random() < 0.5)
        o[0] = kind
        if kind == "R":
            o.append(g.choice([0.7, 0.2, -0.5]))
        p = lambda: [g.randint(0, 8), g.randint(0, 8)]
        inp = {"kind": "slope", "what": "shape", "w": w, "unit": g.choice([1, 8, 0.5]), "objs": [o],
               "tx": [p(), p()], "rx": [p()]}
        options(g, inp, 1)
        if w == "least":
            inp.update(approx=g.choice([0, 1]), flat=g.choice([0, 1, 1]), steps=g.choice([1, 2, 5, 20]))
        inp["par"]["s"] = g.choice([0.3, 0.9, 1.2, -0.1])
        inp["spot"] = int(g.random() < 0.15)
        if not inp["spot"]:
            blur(g, inp)
        elif g.random() < 0.3:
            inp["objs"][0][3:5] = inp["objs"][0][1:3]
        elif g.random() < 0.5:
            inp["tx"][1] = list(inp["tx"][0])
            if g.random() < 0.5:
                inp["rx"][0] = list(inp["tx"][0])
        v = [n for n in inp["par"] if n == "alpha" and not inp["spot"]]
        names = {"image": ["o0", "tx0"], "normal": ["o0"], "param": ["o0", "tx0"], "cart": ["o0", "s"],
                 "score": ["o0", "tx0", "tx1", "rx0"] + (["phi0"] if kind == "R" else []),
                 "cross": ["o0", "tx0", "rx0", *v, *(["patch"] if "patch" in inp["par"] else [])],
                 "inside": ["s", *v], "rotate": ["o0", "tx0", "s"], "unit": ["tx0", "rx0"],
                 "total": ["tx0", "tx1", "rx0"], "near": ["tx0", "tx1", "rx0"], "center": ["o0"],
                 "least": ["tx0", "rx0"]}[w]
        inp["dir"] = direction(g, inp, names)
        inp["mode"] = g.choice(["rev", "rev", "fwd", "jit"])
        inp["grp"] = repr(("shape", w, inp["approx"], inp["fn"]))
        out.append(inp)
    return out


def gen_grid(seed, n):
    g = random.Random(f"slope-grid{seed}")
    out = []
    while len(out) < n:
        cls = g.choice(["image"] * 5 + ["mid", "fermat", "min"])
        mx = g.choice([0, 1, 1, 2])
        inp = {"kind": "gslope", "cls": cls, "unit": g.choice([1, 8, 0.5])}
        inp.update(base_scene(g, cls, nobj=g.choice([1, 2, 2, 3]), ntx=g.choice([1, 2]), nrx=g.choice([1, 2])))
        inp["lo"], inp["hi"] = g.choice([0, 0, mx]), mx
        if cls in ("fermat", "min"):
            if mx > 1:
                continue
            inp.update(steps=g.choice([1, 3]), many=1, key=g.randrange(999))
        options(g, inp, g.choice([0, 1, 1, 1]))
        inp["k"] = [g.choice([0, 1]), g.choice([0, 1]), g.choice([0, 1]), g.choice([0, 2]), g.choice([0, 1]), g.choice([0, 1])]
        if not any(inp["k"]):
            inp["k"][0] = 1
        if cls != "image" or g.random() < 0.5:
            inp["par"]["height"] = 0.5
        inp["side"] = g.choice(["tx", "rx"])
        inp["reduce"] = g.choice([0, 0, 1])
        inp["only"] = g.choice([0, 0, 1])
        if g.random() < 0.4:
            inp["zero"], inp["k"][5] = 1, 0
        blur(g, inp)
        inp["spot"] = 0
        if not any(inp["k"]):
            inp["k"][1] = 1
        inp["at"] = [[jitter(g, g.randint(0, 8)), jitter(g, g.randint(0, 8))] for _ in range(g.choice([1, 4, 6]))]
        m = len(inp["objs"])
        nc = sum(1 if k == 0 else m * max(m - 1, 0) ** (k - 1) for k in range(inp["lo"], inp["hi"] + 1))
        if nc > 14:
            continue
        inp["grp"] = repr((cls, m, inp["approx"], inp["fn"], inp["hi"]))
        out.append(inp)
    return out
