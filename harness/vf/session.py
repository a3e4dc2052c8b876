"""Driver: long sessions of requests in one process (C11, C24)."""

import contextlib
import math
import random

from vf import paths
from vf.lat import enc

HEAVY = ["valid", "on", "blocked", "paths", "found", "acc", "grid", "fermat", "image"]
LIGHT = ["greater", "greater_equal", "less", "less_equal", "and", "or", "not", "all", "any", "true", "false", "is_true",
         "is_false", "cross", "contains", "hits", "mirror", "cands", "minimize", "box", "near", "far", "power", "score", "ris", "length",
         "place", "param", "vertex", "vertex_hits"]
CONCRETE = {"found", "cands", "near", "far"}       # look at values: not inside a user's jit or vmap


def _imports():
    global jax, jnp, np, geo, logic, opt, utils, optax, Scene
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optax
    from differt2d import geometry as geo
    from differt2d import logic, utils
    from differt2d import optimize as opt
    from differt2d.scene import Scene

    paths._imports()


def q(v):
    return v[0] / v[1]


def arrays(g):
    f = lambda v: np.asarray(v, dtype=np.float32)
    d = {"walls": f([[w[:2], w[2:]] for w in g["walls"]]), "u": f([q(v) for v in g["u"]])}
    for k in ("tx", "rx", "p", "q"):
        d[k] = f(g[k])
    for k in ("x", "y", "alpha", "patch", "tol", "loss"):
        d[k] = f(q(g[k]))
    return d


def answer(op, A, fam, g, a, k):
    """The request itself; A holds the (possibly traced) numbers of the instance g."""
    ap = {} if a == -1 else {"approx": bool(a)}
    bare = fam["bare"]          # leave out what equals the documented default
    act = {} if bare else {"alpha": A["alpha"]}
    if fam["fn"] == "sig":
        act["function"] = logic.sigmoid
    patch = {} if bare else {"patch": A["patch"]}
    tol = {} if bare else {"tol": A["tol"]}
    walls = [geo.Wall(xys=A["walls"][i]) for i in range(len(g["walls"]))]
    cand = jnp.array(fam["cand"], dtype=jnp.int32)
    inter = [walls[i] for i in fam["cand"]]
    t = q(fam["t"])
    u = A["u"]
    scene = lambda: Scene(transmitters={"tx": geo.Point(xy=A["tx"])}, receivers={"rx": geo.Point(xy=A["rx"])}, objects=walls)
    probe = lambda: paths.probe_cls().from_tx_objects_rx(A["tx"], inter, A["rx"], t=t, loss=A["loss"])
    window = lambda: {} if bare and (fam["lo"], fam["hi"]) == (0, 1) else {"min_order": fam["lo"], "max_order": fam["hi"]}
    trace = lambda: dict(path_cls=paths.probe_cls(), path_cls_kwargs={"t": t, "loss": A["loss"]}, **tol, **patch,
                         **window(), **allow(g), **ap, **act)
    if op in ("greater", "greater_equal", "less", "less_equal"):
        return getattr(logic, op)(A["x"], A["y"], **ap, **act)
    if op in ("and", "or"):
        return getattr(logic, "logical_" + op)(u[0], u[1], **ap)
    if op == "not":
        return logic.logical_not(u[0], **ap)
    if op in ("all", "any"):
        return getattr(logic, "logical_" + op)(*u, **ap)
    if op in ("true", "false"):
        return getattr(logic, op + "_value")(**ap)
    if op in ("is_true", "is_false"):
        return getattr(logic, op)(u[0] if k == 1 else u[0] != 0, tol=A["tol"], **ap)
    if op == "cross":
        return geo.segments_intersect(walls[0].origin(), walls[0].dest(), A["p"], A["q"], tol=A["tol"], **ap, **act)
    if op == "contains":
        return walls[0].contains_parametric(A["x"].reshape(1), **ap, **act)
    if op == "hits":
        return walls[0].intersects_cartesian(jnp.stack([A["p"], A["q"]]), **patch, **ap, **act)
    if op == "mirror":
        return walls[0].image_of(A["p"])
    if op == "score":
        return walls[0].evaluate_cartesian(jnp.stack([A["tx"], A["p"], A["q"]]))
    if op == "ris":
        return geo.RIS(xys=A["walls"][0]).evaluate_cartesian(jnp.stack([A["tx"], A["p"], A["q"]]))
    if op == "length":
        return probe().length()
    if op == "place":
        return walls[0].parametric_to_cartesian(A["x"].reshape(1))
    if op == "param":
        return walls[0].cartesian_to_parametric(A["p"])
    if op == "vertex":
        return geo.Vertex(xy=A["p"]).contains_parametric(jnp.zeros(0), **ap, **act)
    if op == "vertex_hits":
        return geo.Vertex(xy=A["p"]).intersects_cartesian(jnp.stack([A["tx"], A["q"]]), **patch, **ap, **act)
    if op == "power":
        return 1e4 * utils.received_power(geo.Point(xy=A["tx"]), geo.Point(xy=A["rx"]), probe(), inter, r_coef=0.5, height=A["alpha"])
    if op == "minimize":
        return opt.minimize(lambda z, c: jnp.sum((z - c) ** 2), A["tx"], args=(A["rx"],), steps=3, optimizer=optax.sgd(0.1))
    if op == "box":
        return scene().bounding_box()
    if op == "near":
        s = scene().with_receivers(a=geo.Point(xy=A["p"]), b=geo.Point(xy=A["q"]), c=geo.Point(xy=A["rx"]))
        n, d = s.get_closest_receiver(A["tx"])
        return jnp.array(["abc".index(n), d])
    if op == "far":
        s = scene().with_transmitters(**{n: geo.Point(xy=A[z]) for n, z in (("a", "q"), ("b", "p"), ("c", "tx"))})
        n, d = s.get_closest_transmitter(A["rx"])
        return jnp.array(["abc".index(n), d])
    if op == "on":
        return probe().on_objects(inter, **ap, **act)
    if op == "blocked":
        return probe().intersects_with_objects(walls, cand, **patch, **ap, **act)
    if op == "valid":
        return probe().is_valid(walls, cand, inter, **tol, **patch, **ap, **act)
    if op == "paths":
        return [v for _, _, v, _, _ in scene().all_paths(**trace())]
    if op == "found":
        return [c for _, _, _, c in scene().all_valid_paths(**trace())]
    if op == "acc":
        return scene().accumulate_over_paths(one, reduce_all=True, **trace())
    if op == "grid":
        X, Y = grid(A)
        return scene().accumulate_on_receivers_grid_over_paths(X, Y, one, reduce_all=True, **trace())
    if op == "cands":
        return scene().all_path_candidates(**window(), **allow(g))
    if op == "image":
        return geo.ImagePath.from_tx_objects_rx(A["tx"], inter, A["rx"]).xys
    if op == "fermat":
        p = geo.FermatPath.from_tx_objects_rx(A["tx"], inter, A["rx"], key=jax.random.PRNGKey(g["key"]), steps=3, optimizer=optax.sgd(0.01))
        return p.xys
    raise ValueError(op)


def one(tx, rx, path, objs):
    return jnp.array(1.0)


def grid(A):
    pts = [A["rx"], A["p"], A["q"], A["rx"] + jnp.array([1.0, 0.0])]
    return (jnp.stack([z[d] for z in pts]).reshape(2, 2) for d in (0, 1))


def allow(g):
    if len(g["allow"]) == len(g["walls"]) and not g["say"]:
        return {}
    ok = [tuple(map(float, g["walls"][i])) for i in g["allow"]]
    return {"filter_objects": lambda o: tuple(np.ravel(np.asarray(o.xys)).tolist()) in ok}


def encode(out, op, al):
    r = {"b": [], "v": [], "i": [], "c": [], "sat": int(9.0 / al * 10000) - 1}
    if op in ("found", "cands"):
        r["c"] = [[int(i) for i in np.asarray(c)] for c in out]
        return r
    for leaf in out if isinstance(out, (list, tuple)) else [out]:
        leaf = np.asarray(leaf)
        for v in np.ravel(leaf):
            r["b"].append(int(leaf.dtype == np.bool_))
            f = float(v)
            r["v"].append(enc(f, 10000))
            if f <= 0 or f >= 1 or f != f or abs(math.log(f / (1 - f))) > 9:
                r["i"].append(r["sat"] if f > 0.5 else -r["sat"])
            else:
                r["i"].append(max(-r["sat"], min(r["sat"], round(math.log(f / (1 - f)) / al * 10000))))
    return r


def ask(e, gs, fs, k):
    op, a = e["op"], e["a"]
    g, mode = gs[e["i"] - 1], e["mode"]
    if op in CONCRETE or (op in ("paths", "acc", "grid") and g["filtered"]):
        mode = "nojit" if mode == "nojit" else "plain"
    e["mode"] = mode
    fam = fs[g["f"] - 1]
    alike = [h for h in gs if h["f"] == g["f"]]
    A = {n: jnp.asarray(v) for n, v in arrays(g).items()}
    if mode == "plain":
        out = answer(op, A, fam, g, a, k)
    elif mode == "nojit":
        with jax.disable_jit():
            out = answer(op, A, fam, g, a, k)
    elif mode == "jit":
        out = jax.jit(lambda A: answer(op, A, fam, g, a, k))(A)
    else:
        every = {n: jnp.stack([arrays(h)[n] for h in alike]) for n in A}
        out = jax.vmap(lambda A: answer(op, A, fam, g, a, k))(every)
        out = jax.tree_util.tree_map(lambda v: v[alike.index(g)], out)
    return encode(out, op, q(g["alpha"]))


def run(inp):
    _imports()
    jax.clear_caches()
    logic.set_approx(False)
    fs, gs = inp["fs"], inp["gs"]
    fl, seen, stack, out = 0, {0}, [], []
    try:
        for h in inp["hist"]:
            e = dict(h)
            if e["t"] == "call":
                ks = {e["a"]} if e["a"] != -1 else {fl} if e["mode"] == "nojit" else set(seen)
                e["k"] = next(iter(ks)) if len(ks) == 1 else 2
                if e["op"] in ("is_true", "is_false") and e["k"] == 2:
                    e["op"] = "true"
                if e["op"] in ("paths", "acc", "grid", "cands", "found"):
                    for g in gs:
                        g["filtered"] = g["say"] or len(g["allow"]) < len(g["walls"])
                try:
                    e["out"] = ask(e, gs, fs, e["k"])
                except Exception as x:       # the specification says when this is wrong: never
                    e["err"] = f"{type(x).__name__}: {x}"[:200]
            elif e["t"] == "set":
                logic.set_approx(bool(e["v"]))
                fl = e["v"]
            elif e["t"] == "enter":
                c = logic.enable_approx(bool(e["v"])) if len(stack) % 2 == 0 else logic.disable_approx(not e["v"])
                stack.append((c, fl))
                c.__enter__()
                fl = e["v"]
            elif e["t"] == "exit":
                c, fl = stack.pop()
                if e["v"]:
                    with contextlib.suppress(KeyError):
                        x = KeyError("out")
                        c.__exit__(KeyError, x, None)
                else:
                    c.__exit__(None, None, None)
            else:
                jax.clear_caches()
                seen = set()
            seen.add(fl)
            e["flag"] = int(bool(logic.ENABLE_APPROX))
            out.append(e)
    finally:
        while stack:
            stack.pop()[0].__exit__(None, None, None)
        logic.set_approx(False)
    return {"gs": gs, "fs": fs, "hist": out}


# --------------------------------------------------------------------- inputs


def default(o):
    """The settings a request gets that names none."""
    return dict(o, alpha=[100, 1], patch=[0, 1], tol=[1, 100])


def instance(g, nw, fam, easy):
    pt = lambda: [g.randint(0, 6), g.randint(0, 6)]
    walls = []
    while len(walls) < nw:
        w = pt() + pt()
        if w[:2] != w[2:]:
            walls.append(w)
    every = list(range(nw))
    return {
        "walls": walls, "tx": pt(), "rx": pt(), "p": pt(), "q": pt(),
        "x": [g.randint(-4, 12), 8], "y": [g.randint(-4, 12), 8], "u": [[g.randint(0, 8), 8] for _ in range(3)],
        "alpha": g.choice([[1, 1], [2, 1], [4, 1], [100, 1]]), "patch": g.choice([[0, 1], [0, 1], [1, 4]]),
        "tol": g.choice([[1, 100], [1, 2], [1, 4]]), "loss": g.choice([[0, 1], [0, 1], [1, 4], [1, 1]]),
        "allow": every if easy or g.random() < 0.5 else sorted(g.sample(every, g.randint(0, nw))), "say": not easy and g.random() < 0.3, "key": g.randrange(1000),
    }


def family(g):
    nw = g.choice([1, 2, 2, 3])
    cand = []
    for _ in range(g.choice([0, 1, 1, 2, 2, 3])):
        c = [i for i in range(nw) if not cand or i != cand[-1]]
        if c:
            cand.append(g.choice(c))
    lo = g.choice([0, 0, 1])
    bare = g.random() < 0.25
    return nw, {"cand": cand, "bare": bare, "fn": "sig" if not bare and g.random() < 0.25 else "hard", "lo": lo,
                "hi": g.choice([x for x in (1, 1, 2) if x >= lo and (x < 2 or nw < 3)]), "t": g.choice([[1, 2], [1, 4]])}


def gen(seed, hists):
    for n, h in enumerate(hists):
        g = random.Random(f"session{seed}-{n}")
        fs, gs = [], []
        for f in (1, 2):
            nw, fam = family(g)
            if f == 2 and g.random() < 0.5:        # the same shapes, asked otherwise
                nw = len(gs[0]["walls"])
                fam = dict(fam, cand=fs[0]["cand"], hi=1)
            easy = g.random() < 0.5
            own = [instance(g, nw, fam, easy) for _ in range(3)]
            if g.random() < 0.5:           # the same places with other settings
                for k in ("walls", "tx", "rx"):
                    own[1][k] = own[0][k]
                own[1]["allow"] = own[0]["allow"] if g.random() < 0.5 else own[1]["allow"]
            if fam["bare"]:
                own = [default(o) for o in own]
            fs.append(fam)
            gs += [dict(o, f=f) for o in own]
        yield {"hist": h["hist"], "fs": fs, "gs": gs}
