"""Driver: the objects' own geometry (C14, C16, C17, C19)."""

import math
import random
from fractions import Fraction

from vf import paths
from vf.lat import Frame, enc
from vf.paths import truth, valid_kwargs


def _imports():
    global jax, jnp, np, geo, logic, Scene, utils
    import jax
    import jax.numpy as jnp
    import numpy as np
    from differt2d import geometry as geo
    from differt2d import logic, utils
    from differt2d.scene import Scene

    paths._imports()


def logic_kwargs(opt):
    kw = valid_kwargs(opt)
    return {k: kw[k] for k in ("approx", "alpha", "function") if k in kw}


def arr(x):
    return jnp.asarray(np.asarray(x, dtype=np.float32))


def wall_of(fr, w, cls="Wall", phi=None):
    xys = arr(fr.seg(w[0:2], w[2:4]))
    if cls == "RIS":
        return geo.RIS(xys=xys) if phi is None else geo.RIS(xys=xys, phi=phi)
    return getattr(geo, cls)(xys=xys)


def vec(fr, v):
    """A difference of coordinates, in 10^-3 lattice units."""
    return [enc(float(v[0]) * fr.unit, 1000), enc(float(v[1]) * fr.unit, 1000)]


def run_wall(inp):
    fr = Frame(inp)
    w = wall_of(fr, inp["w"], inp["cls"])
    s = wall_of(fr, inp["w"][2:] + inp["w"][:2], inp["cls"])
    kw = logic_kwargs(inp["opt"])
    vs = w.get_vertices()
    r = {k: inp[k] for k in ("kind", "w", "opt")}
    inside = lambda p: truth(w.contains_parametric(p, **kw), inp["opt"])
    r.update(
        origin=fr.back(w.origin()), dest=fr.back(w.dest()), t=vec(fr, w.t()),
        normal=[enc(x, 10000) for x in np.asarray(w.normal())],
        count=int(w.parameters_count()),
        vkinds=[type(v).__name__ for v in vs], v1=fr.back(vs[0].xy), v2=fr.back(vs[1].xy),
        sample=fr.back(w.sample(jax.random.PRNGKey(inp["key"]))),
        at=[], probes=[],
    )
    for q in inp["params"]:
        c = w.parametric_to_cartesian(arr([q[0] / q[1]]))
        b = w.cartesian_to_parametric(c)
        if np.asarray(c).shape != (2,) or np.asarray(b).shape != (1,):
            raise ValueError("shape")
        r["at"].append({"s": q, "p": fr.back(c), "back": enc(b[0], 1000), "inside": inside(arr([q[0] / q[1]]))})
    for p in inp["ps"]:
        x = arr(fr.p(p))
        im = w.image_of(x)
        u = w.cartesian_to_parametric(x)
        r["probes"].append({"p": p, "image": fr.back(im), "twice": fr.back(w.image_of(im)),
                            "same": fr.back(s.image_of(x)), "param": enc(u[0], 1000),
                            "proj": fr.back(w.parametric_to_cartesian(u)), "inside": inside(u)})
    return r


def run_vertex(inp):
    fr = Frame(inp)
    v = geo.Vertex(xy=arr(fr.p(inp["p"])))
    kw = logic_kwargs(inp["opt"])
    e = jnp.empty(0)
    return {"kind": "vertex", "p": inp["p"], "opt": inp["opt"], "count": int(v.parameters_count()),
            "size": int(v.cartesian_to_parametric(arr(fr.p(inp["p2"]))).size),
            "at": fr.back(v.parametric_to_cartesian(e)),
            "sample": fr.back(v.sample(jax.random.PRNGKey(inp["key"]))),
            "inside": truth(v.contains_parametric(e, **kw), inp["opt"]),
            "cross": truth(v.intersects_cartesian(arr(fr.seg(inp["p"], inp["p2"])), **kw), inp["opt"])}


def run_cross(inp):
    fr = Frame(inp)
    kw = logic_kwargs(inp["opt"])
    a, b, c, d = (arr(fr.p(p)) for p in inp["s"])
    num = float if inp["opt"].get("py") else jnp.float32
    tk = {} if inp.get("dtol") else {"tol": num(inp["tol"][0] / inp["tol"][1])}
    pk = {} if inp.get("dpatch") else {"patch": num(inp["patch"][0] / inp["patch"][1])}
    w = geo.Wall(xys=jnp.stack([a, b]))
    o = inp["opt"]
    return {"kind": "cross", "s": inp["s"], "opt": o, "tol": inp["tol"], "patch": inp["patch"],
            "exact": inp["exact"],
            "seg": truth(geo.segments_intersect(a, b, c, d, **tk, **kw), o),
            "swap": truth(geo.segments_intersect(d, c, a, b, **tk, **kw), o),
            "wall": truth(w.intersects_cartesian(jnp.stack([c, d]), **pk, **kw), o)}


def run_moves(inp):
    fr = Frame(inp)
    w = wall_of(fr, inp["w"], inp["cls"], jnp.float32(0.75) if inp["cls"] == "RIS" else None)
    seen = []
    for k, e in enumerate(inp["moves"]):
        if e["op"] == "rotate":
            ang = math.atan2(e["sin"][0] / e["sin"][1], e["cos"][0] / e["cos"][1]) + 2 * math.pi * e["wind"]
            ang = ang if k % 2 else jnp.float32(ang)
            if e["how"] == "none":
                w = w.rotate(ang)
            elif e["how"] == "point":
                w = w.rotate(angle=ang, around=geo.Point(xy=arr(fr.p(e["c"]))))
            else:
                w = w.rotate(angle=ang, around=arr(fr.p(e["c"])))
        elif e["op"] == "mirror":
            m = wall_of(fr, e["w"])
            x = jnp.stack([m.image_of(w.origin()), m.image_of(w.dest())])
            w = wall_of(fr, inp["w"], inp["cls"], getattr(w, "phi", None))
            w = type(w)(xys=x, phi=w.phi) if inp["cls"] == "RIS" else type(w)(xys=x)
        else:
            x = w.xys[::-1]
            w = type(w)(xys=x, phi=w.phi) if inp["cls"] == "RIS" else type(w)(xys=x)
        seen.append([fr.back(w.origin()), fr.back(w.dest())])
    return {"kind": "moves", "w": inp["w"], "cls": inp["cls"], "moves": inp["moves"], "seen": seen,
            "type": type(w).__name__, "phi0": 750 if inp["cls"] == "RIS" else 0,
            "phi": enc(w.phi, 1000) if inp["cls"] == "RIS" else 0}


def run_score(inp):
    fr = Frame(inp)
    cls = inp["cls"]
    phi = None
    if cls == "RIS":
        c, s = (q[0] / q[1] for q in inp["phi"])
        phi = jnp.float32(math.atan2(s, c) + 2 * math.pi * inp["wind"])
    if cls == "Vertex":
        w = s = geo.Vertex(xy=arr(fr.p(inp["p"][1])))
    else:
        w = wall_of(fr, inp["w"], cls, phi)
        s = wall_of(fr, inp["w"][2:] + inp["w"][:2], cls, phi)
    p = np.stack([fr.p(q) for q in inp["p"]])
    sc = lambda o, q: enc(o.evaluate_cartesian(arr(q)), 10000)
    scaled = []
    for k, m in ((0.5, 1), (1, 2), (4, 0.25)):
        q = p.copy()
        q[0] = p[1] + (p[0] - p[1]) * k
        q[2] = p[1] + (p[2] - p[1]) * m
        scaled.append(sc(w, q))
    # Very short and very long ones, about the origin so that they are exact.
    if cls != "Vertex":
        ends = np.stack([fr.p(inp["w"][:2]), fr.p(inp["w"][2:])]) - p[1]
        for k, m, size in ((1e-5, 1e-5, 1), (1e-5, 100, 1e-4), (1e4, 1e-4, 1e3), (1, 1, 1e-5)):
            o = type(w)(xys=arr(ends * size), phi=w.phi) if cls == "RIS" else type(w)(xys=arr(ends * size))
            scaled.append(sc(o, np.stack([(p[0] - p[1]) * k, [0, 0], (p[2] - p[1]) * m])))
    return {"kind": "score", "cls": cls, "w": inp["w"], "p": inp["p"],
            "phi": inp.get("phi", [[1, 1], [0, 1]]), "score": sc(w, p), "swapped": sc(s, p), "scaled": scaled}


def run_loss(inp):
    """The loss of a traced path against the scores of its own points."""
    fr = Frame(inp)
    objs = []
    for o in inp["objs"]:
        if o[0] == "V":
            objs.append(geo.Vertex(xy=arr(fr.p(o[1:3]))))
        else:
            objs.append(wall_of(fr, o[1:5], "RIS" if o[0] == "R" else "Wall",
                                jnp.float32(inp["phi"]) if o[0] == "R" else None))
    cls = {"image": geo.ImagePath, "fermat": geo.FermatPath, "min": geo.MinPath}[inp["cls"]]
    kw = {} if inp["cls"] == "image" else {"key": jax.random.PRNGKey(inp["key"]), "steps": inp["steps"], "many": inp["many"]}
    path = cls.from_tx_objects_rx(arr(fr.p(inp["tx"])), objs, arr(fr.p(inp["rx"])), **kw)
    xys = np.asarray(path.xys)
    if xys.shape != (len(objs) + 2, 2):
        raise ValueError("shape")
    scores = [enc(o.evaluate_cartesian(arr(xys[i:i + 3])), 10000) for i, o in enumerate(objs)]
    return {"kind": "loss", "n": len(objs), "scores": scores, "loss": enc(path.loss, 10000)}


def run_power(inp):
    fr = Frame(inp)
    path = geo.Path(xys=arr([fr.p(q) for q in inp["p"]]))
    tx, rx = geo.Point(xy=path.xys[0]), geo.Point(xy=path.xys[-1])
    objs = [geo.Wall(xys=arr([[0, 0], [1, 1]])) for _ in inp["p"][2:]]
    num = float if inp["py"] else jnp.float32
    kw = {}
    if not inp.get("dcoef"):
        kw["r_coef"] = num(inp["coef"][0] / inp["coef"][1])
    if not inp.get("dheight"):
        kw["height"] = num(inp["height"][0] / inp["height"][1])
    other = geo.Point(xy=arr([3.0, -2.0]))
    vals = [
        utils.received_power(tx, rx, path, objs, **kw),
        utils.received_power(other, rx, path, objs, **kw),
        utils.received_power(rx, other, path, objs[:1] * len(objs), **kw),
        utils.received_power(tx, rx, geo.ImagePath(xys=path.xys, loss=jnp.array(3.0)), objs, **kw),
        utils.received_power(tx, rx, geo.Path(xys=path.xys[::-1]), [geo.Vertex() for _ in objs], **kw),
        utils.received_power(tx, rx, path, [], **kw),
    ]
    # The same path in other units (powers of two, hence exactly).
    scaled = []
    for s in (2.0 ** -20, 2.0 ** -10, 2.0 ** 14):
        h = num(inp["height"][0] / inp["height"][1] * s)
        small = {**{k: v for k, v in kw.items() if k != "height"}, "height": h}
        scaled.append(float(utils.received_power(tx, rx, geo.Path(xys=path.xys * s), objs, **small)) * s * s)
    v = abs(float(vals[0]))
    k = 6 if not math.isfinite(v) or v == 0 else max(0, min(14, 6 - math.floor(math.log10(v))))
    return {"kind": "power", "p": inp["p"], "per": inp["per"], "coef": inp["coef"], "height": inp["height"],
            "k": k, "out": [enc(x, 10 ** k) for x in vals], "scaled": [enc(x, 10 ** k) for x in scaled]}


LOCS = ["N", "E", "S", "W", "C", "NE", "NW", "SE", "SW"]


def run_extent(inp):
    fr = Frame(inp)
    ps = inp["ps"]
    cls = inp["cls"]
    if cls in ("Point", "Vertex"):
        x = getattr(geo, cls)(xy=arr(fr.p(ps[0])))
    elif cls in ("Wall", "RIS", "Ray"):
        x = wall_of(fr, ps[0] + ps[1], cls)
    elif cls == "Scene":
        nt, nr, nv = inp["split"]
        pt = lambda k: geo.Point(xy=arr(fr.p(ps[k])))
        objs = [geo.Vertex(xy=arr(fr.p(ps[k]))) for k in range(nt + nr, nt + nr + nv)]
        rest = ps[nt + nr + nv:]
        objs += [wall_of(fr, rest[k] + rest[k + 1]) for k in range(0, len(rest) - 1, 2)]
        x = Scene(transmitters={f"t{k}": pt(k) for k in range(nt)},
                  receivers={f"r{k}": pt(nt + k) for k in range(nr)}, objects=objs)
    else:
        x = getattr(geo, cls)(xys=arr([fr.p(p) for p in ps]))
    box = np.asarray(x.bounding_box())
    r = {"kind": "extent", "cls": cls, "ps": ps, "box": [fr.back(box[0]), fr.back(box[1])]}
    if cls == "Ray":      # a ray has an extent but no center, locations nor grid
        class R(geo.Ray, geo.Plottable):
            pass
        x = R(xys=x.xys)
    r["center"] = fr.back(x.center())
    r["locs"] = [{"l": loc, "p": fr.back(x.get_location(loc))} for loc in LOCS]
    m, n = inp["m"], inp["n"]
    if inp["gform"] == "m":
        X, Y = x.grid(m)
        n = m
    elif inp["gform"] == "default":
        X, Y = x.grid()
        m = n = 50
    elif inp["gform"] == "kw":
        X, Y = x.grid(n=n, m=m)
    else:
        X, Y = x.grid(m, n)
    X, Y = np.asarray(X), np.asarray(Y)
    back = lambda A, d: [[fr.back([v, v])[d] for v in row] for row in A]
    r["grid"] = {"m": m, "n": n, "shape": [*X.shape, *Y.shape], "X": back(X, 0), "Y": back(Y, 1)}
    return r


def run_nearest(inp):
    fr = Frame(inp)
    pts = {n: geo.Point(xy=arr(fr.p(p))) for n, p in zip(inp["names"], inp["ps"])}
    far = {"far": geo.Point(xy=arr(fr.p(inp["q"])))}
    q = arr(fr.p(inp["q"]))
    if inp["side"] == "tx":
        name, d = Scene(transmitters=pts, receivers=far).get_closest_transmitter(q)
    else:
        name, d = Scene(transmitters=far, receivers=pts).get_closest_receiver(q)
    i, d2 = geo.closest_point(arr([fr.p(p) for p in inp["ps"]]), q)
    return {"kind": "nearest", "names": inp["names"], "ps": inp["ps"], "q": inp["q"], "name": name,
            "dist": enc(float(d) * fr.unit, 1000), "index": int(i), "dist2": enc(float(d2) * fr.unit, 1000)}


def run(inp):
    _imports()
    return globals()["run_" + inp["kind"]](inp)


# ------------------------------------------------------------------ generation

SIZE = 8
PYTH = [(3, 4), (4, 3), (-3, 4), (4, -3), (5, 0), (0, 5), (-5, 0), (0, -5), (-4, -3), (6, 8), (-8, 6), (1, 0), (0, -2), (0, 1), (-1, 0)]
TURNS = [([3, 5], [4, 5]), ([4, 5], [-3, 5]), ([0, 1], [1, 1]), ([0, 1], [-1, 1]), ([-1, 1], [0, 1]), ([1, 1], [0, 1]),
         ([-3, 5], [4, 5]), ([-4, 5], [-3, 5])]
DYADIC = paths.DYADIC


def pt(g, lo=0, hi=SIZE):
    return [g.randint(lo, hi), g.randint(lo, hi)]


def seg(g):
    r = g.random()
    if r < 0.1:
        p = pt(g)
        return p + p
    if r < 0.6:
        return paths.rnd_wall(g, SIZE, g.random() < 0.4)[1:]
    return pt(g) + pt(g)


def frame(g, dyadic=False):
    return dict(g.choice(DYADIC if dyadic else paths.FRAMES))


def opts(g):
    o = paths.rnd_opt(g, g.choice([0, 1]))
    return o


def gen_wall(seed, n):
    g = random.Random(f"wall{seed}")
    out = []
    for i in range(n):
        if i % 12 == 11:
            inp = {"kind": "vertex", "p": pt(g), "p2": pt(g), "opt": opts(g), "key": g.randrange(99), **frame(g)}
        else:
            w = seg(g)
            ps = [pt(g, -2, 10) for _ in range(3)] + [w[:2], w[2:]]
            if (w[0] + w[2]) % 2 == 0 and (w[1] + w[3]) % 2 == 0:
                ps.append([(w[0] + w[2]) // 2, (w[1] + w[3]) // 2])
            inp = {"kind": "wall", "w": w, "cls": g.choice(["Wall", "Wall", "RIS"]), "ps": ps,
                   "params": [[0, 1], [1, 1]] + g.sample([[1, 2], [1, 4], [-1, 4], [5, 4], [3, 1], [-2, 1], [7, 8], [-1, 64], [65, 64]], 3),
                   "key": g.randrange(99), "opt": opts(g), **frame(g)}
        inp["grp"] = repr((inp["kind"], inp["opt"]["approx"], inp["opt"]["fn"], g.randrange(8)))
        out.append(inp)
    return out


def gen_cross(seed, n):
    g = random.Random(f"cross{seed}")
    out = []
    for i in range(n):
        s = seg(g)
        s = [s[:2], s[2:]]
        r = g.random()
        if r < 0.5:
            s += [pt(g), pt(g)]
        elif r < 0.75:      # touching at an end
            s += [list(g.choice(s)), pt(g)]
        else:
            q = seg(g)
            s += [q[:2], q[2:]]
        tol = g.choice([[1, 200], [1, 200], [0, 1], [1, 8], [-1, 8], [1, 2], [-1, 64]])
        inp = {"kind": "cross", "s": s, "tol": tol, "patch": g.choice([[0, 1], [1, 4], [1, 2], [-1, 8], [1, 1]]),
               "opt": opts(g), "exact": 0, **frame(g)}
        if tol == [1, 200] and g.random() < 0.8:
            inp["dtol"] = 1
        if inp["patch"] == [0, 1] and g.random() < 0.8:
            inp["dpatch"] = 1
        inp["grp"] = repr((inp["opt"]["approx"], inp["opt"]["fn"], g.randrange(8)))
        out.append(inp)
    return out


def gen_moves(seed, n):
    g = random.Random(f"moves{seed}")
    out = []
    for i in range(n):
        moves = []
        fr = frame(g)
        gen = 0
        for k in range(g.choice([1, 2, 3, 4, 5])):
            r = g.random()
            if r < 0.65:
                c, s = g.choice(TURNS)
                gen += c[1] == 5
                if gen > 3:
                    c, s = [-1, 1], [0, 1]
                how = g.choice(["point", "array", "none"] if fr["off"] == [0, 0] else ["point", "array"])
                moves.append({"op": "rotate", "cos": c, "sin": s, "c": [0, 0] if how == "none" else pt(g),
                              "how": how, "wind": g.choice([0, 0, 1, -1])})
            elif r < 0.85:
                x, y = pt(g, 0, 4)
                dx, dy = g.choice([(1, 0), (0, 1), (2, 2), (-1, 1)])
                moves.append({"op": "mirror", "w": [x, y, x + dx, y + dy], "c": [0, 0], "cos": [1, 1], "sin": [0, 1]})
            else:
                moves.append({"op": "swap", "c": [0, 0], "cos": [1, 1], "sin": [0, 1]})
        out.append({"kind": "moves", "w": seg(g), "cls": g.choice(["Ray", "Wall", "RIS"]), "moves": moves,
                    "grp": repr(i % 16), **fr})
    return out


def gen_score(seed, n):
    g = random.Random(f"score{seed}")
    out = []
    for i in range(n):
        cls = g.choice(["Wall"] * 4 + ["RIS"] * 3 + ["Vertex"])
        w = seg(g)
        b = pt(g)
        r = g.random()
        if r < 0.45:
            a, c = pt(g), pt(g)
        elif r < 0.8:
            u, v = g.choice(PYTH), g.choice(PYTH)
            a, c = [b[0] + u[0], b[1] + u[1]], [b[0] + v[0], b[1] + v[1]]
            if g.random() < 0.6:
                x, y = g.choice([(1, 0), (0, 1), (3, 4), (-4, 3), (0, -3), (1, 1)])
                w = b + [b[0] + x, b[1] + y]
        else:      # a perfect reflection on an axis-aligned or diagonal wall
            x, y = g.choice([(1, 0), (0, 1), (0, -2), (1, 1), (-1, 1)])
            k = g.choice([1, 2, 3, -1])
            w = [b[0] - x, b[1] - y, b[0] + k * x, b[1] + k * y]
            u = (g.randint(-4, 4), g.randint(1, 4))
            d = x * x + y * y
            dot = u[0] * x + u[1] * y
            v = [2 * dot * x // d - u[0], 2 * dot * y // d - u[1]]       # mirrored u
            a, c = [b[0] + u[0], b[1] + u[1]], [b[0] + -v[0], b[1] + -v[1]]
        inp = {"kind": "score", "cls": cls, "w": w, "p": [a, b, c],
               **(frame(g) if g.random() < 0.5 else {"unit": 1, "off": [0, 0]})}
        if cls == "RIS":
            c_, s_ = g.choice(TURNS)
            inp.update(phi=[c_, s_], wind=g.choice([0, 0, 1]))
        inp["grp"] = repr((cls, i % 8))
        out.append(inp)
    return out


def gen_loss(seed, n):
    g = random.Random(f"loss{seed}")
    out = []
    for i in range(n):
        cls = g.choice(["image", "image", "fermat", "min"])
        k = g.choice([1, 2, 3])
        kinds = {"image": g.choice(["W", "W", "R"])}.get(cls) or None
        objs = []
        for _ in range(k):
            t = kinds or g.choice("WWRV")
            objs.append([t, *(pt(g) if t == "V" else seg(g))])
        inp = {"kind": "loss", "cls": cls, "objs": objs, "tx": pt(g), "rx": pt(g), "phi": g.choice([0.5, 0.25, -1.0]),
               "key": g.randrange(99), "steps": g.choice([5, 20]), "many": g.choice([1, 1, 3]), **frame(g)}
        inp["grp"] = repr((cls, "".join(o[0] for o in objs), inp["steps"], inp["many"]))
        out.append(inp)
    return out


def gen_power(seed, n):
    g = random.Random(f"power{seed}")
    out = []
    while len(out) < n:
        k = g.choice([0, 0, 1, 2, 3, 4])
        p = [pt(g)]
        for _ in range(k + 1):
            u = g.choice(PYTH + [(0, 0)])
            p.append([p[-1][0] + u[0], p[-1][1] + u[1]])
        if g.random() < 0.1:
            p = [p[0]] * (k + 2)
        fr = g.choice([f for f in DYADIC if f["unit"] in (1, 8, 4, 16, 0.25)])
        far = g.random() < 0.25
        if far:      # very long or very short paths
            fr = {"unit": g.choice([1 / 512, 1 / 64, 1024, 512]), "off": [0, 0]}
        per = Fraction(1 / fr["unit"]).as_integer_ratio()
        inp = {"kind": "power", "p": p, "per": per, "coef": [1, 2], "height": [1, 10], "py": g.choice([0, 1]), **fr}
        if g.random() < 0.6:
            inp["coef"] = g.choice([[1, 4], [1, 1], [0, 1], [1, 3], [2, 3], [3, 4]])
        else:
            inp["dcoef"] = 1
        if g.random() < 0.6:
            inp["height"] = g.choice([[1, 1], [1, 4], [0, 1], [2, 1], [1, 20]])
        else:
            inp["dheight"] = 1
        if far:      # exact sums of the squares have to fit
            inp.pop("dheight", None)
            inp["height"] = g.choice([[0, 1], [1, 1], [3, 1]] if per[0] > 1 else [[0, 1], [1, 4], [1, 1]])
            inp["coef"] = g.choice([[1, 1], [1, 2], [3, 4]] if k < 2 else [[1, 1]])
            inp.pop("dcoef", None)
            if sum(math.dist(a, b) for a, b in zip(p, p[1:])) / fr["unit"] > 14000 / inp["coef"][1] ** (k / 2):
                continue
        inp["grp"] = repr((k, i8(len(out))))
        out.append(inp)
    return out


def i8(i):
    return i % 4


def gen_extent(seed, n):
    g = random.Random(f"extent{seed}")
    out = []
    while len(out) < n:
        i = len(out)
        if i % 3 == 2:
            k = g.choice([1, 2, 3, 5, 5, 13])
            names = ["a", "b", "Z", "tx_1", "c d"][:k] if k < 6 else [f"tx_{j}" for j in range(k)]
            if k < 6 or g.random() < 0.5:
                g.shuffle(names)
            ps = [pt(g, 0, 4) for _ in range(k)]
            q = pt(g, 0, 4)
            if g.random() < 0.5 and k > 1:      # equally far
                x, y = q
                ps = [g.choice([[x + 3, y + 4], [x - 5, y], [x + 4, y - 3], [x, y + 5], [x - 3, y - 4], [x + 5, y + 5]]) for _ in range(k)]
            elif g.random() < 0.5 and k > 1:      # nearly as far
                r = g.choice([130, 600, 1000])
                near = [[x, y] for x in range(r + 2) for y in [math.isqrt(max(r * r - x * x, 0))]
                        if abs(x * x + y * y - r * r) <= 2]
                ps = [[q[0] + g.choice([1, -1]) * u, q[1] + g.choice([1, -1]) * v] for u, v in g.choices(near, k=k)]
            fr = frame(g, True)
            if g.random() < 0.25:      # far from the origin
                fr = {"unit": 8, "off": [512, -256]}
            inp = {"kind": "nearest", "names": names, "ps": ps, "q": q, "side": g.choice(["tx", "rx"]), **fr}
            inp["grp"] = repr(k)
        else:
            cls = g.choice(["Point", "Vertex", "Wall", "RIS", "Ray", "Path", "ImagePath", "Scene", "Scene", "Scene"])
            k = {"Point": 1, "Vertex": 1, "Wall": 2, "RIS": 2, "Ray": 2, "Path": g.choice([2, 3, 5]), "ImagePath": g.choice([2, 4])}.get(cls)
            inp = {"kind": "extent", "cls": cls, **frame(g)}
            if cls == "Scene":
                sp = [g.choice([0, 1, 2]), g.choice([0, 1, 2]), g.choice([0, 0, 1])]
                nw = g.choice([0, 1, 2, 3, 3, 14])
                k = sum(sp) + 2 * nw
                if k == 0:
                    continue
                inp["split"] = sp
            inp["ps"] = [pt(g, -4, 8) for _ in range(k)]
            inp["gform"] = g.choice(["mn", "mn", "mn", "m", "kw", "default"] if i % 10 == 0 else ["mn", "mn", "m", "kw"])
            inp["m"], inp["n"] = g.choice([(1, 1), (2, 3), (3, 2), (5, 1), (1, 4), (4, 7), (9, 5), (70, 2), (3, 41)])
            inp["grp"] = repr((cls, inp["gform"], inp["m"], inp["n"]) if cls != "Scene" else (cls, i % 6, inp["gform"]))
        out.append(inp)
    return out
