"""Driver: path candidates (C01)."""

import random


def even(o):
    """A filter reading coordinates; the same callable for every scene."""
    import numpy as np
    from differt2d import geometry as geo

    x = float(np.asarray(o.xy if isinstance(o, geo.Vertex) else o.origin())[0])
    return x % 2 == 0


def build(spec):
    import jax.numpy as jnp
    from differt2d import geometry as geo
    from differt2d.scene import Scene

    objs = []
    for x, y, kind in spec:
        if kind == "W":
            objs.append(geo.Wall(xys=jnp.array([[x, y], [x + 1.0, y]])))
        else:
            objs.append(geo.Vertex(xy=jnp.array([x, y], dtype=float)))
    return Scene(transmitters={"t": geo.Point()}, receivers={}, objects=objs)


def run(inp):
    import numpy as np
    from differt2d import geometry as geo

    objs = inp["objs"]
    scene = build(objs)
    seen = {}

    def keep(o):
        p = np.asarray(o.xy if isinstance(o, geo.Vertex) else o.origin())
        key = (float(p[0]), float(p[1]), "V" if isinstance(o, geo.Vertex) else "W")
        seen[key] = seen.get(key, 0) + 1
        return inp["verdict"][[(float(a), float(b), k) for a, b, k in inp["objs"]].index(key)] == 1

    kw = {}
    f = inp["form"]
    if f == "order":
        kw["order"] = inp["lo"]
        if inp.get("minmax"):
            kw["min_order"], kw["max_order"] = inp["minmax"]
    elif f == "pos":
        pass
    elif f == "dmax":        # max_order left to its default, 1
        kw["min_order"] = inp["lo"]
    elif f == "dmin":        # min_order left to its default, 0
        kw["max_order"] = inp["hi"]
    elif f == "both":
        kw["min_order"], kw["max_order"] = inp["lo"], inp["hi"]
    if inp["filter"]:
        kw["filter_objects"] = keep
    if inp.get("before") is not None:
        # the same request on other scenes of the same structure, first
        kw["filter_objects"] = even
        for prev in inp["before"]:
            build(prev).all_path_candidates(**kw)
    args = (inp["lo"], inp["hi"]) if f == "pos" else ()
    res = scene.all_path_candidates(*args, **kw)
    out = []
    for c in res:
        c = np.asarray(c)
        if c.ndim != 1 or not np.issubdtype(c.dtype, np.integer):
            raise ValueError(f"candidate of shape {c.shape}, {c.dtype}")
        out.append([int(v) for v in c])
        if len(out) > 60000:
            break
    n = len(objs)
    allowed = [i for i in range(n) if not inp["filter"] or inp["verdict"][i] == 1]
    return {"kind": "cands", "n": n, "lo": inp["lo"], "hi": inp["hi"], "allowed": allowed, "out": out}


def gen(seed, quick):
    g = random.Random(f"cands{seed}")
    out = []

    def add(n, lo, hi, form, filt=None):
        objs = [[g.randint(0, 9), 10 * k + g.randint(0, 9), g.choice("WWWV")] for k in range(n)]
        verdict = filt if filt is not None else [1] * n
        inp = {"objs": objs, "lo": lo, "hi": hi, "form": form, "filter": int(filt is not None), "verdict": verdict}
        if form == "order" and g.random() < 0.5:
            inp["minmax"] = [g.randint(0, 4), g.randint(0, 4)]
        if form == "dmax":
            inp["hi"] = 1
        if form == "dmin":
            inp["lo"] = 0
        inp["grp"] = f"{n}-{g.randrange(4)}"
        out.append(inp)

    limit = 2500 if quick else 8000

    def size(m, lo, hi):
        return sum(1 if k == 0 else (m * max(m - 1, 0) ** (k - 1) if m else 0) for k in range(lo, hi + 1))

    # every small request, in every form, without and with every filter
    for n in range(0, 5):
        for lo in range(0, 5):
            for hi in range(0, 5):
                if size(n, lo, hi) <= 400:
                    add(n, lo, hi, g.choice(["both", "pos"]))
                    if n:
                        add(n, lo, hi, "both", [g.randint(0, 1) for _ in range(n)])
            add(n, lo, lo, "order")
            add(n, lo, lo, "order", [g.randint(0, 1) for _ in range(n)])
            add(n, lo, 1, "dmax")
            add(n, 0, lo, "dmin")
    for n in range(1, 5):
        for mask in range(2 ** n):
            add(n, 0, 3, "both", [(mask >> k) & 1 for k in range(n)])
    # the same filter on a history of scenes of the same structure
    for _ in range(40 if quick else 200):
        n = g.randint(1, 5)
        hi = g.randint(1, 2)
        add(n, g.randint(0, hi), hi, "both")
        inp = out[-1]
        alt = lambda: [[g.randint(0, 9), o[1], o[2]] for o in inp["objs"]]
        inp["before"] = [alt() for _ in range(g.randint(1, 3))]
        inp["filter"], inp["verdict"] = 1, [1 - o[0] % 2 for o in inp["objs"]]
    # larger scenes
    for _ in range(60 if quick else 600):
        n = g.choice([5, 6, 7, 8, 9, 10, 12, 16, 20, 25, 33])
        hi = g.choice([1, 2, 2, 3, 4, 5])
        lo = g.randint(0, hi)
        filt = None
        m = n
        if g.random() < 0.6:
            filt = [int(g.random() < 0.6) for _ in range(n)]
            m = sum(filt)
        if size(m, lo, hi) <= limit:
            add(n, lo, hi, g.choice(["both", "pos"]), filt)
    return out
