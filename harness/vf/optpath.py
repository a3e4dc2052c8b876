"""Driver: paths found by minimization (C18)."""

import random
from fractions import Fraction as F

from vf.lat import Frame, enc


def _imports():
    global jax, jnp, np, geo
    import jax
    import jax.numpy as jnp
    import numpy as np
    from differt2d import geometry as geo


def obj_of(fr, q):
    if q[0] == "V":
        return geo.Vertex(xy=jnp.asarray(fr.p(q[1:3])))
    xys = jnp.asarray(fr.seg(q[1:3], q[3:5]))
    return geo.RIS(xys=xys, phi=0.5) if q[0] == "R" else geo.Wall(xys=xys)


def run(inp):
    _imports()
    fr = Frame(inp)
    objs = [obj_of(fr, q) for q in inp["objs"]]
    end = lambda q: geo.Point(xy=jnp.asarray(fr.p(q))) if inp["point"] else jnp.asarray(fr.p(q))
    cls = {"fermat": geo.FermatPath, "min": geo.MinPath, "mid": geo.Path}[inp["cls"]]
    mk = jax.random.key if inp["newkey"] else jax.random.PRNGKey

    def go(key, **more):
        kw = dict(more)
        if inp["cls"] != "mid":
            if inp["steps"] != 100 or inp["say"]:
                kw.setdefault("steps", inp["steps"])
            if inp["many"]:
                kw["many"] = inp["many"]
        return cls.from_tx_objects_rx(end(inp["tx"]), tuple(objs) if inp["tup"] else objs, end(inp["rx"]), key=mk(key), **kw)

    p = go(inp["key"])
    same = lambda a, b: int(np.array_equal(np.asarray(a.xys), np.asarray(b.xys), equal_nan=True)
                            and np.array_equal(np.asarray(a.loss), np.asarray(b.loss), equal_nan=True))
    xys = np.asarray(p.xys)
    if xys.ndim != 2 or np.asarray(p.loss).shape != () or type(p) is not cls:
        raise ValueError(f"bad path {type(p)} {xys.shape} {np.asarray(p.loss).shape}")
    free = sum(q[0] != "V" for q in inp["objs"])
    opt = inp["cls"] != "mid" and inp["steps"] == 0
    return {
        "objs": [q[:5] for q in inp["objs"]], "tx": inp["tx"], "rx": inp["rx"], "cls": inp["cls"],
        "steps": inp["steps"], "starts": inp["many"] or 1, "pts": [fr.back(v) for v in xys],
        "loss": enc(p.loss, 10000),
        "scores": [enc(o.evaluate_cartesian(p.xys[i:i + 3]), 10000) for i, o in enumerate(objs)],
        "again": same(p, go(inp["key"])),
        "one": same(p, go(inp["key"], many=1)) if opt and not inp["many"] else -1,
        "other": same(p, go(inp["key"] + 1)) if opt and free and not inp["many"] else -1,
    }


# --------------------------------------------------------------------- inputs


def mirror(w, p):
    ax, ay, bx, by = w
    nx, ny = by - ay, ax - bx
    k = F(2 * ((p[0] - ax) * nx + (p[1] - ay) * ny), nx * nx + ny * ny)
    return (p[0] - k * nx, p[1] - k * ny)


def bounces(ws, a, b):
    """The bounce points of the image method, or None when a bounce is outside or degenerate."""
    ims = [a]
    for w in ws:
        ims.append(mirror(w, ims[-1]))
    pts, p = [], b
    for w, im in zip(reversed(ws), reversed(ims)):
        nx, ny = w[3] - w[1], w[0] - w[2]
        un = (p[0] - im[0]) * nx + (p[1] - im[1]) * ny
        if un == 0:
            return None
        s = F((w[0] - p[0]) * nx + (w[1] - p[1]) * ny) / F(un)
        p = (p[0] + s * (p[0] - im[0]), p[1] + s * (p[1] - im[1]))
        u = F((p[0] - w[0]) * (w[2] - w[0]) + (p[1] - w[1]) * (w[3] - w[1])) / (nx * nx + ny * ny)
        if not F(1, 10) < u < F(9, 10):
            return None
        pts.append(p)
    return pts[::-1]


def good(ws, a, b):
    pts = bounces(ws, a, b)
    if pts is None:
        return False
    full = [a, *pts, b]
    side = lambda w, p: (p[0] - w[0]) * (w[3] - w[1]) - (p[1] - w[1]) * (w[2] - w[0])
    if any(abs(p[0] - q[0]) + abs(p[1] - q[1]) <= F(4, 5) for p, q in zip(full, full[1:])):
        return False
    return all(side(w, full[i]) * side(w, full[i + 2]) > 0 for i, w in enumerate(ws))


DIRS = [[(1, 0), (0, 1)], [(1, 1), (1, -1)], [(2, 1), (1, 2), (2, -1), (1, -2)]]


def wall(g, n):
    """A wall for a piece of n walls (TLC's integers bound the slopes of long sequences)."""
    while True:
        x, y = g.randint(0, 9), g.randint(0, 9)
        if n == 1:
            u, v = g.randint(0, 9), g.randint(0, 9)
        else:
            d = g.choice(g.choice(DIRS[:3 if n == 2 else 2]))
            k = g.choice([-1, 1]) * g.randint(2, 9)
            u, v = x + k * d[0], y + k * d[1]
        if 0 <= u <= 9 and 0 <= v <= 9 and abs(x - u) + abs(y - v) >= 4:
            return [x, y, u, v]


def solved(g, n, a, b):
    """n walls with a true reflection path from a to b, as a list (or None)."""
    for _ in range(4000):
        ws = [wall(g, n) for _ in range(n)]
        if good(ws, a, b):
            return ws
    return None


SHAPES = ["W", "W", "WW", "WWW", "V", "VW", "WV", "VWW", "WVW", "WWV", "VV", "R", "WR", "", "RW", "VR"]


def gen(seed, n):
    g = random.Random(f"optpath{seed}")
    out = []
    while len(out) < n:
        # one configuration (hence one compilation) for several problems
        cls = g.choice(["fermat", "fermat", "fermat", "min", "min", "mid"])
        shape = g.choice(SHAPES)
        steps = g.choice([300, 300, 300, 300, 400, 0, 0, 2, 100])
        conf = {"cls": cls, "steps": steps, "say": g.random() < 0.5, "many": g.choice([0, 0, 1, 2, 3, 5]) if cls != "mid" else 0,
                "point": g.random() < 0.5, "tup": g.random() < 0.3, "newkey": g.random() < 0.2, "grp": f"g{len(out)}"}
        for _ in range(g.choice([3, 6, 9])):
            pt = lambda: [g.randint(0, 9), g.randint(0, 9)]
            tx, rx = pt(), pt()
            objs, prev, pieces, k = [], tx, shape.split("V"), 0
            for j, s in enumerate(pieces):
                nxt = rx if j == len(pieces) - 1 else pt()
                ws = solved(g, len(s), tuple(prev), tuple(nxt)) if s and g.random() < 0.85 else None
                for i, c in enumerate(s):
                    objs.append([c, *(ws[i] if ws else wall(g, len(s)))])
                if j < len(pieces) - 1:
                    objs.append(["V", *nxt])
                prev = nxt
            out.append(dict(conf, objs=objs, tx=tx, rx=rx, key=g.randrange(10**6), unit=g.choice([1, 1, 4, 10]), off=g.choice([[0, 0], [0, 0], [2, -3]])))
    return out[:n]
