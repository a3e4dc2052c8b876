"""Driver: scenes of objects that the user wrote, behind the documented interface (C28)."""

import math
import random

from vf.lat import enc


def _imports():
    global jax, jnp, np, eqx, geo, logic, Scene, KINDS, Spot
    if "Scene" in globals():
        return
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import numpy as np
    from differt2d import geometry as geo
    from differt2d import logic
    from differt2d.abc import Object
    from differt2d.scene import Scene

    class Mine(eqx.Module, Object):
        v: jax.Array
        tag: jax.Array

        def plot(self, ax, *args, **kwargs):
            return []

        def bounding_box(self):
            return jnp.array([[0.0, 0.0], [1.0, 1.0]])

        def intersects_cartesian(self, ray, patch=0.0, approx=None, **kwargs):
            return logic.false_value(approx=approx)

    class Disk(Mine):
        @staticmethod
        def parameters_count():
            return 2

        def parametric_to_cartesian(self, param_coords):
            return self.v[:2] + self.v[2] * (2 * param_coords - 1)

        def cartesian_to_parametric(self, carte_coords):
            return ((carte_coords - self.v[:2]) / self.v[2] + 1) / 2

        def contains_parametric(self, param_coords, approx=None, **kwargs):
            d = self.parametric_to_cartesian(param_coords) - self.v[:2]
            return logic.greater_equal(self.v[2] ** 2, jnp.dot(d, d), approx=approx, **kwargs)

        def intersects_cartesian(self, ray, patch=0.0, approx=None, **kwargs):
            d, e = ray[1] - ray[0], self.v[:2] - ray[0]
            n = jnp.dot(d, d)
            f = e - jnp.clip(jnp.dot(e, d) / jnp.where(n == 0, 1.0, n), 0.0, 1.0) * d
            return logic.less(jnp.dot(f, f), (self.v[2] * (1 + patch)) ** 2, approx=approx, **kwargs)

        def evaluate_cartesian(self, ray_path):
            d = ray_path[1] - self.v[:2]
            return jnp.dot(d, d)

    class Slab(Mine):
        @staticmethod
        def parameters_count():
            return 2

        def parametric_to_cartesian(self, param_coords):
            return self.v[:2] + self.v[2:] * param_coords

        def cartesian_to_parametric(self, carte_coords):
            return (carte_coords - self.v[:2]) / self.v[2:]

        def contains_parametric(self, param_coords, approx=None, **kwargs):
            inside = [f(x, jnp.array(y), approx=approx, **kwargs) for x in param_coords
                      for f, y in ((logic.greater_equal, 0.0), (logic.less_equal, 1.0))]
            return logic.logical_all(*inside, approx=approx)

        def evaluate_cartesian(self, ray_path):
            d = 2 * ray_path[1] - ray_path[0] - ray_path[2]
            return jnp.dot(d, d)

    class Bow(Mine):
        @staticmethod
        def parameters_count():
            return 1

        def parametric_to_cartesian(self, param_coords):
            t, d = param_coords[0], self.v[2:4]
            return self.v[:2] + t * d + t * t * self.v[4] * jnp.array([-d[1], d[0]])

        def cartesian_to_parametric(self, carte_coords):
            d = self.v[2:4]
            return (jnp.dot(carte_coords - self.v[:2], d) / jnp.dot(d, d)).reshape(1)

        def contains_parametric(self, param_coords, approx=None, **kwargs):
            return logic.logical_and(logic.greater_equal(param_coords[0], jnp.array(0.0), approx=approx, **kwargs),
                                     logic.less_equal(param_coords[0], jnp.array(1.0), approx=approx, **kwargs), approx=approx)

        def intersects_cartesian(self, ray, patch=0.0, approx=None, **kwargs):
            return logic.greater(self.v[5], jnp.array(0.0), approx=approx, **kwargs)

        def evaluate_cartesian(self, ray_path):
            d, e = ray_path[1] - ray_path[0], ray_path[2] - ray_path[1]
            return jnp.dot(d, d) + jnp.dot(e, e)

    class MyWall(geo.Wall):
        tag: jax.Array = eqx.field(converter=jnp.asarray, default_factory=lambda: jnp.array(0.0))

    class MyVertex(geo.Vertex):
        tag: jax.Array = eqx.field(converter=jnp.asarray, default_factory=lambda: jnp.array(0.0))

    class SpotPath(geo.Path):
        """A user's own path method: the same parameter everywhere."""

        @classmethod
        def from_tx_objects_rx(cls, tx, objects, rx, *, key=None, t=0.5, loss=0.0, wt=0.0):
            tx = tx.xy if isinstance(tx, geo.Point) else tx
            rx = rx.xy if isinstance(rx, geo.Point) else rx
            xys = jnp.vstack([tx, *[o.parametric_to_cartesian(jnp.full(int(o.parameters_count()), t)) for o in objects], rx])
            bad = sum((o.evaluate_cartesian(xys[i:i + 3]) for i, o in enumerate(objects) if isinstance(o, Mine)), jnp.array(0.0))
            return cls(xys=xys, loss=loss + wt * bad)

    KINDS = {"D": Disk, "S": Slab, "B": Bow, "W": lambda v, tag: MyWall(xys=v.reshape(2, 2), tag=tag),
             "V": lambda v, tag: MyVertex(xy=v, tag=tag)}
    Spot = SpotPath


def q(v):
    return v[0] / v[1]


def build(o):
    v = np.asarray(o["v"], dtype=np.float32)
    return KINDS[o["k"]](v=jnp.asarray(v), tag=jnp.asarray(float(o["tag"])))


def truth(x, al):
    x = np.asarray(x)
    f, sat = float(x), int(9.0 / al * 10000) - 1
    i = (sat if f > 0.5 else -sat) if f <= 0 or f >= 1 or f != f else max(-sat, min(sat, round(math.log(f / (1 - f)) / al * 10000)))
    return {"b": int(x.dtype == np.bool_), "v": enc(f, 10000), "i": i, "sat": sat}


def mil(a):
    a = np.asarray(a, dtype=float)
    return [mil(x) for x in a] if a.ndim else enc(a, 1000)


def scene_record(inp):
    objs = [build(o) for o in inp["objs"]]
    pt = lambda p: geo.Point(xy=jnp.asarray(np.asarray(p, dtype=np.float32)))
    scene = Scene(transmitters={"tx": pt(inp["tx"])}, receivers={"rx": pt(inp["rx"])}, objects=objs)
    o, al = inp["opt"], q(inp["opt"]["alpha"])
    kw = {"path_cls": Spot, "path_cls_kwargs": {"t": q(inp["t"]), "loss": q(inp["loss"]), "wt": q(inp["wt"])}, "min_order": inp["lo"], "max_order": inp["hi"],
          "tol": q(inp["tol"]), "patch": q(inp["patch"]), "alpha": al, "approx": bool(o["approx"])}
    if o["fn"] == "sig":
        kw["function"] = logic.sigmoid
    if len(inp["allow"]) < len(objs):
        ok = {inp["objs"][i]["tag"] for i in inp["allow"]}
        kw["filter_objects"] = lambda x: int(x.tag) in ok
    rows, met = [], []

    for _, _, v, path, cand in scene.all_paths(**kw):
        cand = [int(i) for i in np.asarray(cand)]
        rows.append({"c": cand, "xys": mil(path.xys), "l": enc(path.loss, 1000), "truth": truth(v, al)})
        met.append([int(x.tag) for x in scene.get_interacting_objects(np.asarray(cand, dtype=np.int32))])

    def fun(tx, rx, path, objects):
        return sum(((i + 1) * x.tag for i, x in enumerate(objects)), jnp.array(1.0))

    acc = scene.accumulate_over_paths(fun, reduce_all=True, **kw)
    cells = inp["cells"]
    X, Y = (jnp.asarray(np.asarray([c[d] for c in cells], dtype=np.float32).reshape(1, -1)) for d in (0, 1))
    Z = np.asarray(scene.accumulate_on_receivers_grid_over_paths(X, Y, fun, reduce_all=True, **kw))
    return {**inp, "paths": rows, "met": met, "acc": enc(acc, 10000), "cells": [{"p": c, "v": enc(Z[0, n], 10000)} for n, c in enumerate(cells)]}


def seq_record(inp):
    objs = [build(o) for o in inp["objs"]]
    cls = geo.MinPath if inp["cls"] == "min" else geo.FermatPath
    f = lambda p: jnp.asarray(np.asarray(p, dtype=np.float32))
    path = cls.from_tx_objects_rx(f(inp["tx"]), objs, f(inp["rx"]), key=jax.random.PRNGKey(inp["key"]), steps=1000, **({"many": 3} if inp["key"] % 2 else {}))
    at = [o.cartesian_to_parametric(path.xys[i + 1]) for i, o in enumerate(objs)]
    every = np.concatenate([np.ravel(path.xys) / 20, *[np.ravel(x) / 5 for x in at]])
    return {**inp, "xys": mil(path.xys), "at": [mil(x) for x in at], "loss": enc(path.loss, 1000), "len": enc(path.length(), 1000),
            "big": int(not np.all(np.abs(every) < 1))}


def sample_record(inp):
    o = build(inp["objs"][0])
    xys = [o.sample(jax.random.PRNGKey(inp["key"] + n)) for n in range(6)]
    return {**inp, "xys": [mil(x) for x in xys], "at": [mil(o.cartesian_to_parametric(x)) for x in xys], "again": mil(o.sample(jax.random.PRNGKey(inp["key"])))}


def run(inp):
    _imports()
    return {"scene": scene_record, "seq": seq_record, "sample": sample_record}[inp["kind"]](inp)


# --------------------------------------------------------------------- inputs


def thing(g, kinds, tag):
    p = [g.randint(0, 8), g.randint(0, 8)]
    k = g.choice(kinds)
    if k == "W":
        d = [0, 0]
        while d == [0, 0]:
            d = [g.randint(-4, 4), g.randint(-4, 4)]
        p += [p[0] + d[0], p[1] + d[1]]
    elif k == "D":
        p += [g.randint(1, 2)]
    elif k == "S":
        p += [g.choice([-2, 1, 2, 3]), g.choice([-1, 1, 2])]
    elif k == "B":
        p += [*g.choice([(2, 0), (0, 3), (-3, 0), (2, 1), (1, -2)]), g.choice([0, 1, -1]), g.choice([-1, -1, -2, 1])]
    return {"k": k, "v": p, "tag": tag}


def gen_scene(g):
    n = g.choice([1, 2, 2, 3, 3, 4])
    objs = [thing(g, "DDSSBWV", i + 1) for i in range(n)]
    if g.random() < 0.2 and n > 1:       # all of one kind
        objs = [thing(g, objs[0]["k"], i + 1) for i in range(n)]
    tags = list(range(1, n + 1))
    g.shuffle(tags)
    for o, t in zip(objs, tags):
        o["tag"] = t
    bow = any(o["k"] == "B" for o in objs)
    hi = g.choice([0, 1, 1, 2, 2])
    every = list(range(n))
    pt = lambda: [g.randint(0, 8), g.randint(0, 8)]
    return {"kind": "scene", "objs": objs, "tx": pt(), "rx": pt(), "cells": [pt() for _ in range(3)],
            "opt": {"approx": g.randint(0, 1), "alpha": g.choice([[1, 1], [2, 1], [1, 4], [10, 1], [100, 1]]), "fn": "sig" if g.random() < 0.25 else "hard"},
            "t": g.choice([[1, 2], [1, 2], [1, 1], [0, 1]] + ([] if bow else [[1, 4], [1, 4]])),
            "patch": g.choice([[0, 1], [0, 1], [1, 2], [1, 4], [-1, 4]]), "tol": g.choice([[1, 100], [1, 2], [1, 1], [4, 1]]),
            "loss": g.choice([[0, 1], [0, 1], [1, 4], [1, 1]]), "wt": g.choice([[0, 1], [1, 64], [1, 16]]),
            "allow": every if g.random() < 0.6 else sorted(g.sample(every, g.randint(0, n))), "lo": g.randint(0, hi), "hi": hi}


def gen_seq(g):
    kinds = g.choice(["DSV", "DSV", "SSV", "DSBWV", "S"])
    n = g.choice([0, 1, 2, 2, 3, 3, 4])
    return {"kind": "seq", "objs": [thing(g, kinds, i + 1) for i in range(n)], "tx": [g.randint(0, 8), g.randint(0, 8)], "rx": [g.randint(0, 8), g.randint(0, 8)],
            "cls": g.choice(["min", "min", "fermat"]), "key": g.randrange(1000)}


def gen(seed, n):
    g = random.Random(f"custom{seed}")
    out = [gen_scene(g) for _ in range(n)] + [gen_seq(g) for _ in range(n)]
    out += [{"kind": "sample", "objs": [thing(g, "DSBWV", 1)], "key": g.randrange(1000)} for _ in range(n // 6)]
    for r in out:      # executions with the same shapes side by side: they share what was compiled
        r["grp"] = repr((r["kind"], [o["k"] for o in r["objs"]], r.get("opt"), r.get("hi"), r.get("cls")))
    return out
