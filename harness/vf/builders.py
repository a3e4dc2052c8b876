"""Driver: GeoJSON import (C13), named and random scenes (C20)."""

import io
import json
import random

from vf.lat import Frame, enc

LOCS = ["N", "E", "S", "W", "C", "NE", "NW", "SE", "SW"]


def _imports():
    global jax, jnp, np, Scene, geo
    import jax
    import jax.numpy as jnp
    import numpy as np
    from differt2d import geometry as geo
    from differt2d.scene import Scene


class Source:
    def __init__(self, s):
        self.s = s

    def read(self):
        return self.s


def geometry_of(t, rings, fr, g):
    pos = lambda p: [fr.off[0] + p[0] / fr.unit, fr.off[1] + p[1] / fr.unit] + ([g.randint(0, 90)] if g.random() < 0.1 else [])
    xs = [[pos(p) for p in r] for r in rings]
    if t == "Polygon":
        return {"type": t, "coordinates": xs}
    if t in ("Point",):
        return {"type": t, "coordinates": xs[0][0]}
    if t in ("LineString", "MultiPoint"):
        return {"type": t, "coordinates": xs[0]}
    if t == "MultiPolygon":
        return {"type": t, "coordinates": [xs]}
    if t == "GeometryCollection":
        return {"type": t, "geometries": [{"type": "Polygon", "coordinates": xs}]}
    return None


def run_geo(inp):
    g = random.Random(inp["seed"])
    fr = Frame(inp)
    feats = []
    for f in inp["doc"]:
        e = {"type": "Feature", "properties": {"name": "x", "coordinates": [1, 2]}, "id": g.randrange(99)}
        if f["t"] != "none":
            e["geometry"] = geometry_of(f["t"], f["rings"], fr, g)
        feats.append(e)
    d = {"type": "FeatureCollection", "generator": "vf", "features": feats}
    if not feats and g.random() < 0.3:
        del d["features"]
    s = json.dumps(d, indent=g.choice([None, 2]))
    src = {"str": lambda: s, "bytes": lambda: s.encode(), "bytearray": lambda: bytearray(s.encode()),
           "textio": lambda: io.StringIO(s), "bytesio": lambda: io.BytesIO(s.encode()),
           "reader": lambda: Source(s)}[inp["form"]]()
    kw, args = {}, []
    if inp["how"] == "pos":
        args = [inp["txloc"], inp["rxloc"]]
    elif inp["how"] == "kw":
        kw = {"rx_loc": inp["rxloc"], "tx_loc": inp["txloc"]}
    elif inp["how"] == "tx":
        kw = {"tx_loc": inp["txloc"]}
    elif inp["how"] == "rx":
        kw = {"rx_loc": inp["rxloc"]}
    scene = Scene.from_geojson(src, *args, **kw)
    ends = lambda d: [{"name": n, "p": fr.back(p.xy), "raw": [enc(v, 1000) for v in p.xy]} for n, p in d.items()]
    return {"kind": "geo", "doc": inp["doc"], "txloc": inp["txloc"], "rxloc": inp["rxloc"], "slack": inp["slack"],
            "walls": [[fr.back(w.xys[0]), fr.back(w.xys[1])] for w in scene.objects],
            "kinds": [type(w).__name__ for w in scene.objects],
            "tx": ends(scene.transmitters), "rx": ends(scene.receivers)}


def micro(xy):
    return [enc(v, 10**6) for v in np.asarray(xy)]


def show(scene, f):
    return {"walls": [[f(w.xys[0]), f(w.xys[1])] for w in scene.objects],
            "tx": [{"name": n, "p": f(p.xy)} for n, p in scene.transmitters.items()],
            "rx": [{"name": n, "p": f(p.xy)} for n, p in scene.receivers.items()]}


def run_named(inp):
    kw = {}
    if inp["ratio"]:
        q = inp["ratio"][0] / inp["ratio"][1]
        kw["ratio"] = q if inp["name"] == "square_scene_with_wall" or inp["py"] else jnp.float32(q)
    for k, c in (("tx_coords", inp["txc"]), ("rx_coords", inp["rxc"])):
        if c:
            kw[k] = jnp.array([c[0] / c[1], c[2] / c[3]])
    args = []
    if inp["pos"] and inp["name"] in ("basic_scene", "square_scene") and len(kw) == 2:
        args, kw2 = [kw["tx_coords"], kw["rx_coords"]], {}
    else:
        kw2 = kw
    if inp["via"] == "name":
        scene = Scene.from_scene_name(inp["name"], *args, **kw2)
        other = getattr(Scene, inp["name"])(*args, **kw2)
    else:
        scene = getattr(Scene, inp["name"])(*args, **kw2)
        other = Scene.from_scene_name(inp["name"], *args, **kw2)
    a, b = show(scene, micro), show(other, micro)
    return dict(a, kind="named", name=inp["name"], ratio=inp["ratio"], txc=inp["txc"], rxc=inp["rxc"],
                byname=int(a == b and [type(o) for o in scene.objects] == [type(o) for o in other.objects]))


def run_random(inp):
    f = lambda xy: [enc(v, 2**23) for v in np.asarray(xy)]
    mk = (lambda k: jax.random.key(k)) if inp["newkey"] else jax.random.PRNGKey
    kw = {}
    for k, n in zip(("n_transmitters", "n_walls", "n_receivers"), inp["n"]):
        if n != 1 or inp["say"]:
            kw[k] = n
    go = lambda k: show(Scene.random_uniform_scene(key=mk(k), **kw), f)
    a = go(inp["key"])
    b = go(inp["key"] + 1)
    return dict(a, kind="random", n=inp["n"], again=int(go(inp["key"]) == a), other=int(a == b))


def run(inp):
    _imports()
    return globals()["run_" + inp["kind"]](inp)


# --------------------------------------------------------------------- inputs

FRAMES = [({"unit": 1, "off": [0, 0]}, 0), ({"unit": 8, "off": [-0.5, -0.5]}, 0), ({"unit": 4, "off": [16, -8]}, 0),
          ({"unit": 10, "off": [0, 0]}, 1), ({"unit": 0.25, "off": [0, 0]}, 0), ({"unit": 1000, "off": [4.625, 50.5]}, 8)]


def gen_geo(seed, docs):
    g = random.Random(f"geo{seed}")
    for k in range(len(docs) // 24):      # long documents, long rings
        d = [f for _ in range(6) for f in g.choice(docs)["doc"]]
        rings = [f["rings"][0] for f in d if f["t"] == "Polygon" and f["rings"]]
        if k % 2 and rings:
            d = [{"t": "Polygon", "rings": [[p for r in rings for p in r]]}]
        docs = [*docs, {"doc": d}]
    for k, d in enumerate(docs):
        fr, slack = g.choice(FRAMES)
        how = g.choice(["pos", "kw", "kw", "tx", "rx", "none"])
        tl = g.choice(LOCS) if how in ("pos", "kw", "tx") else "NW"
        rl = g.choice(LOCS) if how in ("pos", "kw", "rx") else "SE"
        yield {"kind": "geo", "doc": d["doc"], "grp": sum(len(f["rings"][0]) for f in d["doc"] if f["t"] == "Polygon" and f["rings"]), **fr, "slack": slack, "how": how, "txloc": tl, "rxloc": rl, "seed": seed * 7919 + k,
               "form": g.choice(["str", "bytes", "bytearray", "textio", "bytesio", "reader"])}


def gen_scenes(seed, n):
    g = random.Random(f"scenes{seed}")
    names = ["basic_scene", "square_scene", "square_scene_with_wall", "square_scene_with_obstacle"]
    coord = lambda: [g.randint(-4, 12), g.choice([8, 10, 16]), g.randint(-4, 12), g.choice([8, 10, 7])]
    for k in range(n):
        if k % 2 == 0:
            name = names[k // 2 % 4]
            d = g.randint(1, 20)
            ratio = [g.randint(0, d), d] if name.startswith("square_scene_with") and g.random() < 0.8 else []
            yield {"kind": "named", "name": name, "ratio": ratio, "txc": coord() if g.random() < 0.6 else [],
                   "rxc": coord() if g.random() < 0.6 else [], "py": g.random() < 0.5, "pos": g.random() < 0.3,
                   "via": g.choice(["name", "direct"])}
        else:
            yield {"kind": "random", "n": [g.choice([0, 1, 1, 2, 3, 5, 13]), g.choice([0, 1, 1, 2, 4, 7, 24]), g.choice([0, 1, 1, 2, 3, 6, 12])],
                   "key": g.randrange(10**6), "newkey": g.random() < 0.3, "say": g.random() < 0.5}
