"""Driver: histories of scene edits (C09)."""


def _imports():
    global jnp, np, eqx, geo, Scene, Tagged
    import equinox as eqx
    import jax.numpy as jnp
    import numpy as np
    from differt2d import geometry as geo
    from differt2d.scene import Scene

    if "Tagged" not in globals():
        class Tagged(Scene):
            tag: int = 7


def point(k):
    return geo.Point(xy=jnp.array([float(k), k / 2]))


def obj(o):
    kind, k = o
    if kind == "V":
        return geo.Vertex(xy=jnp.array([float(k), 0.25]))
    xys = jnp.array([[float(k), 0.0], [k + 0.5, 1.0]])
    return geo.Wall(xys=xys) if kind == "W" else geo.RIS(xys=xys, phi=jnp.array(k / 8))


def num(x):
    x = float(x)
    return int(x) if x == int(x) else 999


def read_point(p):
    if type(p) is not geo.Point:
        return 998
    k = num(p.xy[0])
    return k if float(p.xy[1]) == k / 2 else 997


def read_obj(o):
    if type(o) is geo.Vertex:
        return ["V", num(o.xy[0]) if float(o.xy[1]) == 0.25 else 996]
    k = num(o.xys[0, 0])
    ok = np.array_equal(np.asarray(o.xys), np.array([[k, 0], [k + 0.5, 1]], dtype=np.float32))
    if type(o) is geo.RIS:
        ok = ok and float(o.phi) == k / 8
        return ["R", k if ok else 995]
    return ["W" if type(o) is geo.Wall else "?", k if ok else 995]


def read(s):
    bad = []
    out = {}
    for side, m in (("tx", s.transmitters), ("rx", s.receivers)):
        items = list(m.items())
        out[side] = [[n, read_point(p)] for n, p in items]
        if len(m) != len(items) or list(m) != [n for n, _ in items] or list(m.keys()) != list(m):
            bad.append("keys")
        if [read_point(p) for p in m.values()] != [p for _, p in out[side]]:
            bad.append("values")
        for n, k in out[side]:
            if n not in m or read_point(m[n]) != k or read_point(m.get(n)) != k:
                bad.append("item " + n)
        if "no such name" in m:
            bad.append("contains")
        try:
            m["no such name"]
            bad.append("missing key")
        except KeyError:
            pass
    pairs = [(a, read_point(p), b, read_point(q)) for (a, p), (b, q) in s.all_transmitter_receiver_pairs()]
    if pairs != [(a, p, b, q) for a, p in out["tx"] for b, q in out["rx"]]:
        bad.append("pairs")
    out["objs"] = [read_obj(o) for o in s.objects]
    out["tag"] = s.tag if isinstance(s, Tagged) else -1
    out["bad"] = ",".join(bad)
    return out


PREDS = {
    "all": lambda o: True,
    "none": lambda o: False,
    "walls": lambda o: isinstance(o, geo.Wall),
    "vertices": lambda o: isinstance(o, geo.Vertex),
    "even": lambda o: read_obj(o)[1] % 2 == 0,
    "big": lambda o: read_obj(o)[1] > 3,
}


def use(s, k):
    """Things that must not change a scene."""
    if k % 3 == 0:
        s.all_path_candidates(0, 1)
        list(s.all_paths(path_cls=geo.Path, order=0))
    elif k % 3 == 1 and s.transmitters:
        s.get_closest_transmitter(jnp.array([0.0, 0.0]))
        s.bounding_box()
    else:
        import matplotlib.pyplot as plt

        fig, ax = plt.subplots()
        s.plot(ax)
        plt.close(fig)
        if s.transmitters:
            X, Y = jnp.zeros((1, 1)), jnp.zeros((1, 1))
            fun = lambda *a: jnp.array(1.0)
            list(s.accumulate_on_receivers_grid_over_paths(X, Y, fun, order=0))
            list(s.accumulate_on_transmitters_grid_over_paths(X, Y, fun, order=0))
    return s


def apply(s, e, k):
    op = e["op"]
    pts = {n: point(p) for n, p in e.get("pts", [])}
    if op == "with_tx":
        return s.with_transmitters(**pts)
    if op == "with_rx":
        return s.with_receivers(**pts)
    if op == "update_tx":
        return s.update_transmitters(**pts)
    if op == "update_rx":
        return s.update_receivers(**pts)
    if op == "rename_tx":
        return s.rename_transmitters(**dict(e["map"]))
    if op == "rename_rx":
        return s.rename_receivers(**dict(e["map"]))
    if op == "with_objs":
        return s.with_objects(*[obj(o) for o in e["objs"]])
    if op == "add_objs":
        return s.add_objects(*[obj(o) for o in e["objs"]])
    if op == "filter":
        return s.filter_objects(PREDS[e["pred"]])
    return use(s, k)


def run(inp):
    _imports()
    tx = {"a": point(1), "b": point(2)}
    rx = {"r": point(3)}
    s = Tagged(transmitters=tx, receivers=rx, objects=[obj(["W", 1]), obj(["V", 2])])
    tx["c"] = point(9)          # the scene keeps its own mapping
    del rx["r"]
    scenes, seen = [s], [read(s)]
    for k, h in enumerate(inp["hist"]):
        s = apply(scenes[h["on"] - 1], h["e"], k)
        scenes.append(s)
        seen.append(read(s))
    return {"kind": "edits", "hist": inp["hist"], "seen": seen, "final": [read(s) for s in scenes]}
