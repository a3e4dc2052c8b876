"""Driver: stacks, scenes as trees, lookups (C23)."""

import json
import random


def _imports():
    global jax, jnp, np, eqx, geo, Scene, Tile
    if "Scene" in globals():
        return
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import numpy as np
    from differt2d import geometry as geo
    from differt2d.scene import Scene

    class Tile(geo.Wall):
        """A user's own object, with data of its own."""

        gain: jax.Array = eqx.field(converter=jnp.asarray, default_factory=lambda: jnp.array(0.0))
        tag: str = eqx.field(default="", static=True)


def nums(x):
    return [nums(y) for y in x] if isinstance(x, list) else x / 1000


def build(o):
    k, v = o["k"], [jnp.asarray(nums(x), dtype=jnp.float32) for x in o["leaves"]]
    if k in "PV":
        return (geo.Point if k == "P" else geo.Vertex)(xy=v[0])
    if k == "W":
        return geo.Wall(xys=v[0])
    if k == "R":
        return geo.RIS(xys=v[0], phi=v[1])
    if k == "T":
        return Tile(xys=v[0], gain=v[1], tag="mine")
    return geo.Path(xys=v[0], loss=v[1])


def ints(a):
    a = np.asarray(a, dtype=np.float64) * 1000
    a = np.where(np.isfinite(a), a, 2.0**29)
    return np.rint(a).astype(int).tolist()


def show(o):
    k = {"Point": "P", "Vertex": "V", "Wall": "W", "RIS": "R", "Path": "H", "Tile": "T"}.get(type(o).__name__, type(o).__name__)
    if k == "T" and o.tag != "mine":
        k = "T without its tag"
    fields = {"P": ["xy"], "V": ["xy"], "W": ["xys"], "R": ["xys", "phi"], "T": ["xys", "gain"], "H": ["xys", "loss"]}.get(k, [])
    return {"k": k, "leaves": [ints(getattr(o, f)) for f in fields]}


def show_scene(s):
    return {"tx": [[n, show(p)] for n, p in s.transmitters.items()], "rx": [[n, show(p)] for n, p in s.receivers.items()], "objs": [show(o) for o in s.objects]}


def names(d):
    """The names of a mapping, each of which has to lead to its own value."""
    out = []
    for n, v in d.items():
        out.append(n if d[n] is v and n in d and d.get(n) is v else "wrong value")
    if len(d) != len(out) or list(d) != list(d.keys()):
        out.append("wrong length")
    try:
        d["no such name"]
        out.append("found a missing name")
    except KeyError:
        pass
    if "no such name" in d:
        out.append("claims a missing name")
    return out


def ask(s, q, m):
    """(scene afterwards, answer)."""
    os = list(s.objects)
    n = len(os)
    op = q["op"]
    jit = (lambda f: eqx.filter_jit(f)) if m == "jit" else (lambda f: f)
    if op in ("stack", "stack2"):
        if op == "stack" and q["i"] % 2 and not q["loose"]:
            return s, show(s.stacked_objects())
        ax = {} if op == "stack" and q["i"] % 3 == 0 else {"axis": 0 if op == "stack" else 1}
        return s, show(jit(lambda os: geo.stack_leaves(os, **ax))(os))
    if op == "through":
        return s, [show(o) for o in jit(lambda os: geo.unstack_leaves(geo.stack_leaves(os)))(os)]
    if op == "part":
        st = geo.stack_leaves(os)
        return s, show(jax.tree_util.tree_map(lambda x: x[q["i"] % n], st))
    if op == "from_stack":
        return Scene.from_stacked_objects(s.stacked_objects()), []
    if op == "from_walls":
        a = jnp.stack([o.xys for o in os]) if os else jnp.zeros((0, 2, 2))
        return Scene.from_walls_array(a), []
    if op == "get":
        i = q["i"]
        if m == "jit":
            return s, show(jax.jit(lambda s, i: s.get_object(i))(s, jnp.array(i)))
        return s, show(s.get_object(i if i % 2 else jnp.array(i)))
    if op == "interact":
        c = jnp.array(q["c"], dtype=jnp.int32)
        return s, [show(o) for o in s.get_interacting_objects(c)]
    if op == "rebuild":
        leaves, tree = jax.tree_util.tree_flatten(s)
        return jax.tree_util.tree_unflatten(tree, leaves), []
    if op == "pass":
        return (jax.jit(lambda s: s)(s) if m == "jit" else eqx.combine(*eqx.partition(s, eqx.is_array))), []
    if op == "raise":
        return jit(lambda s: jax.tree_util.tree_map(lambda x: x + 1, s))(s), []
    if op == "names":
        names(s.receivers)
        return s, names(s.transmitters)
    if op == "pairs":
        out = []
        for (a, t), (b, r) in s.all_transmitter_receiver_pairs():
            out.append([a if s.transmitters[a] is t else "wrong", b if s.receivers[b] is r else "wrong"])
        return s, out
    if op == "add":
        return s.with_objects(*os, build(q["o"])) if not q["loose"] else with_objs(s, [*os, build(q["o"])]), []
    if op == "drop":
        return with_objs(s, os[:-1]), []
    return with_objs(s, os[1:] + os[:1]), []


def with_objs(s, os):
    return eqx.tree_at(lambda s: s.objects, s, os, is_leaf=lambda x: isinstance(x, list))


LOOSE = ("stack", "stack2", "through", "part", "drop", "turn", "add")


def run(inp):
    _imports()
    f = inp["first"]
    memo = {}
    # equal objects may also be one and the same
    one = lambda o: memo.setdefault(json.dumps(o), build(o)) if inp["share"] else build(o)
    s = Scene(transmitters={n: build(o) for n, o in f["tx"]}, receivers={n: build(o) for n, o in f["rx"]}, objects=[one(o) for o in f["objs"]])
    g = random.Random(inp["pick"])
    hist = []
    for h in inp["hist"]:
        op, n = h["op"], len(s.objects)
        if inp["loose"] and op not in LOOSE:
            op = LOOSE[h["i"] % len(LOOSE)]
        if op == "from_walls" and not all(isinstance(o, geo.Wall) for o in s.objects):
            op = "names"
        if op == "add" and n > 13:
            op = "drop"
        q = {"op": op, "i": h["i"], "c": [x % n for x in h["c"]] if n else [], "o": obj(g, g.choice(inp["kinds"])), "loose": inp["loose"]}
        e = {"q": q, "m": h["m"]}
        try:
            t, e["out"] = ask(s, q, h["m"])
            s = t
        except (TypeError, ValueError):
            e["no"] = 1
        e["scene"] = show_scene(s)
        hist.append(e)
    return {"first": f, "hist": hist}


# --------------------------------------------------------------------- inputs

NAMES = ["tx", "rx", "z", "a", "M", "b2", "a1", "tx_0", "é"]


def obj(g, k):
    pt = lambda: [g.randint(-40, 40) * 250 for _ in range(2)]
    n = lambda: g.randint(-40, 40) * 125
    if k in "PV":
        return {"k": k, "leaves": [pt()]}
    if k == "W":
        return {"k": k, "leaves": [[pt(), pt()]]}
    if k == "H":
        return {"k": k, "leaves": [[pt() for _ in range(g.choice([2, 3, 3]))], n()]}
    return {"k": k, "leaves": [[pt(), pt()], n()]}


def gen(seed, hists):
    for n, h in enumerate(hists):
        g = random.Random(f"objects{seed}-{n}")
        loose = g.random() < 0.15
        if loose:
            kinds = [g.choice("HHP")]
        elif g.random() < 0.6:
            kinds = [g.choice("WWRVT")]
        else:
            kinds = list(g.choice(["WR", "WV", "WRV", "RV", "WT", "WRVT"]))
        named = lambda m: [[x, obj(g, g.choice("PPPV"))] for x in g.sample(NAMES, m)]
        objs = [obj(g, g.choice(kinds)) for _ in range(g.choice([0, 1, 2, 3, 4, 4, 9, 12]))]
        if objs and g.random() < 0.3:
            objs.insert(g.randrange(len(objs) + 1), g.choice(objs))
        yield {"first": {"tx": named(g.choice([0, 1, 2, 3])), "rx": named(g.choice([0, 1, 2, 4])),
                         "objs": objs},
               "hist": h["hist"], "loose": loose, "kinds": kinds, "pick": f"{seed}-{n}", "share": g.random() < 0.5}
