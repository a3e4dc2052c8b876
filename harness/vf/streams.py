"""Driver: lazy results pulled in any order (C29)."""

import contextlib
import random
import threading


def _imports():
    global jax, jnp, np, eqx, geo, logic, Scene, Plan
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import numpy as np
    from differt2d import geometry as geo
    from differt2d import logic
    from differt2d.scene import Scene

    class Plan(geo.Path):
        """A user's path method whose validity is known from the numbers of the scene."""

        mark: jax.Array = eqx.field(converter=jnp.asarray, default_factory=lambda: jnp.array(0.0))

        @classmethod
        def from_tx_objects_rx(cls, tx, objects, rx, *, key=None):
            tx = tx.xy if isinstance(tx, geo.Point) else tx
            rx = rx.xy if isinstance(rx, geo.Point) else rx
            mark = jnp.array(0.0) if key is None else jax.random.uniform(key)
            return cls(xys=jnp.vstack([tx, *[jnp.zeros(2)] * len(objects), rx]), mark=mark)

        def is_valid(self, objects, path_candidate, interacting_objects, approx=None, salt=0, **kwargs):
            v = jnp.mod(self.xys[0, 0] + 2 * self.xys[-1, 0] + 3 * weigh(interacting_objects) + 5 * len(objects) + salt, 5)
            return v / 4 if approx else v >= 2


def num(o):
    return o.xy[0] if isinstance(o, geo.Vertex) else o.xys[0, 0]


def weigh(objects):
    return sum(((i + 1) * num(o) for i, o in enumerate(objects)), jnp.array(0.0))


def fun(tx, rx, path, objects, b=0):
    return 100 * tx.xy[0] + 10 * rx.xy[0] + weigh(objects) + len(objects) + b


def pt(x):
    return geo.Point(xy=jnp.array([x, 0.0]))


def obj(o):
    return geo.Vertex(xy=jnp.array([o[1], 0.0])) if o[0] == "V" else geo.Wall(xys=jnp.array([[o[1], 0.0], [o[1], 1.0]]))


def whole_number(x):
    x = np.asarray(x, dtype=float)
    return int(round(float(x))) if x.shape == () and np.isfinite(x) and abs(x) < 2**30 and abs(x - round(float(x))) < 1e-3 else -1


def request(scene, r, key, **more):
    """The stream (or the total) of a request."""
    if r["kind"] == "pairs":
        return scene.all_transmitter_receiver_pairs()
    kw = {"path_cls": Plan, "approx": bool(r["approx"]), "salt": r["salt"], **window(r), **more}
    if key is not None:
        kw["key"] = jax.random.PRNGKey(key)
    if r["kind"] == "paths":
        return scene.all_paths(**kw)
    if r["kind"] == "found":
        return scene.all_valid_paths(**kw)
    if r["b"]:
        kw["fun_kwargs"] = {"b": r["b"]}
    if r["kind"] == "acc":
        return scene.accumulate_over_paths(fun, **kw)
    X = jnp.array([r["cells"]], dtype=float)
    f = scene.accumulate_on_receivers_grid_over_paths if r["kind"] == "rxgrid" else scene.accumulate_on_transmitters_grid_over_paths
    return f(X, jnp.zeros_like(X), fun, **kw)


def window(r):
    kw = {"min_order": r["lo"], "max_order": r["hi"]}
    if r["filt"] != 2:
        kw["filter_objects"] = lambda o: int(num(o)) % 2 == r["filt"]
    return kw


def flat(Z):
    return [whole_number(4 * z) for z in np.ravel(Z)]


def entry(kind, e):
    cand = lambda c: [int(i) for i in np.asarray(c)]
    if kind == "pairs":
        return [e[0][0], e[1][0]], None
    if kind == "paths":
        return [e[0], e[1], whole_number(4 * np.asarray(e[2])), cand(e[4])], round(float(e[3].mark) * 10**6)
    if kind == "found":
        return [e[0], e[1], cand(e[3])], round(float(e[2].mark) * 10**6)
    if kind == "acc":
        return [e[0], e[1], whole_number(4 * e[2])], None
    return [e[0], flat(e[1])], None


def pull(st, n):
    got, marks, over = [], [], 0
    for _ in range(n):
        try:
            e = next(st["it"]) if st["it"] is not None else None
        except StopIteration:
            e = None
        if e is None:
            over = 1
            break
        g, m = entry(st["kind"], e)
        got.append(g)
        if m is not None:
            marks.append(m)
    return got, over, marks


class Stuck(Exception):
    """A pull that never comes back."""


STUCK = []


def threaded(*fs, wait=20):
    out, bad = [None] * len(fs), []

    def job(i, f):
        try:
            out[i] = f()
        except Exception as x:  # noqa: BLE001
            bad.append(x)

    ts = [threading.Thread(target=job, args=(i, f), daemon=True) for i, f in enumerate(fs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(wait)
    if any(t.is_alive() for t in ts):
        STUCK.append(1)
        raise Stuck
    if bad:
        raise bad[0]
    return out


def run(inp):
    _imports()
    return threaded(lambda: replay(inp), wait=60)[0]


def replay(inp):
    scenes = [Scene(transmitters={n: pt(x) for n, x in s["tx"]}, receivers={n: pt(x) for n, x in s["rx"]}, objects=[obj(o) for o in s["objs"]])
              for s in inp["scenes"]]
    open_, out = {}, []
    try:
        if STUCK:
            raise Stuck
        for n, h in enumerate(inp["hist"], 1):
            e = dict(h)
            out.append(e)
            try:
                step(e, n, scenes, open_)
                e["flag"] = int(bool(logic.ENABLE_APPROX))
            except Exception as x:  # noqa: BLE001
                e["err"] = type(x).__name__
                break
    finally:
        if not STUCK:
            threaded(lambda: logic.set_approx(False))
    return {"scenes": inp["scenes"], "hist": out}


def step(e, n, scenes, open_):
    t = e["t"]
    if t == "open":
        sc, r = scenes[e["s"] - 1], e["r"]
        key = e["key"] if r["kind"] in ("paths", "found") and e["key"] >= 0 else None
        e["cands"] = [[int(i) for i in np.asarray(c)] for c in sc.all_path_candidates(**window(r))]
        e["alone"] = []
        if key is not None and e["check"]:
            e["alone"] = pull({"it": iter(request(sc, r, key)), "kind": r["kind"]}, 10**6)[2]
        open_[n] = {"it": iter(request(sc, r, key)), "kind": r["kind"]}
    elif t == "take":
        def f():
            with logic.enable_approx(e["th"] == 3) if e["th"] > 1 else contextlib.nullcontext():
                return pull(open_[e["i"]], e["n"])

        e["got"], e["over"], e["marks"] = threaded(f)[0] if e["th"] == 1 else f()
    elif t == "race":
        two = [open_[e["i"]]] + ([open_[e["j"]]] if e["i"] != e["j"] else [])
        got = threaded(*[lambda s=s: pull(s, e["n"]) for s in two])
        e["got"], e["over"], e["marks"] = got[0]
        e["got2"], e["over2"], e["marks2"] = got[-1]
    elif t == "drop":
        open_[e["i"]]["it"] = None
    elif t == "whole":
        sc, r = scenes[e["s"] - 1], e["r"]
        e["cands"] = [[int(i) for i in np.asarray(c)] for c in sc.all_path_candidates(**window(r))]
        e["got"] = flat(request(sc, r, None, reduce_all=True))
    elif t == "flag":
        threaded(lambda: logic.set_approx(bool(e["x"])))
    else:
        sc, x, name = scenes[e["s"] - 1], float(e["x"]), e["name"]
        scenes[e["s"] - 1] = {
            "tx": lambda: sc.update_transmitters(**{name: pt(x)}), "rx": lambda: sc.update_receivers(**{name: pt(x)}),
            "onlytx": lambda: sc.with_transmitters(**{name: pt(x)}), "onlyrx": lambda: sc.with_receivers(**{name: pt(x)}),
            "add": lambda: sc.add_objects(obj(["W", x])), "keep": lambda: sc.filter_objects(lambda o: int(num(o)) % 2 == e["x"] % 2)}[e["ed"]]()


# --------------------------------------------------------------------- inputs


def scene(g):
    ends = lambda k: [[n, g.randint(0, 9)] for n in g.sample(["a", "b", "tx", "rx"], k)]
    mixed = g.random() < 0.4
    return {"tx": ends(g.choice([0, 1, 1, 2, 3])), "rx": ends(g.choice([0, 1, 1, 2, 3])),
            "objs": [[g.choice("WV") if mixed else "W", g.randint(0, 9)] for _ in range(g.choice([0, 1, 2, 2, 3]))]}


def gen(seed, hists):
    for n, h in enumerate(hists):
        g = random.Random(f"stream{seed}-{n}")
        hist, objs = [], {}
        scenes = [scene(g) for _ in range(2)]
        for e in h["hist"]:
            if e["t"] == "edit" and e["ed"] == "add":      # keep them small
                objs[e["s"]] = objs.get(e["s"], len(scenes[e["s"] - 1]["objs"])) + 1
                if objs[e["s"]] > 4:
                    e = dict(e, t="flag", x=e["x"] % 2)
            if e["t"] == "open":
                e = dict(e, key=g.choice([None, g.randint(0, 99)]), check=g.random() < 0.5)
                if e["key"] is None:
                    e = dict(e, key=-1, check=False)
            hist.append(e)
        yield {"scenes": scenes, "hist": hist}
