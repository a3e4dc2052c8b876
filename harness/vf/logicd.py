"""Driver: the logic toolbox (C12)."""

import math
import random

CMPS = ("greater", "greater_equal", "less", "less_equal")


def _imports():
    global jax, jnp, np, logic
    import jax
    import jax.numpy as jnp
    import numpy as np
    from differt2d import logic


def linear(x, alpha):
    return jnp.clip(0.5 + alpha * x / 10, 0.0, 1.0)


def q(x):
    return x[0] / x[1]


def isbool(a):
    return int(np.asarray(a).dtype == np.bool_)


def see(a):
    out = []
    for v in np.ravel(np.asarray(a)):
        v = float(v)
        if v != v:
            out.append({"v": -1, "i": 0})
            continue
        i = 8000 if v >= 1 else -8000 if v <= 0 else max(-8000, min(8000, round(1000 * math.log(v / (1 - v)))))
        out.append({"v": round(max(-1.0, min(2.0, v)) * 10**6), "i": i})
    return out


class Mode:
    """How the toolbox is asked: explicit or ambient flag, activation, compiled or not."""

    def __init__(self, inp):
        self.inp = inp
        self.kw = {} if inp["ask"] == "flag" else {"approx": bool(inp["approx"])}
        self.act = {}
        if not inp.get("dalpha"):
            alpha = q(inp["alpha"]) / inp.get("scale", 1)
            self.act["alpha"] = alpha if inp.get("py", True) else jnp.float32(alpha)
        if inp["fn"] != "hard" or inp.get("sayfn"):
            self.act["function"] = {"hard": logic.hard_sigmoid, "sigmoid": logic.sigmoid, "lin": linear}[inp["fn"]]
        if inp.get("noact"):
            self.act = {}

    def __enter__(self):
        self.jit = self.cm = None
        if self.inp["ask"] == "flag":
            self.cm = logic.enable_approx(bool(self.inp["approx"]))
            self.cm.__enter__()
        else:       # what the flag says must not matter
            self.cm = logic.enable_approx(bool(self.inp["ambient"]))
            self.cm.__enter__()
        if self.inp["ask"] == "flag" or self.inp.get("nojit"):
            self.jit = jax.disable_jit()
            self.jit.__enter__()
        return self

    def __exit__(self, *a):
        if self.jit:
            self.jit.__exit__(*a)
        self.cm.__exit__(*a)


def step(m, g, e, width):
    op, kw = e["op"], m.kw
    fn = getattr(logic, {"not": "logical_not", "and": "logical_and", "or": "logical_or"}.get(op, "logical_" + op[:3]) if op not in CMPS else op)
    if op in CMPS:
        off, scale = m.inp.get("off", 0), m.inp.get("scale", 1)
        xs, ys = ([(q(v) + off) * scale for v in e[k]] for k in ("xs", "ys"))
        if m.inp.get("scalar"):
            return [fn(x, y, **kw, **m.act) for x, y in zip(xs, ys)]
        return fn(jnp.array(xs), jnp.array(ys), **kw, **m.act)
    rs = [g[k] for k in e["as"]]
    if m.inp.get("scalar"):
        if op == "not":
            return [fn(v, **kw) for v in rs[0]]
        if op in ("and", "or"):
            return [fn(v, w, **kw) for v, w in zip(rs[0], rs[-1])]
        if op in ("all", "any"):
            return [fn(*[v for r in rs for v in r], **kw)] * width
        return [fn(*[r[i] for r in rs], **kw) for i in range(width)]
    if op == "not":
        return fn(rs[0], **kw)
    if op in ("and", "or"):
        return fn(rs[0], rs[-1], **kw)
    if op in ("all", "any"):
        out = fn(*rs, **kw)
        if out.shape != ():
            raise ValueError("shape")
        return jnp.broadcast_to(out, (width,))
    return fn(*rs, axis=0, **kw)


def run_machine(inp):
    hist, width = inp["hist"], len(inp["hist"][0]["xs"])

    def go():
        g, out = {}, []
        for e in hist:
            g[e["r"]] = step(m, g, e, width)
            out.append(g[e["r"]])
        return out

    with Mode(inp) as m:
        res = jax.jit(go)() if inp.get("jit") else go()
    seen = []
    for v in res:
        if isinstance(v, list):
            b = {isbool(x) for x in v}
            seen.append({"b": b.pop() if len(b) == 1 else 2, "v": [o for x in v for o in see(x)]})
        else:
            seen.append({"b": isbool(v), "v": see(v)})
    return {"kind": "machine", "approx": inp["approx"], "fn": inp["fn"], "alpha": inp["alpha"],
            "hist": hist, "seen": seen}


def run_reduce(inp):
    k, m, n = inp["k"], inp["m"], inp["n"]
    a = np.array(inp["xs"], dtype=np.float32).reshape(k, m, n) / 64
    if not inp["approx"]:
        a = a != 0
    a = a.reshape((k, m, n)[: 3 - inp["drop"]])
    ax = [x for x in inp["ax"] if x < a.ndim]
    if inp["form"] == "default":
        kw = {}
    elif inp["form"] == "int":
        kw = {"axis": ax[0] if not inp["neg"] else ax[0] - a.ndim}
    else:
        kw = {"axis": tuple(x - a.ndim if inp["neg"] else x for x in ax)}
    with Mode(inp) as mode:
        fn = getattr(logic, "logical_" + inp["op"])
        xs = [a[i].item() if a[i].ndim == 0 and inp["py"] else jnp.asarray(a[i]) for i in range(k)]
        out = np.asarray(fn(*xs, **kw, **mode.kw))
    r = {x: inp[x] for x in ("kind", "op", "k", "m", "n", "xs", "ax", "approx")}
    sh = list(out.shape)
    return dict(r, b=isbool(out), shape=sh + [1] * (inp["drop"] if not inp["all"] else 0),
                out=[round(float(v) * 10**6) for v in np.ravel(out)])


def run_test(inp):
    x = inp["x"] / 64 if inp["approx"] else bool(inp["x"])
    if inp["arr"]:
        x = jnp.asarray([x, x])
    elif not inp["py"]:
        x = jnp.asarray(x)
    kw = {} if inp["dtol"] else {"tol": inp["tol"] / 64}
    with Mode(inp) as m:
        out = getattr(logic, inp["op"])(x, **kw, **m.kw)
        if np.asarray(out).shape != ((2,) if inp["arr"] else ()):
            raise ValueError("shape")
    return {"kind": "test", "op": inp["op"], "x": inp["x"], "tol": inp["tol"], "approx": inp["approx"],
            "b": isbool(out), "out": round(float(np.ravel(out)[0]) * 10**6)}


def run_act(inp):
    x = jnp.array([q(v) for v in inp["xs"]])
    with Mode(dict(inp, approx=1)) as m:
        if inp["via"] == "activation":
            out = logic.activation(x, **m.act)
        else:
            out = {"hard": logic.hard_sigmoid, "sigmoid": logic.sigmoid}[inp["fn"]](x, q(inp["alpha"]))
    return {"kind": "act", "xs": inp["xs"], "fn": inp["fn"], "alpha": inp["alpha"], "approx": 1, "out": see(out)}


def run_const(inp):
    with Mode(inp) as m:
        out = getattr(logic, inp["op"])(**m.kw)
        if np.asarray(out).shape != ():
            raise ValueError("shape")
    return {"kind": "const", "op": inp["op"], "approx": inp["approx"], "b": isbool(out), "out": round(float(out) * 10**6)}


def run(inp):
    _imports()
    return globals()["run_" + inp["kind"]](inp)


# --------------------------------------------------------------------- inputs

ALPHAS = [[100, 1], [1, 1], [5, 2], [1, 2], [20, 1], [1000, 1]]


def mode(g):
    fn = g.choice(["hard", "hard", "sigmoid", "sigmoid", "lin"])
    m = {"approx": g.choice([0, 1, 1]), "ask": g.choice(["flag", "arg", "arg"]), "ambient": g.choice([0, 1]),
         "nojit": g.random() < 0.5, "fn": fn, "alpha": g.choice(ALPHAS), "py": g.random() < 0.5, "sayfn": g.random() < 0.3}
    if g.random() < 0.3:
        m["alpha"], m["dalpha"] = [100, 1], True
    return m


def machines(seed, hists):
    g = random.Random(f"logic{seed}")
    for k, h in enumerate(hists):
        m = mode(g)
        m["scalar"] = g.random() < 0.2 and (m["ask"] == "arg" and not m["nojit"])
        m["jit"] = k % 12 == 0
        if not m["approx"] and g.random() < 0.5:
            m["noact"] = True
        # the same values in other units (the sharpness in their inverse), or all moved together
        if g.random() < 0.3 and not (m["approx"] and m.get("dalpha")):
            m["scale"] = g.choice([2.0**-40, 2.0**-20, 2.0**-10, 2.0**20, 2.0**50])
        if g.random() < 0.3:
            m["off"] = g.choice([1024, -1024, 8192])
        yield {"kind": "machine", "hist": h["hist"], **m}


def rest(seed, n):
    g = random.Random(f"rest{seed}")
    for i in range(n):
        m = mode(g)
        c = i % 6
        if c < 3:
            k, mm, nn = g.randint(1, 3), g.randint(1, 3), g.randint(1, 4)
            if i % 10 == 0:
                k, mm, nn = g.choice([(9, 2, 2), (17, 1, 1), (2, 12, 3), (2, 3, 33), (6, 5, 4)])
            drop = g.choice([0, 0, 1, 2])
            if drop:
                nn = 1
            if drop == 2:
                mm = 1
            nd = 3 - drop
            form = g.choice(["default", "int", "tuple"])
            ax = list(range(nd)) if form == "default" else [g.randrange(nd)] if form == "int" else sorted(g.sample(range(nd), g.randint(1, nd)))
            full = len(ax) == nd
            yield {"kind": "reduce", "op": g.choice(["all", "any"]), "k": k, "m": mm, "n": nn, "drop": drop,
                   "xs": [g.choice([0, 64]) if not m["approx"] else g.choice([0, 1, 13, 32, 63, 64]) for _ in range(k * mm * nn)],
                   "ax": [0, 1, 2] if full else ax, "all": full, "form": form, "neg": g.random() < 0.3 and form != "default", **dict(m, py=False)}
        elif c == 3:
            dtol = g.random() < 0.3
            yield {"kind": "test", "op": g.choice(["is_true", "is_false"]), "dtol": dtol, "tol": 32 if dtol else g.choice([0, 1, 8, 32, 33, 60, 64]),
                   "x": g.choice([0, 1, 3, 7, 8, 9, 31, 32, 33, 55, 56, 57, 63, 64]) if m["approx"] else g.choice([0, 64]),
                   "arr": g.random() < 0.4, **m}
        elif c == 4:
            if m["fn"] == "lin":
                m["fn"] = "hard"
            yield {"kind": "act", "via": g.choice(["activation", "activation", "direct"]),
                   "xs": [[g.randint(-60, 60), g.choice([1, 8, 64, 256])] for _ in range(8)] + [[0, 1]], **m, "py": True}
        else:
            yield {"kind": "const", "op": g.choice(["true_value", "false_value"]), **m}
