"""Driver: the minimizers (C15)."""

import random

from vf.lat import enc


def _imports():
    global jax, jnp, np, optax, opt
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optax
    from differt2d import optimize as opt


def q(v):
    return v[0] / v[1]


def arr(vs):
    return jnp.array([q(v) for v in vs])


def optimizer(p):
    lr, mu, n = q(p["lr"]), q(p["mu"]), p["name"]
    if n == "adam":
        return None if p["default"] else optax.adam(lr)
    if n == "sgd":
        return optax.sgd(lr)
    if n in ("heavy", "nesterov"):
        return optax.sgd(lr, momentum=mu, nesterov=n == "nesterov")
    if n == "clip":
        return optax.chain(optax.clip(mu), optax.sgd(lr))
    return optax.sgd(lambda count: jnp.where(count >= p["b"], lr / 2, lr))


def run_steps(inp):
    o = inp["o"]
    a, c, li, d = arr(o["a"]), arr(o["c"]), arr(o["l"]), jnp.float32(q(o["d"]))
    x0 = arr(inp["x0"])
    kw = {}
    if inp["steps"] != 100 or inp["say"]:
        kw["steps"] = inp["steps"]
    t = optimizer(inp["p"])
    if t is not None:
        kw["optimizer"] = t
    if inp["args"] == "none":
        f, args = lambda x: jnp.sum(a * (x - c) ** 2 + li * x) + d, None
    elif inp["args"] == "one":
        f, args = lambda x, c: jnp.sum(a * (x - c) ** 2 + li * x) + d, (c,)
    else:
        f, args = lambda x, c, d=9.0, l2=5.0: jnp.sum(a * (x - c) ** 2 + l2 * x) + d, (c, d, li)
    if inp["fjit"]:
        f = jax.jit(f)
    if args is not None:
        kw["args"] = args
    if inp["mode"] == "eager":
        x, y = opt.minimize(f, x0, **kw)
    elif inp["mode"] == "jit":
        x, y = jax.jit(lambda x0: opt.minimize(f, x0, **kw))(x0)
    else:
        x, y = jax.vmap(lambda x0: opt.minimize(f, x0, **kw))(jnp.stack([x0 + 3, x0, x0 - 1]))
        x, y = x[1], y[1]
    return {"kind": "steps", "o": o, "p": inp["p"], "x0": inp["x0"], "steps": inp["steps"],
            "x": [enc(v, 10**6) for v in x], "loss": enc(y, 10**5), "shape": list(y.shape)}


def run_many(inp):
    cs = jnp.array([w["c"] for w in inp["ws"]]) / 1e6
    ds = jnp.array([w["d"] for w in inp["ws"]]) / 1e6
    n = len(inp["ws"][0]["c"])
    mk = jax.random.key if inp["newkey"] else jax.random.PRNGKey

    def plain(x, *s):
        v = jnp.sum((x - cs) ** 2, axis=1) + ds
        return jnp.min(v) + (s[0] if s else 0.0)

    def go(key, steps, seen=None):
        def f(x, *s):
            jax.debug.callback(lambda v: seen.append(tuple(enc(u, 10**6) for u in np.asarray(v))), x)
            return plain(x, *s)

        kw = {"steps": steps, "optimizer": optax.sgd(0.25)}
        if inp["args"]:
            kw["args"] = (jnp.array(0.0),)
        fun = plain if seen is None else f
        if inp["single"]:
            r = opt.minimize_random_uniform(fun, mk(key), n, **kw)
        elif inp["many"] == 10 and not inp["say"]:
            r = opt.minimize_many_random_uniform(fun, mk(key), n, **kw)
        else:
            r = opt.minimize_many_random_uniform(fun, n=n, key=mk(key), many=inp["many"], **kw)
        jax.block_until_ready(r)
        jax.effects_barrier()
        return [enc(v, 10**6) for v in r[0]], enc(r[1], 10**6)

    starts = []
    go(inp["key"], 0, starts)
    x, loss = go(inp["key"], inp["steps"])
    return {"kind": "many", "ws": inp["ws"], "n": inp["many"], "steps": inp["steps"],
            "starts": [list(s) for s in sorted(set(starts))], "x": x, "loss": loss,
            "again": int(go(inp["key"], inp["steps"]) == (x, loss)),
            "other": int(go(inp["key"] + 1, 0)[0] == go(inp["key"], 0)[0])}


def run(inp):
    _imports()
    return globals()["run_" + inp["kind"]](inp)


# --------------------------------------------------------------------- inputs


def gen_steps(seed, n):
    g = random.Random(f"steps{seed}")
    for _ in range(n):
        d = g.choice([1, 1, 2, 3])
        name = g.choice(["sgd", "sgd", "heavy", "nesterov", "clip", "halving", "adam"])
        p = {"name": name, "lr": g.choice([[1, 4], [1, 8], [1, 2], [1, 16]]), "mu": [1, 2] if name != "clip" else g.choice([[1, 2], [2, 1]]),
             "b": g.randint(1, 4), "default": False}
        half = lambda lo, hi: [g.randint(2 * lo, 2 * hi), 2]
        o = {"a": [g.choice([[0, 1], [1, 2], [1, 1]]) for _ in range(d)], "c": [half(-3, 3) for _ in range(d)],
             "l": [half(-2, 2) if g.random() < 0.5 else [0, 1] for _ in range(d)], "d": half(-3, 3)}
        steps = g.choice([0, 1, 2, 3, 4, 5, 7, 9])
        if name == "adam":
            o["a"] = [[0, 1]] * d
            o["l"] = [g.choice([[1, 1], [-2, 1], [0, 1], [1, 2], [-1, 4]]) for _ in range(d)]
            if g.random() < 0.6:
                p["default"], p["lr"] = True, [1, 10]
            steps = g.choice([0, 1, 2, 5, 20, 100])
        if name == "sgd" and g.random() < 0.3:
            steps = 100
            if g.random() < 0.5:
                p["lr"] = [1, 16]
            o["l"] = [[0, 1]] * d
            o["a"] = [g.choice([[1, 2], [1, 1]]) for _ in range(d)]
        if name == "sgd" and g.random() < 0.25:
            # a slope all along: every one of many steps counts
            o["a"], p["lr"] = [[0, 1]] * d, [1, 16]
            o["l"] = [g.choice([[1, 1], [-1, 2], [2, 1], [0, 1]]) for _ in range(d)]
            steps = g.choice([40, 64, 100, 101, 257, 1000])
        yield {"kind": "steps", "o": o, "p": p, "x0": [half(-3, 3) for _ in range(d)], "steps": steps, "say": g.random() < 0.3,
               "args": g.choice(["none", "one", "all"]), "fjit": g.random() < 0.2, "mode": g.choice(["eager", "eager", "jit", "vmap"])}


def gen_many(seed, n):
    g = random.Random(f"many{seed}")
    for _ in range(n):
        d = g.choice([1, 1, 2])
        k = g.choice([2, 3, 4])
        single = g.random() < 0.2
        yield {"kind": "many", "ws": [{"c": [g.randint(-200, 1200) * 1000 for _ in range(d)], "d": g.randint(-60, 60) * 5000} for _ in range(k)],
               "many": 1 if single else g.choice([1, 2, 3, 5, 10, 10, 24]), "single": single, "steps": g.choice([0, 1, 2, 3, 6]),
               "key": g.randrange(10**6), "newkey": g.random() < 0.3, "say": g.random() < 0.5, "args": g.random() < 0.4}
