"""Driver: plotting scenes and their parts (C22)."""

import random

COLORS = ["red", "blue", "green", "orange", "black", "yellow", "purple", "cyan"]
MARKERS = ["o", "s", "^", "D"]
STYLES = ["-", "--", ":", "-."]


def _imports():
    global jax, jnp, np, geo, plt, mcolors, mcoll, Scene
    import jax
    import jax.numpy as jnp
    import matplotlib.collections as mcoll
    import matplotlib.colors as mcolors
    import matplotlib.pyplot as plt
    import numpy as np
    from differt2d import geometry as geo
    from differt2d.scene import Scene


def f4(ps):
    return jnp.array([[x / 1000 for x in p] for p in ps])


def build(e):
    k, ps = e["k"], f4(e["pts"])
    if k == "M":
        return USER["M"](xy=ps[0])
    if k == "U":
        return USER["U"](xys=ps)
    if k in "PV":
        return (geo.Point if k == "P" else geo.Vertex)(xy=ps[0])
    if k == "H":
        return geo.Path(xys=ps)
    return {"W": geo.Wall, "R": geo.RIS, "Y": geo.Ray}[k](xys=ps)


USER = {}


def written():
    """A point and an object a user wrote, whose drawings carry the positional arguments they were given."""
    class Mast(geo.Point):
        def plot(self, ax, *args, **kwargs):
            got = super().plot(ax, **kwargs)
            got[0].set_gid(list(args))
            return got

    class Fence(geo.Wall):
        def plot(self, ax, *args, **kwargs):
            got = super().plot(ax, **kwargs)
            got[0].set_gid(list(args))
            return got

    USER.update(M=Mast, U=Fence)


def kwargs(st, point, line=True):
    kw = {}
    if st["color"]:
        kw["color"] = st["color"]
    if st["marker"]:
        kw["marker"] = st["marker"]
    if st["line"]:
        kw["linestyle"] = st["line"]
    if st["width"] != -1:
        kw["linewidth"] = st["width"] / 100
    if st["z"] != -1:
        kw["zorder"] = st["z"]
    if st["alpha"] != -1:
        kw["alpha"] = st["alpha"] / 100
    if st["label"]:
        kw["label"] = st["label"]
    if point:
        if st["off"]:
            kw["annotate_offset"] = tuple(x / 1000 for x in st["off"])
        t = {}
        if st["tcolor"]:
            t["color"] = st["tcolor"]
        if st["tsize"] != -1:
            t["fontsize"] = st["tsize"]
        if t:
            kw["annotate_kwargs"] = t
    return kw


def args(st):
    return tuple(st["pos"]) + ((st["size"] / 100,) if st["size"] != -1 else ())


def color(c):
    c = np.ravel(np.asarray(mcolors.to_rgba_array(c)))[:3]
    for n in COLORS:
        if np.allclose(c, mcolors.to_rgb(n), atol=1e-6):
            return n
    return "other"


def one(v):
    v = np.ravel(v)
    return float(v[0]) if v.size == 1 and np.isfinite(v[0]) else -99.0


def r(x):
    return max(-2**29, min(2**29, round(float(x) * 1000)))


def alpha(a):
    return -1 if a.get_alpha() is None else round(100 * one(a.get_alpha()))


def label(a):
    s = str(a.get_label())
    return "" if s.startswith("_") else s


def marker(a):
    got = a.get_paths()
    if len(got) != 1:
        return "other"
    for m in MARKERS:
        if np.array_equal(REF[m].get_paths()[0].vertices, got[0].vertices):
            return m
    return "other"


def dashes(a):
    ls = a.get_linestyle()
    if len(ls) != 1:
        return "other"
    w = a.get_linewidth()
    for s in STYLES:
        ref = mcoll.PathCollection([], linestyles=s, linewidths=w).get_linestyle()[0]
        if ref[1] is None or ls[0][1] is None:
            if ref[1] is None and ls[0][1] is None:
                return s
        elif len(ref[1]) == len(ls[0][1]) and np.allclose(ref[1], ls[0][1]):
            return s
    return "other"


REF = {}


def describe(a):
    from matplotlib.lines import Line2D
    from matplotlib.text import Annotation

    base = {"pts": [], "face": "", "edge": "", "marker": "", "line": "", "width": -1, "size": -1, "z": 0, "alpha": -1, "label": "", "text": "", "off": [0, 0], "said": a.get_gid() or []}
    if isinstance(a, mcoll.PathCollection):
        xy = np.asarray(a.get_offsets())
        return dict(base, k="dot", pts=[[r(x) for x in p] for p in xy], face=color(a.get_facecolor()), edge=color(a.get_edgecolor()), marker=marker(a),
                    line=dashes(a), width=round(100 * one(a.get_linewidth())), size=round(100 * one(a.get_sizes())), z=a.get_zorder(), alpha=alpha(a), label=label(a))
    if isinstance(a, Line2D):
        m = a.get_marker()
        return dict(base, k="line", pts=[[r(x) for x in p] for p in a.get_xydata()], face=color(a.get_color()), edge=color(a.get_color()),
                    marker="" if m in ("None", None, "") else str(m), line=a.get_linestyle(), width=round(100 * a.get_linewidth()), z=a.get_zorder(), alpha=alpha(a), label=label(a))
    if isinstance(a, Annotation):
        xy = [float(x) for x in a.xy]
        to = [float(x) for x in a.get_position()]
        return dict(base, k="text", pts=[[r(x) for x in xy]], face=color(a.get_color()), edge=color(a.get_color()), size=round(a.get_fontsize()), z=a.get_zorder(),
                    text=a.get_text(), off=[r(t - x) for t, x in zip(to, xy)])
    return dict(base, k=type(a).__name__)


def state(s):
    leaves, tree = jax.tree_util.tree_flatten(s)
    names = (list(s.transmitters), list(s.receivers))
    return [np.asarray(x).tobytes() for x in leaves], str(tree), names, [type(o).__name__ for o in s.objects]


def run(inp):
    if not REF:
        _imports()
        written()
        fig, ax = plt.subplots()
        for m in MARKERS:
            REF[m] = ax.scatter(0, 0, marker=m)
        plt.close(fig)
    scenes = [Scene(transmitters={e["name"]: build(e) for e in s["tx"]}, receivers={e["name"]: build(e) for e in s["rx"]}, objects=[build(e) for e in s["objs"]])
              for s in inp["scenes"]]
    fig, axs = plt.subplots(1, 2)
    before = [len(a._children) if hasattr(a, "_children") else 0 for a in axs]
    out = []
    try:
        for h in inp["hist"]:
            e = dict(h)
            ax, sc = axs[e["a"] - 1], scenes[e["s"] - 1]
            old = state(sc)
            o = e["o"]
            try:
                if e["t"] == "scene":
                    kw = {}
                    for k, v in (("transmitters", o["tx"]), ("objects", o["ob"]), ("receivers", o["rx"]), ("annotate", o["named"])):
                        if not v or h["say"]:
                            kw[k] = bool(v)
                    for k, st, pt in (("transmitters", o["txk"], True), ("objects", o["obk"], False), ("receivers", o["rxk"], True)):
                        d, a = kwargs(st, pt), args(st)
                        if d or h["say"]:
                            kw[k + "_kwargs"] = d
                        if a or h["say"]:
                            kw[k + "_args"] = a
                    given = {k: (dict(v) if isinstance(v, dict) else v) for k, v in kw.items()}
                    got = sc.plot(ax, *args(o["all"]), **kw, **kwargs(o["all"], False))
                    if given != kw:
                        e["same"] = 0
                else:
                    el = e["elem"]
                    kw = kwargs(o["st"], el["k"] in "PVM")
                    if el["k"] in "PVM" and o["named"]:
                        kw["annotate"] = el["name"]
                    got = build(el).plot(ax, *args(o["st"]), **kw)
            except Exception as x:
                e["err"] = f"{type(x).__name__}"
                out.append(e)
                break
            got = list(got)
            kids = [[c for c in a.get_children() if c in a._children] for a in axs]
            e["now"] = [len(c) for c in kids]
            e["at"] = [next((i + 1 for i, c in enumerate(kids[e["a"] - 1]) if c is g), 0) for g in got]
            e["got"] = [describe(g) for g in got]
            e["same"] = e.get("same", 1) if state(sc) == old else 0
            out.append(e)
    finally:
        plt.close(fig)
    return {"scenes": inp["scenes"], "hist": out, "before": before}


# --------------------------------------------------------------------- inputs

NAMES = ["tx", "rx", "tx_0", "a", "B", "router", "x y"]


def scene(g):
    pt = lambda: [g.randint(-8, 24) * 250 for _ in range(2)]
    n = g.choice([0, 1, 1, 2, 3])
    vertices = g.random() < 0.4
    written = [g.random() < 0.4 for _ in range(3)]
    points = lambda m, w: [{"k": "M" if w else g.choice("PPPV"), "name": x, "pts": [pt()]} for x in g.sample(NAMES, m)]
    objs = []
    for _ in range(g.choice([0, 1, 2, 3, 4])):
        k = g.choice("WWRV" if vertices else "WWR")
        k = "U" if written[1] else k
        objs.append({"k": k, "name": "", "pts": [pt() for _ in range(1 if k == "V" else 2)]})
    return {"tx": points(n, written[0]), "objs": objs, "rx": points(g.choice([0, 1, 2, 3]), written[2])}, written


def element(g):
    pt = lambda: [g.randint(-8, 24) * 250 for _ in range(2)]
    k = g.choice("PVWRYHMU")
    n = {"P": 1, "V": 1, "M": 1, "H": g.choice([2, 3, 5])}.get(k, 2)
    return {"k": k, "name": g.choice(NAMES), "pts": [pt() for _ in range(n)]}


def gen(seed, hists):
    for n, h in enumerate(hists):
        g = random.Random(f"plot{seed}-{n}")
        hist = []
        made = [scene(g) for _ in range(2)]
        for e in h["hist"]:
            e = dict(e, say=g.random() < 0.3)
            o = dict(e["o"])
            if e["t"] == "one":
                e["elem"] = element(g)
                k, st = e["elem"]["k"], dict(o["st"])
                if k not in "PVM":      # these are settings of points
                    st.update(marker="", size=-1, off=[], tcolor="", tsize=-1)
                st.update({"size": -1} if k in "MU" else {"pos": []})
                o["st"] = st
            else:
                # Only what a user wrote takes words as positional arguments.
                written = made[e["s"] - 1][1]
                for name, w in zip(("txk", "obk", "rxk"), written):
                    o[name] = dict(o[name], **({"size": -1} if w else {"pos": []}))
                if not all(w for w, shown in zip(written, (o["tx"], o["ob"], o["rx"])) if shown):
                    o["all"] = dict(o["all"], pos=[])
            hist.append(dict(e, o=o))
        yield {"scenes": [m[0] for m in made], "hist": hist}
