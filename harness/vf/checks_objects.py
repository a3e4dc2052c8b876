"""C22, C23: what scenes hold, against DrawingTrace.tla and ObjectsTrace.tla."""

from vf import core
from vf.canary import canary, several
from vf.checks import check
from vf.checks_shapes import bump
from vf.checks_state import batches


@check("C22")
def c22(ck):
    from vf import drawing

    ck.model("MCDrawing", f"""SPECIFICATION Spec
CONSTANTS Axes = {{1, 2}} MaxPlots = {1 if ck.quick() else 2}
Scenes <- MCScenes
Options <- MCOptions
INVARIANTS Exact Added Sizes Names Apart
{"PROPERTY Ends" if ck.quick() else ""}
CHECK_DEADLOCK FALSE
""", "plots drawn element by element: every scene and option of the grid")
    arts = lambda k: lambda r: [(n, i) for n, e in enumerate(r["hist"]) for i, a in enumerate(e.get("got", [])) if a["k"] in k]

    def put(**kw):
        return lambda c, p: c["hist"][p[0]]["got"][p[1]].update(kw)

    plots = lambda r: [n for n, e in enumerate(r["hist"]) if e.get("got")]
    for s in batches(ck, 14):
        hists = core.generate(ck.scratch, "GenDrawing", """SPECIFICATION GenSpec
CONSTANTS Axes = {1, 2} Scenes = {} Options = {} MaxPlots = 0 Depth = 6 NScenes = 2
INVARIANT Dump
CHECK_DEADLOCK FALSE
""", 300 if ck.quick() else 1500, 7, s)
        ck.conform("drawing", "DrawingTrace", list(drawing.gen(s, hists)), consts={"Axes": "{}", "Scenes": "{}", "Options": "{}", "MaxPlots": 0}, canary=several(
            canary("place", arts(("dot", "line", "text")), lambda c, p: bump(c, ("hist", p[0], "got", p[1], "pts", 0, 1), 250)),
            canary("color", arts(("line", "text")), put(face="other")),
            canary("name", arts(("text",)), put(text="no one")),
            canary("layer", arts(("dot", "line")), put(z=33)),
            canary("said", lambda r: [(n, i) for n, e in enumerate(r["hist"]) for i, a in enumerate(e.get("got", [])) if len(a["said"]) > 1 and a["said"] != a["said"][::-1]],
                   lambda c, p: c["hist"][p[0]]["got"][p[1]]["said"].reverse()),
            canary("label", arts(("dot", "line")), put(label="never")),
            canary("offset", arts(("text",)), put(off=[77, 0])),
            canary("size", arts(("dot",)), put(size=1)),
            canary("not returned", plots, lambda c, n: (c["hist"][n]["got"].pop(), c["hist"][n]["at"].pop())),
            canary("not drawn", plots, lambda c, n: c["hist"][n]["at"].__setitem__(0, 0)),
            canary("left over", plots, lambda c, n: c["hist"][n]["now"].__setitem__(0, c["hist"][n]["now"][0] + 1)),
            canary("scene", plots, lambda c, n: c["hist"][n].update(same=0)),
        ))


@check("C23")
def c23(ck):
    from vf import objects

    ck.model("MCObjects", f"""SPECIFICATION Spec
CONSTANTS MaxAsked = {2 if ck.quick() else 3}
Firsts <- MCFirsts
Queries <- MCQueries
INVARIANTS LosesNothing RefusalsAreStill Found NamesStay
PROPERTY Still
CHECK_DEADLOCK FALSE
""", "stacks, scenes and lookups on trees of numbers: nothing is lost whatever is asked")
    at = lambda *ops: lambda r: [n for n, e in enumerate(r["hist"]) if e["q"]["op"] in ops and "no" not in e and e["out"]]
    held = lambda k: lambda r: [n for n, e in enumerate(r["hist"]) if len(e["scene"][k]) > 1 and e["scene"][k][0] != e["scene"][k][1]]

    def swap(k):
        def change(c, n):
            x = c["hist"][n]["scene"][k]
            x[0], x[1] = x[1], x[0]
        return change

    def number(c, n):
        v = c["hist"][n]["out"]
        v = v[0] if isinstance(v, list) else v
        v["leaves"][0] = 7

    for s in batches(ck, 14):
        hists = core.generate(ck.scratch, "GenObjects", """SPECIFICATION GenSpec
CONSTANTS Firsts = {} Queries = {} MaxAsked = 0 Depth = 12
INVARIANT Dump
CHECK_DEADLOCK FALSE
""", 320 if ck.quick() else 1500, 13, s)
        ck.conform("objects", "ObjectsTrace", list(objects.gen(s, hists)), consts={"Firsts": "{}", "Queries": "{}", "MaxAsked": 0}, canary=several(
            canary("number", at("stack", "part", "get", "through", "interact"), number),
            canary("kind", at("stack", "part", "get"), lambda c, n: c["hist"][n]["out"].update(k="Q")),
            canary("order of objects", held("objs"), swap("objs")),
            canary("order of names", held("rx"), swap("rx")),
            canary("name", at("names"), lambda c, n: c["hist"][n]["out"].__setitem__(0, "x")),
            canary("lost", at("through", "pairs", "interact"), lambda c, n: c["hist"][n]["out"].pop()),
            canary("refused", at("stack", "get"), lambda c, n: c["hist"][n].update(no=1)),
            canary("accepted", lambda r: [n for n, e in enumerate(r["hist"]) if "no" in e], lambda c, n: (c["hist"][n].pop("no"), c["hist"][n].update(out=[]))),
        ))


@check("C28")
def c28(ck):
    from vf import custom

    ck.model("MCCustom", f"""SPECIFICATION Spec
CONSTANTS N = 2 Order = {1 if ck.quick() else 2} Middle = {"TRUE" if ck.quick() else "FALSE"}
INVARIANTS Declared Crisp OwnNeverBlocks FewerNeverWorse
{"PROPERTY Concludes" if ck.quick() else ""}
CHECK_DEADLOCK FALSE
""", "the verdict on a path over objects known by their answers only: every table of answers")
    rows = lambda r: range(len(r["paths"])) if r["kind"] == "scene" else []
    sure = lambda r: [k for k in rows(r) if r["opt"]["approx"] == 0 or r["paths"][k]["truth"]["v"] in (0, 10000)]
    seqs = lambda r: [i for i in range(len(r["objs"]))] if r["kind"] == "seq" and not r["big"] else []

    def flip(c, k):
        t = c["paths"][k]["truth"]
        t["v"], t["i"] = 10000 - t["v"], -t["i"]

    for s in batches(ck, 10):
        ck.conform("custom", "CustomTrace", custom.gen(s, 220 if ck.quick() else 800), canary=several(
            canary("verdict", sure, flip, 30),
            canary("kind", rows, lambda c, k: c["paths"][k]["truth"].update(b=1 - c["paths"][k]["truth"]["b"])),
            canary("point", rows, lambda c, k: bump(c, ("paths", k, "xys", 0, 1), 40)),
            canary("loss", rows, lambda c, k: bump(c, ("paths", k, "l"), 90 + c["paths"][k]["l"] // 100)),
            canary("lost", rows, lambda c, k: c["paths"].pop(k)),
            canary("sum", lambda r: [0] if r["kind"] == "scene" and r["opt"]["fn"] == "hard" else [], lambda c, k: bump(c, ("acc",), 10**7)),
            canary("met", lambda r: [k for k in rows(r) if r["met"][k]], lambda c, k: bump(c, ("met", k, 0), 1)),
            canary("off", seqs, lambda c, i: bump(c, ("xys", i + 1, 0), 300)),
            canary("parameters", seqs, lambda c, i: c["at"][i].append(0)),
        ))


@check("C29")
def c29(ck):
    from vf import streams

    ck.model("MCStreams", f"""SPECIFICATION Spec
CONSTANTS Ids = {{1, 2}} MaxEdits = 1
Requests <- {"FewRequests" if ck.quick() else "MCRequests"}
Edits <- MCEdits
Firsts <- MCFirsts
INVARIANT Prefix
{"PROPERTIES Runs Apart" if ck.quick() else ""}
CHECK_DEADLOCK FALSE
""", "two streams over scenes that are edited meanwhile: every interleaving of their pulls")
    none = {"Ids": "{}", "Requests": "{}", "Edits": "{}", "Firsts": "{}", "MaxEdits": 0}
    pulls = lambda r: [n for n, e in enumerate(r["hist"]) if e.get("got") and e["t"] != "whole"]

    def odd(c, n):
        v = c["hist"][n]["got"][0]
        v[0] += "x"

    for s in batches(ck, 10):
        hists = core.generate(ck.scratch, "GenStreams", """SPECIFICATION GenSpec
CONSTANTS Ids = {} Requests = {} Edits = {} Firsts <- AnyFirsts MaxEdits = 0 Depth = 24 NScenes = 2
INVARIANT Dump
CHECK_DEADLOCK FALSE
""", 100 if ck.quick() else 400, 25, s)
        ck.conform("streams", "StreamsTrace", list(streams.gen(s, hists)), consts=none, canary=several(
            canary("label", pulls, odd),
            canary("order", lambda r: [n for n in pulls(r) if len(r["hist"][n]["got"]) > 1], lambda c, n: c["hist"][n]["got"].reverse()),
            canary("early end", pulls, lambda c, n: (c["hist"][n]["got"].pop(), c["hist"][n].update(over=1))),
            canary("again", pulls, lambda c, n: c["hist"][n]["got"].append(c["hist"][n]["got"][0])),
            canary("value", lambda r: [(n, k) for n in pulls(r) for k, g in enumerate(r["hist"][n]["got"]) if len(g) == 3 and isinstance(g[2], int)],
                   lambda c, p: bump(c, ("hist", p[0], "got", p[1], 2), 4)),
            canary("total", lambda r: [n for n, e in enumerate(r["hist"]) if e["t"] == "whole" and (e["r"]["kind"] == "acc" or all(s["tx"] and s["rx"] for s in r["scenes"]))],
                   lambda c, n: bump(c, ("hist", n, "got", 0), 4)),
            canary("flag", pulls, lambda c, n: c["hist"][n].update(flag=1 - c["hist"][n]["flag"])),
            canary("mark", lambda r: [n for n in pulls(r) if r["hist"][n].get("marks") and r["hist"][r["hist"][n]["i"] - 1]["alone"]],
                   lambda c, n: bump(c, ("hist", n, "marks", 0), 1)),
        ))
