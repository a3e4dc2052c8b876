"""C09-C11, C24: histories, threads, flags, caches."""

from vf import core
from vf.canary import canary, several
from vf.checks import check


def batches(ck, thorough, limit=420):
    """Seeds of the batches to run: one when quick."""
    import time

    t0 = time.time()
    for k in range(1 if ck.quick() else thorough):
        yield ck.seed + 1000 * k
        if time.time() - t0 > limit:
            break


@check("C09")
def c09(ck):
    ck.model("MCSceneEdits", f"""SPECIFICATION Spec
CONSTANTS MaxScenes = {4 if ck.quick() else 5}
Edits <- MCEdits
INVARIANT UniqueNames
PROPERTIES Persistent Frame
CHECK_DEADLOCK FALSE
""", "every tree of derived scenes from 12 representative edits")

    def lose(c, k):
        s = c["seen"][k]
        s["objs"] = s["objs"][1:]
        c["final"][k] = s

    def swap(c, p):
        k, side = p
        s = c["seen"][k]
        s[side] = s[side][::-1]
        c["final"][k] = s

    for s in batches(ck, 12):
        depth = 9
        hists = core.generate(ck.scratch, "GenSceneEdits", f"""SPECIFICATION GenSpec
CONSTANTS MaxScenes = {depth}
Edits = {{}}
INVARIANT Dump
CHECK_DEADLOCK FALSE
""", 400 if ck.quick() else 1500, depth, s)
        ck.conform("edits", "SceneEditsTrace", [{"hist": h, "grp": k % 32} for k, h in enumerate(hists)],
                   consts={"Edits": "{}", "MaxScenes": "0"}, canary=several(
            canary("object lost", lambda r: [k for k, s in enumerate(r["seen"]) if s["objs"]], lose),
            canary("order", lambda r: [(k, side) for k, s in enumerate(r["seen"]) for side in ("tx", "rx")
                                       if len(s[side]) > 1], swap),
            canary("original changed", lambda r: list(range(len(r["final"]) - 1)),
                   lambda c, k: c["final"][k].update(tx=c["final"][k]["tx"] + [["q", 1]])),
            canary("data of the subclass", lambda r: list(range(len(r["seen"]))),
                   lambda c, k: c["seen"][k].update(tag=-1)),
        ))


@check("C10")
def c10(ck):
    from vf import approx

    for t, ops, nest in ((2, 3, 2),) if ck.quick() else ((2, 4, 2), (3, 2, 2)):
        ck.model("ApproxScope", f"""SPECIFICATION Spec
CONSTANTS Threads = {{{", ".join(map(str, range(1, t + 1)))}}} MaxOps = {ops} MaxDepth = {nest} SaveFirst = FALSE
INVARIANTS BodySeesItsOwn Serializable LockOk
PROPERTIES RefinesOps AllDone
CHECK_DEADLOCK FALSE
""", "lock, save, assign, restore, release as separate steps: refines one action per call")

    def flip(c, k):
        c["seen"][k] = 1 - c["seen"][k]

    def flip_read(c, p):
        t, k = p
        c["seen"][t][k] = 1 - c["seen"][t][k]

    def final(c, _):
        c["final"] = 1 - c["final"]

    def exits(r, op):
        return [k for k, e in enumerate(r.get("hist", [])) if e["op"] == op]

    def reads(r):
        if r["kind"] != "free":
            return []
        return [(t, k) for t, p in enumerate(r["prog"]) for k, e in enumerate(p) if e["op"] == "read"]

    for s in batches(ck, 8):
        hists = core.generate(ck.scratch, "GenApprox", """SPECIFICATION GenSpec
CONSTANTS Threads = {1, 2, 3} Depth = 24 MaxNest = 4
INVARIANT Dump
CHECK_DEADLOCK FALSE
""", 150 if ck.quick() else 600, 25, s)
        inputs = [{"kind": "replay", "light": k % 4 != 0, **h} for k, h in enumerate(hists)]
        inputs += list(approx.gen(s, ck.quick()))
        ck.conform("approx", "ApproxTrace", inputs, consts={"Threads": "{1, 2, 3}"}, canary=several(
            canary("not restored", lambda r: exits(r, "exit"), flip),
            canary("not in force", lambda r: exits(r, "enter"), flip),
            canary("read in another order", reads, flip_read, n=40),
            canary("final", lambda r: [0] if r["kind"] == "free" else [], final, n=40),
            canary("environment", lambda r: [0] if r["kind"] == "env" else [],
                   lambda c, _: c.update(flag=1 - c["flag"])),
        ))


@check("C12")
def c12(ck):
    from vf import logicd

    values = "{0}"
    for depth, width in ((2, 2),) if ck.quick() else ((2, 2), (3, 1)):
        ck.model("MCLogic", f"""SPECIFICATION Spec
CONSTANTS Regs = {{1, 2, 3}} Width = {width} Depth = {depth}
Values <- MCValues
INVARIANTS DeMorgan Lattice Distributes Reductions Agree Range Monotone
CHECK_DEADLOCK FALSE
""", "the laws of logic in every state of the register machine")

    def wrong(c, p):
        k, i = p
        o = c["seen"][k]["v"][i]
        o["v"] = 1000000 - o["v"]
        o["i"] = -o["i"]

    def kind(c, k):
        c["seen"][k]["b"] = 1 - c["seen"][k]["b"]

    def places(*ops):
        def pick(r):
            if r["kind"] != "machine":
                return []
            return [(k, i) for k, e in enumerate(r["hist"]) if e["op"] in ops
                    for i, o in enumerate(r["seen"][k]["v"]) if abs(2 * o["v"] - 1000000) > 10000]
        return pick

    of = lambda *kinds: lambda r: [0] if r["kind"] in kinds else []
    for s in batches(ck, 14):
        hists = core.generate(ck.scratch, "GenLogic", """SPECIFICATION GenSpec
CONSTANTS Regs = {1, 2, 3} Width = 4 Depth = 12
Values <- GenValues
INVARIANT Dump
CHECK_DEADLOCK FALSE
""", 400 if ck.quick() else 2500, 13, s)
        inputs = list(logicd.machines(s, hists)) + list(logicd.rest(s, 1200 if ck.quick() else 6000))
        ck.conform("logicd", "LogicTrace", inputs,
                   consts={"Regs": "{1, 2, 3}", "Width": "4", "Values": values}, canary=several(
            canary("comparison", places(*logicd.CMPS), wrong),
            canary("connective", places("not", "and", "or"), wrong),
            canary("reduction", places("all", "any", "allof", "anyof"), wrong),
            canary("kind", lambda r: list(range(len(r["seen"]))) if r["kind"] == "machine" else [], kind),
            canary("axes", of("reduce"), lambda c, _: c["out"].__setitem__(0, c["out"][0] + 500000)),
            canary("tolerance", of("test"), lambda c, _: c.update(out=1000000 - c["out"])),
            canary("activation", of("act"), lambda c, _: c["out"][0].update(v=c["out"][0]["v"] + 2000, i=c["out"][0]["i"] + 900), n=20),
            canary("constant", of("const"), lambda c, _: c.update(out=1000000 - c["out"])),
        ))
