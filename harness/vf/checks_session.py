"""C11, C24: what one process answers over a long session, against SessionTrace.tla."""

from vf import core
from vf.canary import canary, several
from vf.checks import check
from vf.checks_shapes import bump
from vf.checks_state import batches

INSTS = 6


def quoted(xs):
    return "{" + ", ".join(f'"{x}"' for x in xs) + "}"


def model(ck):
    ck.model("MCSession", f"""SPECIFICATION Spec
CONSTANTS MaxNest = {2 if ck.quick() else 3}
Ops <- MCOps
Calls <- MCCalls
INVARIANTS CacheSound FlagSeen Unwinds
PROPERTIES ExplicitWins FollowsFlag FromSeen
""", "flag, contexts and the caches of compiled calls: an explicit choice always wins")


def sessions(ck, num, depth, flags, seed):
    from vf import session

    hists = core.generate(ck.scratch, "GenSession", f"""SPECIFICATION GenSpec
CONSTANTS Depth = {depth} Insts = {INSTS} MaxNest = 3 Flags = {flags}
Light = {quoted(session.LIGHT)}
Heavy = {quoted(session.HEAVY)}
Ops <- GenOps
Calls <- GenCalls
INVARIANT Dump
CHECK_DEADLOCK FALSE
""", num, depth + 1, seed)
    return list(session.gen(seed, hists))


def calls(*ops, kinds=(0, 1)):
    """Calls whose answer is determined."""
    return lambda r: [n for n, e in enumerate(r["hist"]) if e["t"] == "call" and "out" in e and e["k"] in kinds and (not ops or e["op"] in ops)]


def again(r):
    """Calls asked before in the same mode."""
    h = r["hist"]
    return [n for n in calls()(r) if any("out" in h[m] and all(h[m][x] == h[n][x] for x in ("op", "i", "k", "mode")) for m in range(n))]


def other(c, n):
    o = c["hist"][n]["out"]
    o["v"][0] = 10000 - o["v"][0]
    o["i"][0] = -o["i"][0]


def moved(c, n):
    o = c["hist"][n]["out"]
    o["v"][0] += 3000 + abs(o["v"][0]) // 100


def kind(c, n):
    o = c["hist"][n]["out"]
    o["b"][0] = 1 - o["b"][0]


def numeric(r):
    return [n for n in again(r) if r["hist"][n]["op"] in ("power", "score", "minimize", "box", "mirror", "image")]


TRUTHS = ("greater", "less", "contains", "cross", "hits", "on", "blocked", "valid", "and", "or", "not", "all", "any",
          "vertex", "vertex_hits")
NUMBERS = ("box", "minimize", "place", "param", "length", "power", "near", "far", "mirror")
COMMON = (
    canary("number", calls(*NUMBERS), moved, 10),
    canary("value", calls(*TRUTHS), other, 40),
    canary("kind", calls(*TRUTHS), kind, 10),
    canary("changed", numeric, moved, 10),
    canary("candidates", calls("cands"), lambda c, n: c["hist"][n]["out"]["c"].append([7])),
    canary("sum", calls("acc", "grid"), moved, 10),
)


@check("C11")
def c11(ck):
    model(ck)
    for s in batches(ck, 10):
        ck.conform("session", "SessionTrace", sessions(ck, 80 if ck.quick() else 300, 30, 3, s),
                   consts={"Ops": "{}", "Calls": "<- TraceCalls", "MaxNest": 9}, canary=several(
            *COMMON,
            canary("flag", lambda r: [n for n, e in enumerate(r["hist"])], lambda c, n: c["hist"][n].update(flag=1 - c["hist"][n]["flag"])),
        ))


@check("C24")
def c24(ck):
    model(ck)
    for s in batches(ck, 10):
        ck.conform("session", "SessionTrace", sessions(ck, 80 if ck.quick() else 300, 30, 1, s + 500),
                   consts={"Ops": "{}", "Calls": "<- TraceCalls", "MaxNest": 9}, canary=several(*COMMON))
