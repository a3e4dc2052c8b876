"""Driver: the smoothing flag under nesting, exceptions and threads (C10)."""

import itertools
import os
import random
import subprocess
import sys
import threading

EXC = {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit,
       "StopIteration": StopIteration, "GeneratorExit": GeneratorExit}
REAL_RLOCK, REAL_LOCK = threading.RLock, threading.Lock
SCHED = None        # the running scheduler, if any


class CoopLock:
    """A lock whose waiting is visible to the scheduler."""

    def __init__(self, reentrant):
        self._reentrant = reentrant
        self._guard = REAL_LOCK()
        self._cond = threading.Condition(self._guard)
        self._owner, self._n = None, 0

    def _take(self):
        me = threading.get_ident()
        if self._owner is None or (self._reentrant and self._owner == me):
            self._owner, self._n = me, self._n + 1
            return True
        return False

    def acquire(self, blocking=True, timeout=-1):
        s = SCHED
        if s is not None and s.mine():
            while True:
                with self._guard:
                    if self._take():
                        return True
                if not blocking or timeout >= 0:
                    return False
                s.blocked(lambda: self._owner is None)
        with self._cond:
            if not blocking:
                return self._take()
            return self._cond.wait_for(self._take, None if timeout < 0 else timeout)

    def release(self):
        with self._cond:
            if self._reentrant and self._owner != threading.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._n -= 1
            if self._n == 0:
                self._owner = None
                self._cond.notify_all()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._owner is not None

    def _is_owned(self):
        return self._owner == threading.get_ident()


def _imports():
    global jax, logic
    if "logic" in globals():
        return
    import beartype  # noqa: F401
    import contextlib  # noqa: F401
    import jax
    import jax.numpy as jnp  # noqa: F401
    import jaxtyping  # noqa: F401

    threading.RLock, threading.Lock = (lambda: CoopLock(True)), (lambda: CoopLock(False))
    try:
        from differt2d import logic
    finally:
        threading.RLock, threading.Lock = REAL_RLOCK, REAL_LOCK
    FILES.add(logic.__file__)


FILES = set()


# -------------------------------------------------- doing calls in one thread


class Lost(Exception):
    pass


def scoped(o, body, k):
    """Run body() inside the context asked for by o; body raises or returns."""
    v = bool(o["v"])
    if o.get("neg"):
        cm = logic.disable_approx(not v)
    elif v and k % 2:
        cm = logic.enable_approx()
    else:
        cm = logic.enable_approx(v)
    how = o.get("how", "with")
    if how == "deco":
        cm(body)()
    elif how == "manual":
        cm.__enter__()
        try:
            body()
        except BaseException:
            if cm.__exit__(*sys.exc_info()):
                return
            raise
        else:
            cm.__exit__(None, None, None)
    else:
        with cm:
            body()


class Runner:
    """Performs ops of one thread, from an iterator, telling `done` after each."""

    def __init__(self, source, done):
        self.source, self.done, self.lost = source, done, 0

    def level(self, inside):
        """Returns at the end of the program or raises what the exit asks for."""
        pending = None
        for o in self.source:
            if o["op"] == "enter":
                self.enter(o)
            elif o["op"] == "exit":
                assert inside
                pending = EXC.get(o.get("how"))
                if pending is not None:
                    self.raised = pending("leaving")
                    raise self.raised
                self.raised = None
                return
            elif o["op"] == "set":
                logic.set_approx(bool(o["v"]))
                self.done(o)
            else:
                self.done(o)
        if inside:
            raise Lost

    def enter(self, o):
        self.raised = None

        def body():
            self.done(o)
            self.level(True)

        caught = None
        try:
            scoped(o, body, o.get("k", 0))
        except Lost:
            raise
        except BaseException as e:
            caught = e
        if caught is not self.raised:
            self.lost += 1
            if caught is not None and not type(caught) in EXC.values():
                raise caught
        self.done({"op": "exit"})


# ------------------------------------------------------------ replay, by call


def kind_of():
    """What a comparison without explicit approx gives now: 1 when smoothed."""
    import jax.numpy as jnp

    with jax.disable_jit():
        return 0 if logic.greater(2.0, 1.0).dtype == jnp.bool_ else 1


def replay(inp):
    hist = inp["hist"]
    logic.set_approx(bool(inp["first"]))
    threads = sorted({e["t"] for e in hist})
    box = {t: {"cmd": threading.Semaphore(0), "end": threading.Semaphore(0), "o": None, "seen": None}
           for t in threads}
    runners, errs = {}, []

    def main(t):
        b = box[t]

        def source():
            while True:
                b["cmd"].acquire()
                if b["o"] is None:
                    return
                yield b["o"]

        def done(o):
            f = 1 if logic.ENABLE_APPROX else 0
            b["seen"] = f if inp["light"] else (f if kind_of() == f else 2)
            b["end"].release()

        # One generator for all levels: the levels consume it in turn.
        runners[t] = Runner(source(), done)
        try:
            runners[t].level(False)
        except Lost:
            pass
        except BaseException as e:
            errs.append(repr(e)[:80])

    ths = {t: threading.Thread(target=main, args=(t,), daemon=True) for t in threads}
    for th in ths.values():
        th.start()
    seen, stuck = [], ""
    for k, e in enumerate(hist):
        o = dict(e, v=int(bool(e["v"])), neg=(k + int(inp["first"])) % 3 == 0, k=k)
        b = box[e["t"]]
        b["o"] = o
        b["cmd"].release()
        if not b["end"].acquire(timeout=20):
            stuck = f"step {k + 1}"
            break
        seen.append(b["seen"])
    for t in threads:
        box[t]["o"] = None
        box[t]["cmd"].release()
    for th in ths.values():
        th.join(5 if not stuck else 0.5)
    if errs:
        return {"err": errs[0].replace('"', "'").replace("|", "/")}
    if stuck:
        os.environ["VF_STUCK"] = "1"
    return {"kind": "replay", "first": int(inp["first"]),
            "hist": [{"t": e["t"], "op": e["op"], "v": int(bool(e["v"]))} for e in hist],
            "seen": seen, "lost": sum(r.lost for r in runners.values()), "stuck": stuck}


# --------------------------------------------------------------- forced steps


class Scheduler:
    """Exactly one thread runs; control moves at trace events only."""

    def __init__(self, n, decide, opcodes):
        self.n, self.decide, self.opcodes = n, decide, opcodes
        self.lock = threading.Condition(REAL_LOCK())
        self.turn = None
        self.state = ["new"] * n          # ready, waiting (on a lock), done
        self.cond = [None] * n
        self.ids = {}
        self.events = [0] * n
        self.stuck = ""
        self.progress = 0

    def mine(self):
        return threading.get_ident() in self.ids

    def pick(self, me, switch):
        """Called with the lock held: who runs next."""
        for t in range(self.n):
            if self.state[t] == "waiting" and self.cond[t]():
                self.state[t] = "ready"
        ready = [t for t in range(self.n) if self.state[t] == "ready"]
        if not ready:
            if any(s == "waiting" for s in self.state):
                self.stuck = "deadlock"
            self.turn = None
        elif not switch and me in ready:
            self.turn = me
        else:
            others = [t for t in ready if t != me]
            self.turn = (others or ready)[0] if self.decide is None else self.decide.other(me, others or ready)
        self.progress += 1
        self.lock.notify_all()

    def wait_turn(self, me):
        while self.turn != me:
            if self.stuck:
                raise Lost
            self.lock.wait(1.0)

    def point(self, me):
        self.events[me] += 1
        with self.lock:
            self.progress += 1
            if self.turn != me:        # resumed by the fall-back below
                self.wait_turn(me)
            if self.decide.switch(me, self.events[me]):
                self.pick(me, True)
                self.wait_turn(me)

    def blocked(self, free):
        me = self.ids[threading.get_ident()]
        with self.lock:
            self.state[me], self.cond[me] = "waiting", free
            self.pick(me, True)
            self.wait_turn(me)

    def tracer(self, me):
        def local(frame, event, arg):
            if event in ("line", "opcode"):
                self.point(me)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename not in FILES:
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            self.point(me)
            return local

        return glob

    def main(self, me, work):
        self.ids[threading.get_ident()] = me
        with self.lock:
            self.state[me] = "ready"
            self.lock.notify_all()
            self.wait_turn(me)
        sys.settrace(self.tracer(me))
        try:
            work()
        except Lost:
            pass
        finally:
            sys.settrace(None)
            with self.lock:
                self.state[me] = "done"
                self.pick(me, True)

    def run(self, works, start):
        global SCHED
        SCHED = self
        ths = [threading.Thread(target=self.main, args=(k, w), daemon=True) for k, w in enumerate(works)]
        for th in ths:
            th.start()
        with self.lock:
            while any(s == "new" for s in self.state):
                self.lock.wait(1.0)
            self.turn = start
            self.lock.notify_all()
            last, same = -1, 0
            while not all(s == "done" for s in self.state) and not self.stuck:
                self.lock.wait(0.3)
                if self.progress == last:
                    # The running thread waits for something the scheduler
                    # does not see: let another one go on.
                    same += 1
                    cand = [t for t in range(self.n) if self.state[t] == "ready" and t != self.turn]
                    if same > 6:
                        self.stuck = "no progress"
                    elif cand:
                        self.turn = cand[same % len(cand)]
                    self.lock.notify_all()
                else:
                    last, same = self.progress, 0
        for th in ths:
            th.join(0.2 if self.stuck else 10)
        SCHED = None
        return self.stuck


class At:
    """Leave thread t at its k-th event, for the (t, k) given; come back when the other ends."""

    def __init__(self, points):
        self.points = points

    def switch(self, me, k):
        return self.points.get(me) == k

    def other(self, me, ready):
        return ready[0]


class Rand:
    def __init__(self, rng, p):
        self.rng, self.p = rng, p

    def switch(self, me, k):
        return self.rng.random() < self.p

    def other(self, me, ready):
        return self.rng.choice(ready)


def one(prog, first, decide, opcodes, start):
    logic.set_approx(bool(first))
    n = len(prog)
    s = Scheduler(n, decide, opcodes)
    seen = [[] for _ in range(n)]
    runners = []
    for t in range(n):
        runners.append(Runner(iter(prog[t]),
                              lambda o, t=t: seen[t].append(int(bool(logic.ENABLE_APPROX)) if o["op"] == "read" else 0)))
    stuck = s.run([lambda t=t: runners[t].level(False) for t in range(n)], start)
    return {"kind": "free", "first": int(first),
            "prog": [[{"op": o["op"], "v": int(o.get("v", 0))} for o in p] for p in prog],
            "seen": seen, "final": int(bool(logic.ENABLE_APPROX)),
            "lost": sum(r.lost for r in runners), "stuck": stuck}, s.events


def free(inp):
    import json

    prog = inp["prog"]
    out = {}
    runs = 0

    def keep(r):
        out.setdefault(json.dumps(r, sort_keys=True), r)
        return r["stuck"]

    rng = random.Random(inp["seed"])
    for first in (0, 1):
        base, events = one(prog, first, At({}), False, 0)
        runs += 1
        if keep(base):
            break
        n = len(prog)
        if inp["mode"] == "points":
            # every single preemption, and every pair of them in two threads
            for a, b in itertools.permutations(range(n), 2):
                for k in range(1, events[a] + 1):
                    for j in [0, *range(1, events[b] + 1)][::inp["stride"]]:
                        r, _ = one(prog, first, At({a: k, b: j}), False, a)
                        runs += 1
                        if keep(r):
                            return {"many": list(out.values()), "runs": runs}
        else:
            for _ in range(inp["runs"]):
                r, _ = one(prog, first, Rand(rng, rng.choice([0.05, 0.15, 0.4])), True, rng.randrange(n))
                runs += 1
                if keep(r):
                    return {"many": list(out.values()), "runs": runs}
    return {"many": list(out.values()), "runs": runs}


def env(inp):
    e = dict(os.environ)
    e.pop("ENABLE_APPROX", None)
    if inp["given"]:
        e["ENABLE_APPROX"] = inp["value"]
    code = ("import differt2d.logic as l, jax.numpy as jnp\n"
            "print('FLAG', int(bool(l.ENABLE_APPROX)), int(l.greater(2.0, 1.0).dtype != jnp.bool_))")
    p = subprocess.run([sys.executable, "-c", code], env=e, capture_output=True, text=True, timeout=120)
    w = [x for x in p.stdout.splitlines() if x.startswith("FLAG")][0].split()
    return {"kind": "env", "given": int(inp["given"]), "flag": int(w[1]), "kindof": int(w[2])}


def run(inp):
    if inp["kind"] == "env":
        return env(inp)
    _imports()
    if os.environ.get("VF_STUCK"):
        return {"kind": inp["kind"], "err": "an earlier execution never ended"}
    return replay(inp) if inp["kind"] == "replay" else free(inp)


# --------------------------------------------------------------------- inputs


def E(v, how="with", neg=False):
    return {"op": "enter", "v": v, "how": how, "neg": neg}


def X(how="none"):
    return {"op": "exit", "how": how}


def S(v):
    return {"op": "set", "v": v}


R = {"op": "read"}


def programs():
    out = []
    for v in (0, 1):
        w = 1 - v
        out += [
            [R, E(v), R, X(), R],
            [E(v, "with", True), R, X(), R],
            [E(v, "manual"), R, X("ValueError"), R],
            [S(v), R],
            [E(v), E(w, "with", True), R, X("KeyboardInterrupt"), R, X(), R],
            [E(v, "deco"), S(w), R, X("SystemExit"), R],
            [S(v), E(w), R, X(), R],
        ]
    return out


def either(rng, prog):
    """The same program with its scopes entered through either function."""
    return [dict(e, neg=rng.random() < 0.5) if e["op"] == "enter" else e for e in prog]


def gen(seed, quick):
    rng = random.Random(seed * 7 + 3)
    progs = programs()
    pairs = list(itertools.combinations_with_replacement(range(len(progs)), 2))
    rng.shuffle(pairs)
    for k, (a, b) in enumerate(pairs):
        yield {"kind": "free", "mode": "points", "prog": [progs[a], progs[b]] if k % 3 == 0 else [either(rng, progs[a]), either(rng, progs[b])], "seed": seed,
               "stride": 1 if not quick or k < 24 else 4}
    for k in range(24 if quick else 200):
        n = 2 if k % 2 else 3
        yield {"kind": "free", "mode": "random", "prog": [either(rng, rng.choice(progs)) for _ in range(n)],
               "seed": seed * 1000 + k, "runs": 40 if quick else 200}
    yield {"kind": "env", "given": False, "value": ""}
    yield {"kind": "env", "given": True, "value": "1"}
