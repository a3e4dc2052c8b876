"""Orchestration shared by all checks: workers, TLC, verdicts, evidence.

A check is:  model(s) checked by TLC  +  inputs  ->  workers run the real code
and record events  ->  TLC validates every record against the specification.
Verdicts come from TLC only; this file moves data and counts.
"""

import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(EVIDENCE, "replays")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
NCPU = max(1, min(8, os.cpu_count() or 1))
WORKER_TIMEOUT = 420


class Machinery(Exception):
    """The check itself failed (never a verdict on the code)."""


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def tier(argv_tier=None):
    t = argv_tier or os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


# --------------------------------------------------------------------- workers


def worker_env():
    env = dict(os.environ)
    for var in ("ENABLE_APPROX", "JAX_DISABLE_JIT", "JAX_DEBUG_NANS"):
        env.pop(var, None)
    env.update(
        JAX_PLATFORM_NAME="cpu",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(tempfile.gettempdir(), "vf-mpl"),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONPATH=REPO + os.pathsep + HARNESS,
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        OMP_NUM_THREADS="1",
        TF_CPP_MIN_LOG_LEVEL="3",
    )
    return env


def run_workers(module, inputs, scratch, nproc=None, timeout=WORKER_TIMEOUT, extra_env=None):
    """Run `vf.<module>.run(inp)` on every input; returns records in input order.

    Inputs with the same "grp" go to the same worker, in order.
    """
    nproc = nproc or NCPU
    groups = {}
    for i, inp in enumerate(inputs):
        groups.setdefault(inp.get("grp", i), []).append((i, inp))
    shards = [[] for _ in range(nproc)]
    for items in sorted(groups.values(), key=len, reverse=True):
        min(shards, key=len).extend(items)
    env = worker_env()
    env.update(extra_env or {})
    procs = []
    for k, shard in enumerate(shards):
        if not shard:
            continue
        fin = os.path.join(scratch, f"{module}.{k}.in.ndjson")
        fout = os.path.join(scratch, f"{module}.{k}.out.ndjson")
        with open(fin, "w") as f:
            for i, inp in shard:
                f.write(json.dumps([i, inp]) + "\n")
        log = open(os.path.join(scratch, f"{module}.{k}.log"), "w")
        p = subprocess.Popen(
            [PY, "-m", "vf.worker", module, fin, fout],
            cwd=scratch, env=env, stdout=log, stderr=subprocess.STDOUT,
            start_new_session=True,
        )
        procs.append((p, shard, fout, log))
    deadline = time.time() + timeout
    out = {}
    for p, shard, fout, log in procs:
        hung = False
        try:
            rc = p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            hung = True
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            rc = p.wait()
        log.close()
        begun = None
        if os.path.exists(fout):
            with open(fout) as f:
                for line in f:
                    if not line.endswith("\n"):
                        break
                    tag, i, rec = json.loads(line)
                    if tag == "B":
                        begun = i
                    else:
                        out[i] = rec
                        begun = None
        missing = [i for i, _ in shard if i not in out]
        if missing and begun is None:
            with open(log.name) as f:
                tail = f.read()[-3000:]
            raise Machinery(f"worker for {module} failed (rc={rc}):\n{tail}")
        if missing:
            # The real code never came back (or took the process down) on `begun`.
            what = "hang" if hung else f"crash rc={rc}"
            out[begun] = {"err": what, "kind": dict(shard)[begun].get("kind", "")}
            for i in missing:
                out.setdefault(i, None)
    recs = []
    for i, inp in enumerate(inputs):
        r = out.get(i)
        if r is None:
            continue
        r["id"] = i
        recs.append(r)
    return recs


def expand(recs, inputs):
    """An input may give many records: one entry for each of them."""
    if not any("many" in r for r in recs):
        return recs, inputs
    out, ins = [], []
    for r in recs:
        for x in r.get("many", [r]):
            ins.append(inputs[r["id"]])
            out.append(dict(x, id=len(out)))
    return out, ins


# ------------------------------------------------------------------------- TLC


def _stage(scratch, name):
    d = os.path.join(scratch, name)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    return d


_STAT = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def run_tlc(scratch, module, cfg_text, workers=None, env=None, timeout=840, args=(), heap="3g"):
    """Run TLC on spec/<module>.tla; returns dict(out, rc, generated, distinct)."""
    d = _stage(scratch, "tlc-" + hashlib.md5((module + cfg_text + repr(sorted((env or {}).items()))).encode()).hexdigest()[:10])
    cfg = os.path.join(d, "run.cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -XX:+UseParallelGC -Xss64m"
    cmd = ["tlc", "-workers", str(workers or NCPU), "-metadir", os.path.join(d, "meta"),
           "-noGenerateSpecTE", "-config", "run.cfg", *args, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise Machinery(f"TLC timed out on {module}") from ex
    m = None
    for m in _STAT.finditer(p.stdout):
        pass
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return {
        "out": p.stdout, "rc": p.returncode,
        "generated": int(m.group(1)) if m else 0,
        "distinct": int(m.group(2)) if m else 0,
    }


def model_check(scratch, module, cfg_text, **kw):
    """Exhaustively check a model; anything but success is a machinery error.

    The models do not depend on the code under test, so a failure here can
    only mean that the specification is broken.
    """
    r = run_tlc(scratch, module, cfg_text, **kw)
    if r["rc"] != 0 or "Model checking completed. No error has been found." not in r["out"]:
        raise Machinery(f"model {module} failed:\n{r['out'][-4000:]}")
    return r


_HIST = re.compile(r'^"HIST\|.*"$', re.M)


def generate(scratch, module, cfg_text, num, depth, seed_, timeout=300):
    """Behaviours of a specification, as printed by `tlc -simulate`."""
    r = run_tlc(scratch, module, cfg_text, workers=1, timeout=timeout,
                args=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed_)))
    out = []
    for m in _HIST.finditer(r["out"]):
        h = json.loads(m.group(0))[5:]
        out.append(json.loads(h))
    if r["rc"] != 0 or not out:
        raise Machinery(f"generator {module} failed:\n{r['out'][-3000:]}")
    return out


_FAIL = re.compile(r'"FAIL\|(-?\d+)\|([^"|]*)\|([^"]*)"')
_CHUNK = re.compile(r'"CHUNK\|(\d+)\|(\d+)"')


def validate(scratch, module, records, consts=None, workers=None, timeout=400, label="t"):
    """Have TLC decide every record.  Returns (fails, stats).

    fails: {record id: [(clause, detail), ...]}
    """
    if not records:
        raise Machinery(f"no records to validate with {module}")
    workers = workers or NCPU
    path = os.path.join(scratch, f"{module}.{label}.ndjson")
    with open(path, "w") as f:
        for r in records:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
    nchunks = min(len(records), workers * 8)
    cfg = ["SPECIFICATION TraceSpec", "CHECK_DEADLOCK FALSE", "CONSTANTS", f"  NChunks = {nchunks}"]
    for k, v in (consts or {}).items():
        cfg.append(f"  {k} {v}" if str(v).startswith("<-") else f"  {k} = {v}")
    r = run_tlc(scratch, module, "\n".join(cfg) + "\n", workers=workers,
                env={"TRACE": path}, timeout=timeout)
    if r["rc"] != 0 or "Model checking completed. No error has been found." not in r["out"]:
        keep = os.path.join(tempfile.gettempdir(), f"vf-{module}-{os.getpid()}.ndjson")
        shutil.copy(path, keep)
        raise Machinery(f"trace specification {module} failed (records kept in {keep}):\n{r['out'][-4000:]}")
    done = sum(int(m.group(2)) for m in _CHUNK.finditer(r["out"]))
    if done != len(records):
        raise Machinery(f"{module}: {done} of {len(records)} records were validated")
    fails = {}
    for m in _FAIL.finditer(r["out"]):
        fails.setdefault(int(m.group(1)), []).append((m.group(2), m.group(3)))
    return fails, {"generated": r["generated"], "distinct": r["distinct"]}


# ----------------------------------------------------------------------- check


def known_findings(prop):
    """Open findings of a property: {clause: description} from known_findings.json."""
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e["clause"]: e["what"] for e in data.get("open", []) if e["property"] == prop}


class Check:
    def __init__(self, prop, tier_, seed_):
        self.prop = prop
        self.tier = tier_
        self.seed = seed_
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"vf-{prop}-")
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.models = []
        self.counts = {}
        self.samples = []
        self.canaries = 0
        self.violations = []     # (clause, detail, record, input, driver)
        self.known = []
        self.other = {}
        self.assumptions = []
        self.ndist = set()

    def quick(self):
        return self.tier == "quick"

    # -- the model itself
    def model(self, module, cfg, note="", **kw):
        r = model_check(self.scratch, module, cfg, **kw)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append({"model": module, "states": r["distinct"],
                            "transitions": r["generated"], "note": note})
        return r

    # -- the code against the model
    def conform(self, driver, module, inputs, consts=None, canary=None, extra_env=None,
                nproc=None, sample=2):
        recs = run_workers(driver, inputs, self.scratch, nproc=nproc, extra_env=extra_env)
        recs, inputs = expand(recs, inputs)
        self.conform_records(driver, module, recs, inputs, consts, canary, sample, extra_env)
        return recs

    def conform_records(self, driver, module, recs, inputs, consts=None, canary=None, sample=2,
                        extra_env=None):
        n = len(recs)
        bad = []
        if canary is not None:
            clean = [r for r in recs if "err" not in r]
            bad = canary(clean)
            for k, c in enumerate(bad):
                c["id"] = -1 - k
        fails, st = validate(self.scratch, module, recs + bad, consts,
                             label=driver + str(len(self.models)))
        self.states += st["distinct"]
        self.transitions += st["generated"]
        self.traces += n
        self.counts[driver] = self.counts.get(driver, 0) + n
        pre = self.prop + "."
        viol = 0
        for r in recs:
            self.ndist.add(hashlib.md5(json.dumps(inputs[r["id"]], sort_keys=True).encode()).hexdigest())
            for clause, detail in fails.get(r["id"], []):
                if clause.startswith(pre) or clause.startswith("ANY."):
                    self.violations.append((clause, detail, r, inputs[r["id"]], driver,
                                            module, consts, extra_env))
                    viol += 1
                elif clause.startswith("KNOWN." + pre):
                    if clause[len("KNOWN."):] in known_findings(self.prop):
                        self.known.append((clause, detail, r))
                    else:
                        self.violations.append((clause, detail, r, inputs[r["id"]], driver,
                                                module, consts, extra_env))
                        viol += 1
                else:
                    self.other[clause] = self.other.get(clause, 0) + 1
        if canary is not None and not bad and not viol:
            raise Machinery("no corrupted record could be built")
        if bad and not viol:
            # Every kind of corruption must be noticed (a single corrupted record
            # may land where the specification leaves the outcome open).
            kinds = {}
            for c in bad:
                hit = any(cl.startswith(pre) or cl.startswith("ANY.") for cl, _ in fails.get(c["id"], []))
                kinds.setdefault(c["canary"], []).append(hit)
            missed = [k for k, v in kinds.items() if not any(v)]
            if missed:
                keep = os.path.join(tempfile.gettempdir(), f"vf-canary-{self.prop}.json")
                with open(keep, "w") as f:
                    json.dump([c for c in bad if c["canary"] in missed], f)
                raise Machinery(f"corrupted records were accepted by {module}: {missed} (kept in {keep})")
            self.canaries += sum(sum(v) for v in kinds.values())
        for r in recs[:: max(1, n // max(1, sample))][:sample]:
            s = json.dumps({"in": inputs[r["id"]], "record": r})
            self.samples.append(json.loads(s) if len(s) < 6000 else s[:3000] + "...")

    def finish(self):
        os.makedirs(REPLAYS, exist_ok=True)
        wall = time.time() - self.t0
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "distinct_inputs": len(self.ndist),
            "corrupted_records_rejected": self.canaries,
            "records_by_driver": self.counts,
            "models": self.models,
            "clauses_of_other_properties_failed": self.other,
            "known_findings_seen": sorted({c for c, _, _ in self.known}),
            "samples": self.samples[:6] or ["none"],
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 1),
              "violations": len(self.violations)}
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rc = 0
        for key, what in sorted(known_findings(self.prop).items()):
            if any(c == "KNOWN." + key for c, _, _ in self.known):
                print(f"KNOWN-FINDING: property={self.prop} {what}", flush=True)
        seen = set()
        for clause, detail, rec, inp, driver, module, consts, xenv in self.violations:
            key = clause
            if key in seen or len(seen) > 20:
                continue
            seen.add(key)
            path = os.path.join(REPLAYS, f"{self.prop}-{len(seen)}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "clause": clause, "detail": detail,
                           "driver": driver, "module": module, "consts": consts,
                           "extra_env": xenv, "input": inp, "record": rec}, f, indent=1)
            print(f"  clause {clause} {detail} on input {json.dumps(inp)[:400]}")
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
            rc = 1
        if not rc:
            print(f"OK {self.prop}: {self.traces} executions of the real code validated, "
                  f"{self.states} states, {self.canaries} corrupted records rejected, {wall:.0f} s")
        return rc

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
