"""Runs the obligations of a property and reports them"""
import multiprocessing as mp
import os
import time
import traceback

from pydv.values import Unsupported

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class Result:
    """Of one obligation: discharged, refuted or undecided"""

    def __init__(self, name, function, status, detail="", seconds=0.0, paths=0, proved=0, queries=0, functions=(), needs_input=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]


def decide(name, function, make_engine, harness, limit=None):
    """One named obligation: harness(engine) on every path"""
    t = time.time()
    eng = make_engine()
    if limit:
        eng.time_limit = time.time() + limit
    out = eng.explore(harness)
    refuted = [r for s, r in out if s == "refuted"]
    unsupported = [r for s, r in out if s == "unsupported"]
    ok = sum(s == "ok" for s, _ in out)
    st = eng.stats
    kw = dict(seconds=round(time.time() - t, 3), paths=len(out), proved=st["proved"], queries=st["queries"], functions=sorted(st["functions"]))
    if refuted:
        r = refuted[0]
        return Result(name, function, "refuted", f"{r.name}: {r.detail}" + (f"\ncounter-model: {r.model}" if r.model else "") +
                      f"\n({len(refuted)} of {len(out)} paths)", **kw)
    if unsupported:
        return Result(name, function, "undecided", sorted(set(unsupported), key=lambda u: -unsupported.count(u))[0], **kw)
    if not ok or not st["proved"]:
        return Result(name, function, "undecided", "vacuous: no path proves anything", **kw)
    return Result(name, function, "discharged", f"{ok} paths", **kw)


_jobs = []
# Seconds for all obligations of a property. What isn't decided by then is left to the bounded part, which needs time as well.
BUDGET = {"quick": 450, "thorough": 3000}
_deadline = None


def _one(i):
    name, function, make_engine, harness, limit = _jobs[i]
    left = _deadline - time.time()
    if left < 1:
        return Result(name, function, "undecided", "the time for the obligations of this property is up")
    limit = min(limit, left)
    try:
        return decide(name, function, make_engine, harness, limit)
    except Exception:
        return Result(name, function, "undecided", "verifier: " + traceback.format_exc(limit=-4))


def obligations(rep, jobs, backend="pydv (structural) + z3", replay=None, tier="quick"):
    """jobs: [(name, function, make_engine, harness[, seconds])]. replay(name) -> None or a text showing a failing input,
    for refuted obligations."""
    global _jobs, _deadline
    _deadline = time.time() + BUDGET[tier]
    _jobs = [j if len(j) == 5 else j + (60,) for j in jobs]
    order = list(range(len(_jobs)))
    if WORKERS == 1 or len(_jobs) < 3:
        results = [_one(i) for i in order]
    else:
        with mp.get_context("fork").Pool(WORKERS) as pool:
            results = pool.map(_one, order, chunksize=1)
    refuted = []
    for r in results:
        rep.obligation(r.name, r.function, r.status, backend, r.detail, r.seconds)
        rep.notes["paths"] = rep.notes.get("paths", 0) + r.paths
        rep.notes["proof_steps"] = rep.notes.get("proof_steps", 0) + r.proved
        rep.notes["solver_queries"] = rep.notes.get("solver_queries", 0) + r.queries
        fs = rep.notes.setdefault("functions_interpreted", [])
        for f in r.functions:
            if f not in fs:
                fs.append(f)
        if r.status == "refuted":
            refuted.append(r)
    return refuted


ASSUMED = [
    "recursive calls on parts of a tree fulfil the contract being proved (induction over the finite tree; each node class is its own obligation)",
    "distinct parts of a node are distinct objects unless a contract says otherwise, and trees have no cycles",
    "python integers are mathematical integers (they are), strings are finite sequences of characters",
    "hash order, object identity of immutable values and memory limits don't matter",
]


def prove(rep, pid, tier):
    """The deductive part of a check. What the verifier can't read is undecided (and left to the bounded part), not a violation."""
    import importlib
    rep.assume(*ASSUMED)
    try:
        mod = importlib.import_module("proofs." + pid.lower())
        jobs = mod.jobs()
        rep.assume(*getattr(mod, "ASSUMES", []))
    except Exception:
        rep.obligation(f"contracts of {pid}", "?", "undecided", "pydv", "verifier: " + traceback.format_exc(limit=-4), 0.0)
        return []
    return obligations(rep, jobs, tier=tier)


def report(rep, refuted):
    """The refuted obligations as violations. If the bounded check found failing inputs, these come first (has_input)."""
    for r in refuted:
        rep.violation("obligation " + r.name, f"obligation {r.name} of {r.function} isn't fulfilled\n{r.detail}", has_input=False)
