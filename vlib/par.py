"""Runs a predicate over a deterministic sequence of cases on several processes and collects the failures."""
import itertools
import multiprocessing as mp
import os
import traceback

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def _work(args):
    make_cases, check, i, n, limit = args
    out, count, kinds = [], 0, set()
    for k, case in enumerate(make_cases()):
        if k % n != i:
            continue
        count += 1
        try:
            f = check(case)
        except Exception:  # an oracle never raises on purpose: the library did
            f = "raised " + traceback.format_exc(limit=-3)
        if f:
            out.append((k, f))
            if len(out) >= limit:
                break
    return count, out


_jobs = {}


def _run(key_i):
    key, i, n, limit = key_i
    mk, ck = _jobs[key]
    return _work((mk, ck, i, n, limit))


def run(make_cases, check, workers=None, limit=20):
    """(number of cases, [(index, failure)] sorted by index). check(case) returns None or a description."""
    workers = workers or WORKERS
    key = len(_jobs)
    _jobs[key] = (make_cases, check)
    if workers == 1:
        rs = [_run((key, 0, 1, limit))]
    else:
        with mp.get_context("fork").Pool(workers) as pool:
            rs = pool.map(_run, [(key, i, workers, limit) for i in range(workers)], chunksize=1)
    fails = sorted(itertools.chain.from_iterable(r[1] for r in rs))
    return sum(r[0] for r in rs), fails


def nth(make_cases, k):
    return next(itertools.islice(make_cases(), k, None))
