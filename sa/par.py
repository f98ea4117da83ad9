"""Parallel decision of independent obligations (forked workers; reports are merged)."""
import multiprocessing as mp
import sys
import traceback

import mirlib

_job = None


def _run(item):
    f, cls, prop = _job
    r = cls(prop)
    try:
        f(r, item)
    except mirlib.Missing as e:
        r.violation(f"anchor:{e}", f"an anchor of the analysis is gone: {e}")
    except mirlib.Limit as e:
        r.violation(f"limit:{str(e)[:120]}", f"the analysis ran out of its bound: {e}")
    except Exception as e:
        r.violation(f"internal:{type(e).__name__}", f"the analysis could not interpret the code (item {str(item)[:80]}): {traceback.format_exc()[-1500:]}")
    return dict(viol=r.viol, obl=r.obl, counts=r.counts, samples=r.samples)


def pmap(rep, f, items, procs=8):
    """f(report, item) for every item."""
    global _job
    items = list(items)
    _job = (f, type(rep), rep.prop)
    sys.setrecursionlimit(20000)
    with mp.get_context("fork").Pool(min(procs, max(1, len(items)))) as p:
        for r in p.imap_unordered(_run, items, chunksize=1):
            rep.merge(r)
