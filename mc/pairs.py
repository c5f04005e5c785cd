"""Comparing two executions that must be indistinguishable (times aside)."""
import hashlib
import math

from . import harness as H

NUM = ("list_global_best_fit", "list_current_best_fit", "list_diversity", "list_exploration", "list_exploitation")
AG = H.HIST_AGENTS + ("list_population",)


def exc_id(e):
    return None if e is None else "%s: %s" % (type(e).__name__, str(e)[:200])


def view(tr, log=True):
    """Everything observable of a run, as comparable parts."""
    d = {"exception": exc_id(tr.exc), "result": tr.result, "epochs": len(tr.epochs)}
    if log:
        d["evaluations"] = tr.obj.log
    if tr.init:
        d["initial population"] = tr.init["pop"]
        d["initial counter"] = tr.init["nfe"]
    d["populations"] = [e["pop"] for e in tr.epochs]
    d["counter"] = [e["nfe"] for e in tr.epochs]
    if tr.hist:
        for k in AG + NUM:
            d[k] = tr.hist[k]
    d["g_best"] = tr.opt_gbest
    return d


def same(a, b):
    if a is b:
        return True
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def first_diff(a, b, path=""):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return first_diff(x, y, path + "[%d]" % i)
        return "%s: length %d against %d" % (path, len(a), len(b))
    return "%s: %s against %s" % (path, repr(a)[:90], repr(b)[:90])


ORDER = ["exception", "initial counter", "initial population", "evaluations", "epochs", "counter", "populations", "result", "g_best"]


def diff(va, vb, skip=()):
    """None, or (part, text) of the first difference."""
    keys = [k for k in ORDER if k in va or k in vb] + [k for k in va if k not in ORDER]
    for k in keys:
        if k in skip:
            continue
        if (k in va) != (k in vb):
            return k, "%s present in only one run" % k
        if va[k] == vb[k]:
            continue
        if not same(va[k], vb[k]):
            return k, first_diff(va[k], vb[k], k)
    return None


def digest(v):
    return hashlib.blake2b(repr(sorted(v.items())).encode(), digest_size=10).hexdigest()
