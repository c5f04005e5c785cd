"""Property oracles over one recorded run (harness.Trace).

Each returns a list of (kind, detail).  They state what must hold of any correct
implementation; none compares against a stored trace of today's code.
"""
import math
import numpy as np


def close(a, b):
    if a == b:
        return True
    if a is None or b is None:
        return False
    return math.isclose(a, b, rel_tol=1e-9, abs_tol=0.0)


def better(a, b, mm):
    return a < b if mm == "min" else a > b


def no_worse(a, b, mm):
    """a at least as good as b (tolerating one rounding step)."""
    return close(a, b) or better(a, b, mm)


def bounds_of(tr):
    p = tr.opt.problem
    return np.asarray(p.lb, dtype=float), np.asarray(p.ub, dtype=float)


def _in_box(x, lb, ub):
    if len(x) != len(lb):
        return "wrong length %d" % len(x)
    for v, l, u in zip(x, lb, ub):
        if not isinstance(v, float) or v != v or v in (math.inf, -math.inf):
            return "non-finite coordinate %r" % (v,)
        if v < l or v > u:
            return "coordinate %r outside [%r, %r]" % (v, l, u)
    return None


def reported(tr):
    """Every (where, solution, fitness) the run hands to the user."""
    if tr.result is not None:
        yield ("returned", *tr.result)
    if tr.init is not None:
        for a in tr.init["pop"]:
            yield ("initial population", *a)
    for k, e in enumerate(tr.epochs):
        for a in e["pop"]:
            yield ("population", *a)
    if tr.hist is None:
        return
    for name in ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst"):
        for a in tr.hist[name]:
            yield (name, *a)
    for p in tr.hist["list_population"]:
        for a in p:
            yield ("list_population", *a)


def c01(tr):
    out = {}
    if getattr(tr.opt, "problem", None) is None:
        return []
    lb, ub = bounds_of(tr)
    lb, ub = lb.tolist(), ub.tolist()
    for i, (x, v) in enumerate(tr.obj.log):
        m = _in_box(x, lb, ub)
        if m:
            out.setdefault("evaluated-outside", "evaluation %d at %r: %s" % (i, x, m))
            break
    for w, x, v in reported(tr):
        m = _in_box(x, lb, ub)
        if m:
            out.setdefault("reported-outside", "%s %r: %s" % (w, x, m))
            break
    return list(out.items())


def c02(tr):
    table = {}
    for x, v in tr.obj.log:
        table.setdefault(x, set()).add(v)
    for w, x, f in reported(tr):
        vs = table.get(x)
        if vs is None:
            return [("unevaluated", "%s holds %r with fitness %r, a point the objective never saw" % (w, x, f))]
        if f not in vs and not any(close(f, v) for v in vs):
            return [("stale", "%s holds %r with fitness %r, objective gave %r" % (w, x, f, sorted(vs)[:3]))]
    return []


def c03(tr):
    if tr.exc is not None or tr.hist is None:
        return []
    mm = tr.cfg["minmax"]
    h = tr.hist
    out = []
    best = None
    fits = [f for _, f in tr.init["pop"]]
    if fits:
        best = min(fits) if mm == "min" else max(fits)
    gfit = h["list_global_best_fit"]
    if tr.result is None or not gfit:
        return [("no-result", "run finished without a result")]
    for k, e in enumerate(tr.epochs):
        fs = [f for _, f in e["pop"]]
        b = min(fs) if mm == "min" else max(fs)
        if best is None or better(b, best, mm):
            best = b
        if k < len(gfit) and not no_worse(gfit[k], best, mm):
            out.append(("best-lost", "after epoch %d the best agent seen has fitness %r, reported best is %r" % (k + 1, best, gfit[k])))
            break
    for k in range(1, len(gfit)):
        if not no_worse(gfit[k], gfit[k - 1], mm):
            out.append(("worsened", "reported best went from %r to %r at epoch %d" % (gfit[k - 1], gfit[k], k + 1)))
            break
    if not close(tr.result[1], gfit[-1]):
        out.append(("returned-differs", "returned %r but history ends with %r" % (tr.result[1], gfit[-1])))
    if best is not None and not no_worse(tr.result[1], best, mm):
        out.append(("returned-not-best", "returned %r although the population held %r" % (tr.result[1], best)))
    if tr.opt_gbest is not None and not close(tr.opt_gbest[1], tr.result[1]):
        out.append(("g_best-differs", "optimizer.g_best has %r, solve returned %r" % (tr.opt_gbest[1], tr.result[1])))
    vals = [v for _, v in tr.obj.log]
    if not any(close(tr.result[1], v) for v in vals):
        out.append(("made-up", "returned fitness %r was never produced by the objective" % (tr.result[1],)))
    return out


def c04(tr):
    if tr.exc is not None or tr.hist is None:
        return []
    mm, h, out = tr.cfg["minmax"], tr.hist, []
    n = len(tr.epochs)
    names = ["list_global_best", "list_current_best", "list_epoch_time", "list_global_best_fit",
             "list_current_best_fit", "list_diversity", "list_exploration", "list_exploitation",
             "list_global_worst", "list_current_worst"]
    if tr.cfg["save"]:
        names.append("list_population")
    elif len(h["list_population"]):
        out.append(("population-unasked", "list_population filled although save_population is off"))
    for nm in names:
        if len(h[nm]) != n:
            out.append(("length", "%s has %d entries after %d epochs" % (nm, len(h[nm]), n)))
            return out
    if h["epoch"] != n:
        out.append(("length", "history.epoch=%r after %d epochs" % (h["epoch"], n)))
    pick, anti = (min, max) if mm == "min" else (max, min)
    fi = [f for _, f in tr.init["pop"]]
    gb, gw = pick(fi), anti(fi)
    for k, e in enumerate(tr.epochs):
        fs = [f for _, f in e["pop"]]
        cb, cw = pick(fs), anti(fs)
        gb, gw = pick(gb, cb), anti(gw, cw)
        if not close(h["list_current_best_fit"][k], cb):
            out.append(("current-best-fit", "epoch %d: best of population %r, recorded %r" % (k + 1, cb, h["list_current_best_fit"][k])))
        if not close(h["list_current_best"][k][1], h["list_current_best_fit"][k]):
            out.append(("current-best-agent", "epoch %d: agent %r, fitness list %r" % (k + 1, h["list_current_best"][k][1], h["list_current_best_fit"][k])))
        if not close(h["list_global_best"][k][1], h["list_global_best_fit"][k]):
            out.append(("global-best-agent", "epoch %d: agent %r, fitness list %r" % (k + 1, h["list_global_best"][k][1], h["list_global_best_fit"][k])))
        rg = h["list_global_best_fit"][k]
        if not close(rg, gb):
            # an agent met inside an epoch and dropped before its end may be better than every recorded population
            if not better(rg, gb, mm):
                out.append(("global-best-fit", "epoch %d: best so far %r, recorded %r" % (k + 1, gb, rg)))
            elif not any(close(rg, v) for _, v in tr.obj.log[:e["nev"]]):
                out.append(("global-best-fit", "epoch %d: recorded best %r was not evaluated by then" % (k + 1, rg)))
            gb = rg
        if not close(h["list_current_worst"][k][1], cw):
            out.append(("current-worst", "epoch %d: worst of population %r, recorded %r" % (k + 1, cw, h["list_current_worst"][k][1])))
        if not close(h["list_global_worst"][k][1], gw):
            out.append(("global-worst", "epoch %d: worst so far %r, recorded %r" % (k + 1, gw, h["list_global_worst"][k][1])))
        if tr.cfg["save"] and sorted(map(repr, h["list_population"][k])) != sorted(map(repr, e["pop"])):
            out.append(("population", "epoch %d: saved population is not the population of that epoch" % (k + 1)))
        if e["cb_at"] is not None and k < len(h["list_current_best"]) and e["cb_at"] != h["list_current_best"][k]:
            out.append(("rewritten", "epoch %d: recorded current best changed from %r to %r later" % (k + 1, e["cb_at"], h["list_current_best"][k])))
        if out:
            break
        # diversity: mean absolute deviation from the median position
        m = np.array([s for s, _ in e["pop"]], dtype=float)
        d = float(np.mean(np.abs(np.median(m, axis=0) - m)))
        if not (math.isclose(d, h["list_diversity"][k], rel_tol=1e-6, abs_tol=1e-12)):
            out.append(("diversity", "epoch %d: population diversity %r, recorded %r" % (k + 1, d, h["list_diversity"][k])))
            break
    ex, ei, dv = h["list_exploration"], h["list_exploitation"], h["list_diversity"]
    top = max(dv) if dv else 0
    for k in range(n):
        a, b = float(ex[k]), float(ei[k])
        if not (abs(a + b - 100) < 1e-6 and -1e-9 <= a <= 100 + 1e-9):
            out.append(("percent", "epoch %d: exploration %r, exploitation %r" % (k + 1, a, b)))
            break
        if top > 0 and not math.isclose(a, 100.0 * dv[k] / top, rel_tol=1e-6, abs_tol=1e-9):
            out.append(("percent", "epoch %d: exploration %r for diversity %r of %r" % (k + 1, a, dv[k], top)))
            break
    if any((not isinstance(t, float)) or t < 0 for t in h["list_epoch_time"]):
        out.append(("epoch-time", "negative or missing epoch time %r" % (h["list_epoch_time"],)))
    return out[:3]


def c06(tr):
    if tr.exc is not None:
        return []
    out = []
    if tr.init is not None and tr.init["nfe"] != tr.init["nev"]:
        out.append(("nfe-init", "after initialisation the counter says %d, the objective was called %d times" % (tr.init["nfe"], tr.init["nev"])))
    for k, e in enumerate(tr.epochs):
        if e["nfe"] != e["nev"]:
            out.append(("nfe", "after epoch %d the counter says %d, the objective was called %d times" % (k + 1, e["nfe"], e["nev"])))
            break
    return out


def c12(tr):
    if tr.exc is None:
        return []
    e = tr.exc
    return [("hang" if getattr(tr, "hang", False) else "crash-" + type(e).__name__, repr(e)[:160])]


def c15(tr):
    """Starting solutions are all evaluated, as given, before the first epoch; neither the initial population's best
    nor the result is worse than theirs; the caller's container is untouched."""
    if tr.cfg["start"] == "none" or not hasattr(tr, "starts"):
        return []
    st = [tuple(map(float, r)) for r in tr.starts]
    out = []
    if tr.init is not None:
        log = list(tr.obj.log[:tr.init["nev"]])
        left = [x for x, _ in log]
        first = {}
        worst = max if tr.cfg["minmax"] == "min" else min
        for x, v in log:                # a point may be evaluated again, with a different answer in some environments
            if v is not None:
                first[x] = worst(first[x], v) if x in first else v
        for x in st:
            if x in left:
                left.remove(x)
            else:
                out.append(("not-evaluated", "starting point %r was not evaluated (as often as given) before the first epoch" % (x,)))
                break
        mm = tr.cfg["minmax"]
        sv = [first[x] for x in st if x in first]
        if sv and tr.exc is None:
            b = min(sv) if mm == "min" else max(sv)
            fi = [f for _, f in tr.init["pop"]]
            bi = min(fi) if mm == "min" else max(fi)
            if not no_worse(bi, b, mm):
                out.append(("start-best-lost", "best starting point has %r, initial population only %r" % (b, bi)))
            if tr.result is not None and not no_worse(tr.result[1], b, mm):
                out.append(("start-best-lost", "best starting point has %r, returned %r" % (b, tr.result[1])))
    g = tr.starts_given
    if not np.array_equal(np.asarray(g, dtype=float), tr.starts):
        out.append(("starts-mutated", "the caller's starting_solutions were modified"))
    return out[:2]
