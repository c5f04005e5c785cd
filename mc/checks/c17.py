"""C17: fitness = weighted sum, for every legal return form and weighting; everything else is refused."""
import itertools
from decimal import Decimal
from fractions import Fraction

import numpy as np

from .. import env, harness as H, units as U
from ..report import Report
from mealpy.utils.target import Target
from mealpy.utils.problem import Problem
from mealpy.utils.agent import Agent

VALS = [0, -0.0, 1, -1.5, 1e300, -1e150, 1e-300, 5e-324, 2 ** 53 + 1, -2 ** 70, np.int32(7), np.float32(0.1), True, np.int64(2 ** 62), Fraction(1, 3)]
WTS = [0, 1, -0.5, 0.1, 3, np.float32(0.25), 1e10]


def exact(ws, os):
    return sum((Fraction(float(w)) * Fraction(float(o)) for w, o in zip(ws, os)), Fraction(0))


def scale(ws, os):
    return sum((abs(Fraction(float(w)) * Fraction(float(o))) for w, o in zip(ws, os)), Fraction(0))


def matches(f, ws, os):
    """The fitness is the dot product, up to the rounding of double arithmetic."""
    try:
        f = float(f)
    except Exception:
        return False
    if f != f or f in (float("inf"), float("-inf")):
        return False
    return abs(Fraction(f) - exact(ws, os)) <= scale(ws, os) * Fraction(1, 10 ** 12) + Fraction(1, 10 ** 320)


def forms(vs):
    """Every way an objective may return these values."""
    if len(vs) == 1:
        v = vs[0]
        yield "number", v
        if not isinstance(v, Fraction):
            yield "0-d array", np.array(v)
    yield "list", list(vs)
    yield "tuple", tuple(vs)
    if not any(isinstance(v, Fraction) for v in vs):
        yield "array", np.array(vs)
        yield "column", np.array(vs).reshape(-1, 1)
        yield "nested list", [[v] for v in vs]


def weightings(n):
    yield "none", None, [1.0] * n
    for w in WTS[:4]:
        yield "number", w, [w] * n
    for ws in itertools.product(WTS, repeat=n) if n < 3 else zip(WTS, WTS[1:] + WTS[:1], WTS[2:] + WTS[:2]):
        yield "list", list(ws), list(ws)
        yield "tuple", tuple(ws), list(ws)
        yield "array", np.array(ws), list(ws)


BAD_OBJS = [None, "5", "", b"5", {}, {1: 2}, {1.0}, set(), [], (), np.array([]), ["a"], ["1"], [None], [1, None], [1, "2"], (1, [2, 3]), [[1, 2], [3]], 1j, [1j], [1, 1j],
            np.array(["3"]), np.array([None]), np.array([1, "x"], dtype=object), object(), lambda x: 1, (i for i in range(2)), range(2), [{}], [[]], iter([1.0])]
BAD_WTS = [("text", "ab"), ("dict", {0: 1.0, 1: 2.0}), ("set", {1.0, 2.0}), ("empty", []), ("short", [1.0]), ("long", [1.0, 2.0, 3.0]), ("empty array", np.array([])), ("words", ["a", "b"]),
           ("None inside", [1.0, None]), ("generator", (w for w in (1.0, 2.0))), ("ragged", [[1.0], [2.0, 3.0]]), ("matrix", np.ones((2, 2)))]


def unit_ok(c, n):
    vals = VALS if n < 3 else VALS[:8]
    for vs in itertools.product(vals, repeat=n):
        for fl, ret in forms(vs):
            for k, (wl, w, ws) in enumerate(weightings(n)):
                if n > 1 and fl not in ("list", "array") and k > 12:
                    continue
                if n == 2 and vals.index(vs[0]) * 3 % 7 != k % 7 and k > 5:
                    continue
                if scale(ws, vs) > Fraction(10) ** 307:
                    continue
                c.add(combinations=1)
                before = repr(ret), repr(w)
                t = Target(objectives=ret, weights=w)
                if not matches(t.fitness, ws, vs):
                    c.bad("fitness", "objectives %r (%s), weights %r: fitness %r, expected %s" % (ret, fl, w, t.fitness, float(exact(ws, vs))))
                if list(t.objectives) != list(vs) or not isinstance(t.objectives, np.ndarray) or t.objectives.ndim != 1:
                    c.bad("objectives", "%r stored as %r" % (ret, t.objectives))
                if [float(x) for x in t.weights] != [float(x) for x in ws]:
                    c.bad("weights", "%r stored as %r" % (w, t.weights))
                u = t.copy()
                if u is t or list(u.objectives) != list(t.objectives) or u.fitness != t.fitness or list(u.weights) != list(t.weights):
                    c.bad("copy", "%s / %s" % (t, u))
                if (repr(ret), repr(w)) != before:
                    c.bad("argument-changed", "%s -> %r %r" % (before, ret, w))
                # what is stored is nobody else's array
                if isinstance(ret, np.ndarray) and ret.ndim == 1 and ret.dtype.kind == "f":
                    was = ret[0]
                    ret[0] = 12345.0
                    kept = list(t.objectives) == list(vs)
                    ret[0] = was
                    if not kept:
                        c.bad("aliased", "changing the returned array changed the target")
                u.objectives[0] = 0
                if list(t.objectives) != list(vs):
                    c.bad("aliased", "changing a copy's objectives changed the original")
                c.seen(n, fl, wl, repr(vs), k)


def unit_bad(c, _):
    def refused(what, f):
        c.add(refusals=1)
        c.seen(what)
        try:
            r = f()
        except ValueError:
            return
        except Exception as e:
            c.bad("not-refused", "%s: %r instead of ValueError" % (what, e))
            return
        c.bad("not-refused", "%s: accepted with fitness %r" % (what, getattr(r, "fitness", r)))
    for o in BAD_OBJS:
        refused("objectives %r" % (o,), lambda: Target(objectives=o))
        refused("objectives %r via problem" % (o,), lambda: Problem(bounds=H.sp_f2(), obj_func=lambda x: o, log_to=None).get_target(np.zeros(2)))
    for lab, w in BAD_WTS:
        refused("weights %s" % lab, lambda: Target(objectives=[1.0, 2.0], weights=w))
        refused("weights %s via problem" % lab, lambda: Problem(bounds=H.sp_f2(), obj_func=lambda x: [1.0, 2.0], obj_weights=w, log_to=None).get_target(np.zeros(2)))
        if lab in ("short", "long", "empty"):
            refused("later calculate_fitness %s" % lab, lambda: Target(objectives=[1.0, 2.0]).calculate_fitness(w))
    for n in range(1, 5):
        for m in range(0, 6):
            if m == n:
                continue
            for f in (list, tuple, np.array):
                refused("%d weights for %d objectives" % (m, n), lambda: Target([1.0] * n, f([1.0] * m)))
    refused("no objectives", lambda: Target())


def unit_count(c, _):
    """n_objs: the number of objectives, whatever the form; mismatching weights are refused there too."""
    for n in (1, 2, 3):
        for fl, ret in forms([1.5] * n):
            for w in (None, [1.0] * n, np.ones(n), (2.0,) * n):
                c.add(problems=1)
                c.seen(n, fl, repr(w))
                p = Problem(bounds=H.sp_f2(), obj_func=lambda x: ret, obj_weights=w, log_to=None)
                if p.n_objs != n:
                    c.bad("n_objs", "%s of %d counted as %r" % (fl, n, p.n_objs))
                if not matches(p.get_target(np.zeros(2)).fitness, [1.0] * n if w is None else list(w), [1.5] * n):
                    c.bad("fitness", "after n_objs")
            for m in (n - 1, n + 1):
                if m < 1:
                    continue
                try:
                    k = Problem(bounds=H.sp_f2(), obj_func=lambda x: ret, obj_weights=[1.0] * m, log_to=None).n_objs
                    c.bad("not-refused", "%d weights for %d objectives in n_objs: %r" % (m, n, k))
                except ValueError:
                    pass


RETURNS = {
    "int": (lambda a, b: int(a * 4), None, lambda a, b: [int(a * 4)], [1]),
    "float32": (lambda a, b: np.float32(a), None, lambda a, b: [np.float32(a)], [1]),
    "0-d": (lambda a, b: np.array(a), [2.0], lambda a, b: [a], [2.0]),
    "list1": (lambda a, b: [a], np.array([-3.0]), lambda a, b: [a], [-3.0]),
    "list2": (lambda a, b: [a, b], None, lambda a, b: [a, b], [1, 1]),
    "tuple2": (lambda a, b: (a, b), [0.25, 2.0], lambda a, b: [a, b], [0.25, 2.0]),
    "array2": (lambda a, b: np.array([a, b]), (1.0, -1.0), lambda a, b: [a, b], [1, -1]),
    "same array": ("shared", np.array([0.5, 3.0]), lambda a, b: [a, b], [0.5, 3.0]),
    "column": (lambda a, b: np.array([[a], [b], [a - b]]), 0.5, lambda a, b: [a, b, a - b], [0.5] * 3),
}


def run_case(c, cls, ret, minmax, mode, hp=None):
    f, w, objs, ws = RETURNS[ret]
    env.fresh()
    calls = {}
    buf = np.zeros(2)

    def obj(x):
        x = np.asarray(x, dtype=float)
        a, b = float(np.sum((x - 0.4) ** 2)), float(np.sum(np.abs(x)) - 3)
        calls.setdefault(tuple(x.tolist()), (a, b))
        if f == "shared":
            buf[:] = a, b
            return buf
        return f(a, b)
    o = H.make(cls, epoch=2, pop_size=10)
    env.SCHED.active = True
    try:
        p = {"obj_func": obj, "bounds": H.sp_f3(), "minmax": minmax, "log_to": None, "save_population": True}
        if w is not None:
            p["obj_weights"] = w
        g = o.solve(p, mode=mode, n_workers=2 if mode == "thread" else None, seed=5)
    finally:
        env.SCHED.active = False
    h = o.history
    agents = [("result", g), ("g_best", o.g_best)] + [("pop", a) for a in o.pop] + [("epoch best", a) for a in h.list_current_best + h.list_global_best + h.list_current_worst + h.list_global_worst]
    agents += [("saved population", a) for pp in h.list_population for a in pp]
    for where, a in agents:
        k = tuple(np.asarray(a.solution, dtype=float).tolist())
        if k not in calls:
            continue                                   # C02's business
        want = objs(*calls[k])
        got = [float(t) for t in np.asarray(a.target.objectives).ravel()]
        if got != [float(t) for t in want]:
            c.bad("objectives", "%s: %s (%s): objectives %s, the objective gave %s" % (where, ret, minmax, got, want), ["return=" + ret, "mode=" + mode])
            return
        if not matches(a.target.fitness, ws, want):
            c.bad("fitness", "%s: %s: fitness %r of %s with weights %s" % (where, ret, a.target.fitness, want, ws), ["return=" + ret, "mode=" + mode])
            return
    c.add(solves=1, agents=len(agents))
    c.seen(ret, minmax, mode)


BAD_RUN = {"None": (lambda: None, None), "text": (lambda: "1.0", None), "empty": (lambda: [], None), "one weight too many": (lambda: [1.0, 2.0], [1.0, 1.0, 1.0]),
           "one weight too few": (lambda: [1.0, 2.0], [1.0]), "dict": (lambda: {"f": 1.0}, None), "complex": (lambda: 1j, None)}


def optimizer_group(c, arg):
    cls, tier = arg
    cases = [(r, m, "single") for i, r in enumerate(RETURNS) for m in ("min", "max") if tier == "thorough" or (i + (m == "max")) % 2 == 0]
    cases += [(r, "min", m) for r in (("array2", "same array") if tier == "quick" else RETURNS) for m in ("swarm", "thread")]
    for r, mm, mode in cases:
        if r == "same array" and mode == "thread":
            pass                                     # tasks run one at a time under our executor, so the shared buffer is legal
        run_case(c, cls, r, mm, mode)
    # an illegal answer at evaluation k is refused, never scored
    for lab, (f, w) in BAD_RUN.items():
        for k in ((0, 13) if tier == "quick" else range(0, 30, 3)):
            for mode in ("single", "thread") if tier == "thorough" or lab == "None" else ("single",):
                env.fresh()
                n = [0]

                def obj(x):
                    n[0] += 1
                    return f() if n[0] > k else ([1.0 * n[0]] * len(w) if w else 1.0 * n[0])
                o = H.make(cls, epoch=2, pop_size=10)
                p = {"obj_func": obj, "bounds": H.sp_f3(), "log_to": None}
                if w is not None:
                    p["obj_weights"] = w
                env.SCHED.active = True
                try:
                    g = o.solve(p, mode=mode, n_workers=2 if mode == "thread" else None, seed=5)
                    if n[0] > k:
                        c.bad("not-refused", "objective answered %s at evaluation %d and solve() returned %s" % (lab, k, g.target), ["bad=" + lab])
                except ValueError:
                    pass
                except Exception as e:
                    c.bad("not-refused", "objective answered %s at evaluation %d: %r instead of ValueError" % (lab, k, e), ["bad=" + lab])
                finally:
                    env.SCHED.active = False
                c.add(refused_solves=1)


def groups(tier):
    out = [(unit_ok, "target of %d" % n, n) for n in (1, 2, 3)] + [(unit_bad, "refusals", None), (unit_count, "n_objs", None)]
    return out + [(optimizer_group, n, (cls, tier)) for n, cls in H.all_optimizers().items()]


def main(tier):
    rep = Report("C17", tier, "exploration")
    rep.cov["rule"] = ("components: all tuples of <= 3 objective values of an alphabet x return forms x weightings, against exact rational arithmetic, and every illegal return / weighting; "
                       "system: every optimizer x return form x direction (x mode), every reported agent's objectives and fitness compared with what the objective returned; every optimizer x illegal answer x position")
    U.run_groups(rep, groups(tier))
    return rep.finish()


replay = U.replayer(groups)
