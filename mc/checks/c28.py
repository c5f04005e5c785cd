"""C28: transfer functions, transfer variables, chaotic maps and the fuzzy helper stay in their ranges for every input on dense grids."""
import itertools
import math

from .. import env, harness as H, units as U
from ..report import Report
import numpy as np
from mealpy import TransferBinaryVar, TransferBoolVar
from mealpy.utils import transfer
from mealpy.utils.chaotic import ChaoticMap
from mealpy.utils.fuzzy import FuzzySystem

REF = {
    "vstf_01": lambda x: abs(math.erf(math.sqrt(math.pi) / 2 * x)),
    "vstf_02": lambda x: abs(math.tanh(x)),
    "vstf_03": lambda x: abs(x / math.hypot(1.0, x)),
    "vstf_04": lambda x: abs(2 / math.pi * math.atan(math.pi / 2 * x)),
    "sstf_01": lambda x: sig(2.0 * x),
    "sstf_02": lambda x: sig(x),
    "sstf_03": lambda x: sig(x / 3.0),
    "sstf_04": lambda x: sig(x / 2.0),
}


def sig(z):
    if z >= 0:
        return 1.0 / (1.0 + math.exp(-z))
    e = math.exp(z) if z > -745 else 0.0
    return e / (1.0 + e)


def grid(step):
    xs = {0.0, -0.0}
    n = int(64 / step)
    xs.update(i * step for i in range(-n, n + 1))
    for e in range(-1074, 1024):
        xs.update((2.0 ** e, -2.0 ** e))
    for e in range(-300, 309, 4):
        for m in (1.0, 3.7, 9.9):
            v = float("%re%d" % (m, e))
            if math.isfinite(v):
                xs.update((v, -v))
    big = 1.7976931348623157e308
    xs.update((big, -big, 709.78, -709.78, 709.79, -709.79, 745.2, -745.2, 354.9, -354.9, 2129.4, -2129.4, 1419.6, -1419.6))
    return sorted(xs)


def functions(c, arg):
    name, step = arg
    f, ref = getattr(transfer, name), REF[name]
    xs = grid(step)
    prev = None
    vec = np.asarray(f(np.array(xs)))
    if vec.shape != (len(xs),):
        c.bad("transfer-shape", "%s of %d values has shape %s" % (name, len(xs), vec.shape))
        return
    for x, fv in zip(xs, vec.tolist()):
        v = float(f(x))
        c.add(cases=1)
        c.seen(x)
        if not (0.0 <= v <= 1.0):
            c.bad("transfer-range", "%s(%r) = %r" % (name, x, v))
        elif abs(v - ref(x)) > 1e-12:
            c.bad("transfer-value", "%s(%r) = %r, its formula gives %r" % (name, x, v, ref(x)))
        if not (fv == v or abs(fv - v) < 1e-15):
            c.bad("transfer-vector", "%s(%r) is %r alone and %r inside an array" % (name, x, v, fv))
        w = float(f(-x))
        if name[0] == "v" and w != v and abs(w - v) > 1e-15:
            c.bad("transfer-symmetry", "%s(%r) = %r, %s(%r) = %r" % (name, x, v, name, -x, w))
        if name[0] == "s" and abs(w + v - 1.0) > 1e-12:
            c.bad("transfer-symmetry", "%s(%r) + %s(%r) = %r" % (name, x, name, -x, w + v))
        if prev is not None and (name[0] == "s" or x > 0) and v < prev - 1e-15:
            c.bad("transfer-monotone", "%s falls to %r at %r" % (name, v, x))
        prev = v if (name[0] == "s" or x >= 0) else prev
    for arr in (np.arange(-20, 21), np.arange(12.0).reshape(3, 4) - 6, np.array(0.5), np.array([]), np.array([1], dtype=np.int32)):
        r = np.asarray(f(arr))
        if r.shape != arr.shape or not all(abs(a - ref(float(b))) < 1e-12 for a, b in zip(r.ravel(), arr.ravel())):
            c.bad("transfer-vector", "%s of an array of shape %s and type %s" % (name, arr.shape, arr.dtype))
        c.add(cases=1)


class All:
    """Every draw of the run takes the same lattice word."""

    def __init__(self, levels, m):
        self.levels, self.m = levels, m

    def __bool__(self):
        return True

    def get(self, i):
        j = self.levels[i % len(self.levels)]
        return lambda kind: (j + 0.5) / self.m if kind == "dbl" else ((2 * j + 1) << (32 if kind == "u32" else 64)) // (2 * self.m)


def variables(c, arg):
    kind, name, m, step = arg
    cls = TransferBinaryVar if kind == "binary" else TransferBoolVar
    ref = REF[name]
    for lb, ub in ((-8.0, 8.0), (-2.0, 2.0), (0.0, 1.0), (-1.0, 5.0), (-100.0, 30.0)):
        n = int((ub - lb) / step)
        xs = sorted({lb + i * step for i in range(n + 1)} | {lb, ub, lb - 3.0, ub + 3.0, 1e-12, -1e-12, 1 - 1e-12, 1 + 1e-12, 1e300, -1e300, 0.0, 1.0})
        for al in ((True, False) if kind == "binary" else (True,)):
            k = len(xs)
            make = (lambda n: cls(n_vars=n, tf_func=name, lb=lb, ub=ub, all_zeros=al)) if kind == "binary" else (lambda n: cls(n_vars=n, tf_func=name, lb=lb, ub=ub))
            var = make(k)
            what = "%s %s [%r, %r]" % (cls.__name__, name, lb, ub)
            ones = np.zeros(k)
            for j in range(m):
                for turn, fn in (("correct", var.correct), ("decode", var.decode)):
                    env.STATE.reset({})
                    var.seed = 3
                    env.STATE.reset(All([j], m))
                    x = np.array(xs)
                    r = np.asarray(fn(x))
                    c.add(cases=k)
                    if not np.array_equal(x, np.array(xs)):
                        c.bad("input-changed", "%s: %s changed its argument" % (what, turn))
                    if r.shape != (k,) or not set(np.unique(r).tolist()) <= {0, 1, True, False} or (turn == "decode" and kind == "bool" and r.dtype != bool):
                        c.bad("transfer-type", "%s: %s gives %s of type %s" % (what, turn, np.unique(r)[:5], r.dtype))
                        continue
                    if turn == "correct":
                        ones += r
                    elif not np.array_equal(r.astype(int), prev.astype(int)):
                        c.bad("transfer-decode", "%s: decode and correct disagree for the same draws" % what)
                    prev = r
            env.STATE.reset({})
            for x, o in zip(xs, ones):
                xc = min(max(x, lb), ub)
                c.seen(lb, ub, al, x)
                if xc in (0.0, 1.0):
                    if o not in (0, m) or (o == m) != (xc == 1.0):
                        c.bad("transfer-decided", "%s: %r became 1 for %d of %d draws" % (what, x, o, m))
                elif abs(o / m - ref(xc)) > 1.0 / m + 1e-9:
                    c.bad("transfer-probability", "%s: %r becomes 1 for %d of %d draws, the transfer value is %r" % (what, x, o, m, ref(xc)))
            # coordinates are decided independently of each other
            if al:
                v2 = make(2)
                q = 9
                for pair in ((xs[1], xs[-3]), (0.3, 0.7), (0.0, 0.6), (xs[2], xs[2])):
                    cnt = np.zeros((2, 2))
                    single = [0, 0]
                    for a, b in itertools.product(range(q), repeat=2):
                        env.STATE.reset({})
                        v2.seed = 3
                        env.STATE.reset(All([a, b], q))
                        r = np.asarray(v2.correct(np.array(pair))).astype(int)
                        cnt[r[0], r[1]] += 1
                        c.add(cases=1)
                    p = cnt / q / q
                    if abs(p[1, 1] - (p[1, 0] + p[1, 1]) * (p[0, 1] + p[1, 1])) > 1e-9:
                        c.bad("transfer-independence", "%s: %r outcomes %s" % (what, pair, cnt.tolist()))
            else:
                # never all zeros; the coordinate set instead can be any
                for n_vars in (1, 2, 3):
                    v3 = make(n_vars)
                    seen = set()
                    for lv in itertools.product(range(6), repeat=n_vars + 1):
                        for x in ((0.0,) * n_vars, (xs[3],) * n_vars, (0.2,) * n_vars):
                            env.STATE.reset({})
                            v3.seed = 3
                            env.STATE.reset(All(list(lv), 6))
                            r = np.asarray(v3.correct(np.array(x)))
                            c.add(cases=1)
                            if np.sum(r) == 0:
                                c.bad("transfer-all-zeros", "%s all_zeros=False: %r gives %s" % (what, x, r))
                            if x[0] == 0.0:
                                if np.sum(r) != 1:
                                    c.bad("transfer-all-zeros", "%s all_zeros=False: %r gives %s" % (what, x, r))
                                seen.add(int(np.argmax(r)))
                    if seen != set(range(n_vars)):
                        c.bad("transfer-all-zeros", "%s all_zeros=False: only %s is ever set instead of zeros" % (what, seen))
    env.STATE.reset({})


# closed-form range of one step for x in the domain the orbit lives in
MAPS = {
    "bernoulli_map": (0, 1), "logistic_map": (0, 1), "chebyshev_map": (-1, 1), "circle_map": (0, 1), "cubic_map": (0, 1), "icmic_map": (0, 1),
    "piecewise_map": (0, 1), "singer_map": (-0.01, 1.08), "sinusoidal_map": (0, 1), "tent_map": (0, 1),
}


def chaotic(c, arg):
    name, n, length = arg
    f = getattr(ChaoticMap, name)
    lo, hi = MAPS[name]
    eps = 1e-9
    starts = {i / n for i in range(n + 1)} | {1e-300, 5e-324, 1 - 2.0 ** -53, 0.7, 0.4, 0.6, 0.5, 2.0 ** -53, math.nextafter(0.7, 0), math.nextafter(0.4, 1), math.nextafter(0.5, 0), math.nextafter(0.6, 1)}
    if lo < -0.5:
        starts |= {-s for s in starts}
    vals = set()
    for s in sorted(starts):
        x = s
        for k in range(length):
            c.add(cases=1)
            try:
                with np.errstate(all="ignore"):
                    y = f(x)
            except Exception as e:
                c.bad("map-crash", "%s(%r): %r" % (name, x, e))
                break
            if not isinstance(y, (int, float, np.floating)) or not (lo - eps <= y <= hi + eps):
                c.bad("map-range", "%s(%r) = %r (start %r, step %d)" % (name, x, y, s, k))
                break
            x = float(y)
            if lo > -0.5:
                x = min(max(x, 0.0), 1.0 if hi == 1 else hi)
            else:
                x = min(max(x, -1.0), 1.0)
            if k < 4:
                vals.add(round(x, 6))
        c.seen(s)
    if len(vals) < 20:
        c.bad("map-constant", "%s takes only %d values" % (name, len(vals)))


def fuzzy(c, arg):
    t, n = arg
    for kind in ("increase", "decrease"):
        fs = FuzzySystem(kind)
        for cur in range(0, t + 1):
            r = fs.get_fuzzy_weights(cur, t)
            c.add(cases=1)
            c.seen(kind, cur)
            if len(r) != 3 or not all(math.isfinite(w) and 25 - 1e-9 <= w <= 75 + 1e-9 for w in r):
                c.bad("fuzzy-range", "%s %d/%d gives %r" % (kind, cur, t, r))
            m = fs.fuzzify_iterations(cur / t)
            if not all(0 <= v <= 1 for v in m.values()):
                c.bad("fuzzy-range", "fuzzify %d/%d gives %r" % (cur, t, m))
        for i, j, k in itertools.product(range(n), repeat=3):
            v = fs.defuzzify_centroid(dict(low=i / (n - 1), medium=j / (n - 1), high=k / (n - 1)))
            c.add(cases=1)
            if not (25 - 1e-9 <= v <= 75 + 1e-9):
                c.bad("fuzzy-range", "defuzzify %s gives %r" % ((i, j, k), v))
    fs = FuzzySystem()
    for a, b, d in itertools.combinations_with_replacement([0.0, 0.25, 0.5, 0.75, 1.0], 3):
        for q in range(-4, 45):
            x = q / 40
            v = fs.triangular_membership(x, a, b, d)
            c.add(cases=1)
            if not 0 <= v <= 1 or ((x < a or x > d) and v != 0) or (x == b and a < b < d and v != 1):
                c.bad("fuzzy-triangle", "triangle (%r, %r, %r) at %r is %r" % (a, b, d, x, v))


def groups(tier):
    deep = tier == "thorough"
    g = [(functions, "function-" + n, (n, 1 / 1024 if deep else 1 / 64)) for n in REF]
    g += [(variables, "variable-%s-%s" % (k, n), (k, n, 513 if deep else 65, 1 / 32 if deep else 1 / 8)) for k in ("binary", "bool") for n in REF]
    g += [(chaotic, "map-" + n, (n, 4000 if deep else 500, 400 if deep else 100)) for n in MAPS]
    g += [(fuzzy, "fuzzy-%d" % t, (t, 11)) for t in ((1, 2, 3, 7, 10, 100, 997) if deep else (1, 3, 10, 100))]
    return g


def main(tier):
    rep = Report("C28", tier, "exploration")
    rep.assumptions = ["real inputs are represented by a dense grid plus every power of two and the overflow thresholds; outcomes of the draws by an even lattice",
                       "chaotic maps are iterated inside the interval they are defined on"]
    U.run_groups(rep, groups(tier))
    rep.add(rule="every transfer function on every grid point (scalar and array), every transfer variable x bounds x position x draw level, every chaotic map's orbit from every grid start; non-trivial = distinct input")
    return rep.finish()


replay = U.replayer(groups)
