"""Variable definitions and position grids for the checks of the search-space components (C13, C14, C16)."""
import itertools
import math

import numpy as np

from . import env, harness as H
from mealpy.utils.space import (FloatVar, IntegerVar, StringVar, BinaryVar, BoolVar, CategoricalVar, SequenceVar,
                                PermutationVar, TransferBinaryVar, TransferBoolVar)

TF = ["vstf_01", "vstf_02", "vstf_03", "vstf_04", "sstf_01", "sstf_02", "sstf_03", "sstf_04"]
HUGE = 1.7e308


class Def:
    """One variable definition: how to build it, and independent of the library, what its domain is."""

    def __init__(self, label, make, kind, domain=None, n=1, member=None, values=None, lo=None, hi=None, ret=None):
        self.label, self.make, self.kind, self.domain, self.n = label, make, kind, domain, n
        self.lo, self.hi, self.ret = lo, hi, ret
        self._values = values

    def values(self, limit=3000):
        """Every domain value (as the list of its components; a bare sequence for SequenceVar); float: corner values."""
        if self.kind == "perm":
            return [list(p) for p in itertools.islice(itertools.permutations(self.domain), limit)]
        if self.kind == "seq":
            return list(self.domain)
        return [list(v) for v in itertools.islice(itertools.product(*self.domain), limit)]


def uniq(xs):
    out = []
    for x in xs:
        if not any(type(x) is type(y) and x == y for y in out):
            out.append(x)
    return out


def D_float(lb, ub, forms=("list",)):
    sc = not isinstance(lb, (list, tuple))
    L, U = ([lb], [ub]) if sc else (list(lb), list(ub))
    dom = [uniq([float(a), float(b), a + (b - a) * 0.5, a + (b - a) / 3]) for a, b in zip(L, U)]
    for f in forms:
        if f == "scalar":
            if not sc:
                continue
            mk = lambda name="v": FloatVar(lb=lb, ub=ub, name=name)
        else:
            c = dict(list=list, tuple=tuple, array=np.array)[f]
            mk = lambda name="v", c=c: FloatVar(lb=c(L), ub=c(U), name=name)
        yield Def("FloatVar(%s,%s)%s" % (L, U, f), mk, "float", domain=dom, n=len(L), lo=L, hi=U)


def D_int(lb, ub, forms=("list",)):
    sc = not isinstance(lb, (list, tuple))
    L, U = ([lb], [ub]) if sc else (list(lb), list(ub))
    dom = [list(range(a, b + 1)) if b - a < 64 else uniq([a, a + 1, (a + b) // 2, b - 1, b]) for a, b in zip(L, U)]
    for f in forms:
        if f == "scalar":
            if not sc:
                continue
            mk = lambda name="v": IntegerVar(lb=lb, ub=ub, name=name)
        else:
            c = dict(list=list, tuple=tuple, array=np.array)[f]
            mk = lambda name="v", c=c: IntegerVar(lb=c(L), ub=c(U), name=name)
        yield Def("IntegerVar(%s,%s)%s" % (L, U, f), mk, "int", domain=dom, n=len(L), lo=L, hi=U)


def D_label(cls, sets, nested=True):
    arg = sets
    S = [list(s) for s in sets] if nested else [list(sets)]
    yield Def("%s(%r)" % (cls.__name__, sets), lambda name="v": cls(valid_sets=arg, name=name), "label", domain=[uniq(s) for s in S], n=len(S))


def D_seq(sets, ret):
    yield Def("SequenceVar(%r,%s)" % (sets, getattr(ret, "__name__", ret)), lambda name="v": SequenceVar(valid_sets=sets, return_type=ret, name=name), "seq",
              domain=[tuple(s) for s in sets], n=1, ret=ret)


def D_perm(s):
    yield Def("PermutationVar(%r)" % (s,), lambda name="v": PermutationVar(valid_set=s, name=name), "perm", domain=list(s), n=len(s))


def D_bits(cls, n, **kw):
    lab = "%s(n=%d%s)" % (cls.__name__, n, "".join(",%s=%s" % i for i in sorted(kw.items())))
    yield Def(lab, lambda name="v": cls(n_vars=n, name=name, **kw), "bool" if issubclass(cls, BoolVar) else "bit", domain=[[False, True] if issubclass(cls, BoolVar) else [0, 1]] * n, n=n)


def definitions(tier="quick"):
    big = tier == "thorough"
    out = []
    for a, b in ((-3., 5.), (0., 0.), (2., 2. + 1e-9), (-1e8, 1e10), (0., 1.), (-9, -4), (1e-300, 1e-299), (-5e307, 5e307), (0, 10), (-1e-12, 0.)):
        out += D_float(a, b, ("scalar", "list", "tuple", "array"))
    out += D_float([-3., 0.], [5., 1.], ("list", "tuple", "array"))
    out += D_float([-10., -2., 1.], [10., 3., 4.], ("list",))
    out += D_float([2., -1e9, 0.], [2., 1e9, 1e-9], ("tuple",))
    r = 4 if big else 3
    for a in range(-r, r + 1):
        for b in range(a, r + 1):
            out += D_int(a, b, ("scalar", "list") if (a + b) % 2 else ("scalar",))
    for a, b in ((0, 60), (-2 ** 31, 2 ** 31), (0, 2 ** 41 + 3), (-2 ** 50, 2 ** 50), (2 ** 45 - 2, 2 ** 45), (10 ** 6, 10 ** 6), (-2 ** 44 - 1, -2 ** 44 + 1), (999, 1001)):
        out += D_int(a, b, ("scalar", "list", "tuple", "array"))
    for L, U in (([-3, 0], [4, 1]), ([5, 5], [5, 9]), ([-1, 0, 7], [1, 3, 8]), ([0, 2 ** 42], [1, 2 ** 42 + 2])):
        out += D_int(L, U, ("list", "tuple", "array"))
    for s in (("a",), ("a", "b"), ("b", "a", "c"), ("x", "", "y", " "), ("b", "a", "b"), ("10", "9", "1", "2")):
        for c in (tuple, list, np.array):
            out += D_label(StringVar, c(s), nested=False)
    for s in ((("a", "b"), ("u", "v", "w")), (("q", "p", "r"), ("0", "1"), ("z", "zz")), [["a", "b"], ["b", "a"]], (["a", "b"], ("c", "d", "e", "f"))):
        out += D_label(StringVar, s)
    for s in (("a", 2, 3.5), (None, "a"), (True, False), (3, 1, 2), (1.5, -2.5, 0.5), ("only",), (None, 1, "x", 2.5), ["l", "m"], ("1", 1, "1.0")):
        out += D_label(CategoricalVar, s, nested=False)
    for s in (((1, 2), ("x", "y", "z")), ((1, 2.5), (None, 3), ("a", "b")), (((1, 2), (3,)), ("p", "q")), ([1, "1"], [0.5, "h", None, 7])):
        out += D_label(CategoricalVar, s)
    for s in (((1,), (2, 3), (4, 5, 6)), ([1, 2], [3, 4]), (("a",), ("b", "a")), ((), (0,)), ((1, 2), (2, 1), (1,), (2,)), ([None], ["x", 1])):
        for ret in (tuple, list):
            out += D_seq(s, ret)
    for s in ((1, 2), (3, 1, 2), (3, 1, 4, 7), ("b", "a", "c"), [2.5, 1.5, 0.5], np.array([9, 8, 7]), tuple(range(5)), (0, "a", 2.5), ("x", None), ((0, 1), (1, 0)), (10, 9, 100)):
        out += D_perm(s)
    for n in (1, 2, 3) + ((4, 5) if big else ()):
        out += D_bits(BinaryVar, n)
        out += D_bits(BoolVar, n)
    for tf in TF:
        for n in (1, 2) + ((3,) if big else ()):
            for az in (True, False):
                out += D_bits(TransferBinaryVar, n, tf_func=tf, all_zeros=az)
            out += D_bits(TransferBoolVar, n, tf_func=tf)
    for lb, ub in ((-1., 1.), (0., 10.), (-1000., 1000.), (0., 1.)):     # the box must hold 0 and 1
        for tf in ("vstf_01", "sstf_02", "vstf_03") if not big else TF:
            out += D_bits(TransferBinaryVar, 2, tf_func=tf, lb=lb, ub=ub)
            out += D_bits(TransferBoolVar, 1, tf_func=tf, lb=lb, ub=ub)
            out += D_bits(TransferBinaryVar, 1, tf_func=tf, lb=lb, ub=ub, all_zeros=False)
    return out


def crit(d, v):
    """Critical coordinates of every component: bounds, just inside and outside, cell borders and middles, huge, signed zero."""
    out = []
    for j in range(v.n_vars):
        lb, ub = float(v.lb[j]), float(v.ub[j])
        c = [lb, ub, np.nextafter(lb, np.inf), np.nextafter(lb, -np.inf), np.nextafter(ub, np.inf), np.nextafter(ub, -np.inf),
             lb - 1, ub + 1, lb + (ub - lb) * 0.5, lb + (ub - lb) / 3, 0.0, -0.0, HUGE, -HUGE, 5e-324, 0.5, -0.5, 1.0]
        if d.kind != "float":
            lo, hi = math.floor(lb) - 1, math.ceil(ub) + 1
            ks = range(lo, hi + 1) if hi - lo < 14 else [lo, lo + 1, lo + 2, (lo + hi) // 2, hi - 2, hi - 1, hi]
            for k in ks:
                c += [float(k), k + 0.5, k + 0.25, np.nextafter(k, np.inf), np.nextafter(k, -np.inf), np.nextafter(k + 0.5, -np.inf), k + 0.4999, k + 0.99995, k + 0.99985]
        seen, u = set(), []
        for x in c:
            key = (float(x), math.copysign(1, x))
            if math.isfinite(x) and key not in seen:
                seen.add(key)
                u.append(float(x))
        out.append(u)
    return out


def thin(xs, n):
    return xs if len(xs) <= n else [xs[i] for i in sorted({round(k * (len(xs) - 1) / (n - 1)) for k in range(n)})]


def grid(d, v, cap):
    """All combinations of critical coordinates; per-component lists are thinned evenly so that at most `cap` result."""
    cs = crit(d, v)
    per = max(4, int(cap ** (1.0 / len(cs))))
    full = all(len(c) <= per for c in cs)
    yield from itertools.product(*[thin(c, per) for c in cs])
    if not full:                                   # every value of every component at least once
        mid = [c[len(c) // 2] for c in cs]
        for j, c in enumerate(cs):
            for x in c:
                yield tuple(mid[:j] + [x] + mid[j + 1:])


def py(x):
    return x.item() if isinstance(x, np.generic) else x


def same_val(a, b):
    """Equal as domain values (numpy scalars compare as Python ones, and 1 is not '1')."""
    a, b = py(a), py(b)
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, str) != isinstance(b, str) or (a is None) != (b is None):
        return False
    return a == b


def in_domain(d, vals):
    """None, or why `vals` (what decode/generate returned) is not a domain value of the declared type."""
    if d.kind == "seq":
        return None if any(same_val(tuple(vals), s) for s in d.domain) else "not one of the sequences"
    vs = list(vals)
    if len(vs) != d.n:
        return "%d components instead of %d" % (len(vs), d.n)
    if d.kind == "perm":
        left = list(d.domain)
        for x in vs:
            for i, y in enumerate(left):
                if same_val(x, y):
                    del left[i]
                    break
            else:
                return "not a permutation of the set"
        return None
    for j, x in enumerate(vs):
        x = py(x)
        if d.kind == "float":
            if type(x) is not float or not (d.lo[j] <= x <= d.hi[j]):
                return "component %d = %r outside [%r, %r] or not a float" % (j, x, d.lo[j], d.hi[j])
        elif d.kind == "int":
            if type(x) is not int or not (d.lo[j] <= x <= d.hi[j]):
                return "component %d = %r outside {%r..%r} or not an integer" % (j, x, d.lo[j], d.hi[j])
        elif d.kind == "bit":
            if x not in (0, 1) or isinstance(x, str):
                return "component %d = %r is not 0/1" % (j, x)
        elif d.kind == "bool":
            if type(x) is not bool:
                return "component %d = %r is not a bool" % (j, x)
        elif not any(same_val(x, y) for y in d.domain[j]):
            return "component %d = %r is not in the valid set" % (j, x)
    return None
