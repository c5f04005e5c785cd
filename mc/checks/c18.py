"""C18: every Validator check accepts exactly the stated domain; constructors store legal values and refuse the others."""
import itertools
import json
import math
import os
from decimal import Decimal
from fractions import Fraction

import numpy as np

from .. import harness as H, units as U
from ..report import Report, ROOT
from mealpy.utils.validator import Validator

INF = float("inf")
RANGES = os.path.join(ROOT, "mc", "ranges.json")
REFUSE = object()


# ---------------------------------------------------------------- the Validator's own checks
def up(x):
    return float(np.nextafter(x, INF))


def down(x):
    return float(np.nextafter(x, -INF))


BND = [None, [0, 1], (0, 1), [1, 5], (1, 5), [-3, 3], (-3, 3), [2, 2], (2, 2), [0.5, 2.5], (0.5, 2.5), [-1.5, -0.5], (-2.5, 2.5), [5, 10000], (0, 1.0),
       [1, INF], (1, INF), [-INF, 3], (-INF, 3), (-INF, INF), [-INF, INF], [10 ** 18, 10 ** 19], [1, 100000], (0.0, 0.5), [3, 1], (1e-300, 1e300)]
NUMS = sorted({0, 1, 2, 3, 4, 5, 6, -1, -2, -3, -4, 10, 9999, 10000, 10001, 100000, 100001, 10 ** 18, 10 ** 18 - 1, 10 ** 19, 10 ** 19 + 1, 2 ** 70, -2 ** 70,
               0.5, up(0.5), down(0.5), 2.5, up(2.5), down(2.5), -0.5, -1.5, up(-0.5), down(-1.5), up(0.0), down(0.0), up(1.0), down(1.0), up(5.0), down(5.0), up(-3.0), down(-3.0),
               up(3.0), down(3.0), 0.25, 1.5, 0.1, 1e-300, 1e300, up(1e300), down(1e-300), 5e-324, -1e-320, 1.7e308, -1.7e308, 4.999, 2.0000001}, key=float)
TYPED = [t(v) for v in (0, 1, 2, 3, 5, -3, 6) for t in (float, np.int32, np.int64, np.float64, np.float32, Fraction, Decimal)] \
    + [np.uint8(0), np.uint8(5), np.int8(-3), np.float16(0.5), Fraction(1, 2), Fraction(1, 3), Decimal("0.5"), Decimal("2.5"), -0.0, True, False]
ENDS = [INF, -INF, np.float64(INF), np.float64(-INF)]
JUNK = [None, "1", "", "abc", b"1", [1], (1,), {1: 2}, {1}, float("nan"), np.float64("nan"), 1 + 2j, np.complex128(1), int, np.array([1, 2]), object(), Ellipsis, range(3)]


def inside(v, b):
    """True/False, or None where the bound itself does not say (an infinite value at an infinite end)."""
    if b is None:
        return True
    lo, hi = b
    fv = float(v) if not isinstance(v, int) else None
    if fv is not None and math.isinf(fv):
        if (fv > 0 and hi == INF) or (fv < 0 and lo == -INF):
            return None
        return False
    x = Fraction(v) if not isinstance(v, np.generic) else Fraction(v.item())
    strict = isinstance(b, tuple)
    if lo != -INF and (x < Fraction(lo) or (strict and x == Fraction(lo))):
        return False
    if hi != INF and (x > Fraction(hi) or (strict and x == Fraction(hi))):
        return False
    return True


def call(f, *a):
    try:
        return f(*a)
    except ValueError:
        return REFUSE


def num_checks(c, bounds):
    v = Validator()
    for b in bounds:
        for x in NUMS + TYPED + ENDS:
            ok = inside(x, b)
            if ok is None:
                continue
            inf = math.isinf(float(x)) if not isinstance(x, int) else False
            for nm, f in (("check_int", v.check_int), ("check_float", v.check_float)):
                c.add(cases=1)
                try:
                    r = f("p", x, b)
                except ValueError:
                    r = REFUSE
                except OverflowError as e:
                    r = e
                want = ok and not (inf and nm == "check_int")
                c.seen(nm, repr(b), want, type(x).__name__, r is REFUSE)
                if isinstance(r, Exception):
                    if not (nm == "check_float" and abs(x) > 1.7e308):
                        c.bad("crash-" + nm, "%s(%r, %r) -> %r" % (nm, x, b, r), subject=nm)
                elif (r is not REFUSE) != want:
                    c.bad("wrongly-accepted" if r is not REFUSE else "wrongly-refused", "%s(%r, bound=%r) -> %s" % (nm, x, b, "refused" if r is REFUSE else repr(r)), subject=nm)
                elif want:
                    t = int if nm == "check_int" else float
                    if type(r) is not t or r != t(x):
                        c.bad("changed", "%s(%r, bound=%r) -> %r" % (nm, x, b, r), subject=nm)
        for x in JUNK:
            for nm, f in (("check_int", v.check_int), ("check_float", v.check_float)):
                c.add(cases=1)
                try:
                    r = call(f, "p", x, b)
                except Exception as e:
                    r = e
                if r is not REFUSE:
                    c.bad("wrongly-accepted", "%s(%r, bound=%r) -> %r" % (nm, x, b, r), subject=nm)


def int_and_float(c, b1):
    v = Validator()
    for b2 in BND:
        for x in NUMS + TYPED + ENDS + JUNK:
            c.add(cases=1)
            b = b1 if type(x) is int else b2 if type(x) is float else 0
            ok = False if b == 0 else (False if x != x else inside(x, b))
            if ok is None:
                continue
            if x is not None and isinstance(x, float) and x != x and b is None:
                continue
            try:
                r = call(v.check_is_int_and_float, "p", x, b1, b2)
            except Exception as e:
                r = e
            c.seen("iaf", type(x).__name__, repr(b), ok)
            if (r is not REFUSE) != ok:
                if type(x) is float and x != x:
                    continue
                c.bad("wrongly-accepted" if r is not REFUSE else "wrongly-refused", "check_is_int_and_float(%r, %r, %r) -> %r" % (x, b1, b2, r), subject="check_is_int_and_float")
            elif ok and (type(r) is not type(x) or r != x):
                c.bad("changed", "check_is_int_and_float(%r, %r, %r) -> %r" % (x, b1, b2, r), subject="check_is_int_and_float")


def tuple_checks(c, arg):
    bs, tier = arg
    v = Validator()
    ints = [-4, -3, 0, 1, 2, 3, 5, 6, np.int64(1), np.int32(6)]
    flts = [-3.0, up(-3.0), 0.5, 1.0, down(1.0), 2.5, up(2.5), 5.0, np.float64(0.5), np.float32(3)]
    junk = ["1", None, float("nan"), 1j, [1]]
    n = len(bs) if bs is not None else 2
    alpha = ints + flts + junk if n <= 2 or tier != "quick" else ints[1:7] + flts[2:6] + junk[:3]
    for vals in itertools.product(alpha, repeat=n):
        for nm, f in (("check_tuple_int", v.check_tuple_int), ("check_tuple_float", v.check_tuple_float)):
            for wrap in (tuple, list):
                x = wrap(vals)
                c.add(cases=1)
                good = all(isinstance(i, (int, np.integer)) for i in vals) if nm == "check_tuple_int" else \
                    all(isinstance(i, (int, float, np.integer, np.floating)) and i == i for i in vals)
                want = good and (bs is None or all(inside(i, b) for i, b in zip(vals, bs)))
                try:
                    r = call(f, "p", x, bs)
                except Exception as e:
                    r = e
                c.seen(nm, repr(bs), tuple(type(i).__name__ for i in vals), want)
                if (r is not REFUSE) != bool(want):
                    c.bad("wrongly-accepted" if r is not REFUSE else "wrongly-refused", "%s(%r, %r) -> %r" % (nm, x, bs, r), subject=nm)
                elif want and (list(r) != list(x)):
                    c.bad("changed", "%s(%r, %r) -> %r" % (nm, x, bs, r), subject=nm)
    for x in (None, 1, 2.5, "12", "ab", {1: 2, 3: 4}, {1, 2}, (), [], tuple([1] * (n + 1)), tuple([1] * max(0, n - 1))):
        for nm, f in (("check_tuple_int", v.check_tuple_int), ("check_tuple_float", v.check_tuple_float)):
            c.add(cases=1)
            if bs is None and isinstance(x, tuple) and len(x) > 1:
                continue
            try:
                r = call(f, "p", x, bs)
            except Exception as e:
                r = e
            if r is not REFUSE:
                c.bad("wrongly-accepted", "%s(%r, %r) -> %r" % (nm, x, bs, r), subject=nm)


class MyInt(int):
    pass


def other_checks(c, _):
    v = Validator()
    words = ["a", "b", "ab", "", "A", "None", "True"]
    for r in range(0, 4):
        for opts in [None] * (r == 0) + [list(p) for p in itertools.permutations(words[:5], r)]:
            for x in words + [None, 1, True, b"a", ["a"], ("a",), 2.5, np.str_("a")]:
                c.add(cases=1)
                if isinstance(x, np.str_):
                    continue
                want = type(x) is str and (opts is None or x in opts)
                got = call(v.check_str, "p", x, opts)
                c.seen("str", repr(opts), want)
                if (got is not REFUSE) != want or (want and got != x):
                    c.bad("check_str", "check_str(%r, %r) -> %r" % (x, opts, got), subject="check_str")
    for opts in ((True, False), (False, True), (True,), (False,), [True], [False, True]):
        for x in (True, False, 1, 0, 1.0, "True", None, [True], np.int64(1)):
            c.add(cases=1)
            want = type(x) is bool and x in opts
            got = call(v.check_bool, "p", x, opts)
            c.seen("bool", repr(opts), want)
            if (got is not REFUSE) != want or (want and got is not x):
                c.bad("check_bool", "check_bool(%r, %r) -> %r" % (x, opts, got), subject="check_bool")
    for x in ([1], (1,), [1, "b"], ("a", None), [[1], [2]], [], (), None, "ab", {1: 2}, {1}, 3, range(3), np.array([1])):
        c.add(cases=1)
        want = type(x) in (list, tuple) and len(x) >= 1
        got = call(v.check_list_tuple, "p", x, "things")
        if (got is not REFUSE) != want or (want and (type(got) is not list or got != list(x))):
            c.bad("check_list_tuple", "check_list_tuple(%r) -> %r" % (x, got), subject="check_list_tuple")
    for x in (1, True, MyInt(3), 2.5, "a", None, [1], (1,), Validator()):
        for t in (int, float, str, list, tuple, Validator, (int, str), bool, object):
            c.add(cases=1)
            want = isinstance(x, t)
            got = call(v.check_is_instance, "p", x, t)
            if (got is not REFUSE) != want or (want and got is not x):
                c.bad("check_is_instance", "check_is_instance(%r, %r) -> %r" % (x, t, got), subject="check_is_instance")


# ---------------------------------------------------------------- the constructors
def bnd(d):
    t = (float(d["lo"]), float(d["hi"]))
    return t if d["open"] else list(t)


def ints_of(b):
    lo, hi = b
    a = int(lo) if isinstance(b, list) and lo == int(lo) else math.floor(lo) + 1
    z = (int(hi) if isinstance(b, list) and hi == int(hi) else math.ceil(hi) - 1) if hi != INF else a + 1000
    return a, z


def probes(r):
    """(inside values, outside values) of one stated range."""
    k = r["kind"]
    junk = ["abc", None, [1], (), {}, float("nan"), 1j]
    if k == "check_str":
        return list(r["options"]), ["", "no_such_option", str(r["options"][0]).upper() + "_", None, 1, True, [r["options"][0]]]
    if k == "check_bool":
        return [True, False], ["True", None, 1, 0, [True], 2.5]
    b = bnd(r["b"])
    lo, hi = b
    if k == "check_int":
        a, z = ints_of(b)
        ins = [a, a + 1, (a + z) // 2, z - 1, z]
        ins = [x for x in dict.fromkeys(ins) if a <= x <= z]
        outs = [a - 1, a - 1000] + ([z + 1, z * 3 + 7] if hi != INF else []) + ([INF] if hi != INF else []) + [-INF]
        return ins, outs + junk
    if k == "check_float":
        closed = isinstance(b, list)
        a = -1e3 if lo == -INF else lo if closed else up(lo)
        z = 1e4 if hi == INF else hi if closed else down(hi)
        ins = [x for x in dict.fromkeys([a, z, (a + z) / 2, a + (z - a) / 3]) if a <= x <= z]
        outs = []
        if lo != -INF:
            outs += [down(lo) if closed else lo, lo - 1000.0, -INF]
        if hi != INF:
            outs += [up(hi) if closed else hi, hi * 2 + 1000.0, INF]
        return ins, outs + junk
    b2 = bnd(r["b2"])
    i1, o1 = probes(dict(kind="check_int", b=r["b"]))
    i2, o2 = probes(dict(kind="check_float", b=r["b2"]))
    return [i for i in i1 if type(i) is int] + [i for i in i2 if type(i) is float], [i for i in o1 if type(i) is int] + [i for i in o2 if type(i) is float] + junk


def same(a, b):
    return type(a) is type(b) and a == b


def construct(cls, kw):
    try:
        return cls(**kw), None
    except Exception as e:
        return None, e


def ctor(c, arg):
    name, tier = arg
    cls = H.all_optimizers().get(name)
    if cls is None:
        c.bad("missing", "the optimizer is gone")
        return
    R = json.load(open(RANGES))[name]
    ex = {tuple(x) for x in R.get("coupled", [])}
    for given, ranges in [({}, R["ranges"])] + [(x["given"], x["ranges"]) for x in R["contexts"]]:
        for p, r in ranges.items():
            ins, outs = probes(r)
            for x in ins:
                c.add(cases=1)
                kw = {**given, p: x}
                o, e = construct(cls, kw)
                key = (repr(sorted(given.items())), p, repr(x))
                if o is None:
                    if key not in ex:
                        c.bad("refused-" + p if isinstance(e, ValueError) else "crash-" + p, "%s(%s) is inside the stated range but %r" % (name, kw, e))
                    continue
                g = o.get_parameters()
                st = g[p] if p in g else getattr(o, p, REFUSE)
                c.seen(name, p, repr(x))
                if not same(st, x) and not (r["kind"] == "check_float" and st == x):
                    c.bad("stored-" + p, "%s(%s) stores %r under %r" % (name, kw, st, p))
                if getattr(o, p, x) != x and not (p == "pop_size" and cls.__name__ in POPS):
                    c.bad("attr-" + p, "%s(%s) has attribute %s=%r" % (name, kw, p, getattr(o, p)))
            for x in outs:
                c.add(cases=1)
                kw = {**given, p: x}
                o, e = construct(cls, kw)
                c.seen(name, p, "out", repr(x))
                if o is not None:
                    c.bad("accepted-" + p, "%s(%s) is accepted although the range is %r" % (name, kw, r))
                elif not isinstance(e, ValueError):
                    c.bad("crash-" + p, "%s(%s) answers %r instead of ValueError" % (name, kw, e))
    # all at once: every value lands under its own name
    import inspect
    sig = [q.name for q in inspect.signature(cls.__init__).parameters.values() if q.name != "self" and q.kind != q.VAR_KEYWORD]
    o, e = construct(cls, {})
    if o is None:
        c.bad("defaults", "%s() answers %r" % (name, e))
        return
    g = o.get_parameters()
    for p in sig:
        if p not in g:
            c.bad("unnamed-" + p, "constructor parameter %r is not in get_parameters() %r" % (p, sorted(g)))
        else:
            d = inspect.signature(cls.__init__).parameters[p].default
            if d is not inspect._empty and g[p] != d:
                c.bad("default-" + p, "default %r is stored as %r" % (d, g[p]))
    dyn = {p for x in R["contexts"] for p in x["ranges"]}
    if tier != "quick":
        P = list(R["ranges"].items())
        for (p, rp), (q, rq) in itertools.permutations(P, 2):
            ip, oq = probes(rp)[0], probes(rq)[1]
            if q in dyn:
                continue
            for x in ip:
                for y in oq:
                    c.add(cases=1)
                    o, e = construct(cls, {p: x, q: y})
                    if o is not None:
                        c.bad("accepted-" + q, "%s(%s=%r, %s=%r) is accepted although the range is %r" % (name, p, x, q, y, rq))
                    elif not isinstance(e, ValueError):
                        c.bad("crash-" + q, "%s(%s=%r, %s=%r) answers %r" % (name, p, x, q, y, e))
            for x in ip:
                for y in probes(rq)[0]:
                    o, e = construct(cls, {p: x, q: y})
                    c.add(cases=1)
                    if o is not None and p in o.get_parameters() and q in o.get_parameters() and (o.get_parameters()[p] != x or o.get_parameters()[q] != y):
                        c.bad("stored-" + p, "%s(%s=%r, %s=%r) stores %r" % (name, p, x, q, y, o.get_parameters()))
                    elif o is None and not isinstance(e, ValueError):
                        c.bad("crash-" + q, "%s(%s=%r, %s=%r) answers %r" % (name, p, x, q, y, e))
    # full call with everything inside its range but off the defaults
    kw = {}
    for p, r in R["ranges"].items():
        if p in dyn:
            continue
        ins = [x for x in probes(r)[0] if (repr([]), p, repr(x)) not in ex and not same(x, g.get(p))]
        for x in ins[2:] + ins[:2]:
            o, e = construct(cls, {**kw, p: x})
            if o is not None:
                kw[p] = x
                break
    c.add(cases=1)
    o, e = construct(cls, kw)
    if o is not None:
        for p, x in kw.items():
            if p in o.get_parameters() and o.get_parameters()[p] != x:
                c.bad("stored-" + p, "%s(%s) stores %r under %r" % (name, kw, o.get_parameters()[p], p))


POPS = ("OriginalPO",)


def groups(tier):
    g = [(num_checks, "num:%r" % (b,), [b]) for b in BND]
    g += [(int_and_float, "intfloat:%r" % (b,), b) for b in BND]
    tb = [None] + [list(p) for p in itertools.product(BND[1:7] + BND[9:13] + [[1, INF], (-INF, 3)], repeat=2)]
    if tier != "quick":
        tb += [list(p) for p in itertools.product(BND[1:5] + [(-INF, 3)], repeat=3)]
    else:
        tb += [[[0, 1], (0, 1), [1, 5]], [(-3, 3), [0.5, 2.5], [1, INF]]]
    g += [(tuple_checks, "tuple:%r" % (b,), (b, tier)) for b in tb]
    g.append((other_checks, "other", None))
    g += [(ctor, n, (n, tier)) for n in sorted(json.load(open(RANGES)))]
    return g


def main(tier):
    rep = Report("C18", tier, "exploration")
    rep.assumptions = ["check_int returns the integer part of an in-bound number (the documented tests fix this)",
                       "the range an optimizer states is the one recorded in mc/ranges.json (from its constructor, per optimizer and context)",
                       "a list bound is closed, a tuple bound is open, an infinite end leaves that side unbounded"]
    rep.add(rule="every Validator check x every value of an alphabet around every bound x every bound form; every constructor parameter x values at, inside and outside the ends of its stated range and of wrong types (thorough: every pair of parameters); a case is non-trivial when it differs in check, bound, type of value or expected answer")
    U.run_groups(rep, groups(tier))
    return rep.finish()


replay = U.replayer(groups)
