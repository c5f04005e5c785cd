"""C20: ParameterGrid is exactly the Cartesian product, iterated and indexed alike."""
import collections
import itertools

import numpy as np

from .. import units as U
from ..report import Report
from mealpy.tuner import ParameterGrid

NAMES = ["b", "a", "pop_size", 3]
POOL = [["x", "y", "z", "w"], [1, 2, 3, 4], [None, True, 0.5, (1, 2)], [1, 1, 1.0, True], [float("inf"), -0.0, 0, "0"]]


def conts(vals):
    yield list(vals)
    yield tuple(vals)
    try:
        yield np.array(vals)
    except ValueError:
        pass


def reference(grids):
    out = []
    for g in grids:
        keys = list(g)
        for combo in itertools.product(*[list(g[k]) for k in keys]):
            out.append(dict(zip(keys, combo)))
    return out


def eq(a, b):
    return type(a) is dict and list(a) == list(b) and all((type(a[k]) is type(b[k]) and (a[k] is b[k] or a[k] == b[k])) for k in a)


def judge(c, make, grids, what, order=True):
    snap = repr(make())
    arg = make()
    try:
        pg = ParameterGrid(arg)
    except Exception as e:
        c.bad("refused", "%s: %r" % (what, e))
        return
    ref = reference(grids)
    c.seen(what)
    c.add(cases=1, combos=len(ref))
    n = None
    try:
        n = len(pg)
    except Exception as e:
        n = e
    if n != len(ref):
        c.bad("len", "%s: len() is %r, there are %d combinations" % (what, n, len(ref)))
    for turn in (1, 2):
        got = list(pg)
        if len(got) != len(ref) or not all(eq(a, b) for a, b in zip(got, ref)):
            k = next((i for i, (a, b) in enumerate(zip(got, ref)) if not eq(a, b)), min(len(got), len(ref)))
            c.bad("iteration", "%s: iteration %d gives %d combinations, entry %d is %r, expected %r" % (what, turn, len(got), k, got[k:k + 1], ref[k:k + 1]))
            return
        for g in got:               # what a caller does with a combination must not change the grid
            g["extra"] = 1
            for k in list(g)[:1]:
                g[k] = "changed"
    pair = list(itertools.islice(zip(pg, pg), 0, 50))
    if not all(eq(a, b) and eq(b, r) for (a, b), r in zip(pair, ref)):
        c.bad("iteration", "%s: two iterations at once disturb each other" % what)
    for i in list(range(len(ref))) + [np.int64(i) for i in range(min(3, len(ref)))]:
        c.add(indexes=1)
        try:
            g = pg[i]
        except Exception as e:
            g = e
        if isinstance(g, Exception) or not eq(g, ref[int(i)]):
            c.bad("index", "%s: [%d] gives %r, the iteration gives %r" % (what, i, g, ref[int(i)]))
            break
    for i in (len(ref), len(ref) + 1, len(ref) + 1000, -len(ref) - 1, 10 ** 30):
        c.add(indexes=1)
        try:
            g = pg[i]
            c.bad("out-of-range", "%s: [%d] of %d gives %r" % (what, i, len(ref), g))
        except IndexError:
            pass
        except Exception as e:
            c.bad("out-of-range", "%s: [%d] of %d gives %r" % (what, i, len(ref), e))
    for i in range(-1, -len(ref) - 1, -1):
        c.add(indexes=1)
        try:
            g = pg[i]
        except IndexError:
            continue                # refusing is fine, another combination is not
        except Exception as e:
            g = e
        if isinstance(g, Exception) or not eq(g, ref[i]):
            c.bad("negative-index", "%s: [%d] gives %r, list()[%d] is %r" % (what, i, g, i, ref[i]))
            break
    if repr(arg) != snap:
        c.bad("input-changed", "%s" % what)


def dicts(nk, maxsize):
    for sizes in itertools.product(range(1, maxsize + 1), repeat=nk):
        for shift in range(len(POOL) if nk else 1):
            yield {NAMES[i]: POOL[(i + shift) % len(POOL)][:s] for i, s in enumerate(sizes)}


def one_dict(c, arg):
    nk, maxsize = arg
    for d in dicts(nk, maxsize):
        judge(c, lambda: dict(d), [d], "dict %r" % d)
        judge(c, lambda: [dict(d)], [d], "list %r" % d)
    if nk:
        for d in itertools.islice(dicts(nk, 2), 40):
            for cs in itertools.product(*[list(conts(v)) for v in d.values()]):
                e = dict(zip(d, cs))
                judge(c, lambda: dict(e), [e], "containers %r" % e)
    judge(c, lambda: {"a": range(3), "b": "xy".split() if False else ["x", "y"]}, [{"a": range(3), "b": ["x", "y"]}], "range")
    judge(c, lambda: collections.OrderedDict([("z", [1, 2]), ("a", [3, 4])]), [{"z": [1, 2], "a": [3, 4]}], "OrderedDict")


GS = [{}, {"a": [1]}, {"a": [1, 2]}, {"b": ["x", "y"], "a": [1, 2, 3]}, {"p": [0], "q": [1, 2], "r": [3, 4]}, {"a": [1, 2, 3], "b": [None]}]


def lists(c, arg):
    first, n = arg
    for rest in itertools.product(range(len(GS)), repeat=n - 1):
        gs = [GS[i] for i in (first,) + rest]
        judge(c, lambda: [dict(g) for g in gs], gs, "list %r" % gs)
        judge(c, lambda: tuple(dict(g) for g in gs), gs, "tuple %r" % gs)
        class Once:
            def __init__(s): s.it = iter([dict(g) for g in gs])
            def __iter__(s): return s.it
            def __repr__(s): return "iterator"
        judge(c, Once, gs, "iterator %r" % gs)


def malformed(c, _):
    bad = [5, None, 2.5, True, object(), "ab", ["a"], [1], [{"a": [1]}, 5], [{"a": [1]}, "x"], [["a", [1]]], {"a": 5}, {"a": None}, {"a": "xyz"}, {"a": {1, 2}}, {"a": {1: 2}},
           {"a": []}, {"a": ()}, {"a": np.array([])}, {"a": np.zeros((2, 2))}, {"a": np.zeros((1, 1))}, {"a": 1.5, "b": [1]}, {"b": [1], "a": "s"}, [{"a": [1]}, {"a": 3}], [{"a": [1]}, {"b": []}],
           {"a": iter([1, 2])}, {"a": (x for x in [1])}, {"a": [1], "b": np.ones((3, 1))}, {"a": True}, {"a": np.array(3)}, [{}, {"a": ""}]]
    for b in bad:
        c.add(cases=1)
        c.seen("bad", repr(b)[:60])
        try:
            pg = ParameterGrid(b)
        except (TypeError, ValueError):
            continue
        except Exception as e:
            c.bad("malformed-crash", "%r: %r" % (b, e))
            continue
        c.bad("malformed-accepted", "%r gives %r" % (b, list(pg)[:3]))


def groups(tier):
    t = tier != "quick"
    g = [(malformed, "malformed", None)]
    g += [(one_dict, "dict%d" % k, (k, m)) for k, m in ((0, 1), (1, 4), (2, 4), (3, 4 if t else 3), (4, 4 if t else 2))]
    g += [(lists, "list%d-%d" % (n, f), (f, n)) for n in (1, 2, 3) + ((4, 5) if t else ()) for f in range(len(GS))]
    g += [(empty, "empty-list", None)]
    return g


def empty(c, _):
    for e in ([], ()):
        judge(c, lambda: e, [], "empty %r" % (e,))


def main(tier):
    rep = Report("C20", tier, "exploration")
    rep.assumptions = ["the order of the iteration is the one documented by the class's examples: the last key cycles fastest, grids of a list in order"]
    rep.add(rule="every dict of up to 4 keys x every combination of list sizes x value pools x containers, every list of up to 3 (thorough: 5) grids, every index in and around the range")
    U.run_groups(rep, groups(tier))
    return rep.finish()


replay = U.replayer(groups)
