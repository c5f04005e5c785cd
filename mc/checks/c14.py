"""C14: generated values lie in the domain for every outcome of the draws, every domain value occurs, a seed fixes the sequence."""
import itertools

import numpy as np

from .. import env, spaces as S, units as U
from ..report import Report
import mealpy
from mealpy import BinaryVar, BoolVar, CategoricalVar, FloatVar, IntegerVar, PermutationVar, StringVar, TransferBinaryVar, TransferBoolVar
from mealpy.optimizer import Optimizer
from mealpy.utils.problem import Problem

SequenceVar = getattr(mealpy, "SequenceVar", None)


class Word:
    """One outcome of a random draw: number i of m, evenly spaced in the high bits and enumerated in the low bits as well."""

    def __init__(self, i, m):
        self.i, self.m = i, m

    def __call__(self, kind):
        i, m = self.i, self.m
        if kind == "dbl":
            if i == 0:
                return 0.0
            if i == 1:
                return 1.0 - 2.0 ** -53
            return (i - 1.5) / (m - 2) if m > 2 else 0.5
        bits = 32 if kind == "u32" else 64
        if i == 0:
            return 1
        if i == 1:
            return (1 << bits) - 1
        return (((i - 2) << bits) // max(1, m - 2)) & ~0xFF | ((i - 2) & 0xFF)


def assignments(n, cap):
    """Every assignment of words to the first draws such that at most `cap` assignments result."""
    if n == 0:
        yield {}
        return
    m = 2
    while (m + 1) ** n <= cap and m < 600:
        m += 1
    k = n
    while m ** k > cap:
        k -= 1
    for t in itertools.product(range(m), repeat=k):
        yield {i: Word(j, m) for i, j in enumerate(t)}
    for i in range(n):                          # single deviations over a large alphabet, for every draw
        for j in range(260):
            yield {i: Word(j, 260)}


def group(c, arg):
    d, cap = arg
    env.fresh()
    v = d.make()
    v.seed = 11
    env.STATE.reset({})
    v.generate()
    n = env.STATE.n
    got = set()
    parts = [set() for _ in range(d.n)]
    for dv in assignments(n, cap):
        v.seed = 11
        env.STATE.reset(dv)
        x = v.generate()
        c.add(draw_outcomes=1)
        why = S.in_domain(d, x)
        if why:
            c.bad("generate-domain", "generate() = %r: %s" % (x, why))
            continue
        if d.kind == "seq" and type(x) is not d.ret:
            c.bad("generated-type", "generate gives %r, declared %r" % (type(x), d.ret))
        if hasattr(v, "all_zeros") and not v.all_zeros and not any(x):
            c.bad("generate-domain", "all zeros although all_zeros=False")
        vals = [S.py(t) for t in x]
        key = repr(vals)
        got.add(key)
        c.seen(key)
        if d.kind not in ("seq", "perm"):
            for j, t in enumerate(vals):
                parts[j].add(repr(t))
        e = v.encode(x)
        if not (np.all(e >= v.lb) and np.all(e <= v.ub)):
            c.bad("encode-range", "encode(generate()) = %r" % (e,))
        if getattr(v, "all_zeros", True):
            env.STATE.reset({})
            b = v.decode(e)
            if not S.same_val(list(b[0]) if d.kind == "seq" else list(b), vals):
                c.bad("roundtrip", "decode(encode(%r)) = %r" % (vals, b))
    def witness(found):
        """A value missed by the enumerated words may still be reachable: any witness settles it."""
        v.seed = 99
        env.STATE.reset({})
        for _ in range(20000):
            if found([S.py(t) for t in v.generate()]):
                return True
        return False
    if d.kind != "float":
        dom = d.values(400)
        whole = d.kind in ("seq", "perm") or int(np.prod([float(len(x)) for x in d.domain])) <= 100
        if d.kind in ("int",) and any(b - a >= 64 for a, b in zip(d.lo, d.hi)):
            whole = False
        if whole and len(dom) <= 130:
            for val in dom:
                val = [S.py(t) for t in val]
                if hasattr(v, "all_zeros") and not v.all_zeros and not any(val):
                    continue
                c.add(domain_values=1)
                if repr(val) not in got and not any(S.same_val(val, eval(g)) for g in got) and not witness(lambda x: S.same_val(val, x)):
                    c.bad("value-never-generated", "%r never occurs over %d draw outcomes" % (val, c.n["draw_outcomes"]))
        elif d.kind == "int":
            for j, (a, b) in enumerate(zip(d.lo, d.hi)):
                for t in ([a, b] if b - a >= 64 else range(a, b + 1)):
                    c.add(domain_values=1)
                    if repr(t) not in parts[j] and not witness(lambda x: x[j] == t):
                        c.bad("value-never-generated", "component %d never takes %r" % (j, t))
    # the same seed gives the same sequence, whatever else happens in the process
    for seed in (0, 1, 12345, 2 ** 32 - 1, 2 ** 63):
        a, b = d.make(), d.make("other")
        env.STATE.reset({})
        a.seed = seed
        s1 = [repr(a.generate()) for _ in range(6)]
        np.random.seed(5)
        b.generate()
        b.seed = seed
        o = d.make("noise")
        s2 = []
        for _ in range(6):
            o.generate()
            np.random.random()
            s2.append(repr(b.generate()))
        a.seed = seed
        s3 = [repr(a.generate()) for _ in range(6)]
        c.add(sequences=3)
        if not (s1 == s2 == s3):
            c.bad("seed", "seed %d: %s / %s / %s" % (seed, s1[:2], s2[:2], s3[:2]))


def cells(var, x):
    """A value of the variable, coarsened to few cells, and how many cells there are."""
    x = [x] if np.ndim(x) == 0 else list(x)
    if isinstance(var, FloatVar):
        lo, hi = var.lb[0], var.ub[0]
        return tuple(int((v - lo) / (hi - lo) * 2 - 1e-12) for v in x)
    return tuple(map(repr, x))


JOINT = {
    "float": lambda n: FloatVar(-3., 5., name=n), "float2": lambda n: FloatVar([0.] * 2, [1.] * 2, name=n), "int": lambda n: IntegerVar(0, 2, name=n),
    "bool": lambda n: BoolVar(1, name=n), "binary2": lambda n: BinaryVar(2, name=n), "perm": lambda n: PermutationVar((1, 2, 3), name=n), "string": lambda n: StringVar(("a", "b", "c"), name=n),
    "category": lambda n: CategoricalVar(("x", 3.5, 7), name=n), "sequence": lambda n: SequenceVar(((1,), {2, 3}), name=n) if SequenceVar else None,
    "transfer": lambda n: TransferBoolVar(1, name=n), "tbinary": lambda n: TransferBinaryVar(1, name=n),
}
SIZE = dict(float=2, float2=4, int=3, bool=2, binary2=4, perm=6, string=3, category=3, sequence=2, transfer=2, tbinary=2)


class Own(Problem):
    def obj_func(self, x):
        return 0.0


def joint(c, arg):
    """The variables of one problem, and successive solutions of one run, are drawn independently: every combination of values occurs."""
    kinds, way = arg
    make = lambda: [JOINT[k]("v%d" % i) for i, k in enumerate(kinds)]
    total = 1
    for k in kinds:
        total *= SIZE[k]
    seen, after = set(), [set() for _ in kinds]
    for seed in range(0, 40 + 6 * total):
        env.fresh()
        if way == "set_seed":
            pr = Own(make(), "min", log_to=None)
            pr.set_seed(seed)
            sols = [pr.generate_solution(encoded=True) for _ in range(6)]
        elif way == "constructor":
            pr = Own(make(), "min", log_to=None, seed=seed)
            sols = [pr.generate_solution(encoded=True) for _ in range(6)]
        else:
            o = Still(epoch=1, pop_size=10)
            o.solve(Own(make(), "min", log_to=None) if way == "solve" else dict(bounds=make(), obj_func=lambda x: 0.0, minmax="min", log_to=None), seed=seed)
            pr, sols = o.problem, [a.solution for a in o.pop]
        vals = []
        for s in sols:
            d = pr.decode_solution(s)
            vals.append(tuple(cells(v, d[v.name]) for v in pr.bounds))
        seen.update(vals)
        for a, b in zip(vals, vals[1:]):
            for i in range(len(kinds)):
                after[i].add((a[i], b[i]))
        c.add(cases=1, joint_draws=len(vals))
    for v in seen:
        c.seen(kinds, way, v)
    if len(seen) != total:
        c.bad("combination-never-generated", "only %d of %d combinations of %s occur, e.g. %s" % (len(seen), total, list(kinds), sorted(map(str, seen))[:4]), ("through=" + way,), subject="+".join(kinds))
    for i, k in enumerate(kinds):
        if len(after[i]) != SIZE[k] ** 2:
            c.bad("succession-never-generated", "%s: only %d of %d pairs of successive values occur" % (k, len(after[i]), SIZE[k] ** 2), ("through=" + way,), subject="+".join(kinds))


class Still(Optimizer):
    """Leaves its initial population as it is."""

    def __init__(self, epoch=1, pop_size=10, **kw):
        super().__init__(**kw)
        self.epoch, self.pop_size = epoch, pop_size
        self.set_parameters(["epoch", "pop_size"])
        self.sort_flag = False

    def evolve(self, epoch):
        pass


def streams(c, arg):
    """The optimizer's own draws are not a repetition of the draws behind its initial population."""
    for seed in range(20 * arg, 20 * arg + 20):
        for n in (1, 2, 3):
            env.fresh()
            o = Still(epoch=1, pop_size=10)
            o.solve(dict(bounds=[FloatVar(0., 1., name="f%d" % i) for i in range(n)], obj_func=lambda x: 0.0, minmax="min", log_to=None), seed=seed)
            first = {float(v) for a in o.pop for v in a.solution}
            own = [float(v) for v in o.generator.random(200)]
            other = [o.rng.random() for _ in range(200)]
            c.add(cases=1)
            c.seen(seed, n)
            if len(first) != 10 * n:
                c.bad("streams", "seed %d: initial positions %s repeat values" % (seed, sorted(first)[:6]))
            if first & set(own) or first & set(other) or set(own) & set(other):
                c.bad("streams", "seed %d: the optimizer draws again the numbers that placed its initial population" % seed)


def joints(tier):
    ks = [k for k in JOINT if k != "sequence" or SequenceVar]
    out = [(a, b) for a in ks for b in ks if SIZE[a] * SIZE[b] <= (12 if tier == "quick" else 40) and (tier != "quick" or a == b or ks.index(a) < ks.index(b))]
    out += [(k,) * 3 for k in ks if SIZE[k] <= (2 if tier == "quick" else 3)]
    return out


def groups(tier):
    g = [(joint, "joint %s through %s" % ("+".join(k), w), (k, w)) for k in joints(tier)
         for w in (("set_seed", "constructor", "solve", "solve-dict") if tier != "quick" or len(set(k)) == 1 else ("set_seed",))]
    g += [(streams, "streams %d" % i, i) for i in range(2 if tier == "quick" else 20)]
    return g + values(tier)


def values(tier):
    cap = 4500 if tier == "quick" else 120000
    return [(group, "%d %s" % (i, d.label), (d, cap)) for i, d in enumerate(S.definitions(tier))]


def main(tier):
    rep = Report("C14", tier, "exploration")
    rep.cov["rule"] = ("every variable definition of a finite family x every assignment of words of a finite alphabet (ends, evenly spaced high bits, enumerated "
                       "low bits) to the draws generate() makes; distinct counts (definition, generated value) pairs")
    rep.assumptions = ["the generator turns words into numbers as numpy.random.Generator does (its C code runs unmodified over our words)"]
    U.run_groups(rep, groups(tier))
    return rep.finish()


replay = U.replayer(groups)
