"""C23: the helpers every optimizer shares: ordering, selection, sampling, crossover.

Populations are all fitness vectors over a small alphabet (ties included) for both directions; random helpers are run for
every outcome of their draws (every draw takes each of L evenly spaced words, which reaches every value of a range <= L)."""
import itertools
import math
import types

from .. import env
import numpy as np

from .. import units as U
from ..report import Report
from mealpy import GA, FloatVar
from mealpy.optimizer import Optimizer
from mealpy.utils.agent import Agent
from mealpy.utils.target import Target

MM = ("min", "max")


def agent(f, i=0):
    return Agent(np.array([float(i), f if abs(f) < 1e6 else 0.0]), Target([f], [1.0]), tag=i)


def pop_of(fits):
    return [agent(f, i) for i, f in enumerate(fits)]


def fit(a):
    return a.target.fitness


def better(a, b, mm):
    return a < b if mm == "min" else a > b


def snap(pop):
    return [(id(a), a.solution.tobytes(), fit(a), a.target.objectives.tobytes(), a.tag) for a in pop]


def same(a, b):
    return np.array_equal(a.solution, b.solution) and fit(a) == fit(b) and a.tag == b.tag


def is_copy(a, b):
    return a is not b and same(a, b) and a.solution is not b.solution and not np.shares_memory(a.solution, b.solution) and a.target is not b.target


# ------------------------------------------------------------------ ordering
def ordering(c, arg):
    alpha, n, mm = arg
    for fits in itertools.product(alpha, repeat=n):
        pop = pop_of(fits)
        s0 = snap(pop)
        c.add(cases=1)
        c.seen(fits)
        bestv = min(fits) if mm == "min" else max(fits)
        worstv = max(fits) if mm == "min" else min(fits)
        srt, idx = Optimizer.get_sorted_population(pop, mm)
        where = "fitness %s %s" % (list(fits), mm)
        if sorted(idx) != list(range(n)) or any(s is not pop[i] for s, i in zip(srt, idx)) or len(srt) != n:
            c.bad("sort-permutation", "%s: sorted %s with indices %s" % (where, [fit(a) for a in srt], idx))
            continue
        order = [fit(a) for a in srt]
        if any(better(order[i + 1], order[i], mm) for i in range(n - 1)):
            c.bad("sort-order", "%s: sorted to %s" % (where, order))
        for fn, want, pos in ((Optimizer.get_best_agent, bestv, "best"), (Optimizer.get_worst_agent, worstv, "worst")):
            a, i = fn(pop, mm)
            if fit(a) != want or not is_copy(a, pop[i]):
                c.bad(pos + "-agent", "%s: %s agent has fitness %r at index %r" % (where, pos, fit(a), i))
        tot, b, w = Optimizer.get_special_fitness(pop, mm)
        if (max(map(abs, fits)) < 1e300 and not math.isclose(tot, math.fsum(fits), rel_tol=1e-12, abs_tol=1e-9)) or b != bestv or w != worstv:
            c.bad("special-fitness", "%s: (total, best, worst) = %r" % (where, (tot, b, w)))
        for nb, nw, ri in itertools.product((None, 0, 1, 2, n, n + 1), (None, 0, 1, 2, n, n + 1), (False, True)):
            sp, bs, ws = Optimizer.get_special_agents(pop, n_best=nb, n_worst=nw, minmax=mm, return_index=ri)
            c.add(specials=1)
            if [id(a) for a in sp] != [id(a) for a in srt]:
                c.bad("special-agents", "%s: sorted population differs from get_sorted_population" % where)
            exp_b = None if nb is None else order[:nb]
            exp_w = None if nw is None else order[::-1][:nw]
            for got, exp, src, nm in ((bs, exp_b, idx, "best"), (ws, exp_w, idx[::-1], "worst")):
                if exp is None or got is None:
                    ok = got is None and exp is None
                elif ri:
                    ok = [fits[i] for i in got] == exp and len(set(got)) == len(got)
                else:
                    ok = [fit(a) for a in got] == exp and len({a.tag for a in got}) == len(got) and all(is_copy(a, pop[a.tag]) for a in got)
                if not ok:
                    c.bad("special-agents", "%s: n_best=%r n_worst=%r return_index=%r gives %s %r" % (where, nb, nw, ri, nm, got))
        for k in range(0, n + 2):
            t = Optimizer.get_sorted_and_trimmed_population(pop, k, mm)
            if [fit(a) for a in t] != order[:k] or len({a.tag for a in t}) != len(t):
                c.bad("trim", "%s: trimmed to %d is %s" % (where, k, [fit(a) for a in t]))
        d = Optimizer.duplicate_pop(pop)
        if len(d) != n or not all(is_copy(a, b) for a, b in zip(d, pop)):
            c.bad("duplicate", "%s: duplicate_pop does not give equal copies" % where)
        o = Optimizer()
        for g, m in itertools.product(range(0, n + 1), range(0, n + 1)):
            gr = o.generate_group_population(pop, g, m)
            if len(gr) != g or any([a.tag for a in q] != list(range(n))[k * m:(k + 1) * m] or not all(is_copy(a, pop[a.tag]) for a in q) for k, q in enumerate(gr)):
                c.bad("group", "%s: %d groups of %d are %s" % (where, g, m, [[a.tag for a in q] for q in gr]))
        if snap(pop) != s0 or [a.tag for a in pop] != list(range(n)):
            c.bad("input-changed", "%s: a helper changed the population it was given" % where)


def pairs(c, arg):
    alpha, mm = arg
    for f, g in itertools.product(alpha, repeat=2):
        c.add(cases=1)
        c.seen(f, g)
        x, y = agent(f, 1), agent(g, 2)
        w = "x=%r y=%r %s" % (f, g, mm)
        b = better(f, g, mm)
        if Optimizer.compare_target(x.target, y.target, mm) is not b:
            c.bad("compare-target", w)
        if Optimizer.compare_fitness(f, g, mm) is not b:
            c.bad("compare-fitness", w)
        if bool(x.is_better_than(y, mm)) is not b:
            c.bad("is-better-than", w)
        s = x.get_better_solution(y, mm)
        if s is not x and s is not y or fit(s) != (f if b else g if better(g, f, mm) else f):
            c.bad("get-better-solution", w)
        for rev in (False, True):
            m2 = mm if not rev else ("max" if mm == "min" else "min")
            best = f if better(f, g, m2) else g
            r = Optimizer.get_better_agent(x, y, mm, rev)
            if fit(r) != best or not (is_copy(r, x) or is_copy(r, y)):
                c.bad("get-better-agent", w + " reverse=%s gives fitness %r" % (rev, fit(r)))
    small = alpha[:4]
    for n in (1, 2, 3):
        for old in itertools.product(small, repeat=n):
            for new in itertools.product(small, repeat=n):
                c.add(cases=1)
                po, pn = pop_of(old), pop_of(new)
                so, sn = snap(po), snap(pn)
                r = Optimizer.greedy_selection_population(po, pn, mm)
                if len(r) != n or any(r[i] is not (pn[i] if better(new[i], old[i], mm) else po[i]) for i in range(n)):
                    c.bad("greedy", "old %s new %s %s gives %s" % (old, new, mm, [fit(a) for a in r]))
                if snap(po) != so or snap(pn) != sn:
                    c.bad("input-changed", "greedy selection changed its input")
    for a, b in ((1, 2), (2, 1), (0, 1), (3, 2)):
        try:
            Optimizer.greedy_selection_population(pop_of([1.0] * a), pop_of([0.0] * b), mm)
            c.bad("greedy-length", "populations of %d and %d accepted" % (a, b))
        except ValueError:
            pass


# ------------------------------------------------------------------ random helpers
class Lattice:
    def __init__(self, i, m):
        self.i, self.m = i, m

    def __call__(self, kind):
        if kind == "dbl":
            return (self.i + 0.5) / self.m
        bits = 32 if kind == "u32" else 64
        return (((2 * self.i + 1) << bits) // (2 * self.m))


def outcomes(call, L, cap):
    """Every outcome of call(generator) when each of its draws takes L evenly spaced words, however many draws a path makes; once `cap`
    outcomes are open, the later draws of those keep one word.  Yields (were all draws of all paths enumerated, outcome)."""
    done, level = [], [()]
    while level:
        still = []
        for t in level:
            env.STATE.reset({i: Lattice(j, L) for i, j in enumerate(t)})
            r = call(env.ctl_default_rng(7))
            (done if env.STATE.n <= len(t) else still).append((t, r))
        if len(done) + len(still) * L > cap:
            break
        level = [t + (j,) for t, _ in still for j in range(L)]
    else:
        still = []
    env.STATE.reset({})
    for _, r in done + still:
        yield not still, r


def samplers(c, arg):
    n, kmax, cap = arg
    L = max(2, n)
    jobs = []
    for ex in range(n):
        for k in range(1, kmax + 1):
            for rep in (False, True):
                if rep or k <= n - 1:
                    jobs.append(("one", ex, (ex,), k, rep))
    for r in range(0, n):
        for ex in itertools.combinations(range(n), r):
            for k in range(1, kmax + 1):
                for rep in (False, True):
                    if rep or k <= n - r:
                        for form in ("list", "array") + (("reversed",) if r > 1 else ()):
                            jobs.append((form, ex, ex, k, rep))
    for form, ex, excl, k, rep in jobs:
        if form == "one":
            call = lambda g: Optimizer.sample_indexes_exclude_one(g, n, ex, k, replace=rep)
        else:
            e = list(ex) if form == "list" else list(ex)[::-1] if form == "reversed" else np.array(ex, dtype=int)
            call = lambda g: Optimizer.sample_indexes_exclude_list(g, n, e, k, replace=rep)
        legal = [i for i in range(n) if i not in excl]
        w = "n=%d %s exclude=%s k=%d replace=%s" % (n, form, ex, k, rep)
        hits = [set() for _ in range(k)]
        combos, full = set(), True
        for full, r in outcomes(call, L, cap):
            c.add(cases=1)
            if k == 1:
                ok = isinstance(r, int)
                v = [r]
            else:
                ok = isinstance(r, np.ndarray) and r.shape == (k,) and r.dtype.kind == "i"
                v = list(np.ravel(r))
            if not ok:
                c.bad("sample-type", "%s gives %r" % (w, r))
                break
            if any(i not in legal for i in v):
                c.bad("sample-illegal", "%s gives %r" % (w, r))
            if not rep and len(set(v)) != k:
                c.bad("sample-repeat", "%s gives %r" % (w, r))
            for h, i in zip(hits, v):
                h.add(int(i))
            combos.add(tuple(int(i) for i in v))
        c.seen(w)
        if full:
            if any(h != set(legal) for h in hits):
                c.bad("sample-unreachable", "%s only ever gives %s" % (w, [sorted(h) for h in hits]))
            want = len(legal) ** k if rep else math.perm(len(legal), k)
            if len(combos) != want:
                c.bad("sample-unreachable", "%s gives %d of the %d possible results" % (w, len(combos), want))


def helper(cls, mm, n_dims=3, **kw):
    o = cls(epoch=2, pop_size=10, **kw)
    o.problem = types.SimpleNamespace(minmax=mm, n_dims=n_dims, lb=np.full(n_dims, -4.0), ub=np.full(n_dims, 5.0))
    return o


def roulette(c, arg):
    alpha, n, mm, levels = arg
    o = helper(GA.BaseGA, mm)
    for fits in itertools.product(alpha, repeat=n):
        c.seen(fits)
        cnt = [0] * n
        for form in (0, 1):
            lf = np.array(fits) if form == 0 else list(fits)
            for j in range(levels if form == 0 else 2):
                env.STATE.reset({0: Lattice(j, levels)})
                o.generator = env.ctl_default_rng(3)
                c.add(cases=1)
                with np.errstate(all="ignore"):
                    r = o.get_index_roulette_wheel_selection(lf)
                if not isinstance(r, (int, np.integer)) or not 0 <= r < n:
                    c.bad("roulette-index", "fitness %s %s gives %r" % (fits, mm, r))
                    continue
                if form == 0:
                    cnt[r] += 1
            if list(lf) != list(fits):
                c.bad("input-changed", "roulette changed the fitness list %s" % (fits,))
        for i, j in itertools.permutations(range(n), 2):
            if better(fits[i], fits[j], mm) and cnt[i] < cnt[j] - 1:
                c.bad("roulette-bias", "fitness %s %s: %d of %d levels pick the better agent %d, %d the worse %d" % (fits, mm, cnt[i], levels, i, cnt[j], j))
    env.STATE.reset({})


def tournament(c, arg):
    alpha, n, mm, cap = arg
    o = helper(GA.BaseGA, mm)
    for fits in itertools.product(alpha, repeat=n):
        pop = pop_of(fits)
        c.seen(fits)
        s0 = snap(pop)
        for kw, out, rev in itertools.product((0.01, 0.2, 0.5, 0.99, 1, 2, 3, n, n + 2), (1, 2), (False, True)):
            if out > n:
                continue
            k = int(kw * n) if 0 < kw < 1 else kw
            k = min(max(k, out), n)
            allowed, firsts = set(), set()

            def call(g):
                o.generator = g
                return o.get_index_kway_tournament_selection(pop, k_way=kw, output=out, reverse=rev)
            full = True
            for full, r in outcomes(call, max(2, n), cap):
                c.add(cases=1)
                w = "fitness %s %s k_way=%r output=%d reverse=%s gives %r" % (fits, mm, kw, out, rev, r)
                if len(r) != out or len(set(r)) != out or any(not isinstance(i, (int, np.integer)) or not 0 <= i < n for i in r):
                    c.bad("tournament-index", w)
                    continue
                # the winners of k contestants: at least k - out others are no better (no worse when reversed)
                m2 = mm if not rev else ("max" if mm == "min" else "min")
                rest = [fits[i] for i in range(n) if i not in r]
                lose = fits[r[0]], [fits[i] for i in r]
                weakest = lose[1][0]
                for f in lose[1]:
                    if better(weakest, f, m2):
                        weakest = f
                if sum(1 for f in rest if not better(f, weakest, m2)) < k - out:
                    c.bad("tournament-winner", w)
                firsts.update(int(i) for i in r)
            if full:
                # whoever can win a tournament of k must be reachable: fewer than n-k+out agents strictly better
                m2 = mm if not rev else ("max" if mm == "min" else "min")
                for i in range(n):
                    nb = sum(1 for j in range(n) if better(fits[j], fits[i], m2))
                    ties = sum(1 for j in range(n) if j != i and fits[j] == fits[i])
                    if ties == 0 and n - 1 - nb >= k - out and k >= out and i not in firsts:
                        c.bad("tournament-unreachable", "fitness %s %s k_way=%r output=%d reverse=%s: agent %d never wins" % (fits, mm, kw, out, rev, i))
        if snap(pop) != s0:
            c.bad("input-changed", "tournament changed the population")
    env.STATE.reset({})


def ga_parents(c, arg):
    sel, n, mm, cap = arg
    for kw in ((0.2,) if sel != "tournament" else (0.01, 0.5, 0.99)):
        o = helper(GA.BaseGA, mm, selection=sel, k_way=kw)
        for fits in itertools.product((-1.0, 0.0, 2.0), repeat=n):
            pop = pop_of(fits)
            other = [agent(f, i + 100) for i, f in enumerate(fits[::-1])]
            o.pop, o.pop_size = pop, n
            lf = np.array([fit(a) for a in pop])
            c.seen(kw, fits)
            for which in range(3):
                def call(g):
                    o.generator = g
                    return (o.selection_process__(lf) if which == 0 else o.selection_process_00__(pop) if which == 1 else o.selection_process_01__(pop, other))
                for full, (d, m) in outcomes(call, 6, cap):
                    c.add(cases=1)
                    w = "%s fitness %s %s way %d gives %s %s" % (sel, fits, mm, which, d, m)
                    src2 = other if which == 2 else pop
                    if not any(np.array_equal(d, a.solution) for a in pop) or not any(np.array_equal(m, a.solution) for a in src2):
                        c.bad("parents-unknown", w)
                    if which < 2 and np.array_equal(d, m):
                        c.bad("parents-identical", w)
                    if any(np.shares_memory(d, a.solution) for a in pop) or any(np.shares_memory(m, a.solution) for a in src2):
                        c.bad("parents-shared", w)
    env.STATE.reset({})


def ga_children(c, arg):
    what, n, cap = arg
    dad = np.arange(1, n + 1) / 4.0
    mom = -np.arange(1, n + 1) / 8.0 - 1
    if what in ("arithmetic", "one_point", "multi_points", "uniform"):
        o = helper(GA.BaseGA, "min", n, crossover=what)

        def call(g):
            o.generator = g
            a, b = dad.copy(), mom.copy()
            r = o.crossover_process__(a, b)
            if not np.array_equal(a, dad) or not np.array_equal(b, mom):
                c.bad("input-changed", "crossover %s changed a parent" % what)
            return r
        from_d = set()
        for full, (u, v) in outcomes(call, max(3, min(n, 6)) if what != "arithmetic" else 101, cap):
            c.add(cases=1)
            w = "%s n=%d: %s %s -> %s %s" % (what, n, dad, mom, u, v)
            if np.shape(u) != (n,) or np.shape(v) != (n,):
                c.bad("crossover-shape", w)
            elif what == "arithmetic":
                lo, hi = np.minimum(dad, mom) - 1e-12, np.maximum(dad, mom) + 1e-12
                if not (np.all(u >= lo) and np.all(u <= hi) and np.all(v >= lo) and np.all(v <= hi) and np.allclose(u + v, dad + mom)):
                    c.bad("crossover-genes", w)
            else:
                for i in range(n):
                    if not ((u[i] == dad[i] and v[i] == mom[i]) or (u[i] == mom[i] and v[i] == dad[i])):
                        c.bad("crossover-genes", w)
                        break
                from_d.add(tuple(u == dad))
            c.seen(tuple(np.round(np.ravel(u), 9)))
        if what != "arithmetic" and n > 4 and len(from_d) < 2:
            c.bad("crossover-constant", "%s n=%d always takes the same genes" % (what, n))
    else:
        cls, mut, multi = what
        kw = dict(mutation=mut, pm=0.2)
        if multi is not None:
            kw["mutation_multipoints"] = multi
        o = helper(getattr(GA, cls), "min", n, **kw)
        fresh = np.full(n, 3.25)
        o.problem.generate_solution = lambda *a, **k: fresh.copy()
        changed = set()

        def call(g):
            o.generator = g
            return o.mutation_process__(dad.copy())
        for full, u in outcomes(call, max(3, min(n, 6)), cap):
            c.add(cases=1)
            w = "%s.%s n=%d: %s -> %s" % (cls, mut, n, dad, u)
            if np.shape(u) != (n,):
                c.bad("mutation-shape", w)
            elif mut == "flip":
                if not all(u[i] == dad[i] or -4 <= u[i] <= 5 for i in range(n)):
                    c.bad("mutation-genes", w)
            elif sorted(u) != sorted(dad):
                c.bad("mutation-genes", w)
            c.seen(tuple(np.ravel(u)))
            changed.add(tuple(np.ravel(u)) != tuple(dad))
        if n > 3 and True not in changed:
            c.bad("mutation-constant", "%s.%s n=%d never changes anything" % (cls, mut, n))
    env.STATE.reset({})


# ------------------------------------------------------------------ improved_ms
def improved(c, arg):
    mode, mm, n = arg
    land = {"lin": lambda x: float(x[0]), "neg": lambda x: float(-x[0]), "flat": lambda x: 1.0, "sq": lambda x: float(np.sum(x ** 2))}
    for name, f in land.items():
        for dev in [None] + [(i, w) for i in range(8 if n < 6 else 4) for w in ("lo", "hi")]:
            calls = []

            def obj(x):
                v = f(x)
                calls.append((np.array(x), v))
                return v
            o = GA.BaseGA(epoch=1, pop_size=10)
            env.STATE.reset({})
            o.solve(dict(obj_func=obj, bounds=FloatVar([-4.0, -4.0], [5.0, 5.0]), minmax=mm, log_to=None), mode=mode, n_workers=2 if mode == "thread" else None, seed=5)
            pop = [a.copy() for a in o.pop[:n]]
            g = o.g_best.copy()
            if len(pop) < n:
                continue
            s0 = [(a.solution.tobytes(), fit(a)) for a in pop]
            calls.clear()
            nfe = o.nfe_counter
            env.STATE.reset({dev[0]: dev[1]} if dev else {})
            r = o.improved_ms(pop, g)
            env.STATE.reset({})
            c.add(cases=1)
            c.seen(name, dev)
            w = "%s %s mode=%s n=%d dev=%s" % (name, mm, mode, n, dev)
            if len(r) != n:
                c.bad("improved-ms-size", "%s: %d agents became %d" % (w, n, len(r)))
            if o.nfe_counter - nfe != len(calls):
                c.bad("improved-ms-count", "%s: counter moved by %d for %d calls" % (w, o.nfe_counter - nfe, len(calls)))
            if [(a.solution.tobytes(), fit(a)) for a in pop] != s0:
                c.bad("input-changed", "%s: improved_ms changed the population it was given" % w)
            known = {x.tobytes(): v for x, v in calls}
            known.update({a.solution.tobytes(): fit(a) for a in pop})
            for a in r:
                if known.get(np.asarray(a.solution).tobytes()) != fit(a):
                    c.bad("improved-ms-target", "%s: fitness %r does not belong to %s" % (w, fit(a), a.solution))
                    break
            bo = min(map(fit, pop)) if mm == "min" else max(map(fit, pop))
            br = min(map(fit, r)) if mm == "min" else max(map(fit, r))
            if better(bo, br, mm):
                c.bad("improved-ms-worse", "%s: best went from %r to %r" % (w, bo, br))
    env.STATE.reset({})


def groups(tier):
    deep = tier == "thorough"
    out = []
    A = (-1.0, 0.0, 2.0)
    for mm in MM:
        for n in range(1, 7 if deep else 6):
            out.append((ordering, "ordering-%s-%d" % (mm, n), (A, n, mm)))
        out.append((ordering, "ordering-wide-%s" % mm, ((-1e308, -5e-324, 0.0, 5e-324, 1e308) if deep else (-1e308, 0.0, 5e-324, 1e308), 3, mm)))
        out.append((pairs, "pairs-%s" % mm, ((-1.0, 0.0, 2.0, -0.0, 1e308, -1e308, 5e-324, float("inf"), -float("inf")), mm)))
        for n in (1, 2, 3) + ((4,) if deep else ()):
            for k, al in enumerate(((-1e308, -1.0, -1e-320, 0.0, 5e-324, 1.0, 3.0, 1e308), (0.0, 1.0, 2.0, 3.0, 100.0), (-7.0, -2.0, -1.0, 0.0))):
                out.append((roulette, "roulette-%s-%d-%d" % (mm, n, k), (al, n, mm, 97 if n < 3 or deep else 33)))
        for n in (2, 3, 4) + ((5,) if deep else ()):
            out.append((tournament, "tournament-%s-%d" % (mm, n), ((-1.0, 0.0, 2.0, 2.5) if n < 4 else (-1.0, 0.0, 2.0), n, mm, 400 if deep else 130)))
        for sel in ("roulette", "random", "tournament"):
            for n in (2, 3) + ((4,) if deep else ()):
                out.append((ga_parents, "parents-%s-%s-%d" % (sel, mm, n), (sel, n, mm, 1300)))
        for mode in ("single", "swarm", "thread"):
            for n in (2, 3, 4, 5, 8) if deep else (2, 3, 5):
                out.append((improved, "improved-%s-%s-%d" % (mode, mm, n), (mode, mm, n)))
    for n in range(2, 8 if deep else 6):
        out.append((samplers, "samplers-%d" % n, (n, 3, 20000 if deep else 1300)))
    for x in ("arithmetic", "one_point", "multi_points", "uniform"):
        for n in (1, 2, 3, 4, 5) + ((6, 7) if deep else ()):
            out.append((ga_children, "crossover-%s-%d" % (x, n), (x, n, 20000 if deep else 3000)))
    for cls, multi in (("BaseGA", True), ("BaseGA", False), ("SingleGA", None), ("MultiGA", None), ("EliteSingleGA", None), ("EliteMultiGA", None)):
        for mut in (("flip", "swap") if multi is True or cls in ("MultiGA", "EliteMultiGA") else ("flip", "swap", "scramble", "inversion")):
            for n in (1, 2, 3, 4) + ((5, 6) if deep else ()):
                out.append((ga_children, "mutation-%s-%s-%s-%d" % (cls, multi, mut, n), ((cls, mut, multi), n, 20000 if deep else 3000)))
    return out


def main(tier):
    rep = Report("C23", tier, "exploration")
    rep.assumptions = ["fitness values are numbers (no NaN)", "draw outcomes are enumerated on an evenly spaced lattice of words per draw"]
    U.run_groups(rep, groups(tier))
    rep.add(rule="all populations over small fitness alphabets (ties, huge, denormal) x both directions x every helper; every outcome of each helper's draws on a lattice at least as fine as its range; non-trivial = distinct population/configuration/child")
    return rep.finish()


replay = U.replayer(groups)
