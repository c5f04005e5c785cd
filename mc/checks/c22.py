"""C22: Multitask runs every (algorithm, problem) pair n_trials times as configured and files each result under its pair."""
import itertools
import json
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from .. import harness as H, units as U
from ..report import Report
from .c21 import MyProblem, quiet
from mealpy import FloatVar
from mealpy.multitask import Multitask
from mealpy.optimizer import Optimizer
from mealpy.utils.agent import Agent
from mealpy.utils.problem import Problem
from mealpy.utils.target import Target
from mealpy.utils.termination import Termination


class World:
    calls, path = [], None


class Scripted(Optimizer):
    """Writes down how it was asked and answers a different convergence for every call."""

    def __init__(self, tag=0, name=None, **kw):
        super().__init__(**kw)
        self.tag = tag
        self.name = name or "Alg%d" % tag
        self.set_parameters(["tag"])

    def solve(self, problem=None, mode="single", n_workers=None, termination=None, starting_solutions=None, seed=None, **kw):
        pr = problem if isinstance(problem, Problem) else Problem(**problem)
        self.problem = pr
        k = len(World.calls)
        fit = (k * 37 % 101) + self.tag / 8.0 if World.path is None else float(np.random.default_rng().integers(0, 10 ** 9))
        conv = [fit + i for i in range(1 + k % 3, -1, -1)]      # runs may have different lengths
        rec = dict(alg=self.tag, prob=pr.mark, mode=mode, n_workers=n_workers, term=repr(termination) if not isinstance(termination, Termination) else "T%r" % termination.max_epoch,
                   start=starting_solutions, seed=seed, extra=kw, conv=conv, fit=fit)
        World.calls.append(rec)
        if World.path is not None:
            with open(World.path, "a") as f:
                f.write(json.dumps(rec, default=str) + "\n")

        class Hist:
            list_global_best_fit = conv
        self.history = Hist()
        self.g_best = Agent(solution=np.zeros(2), target=Target([fit], [1.0]))
        return self.g_best


def problems(m, kind="dict", names=None):
    out = []
    for j in range(m):
        nm = names[j] if names else "prob%d" % j
        d = dict(bounds=FloatVar(lb=[-3.0] * 2, ub=[4.0 + j] * 2), minmax="min" if j % 2 == 0 else "max", log_to=None, mark=j)
        if nm is not None:
            d["name"] = nm
        if kind == "instance" or (kind == "mixed" and j % 2):
            out.append(MyProblem(**d))
        else:
            d["obj_func"] = sphere
            out.append(d)
    return out


def sphere(x):
    return float(np.sum(np.asarray(x) ** 2))


def forms(n, m, values):
    """(argument, expected matrix or 'refused') for every legal way to give the values, and for the illegal sizes"""
    v = values
    full = [[v[(i * m + j) % len(v)] for j in range(m)] for i in range(n)]
    out = [(None, None)]
    for w in (list, tuple):
        out.append((w([v[0]]), [[v[0]] * m for _ in range(n)]))
        if n > 1:
            a = [v[i % len(v)] for i in range(n)]
            out.append((w(a), [[a[i]] * m for i in range(n)]))
        if m > 1 and m != n:
            p = [v[(j + 1) % len(v)] for j in range(m)]
            out.append((w(p), [list(p) for _ in range(n)]))
        out.append((w(w(r) for r in full), full))
        out.append((w((list if w is tuple else tuple)(r) for r in full), full))
        if n > 1 and m > 1:
            out.append((w(x for r in full for x in r), full))
    for k in range(0, n * m + 3):
        if k not in (1, n, m, n * m):
            out.append(([v[i % len(v)] for i in range(k)], "refused"))
    for bad in (v[0], 5, {0: v[0]}, [[v[0]] * (m + 1)] * n, [[v[0]] * m] * (n + 1), [v[0], [v[0]]], [[v[0]] * m] * (n - 1) + [v[0]] if n > 1 else [[v[0]], v[0]]):
        if isinstance(bad, list) and len(bad) == n and all(isinstance(r, list) and len(r) == m for r in bad):
            continue
        out.append((bad, "refused"))
    return out


MODES = ["single", "swarm", "thread", "process", "swarm", "single", "process"]
TERMS = [{"max_epoch": 3}, {"max_fe": 50}, Termination(max_epoch=7), {"max_time": 4}, {"max_early_stop": 5}, {"max_epoch": 8}]


def tname(t):
    return "T%r" % t.max_epoch if isinstance(t, Termination) else repr(t)


def read(path, save_as):
    ext = {"csv": ".csv", "json": ".json", "dataframe": ".pkl"}[save_as]
    fn = {"csv": pd.read_csv, "json": pd.read_json, "dataframe": pd.read_pickle}[save_as]
    return fn(path + ext) if os.path.exists(path + ext) else None


def col(df, name):
    return [float(x) for x in df[name] if x == x]


def check_files(c, d, what, save_as, algs, probs, trials, conv, by_pair, anames, pnames, ordered=True):
    for i in range(algs):
        f = read(os.path.join(d, "best_fit", anames[i] + "_best_fit"), save_as)
        if f is None or len(f.columns) != probs or len(f) != trials:
            c.bad("best-fit-file", "%s: best_fit of algorithm %d: %r" % (what, i, None if f is None else (list(f.columns), len(f))))
            continue
        for j in range(probs):
            want = [r["fit"] for r in by_pair.get((i, j), [])]
            got = col(f, pnames[j]) if pnames[j] in f else None
            if got is None or (got != want if ordered else sorted(got) != sorted(want)):
                c.bad("wrong-best-fit", "%s: pair (%d, %d): filed %r, solved %r" % (what, i, j, got, want))
            p = os.path.join(d, "convergence", anames[i], pnames[j] + "_convergence")
            g = read(p, save_as)
            if not conv:
                if g is not None:
                    c.bad("unasked-file", "%s: %s written" % (what, p))
                continue
            if g is None or sorted(g.columns) != sorted("trial_%d" % (k + 1) for k in range(trials)):
                c.bad("convergence-file", "%s: pair (%d, %d): %r" % (what, i, j, None if g is None else list(g.columns)))
                continue
            cols = [col(g, "trial_%d" % (k + 1)) for k in range(trials)]
            wantc = [r["conv"] for r in by_pair.get((i, j), [])]
            if cols != wantc if ordered else sorted(cols) != sorted(wantc):
                c.bad("wrong-convergence", "%s: pair (%d, %d): filed %r, solved %r" % (what, i, j, cols, wantc))
            if got is not None and [x[-1] for x in cols] != got:
                c.bad("trial-mismatch", "%s: pair (%d, %d): best fitness %r but convergences end with %r" % (what, i, j, got, [x[-1] for x in cols]))


def run_one(c, n, m, terms, modes, wt, wm, trials, what, pk="dict", save_as="csv", conv=True, nw=None, wrap=list, njobs=None, anames=None, pnames=None):
    refuse = "refused" in (wt if isinstance(wt, str) else "", wm if isinstance(wm, str) else "")
    algs = wrap(Scripted(tag=i, name=anames and anames[i]) for i in range(n))
    probs = problems(m, pk, pnames)
    keys = [sorted(p) if isinstance(p, dict) else None for p in probs]
    World.calls, World.path = [], None
    c.add(cases=1)
    c.seen(what)
    before = (repr(terms), repr(modes)) if not _has_inst(terms) else (None, repr(modes))
    try:
        mt = Multitask(algorithms=algs, problems=wrap(probs), terminations=terms, modes=modes, n_workers=nw)
        if refuse:
            c.bad("accepted", "%s: accepted" % what)
            return
    except ValueError as e:
        if not refuse:
            c.bad("refused", "%s: %r" % (what, e))
        return
    except Exception as e:
        c.bad("crash", "%s: %r" % (what, e))
        return
    d = tempfile.mkdtemp(prefix="c22-")
    try:
        World.path = os.path.join(d, "log") if njobs and njobs > 1 else None
        sp = os.path.join(d, "out", "deep")
        try:
            quiet(mt.execute, n_trials=trials, n_jobs=njobs, save_path=sp, save_as=save_as, save_convergence=conv, verbose=trials == 2)
        except Exception as e:
            c.bad("crash", "%s: execute: %r" % (what, e))
            return
        calls = World.calls if World.path is None else [json.loads(x) for x in open(World.path)]
        c.add(solves=len(calls))
        by = {}
        for r in calls:
            by.setdefault((r["alg"], r["prob"]), []).append(r)
        if sorted(by) != [(i, j) for i in range(n) for j in range(m)] or any(len(v) != trials for v in by.values()):
            c.bad("pairs", "%s: solves per pair %r" % (what, {k: len(v) for k, v in by.items()}))
        for (i, j), rs in by.items():
            wmode = "single" if wm is None else wm[i][j]
            wterm = "None" if wt is None else tname(wt[i][j])
            for r in rs:
                if r["mode"] != wmode:
                    c.bad("mode", "%s: pair (%d, %d) solved in mode %r instead of %r" % (what, i, j, r["mode"], wmode))
                if r["term"] != wterm:
                    c.bad("termination", "%s: pair (%d, %d) solved with %s instead of %s" % (what, i, j, r["term"], wterm))
                if r["n_workers"] != nw or r["seed"] is not None or r["start"] is not None or r["extra"]:
                    c.bad("arguments", "%s: pair (%d, %d) solved with %r" % (what, i, j, r))
        names = anames or ["Alg%d" % i for i in range(n)]
        pn = pnames or ["prob%d" % j for j in range(m)]
        if len(set(names)) == n and len(set(pn)) == m and None not in pn:
            check_files(c, sp, what, save_as, n, m, trials, conv, by, names, pn, ordered=World.path is None)
        else:           # same names: nothing may be lost
            found = []
            for f in sorted(os.listdir(os.path.join(sp, "best_fit"))):
                df = read(os.path.join(sp, "best_fit", f.rsplit(".", 1)[0]), save_as)
                found += [tuple(col(df, q)) for q in df.columns]
            want = [tuple(x["fit"] for x in v) for v in by.values()]
            if sorted(found) != sorted(want):
                c.bad("results-lost", "%s: names %r %r: filed %r, solved %r" % (what, names, pn, sorted(found), sorted(want)))
            if conv:
                found = []
                for root, _, fs in os.walk(os.path.join(sp, "convergence")):
                    for f in fs:
                        df = read(os.path.join(root, f.rsplit(".", 1)[0]), save_as)
                        found.append(sorted(col(df, q) for q in df.columns))
                want = [sorted(x["conv"] for x in v) for v in by.values()]
                if sorted(found) != sorted(want):
                    c.bad("results-lost", "%s: names %r %r: convergences filed %r, solved %r" % (what, names, pn, sorted(found), sorted(want)))
        if any(isinstance(p, dict) and sorted(p) != k for p, k in zip(probs, keys)) or (before[0] not in (None, repr(terms))) or before[1] != repr(modes):
            c.bad("input-changed", "%s: the caller's problems/terminations/modes were changed" % what)
    finally:
        World.path = None
        shutil.rmtree(d, ignore_errors=True)


def _has_inst(t):
    if isinstance(t, Termination):
        return True
    return isinstance(t, (list, tuple)) and any(_has_inst(x) for x in t)


def shapes(c, arg):
    n, m, tier = arg
    for a, w in forms(n, m, MODES):
        run_one(c, n, m, None, a, None, w, 1, "n=%d m=%d modes=%r" % (n, m, a))
    for a, w in forms(n, m, TERMS):
        run_one(c, n, m, a, None, w, None, 1, "n=%d m=%d terminations=%s" % (n, m, _short(a)))
    ft, fm = forms(n, m, TERMS), forms(n, m, MODES)
    if tier == "quick":
        ft, fm = [x for x in ft if x[1] != "refused"][::2], [x for x in fm if x[1] != "refused"][1::2]
    for (a, w), (b, x) in itertools.product(ft, fm):
        run_one(c, n, m, a, b, w, x, 2, "n=%d m=%d terminations=%s modes=%r" % (n, m, _short(a), b))


def _short(a):
    return repr(a) if not _has_inst(a) else repr([[tname(y) for y in x] if isinstance(x, (list, tuple)) else tname(x) if isinstance(x, (dict, Termination)) else x for x in a] if isinstance(a, (list, tuple)) else tname(a))


def options(c, arg):
    n, m = arg
    for pk, save_as, conv, nw, wrap, trials, nj in itertools.product(("dict", "instance", "mixed"), ("csv", "json", "dataframe"), (True, False), (None, 3), (list, tuple), (1, 2, 3), (None, 1, 0)):
        if (trials, nj) not in ((1, None), (2, 1), (3, 0), (3, None)):
            continue
        run_one(c, n, m, [TERMS[1]], None, [[TERMS[1]] * m] * n, None, trials, "n=%d m=%d %s save_as=%s convergence=%r n_workers=%r %s trials=%d n_jobs=%r" % (n, m, pk, save_as, conv, nw, wrap.__name__, trials, nj),
                pk=pk, save_as=save_as, conv=conv, nw=nw, wrap=wrap, njobs=nj)


def same_names(c, save_as):
    for an in (["A", "A"], ["A", "A_2"], ["A", "B"], ["A", "A", "A"], ["A", "A_3", "A"], ["A_2", "A"]):
        for pn in (["p", "p"], [None, None], ["p", "p_2"], ["p", "p_3", "p"], ["x", "y"], [None, "p", None]):
            run_one(c, len(an), len(pn), None, None, None, None, 2, "algorithms %r problems %r %s" % (an, pn, save_as), save_as=save_as, anames=an, pnames=pn)


def refusals(c, _):
    a, p = [Scripted(1)], problems(1)
    for kw in (dict(algorithms=None), dict(algorithms=[]), dict(algorithms=()), dict(algorithms=a[0]), dict(algorithms="abc"), dict(problems=None), dict(problems=[]), dict(problems=p[0]), dict(problems=5)):
        c.add(cases=1)
        c.seen(repr(list(kw.items()))[:80])
        try:
            Multitask(**{**dict(algorithms=a, problems=p), **kw})
            c.bad("accepted", "%r" % list(kw))
        except ValueError:
            pass
    d = tempfile.mkdtemp(prefix="c22-")
    try:
        for kw in (dict(n_trials=0), dict(n_trials=-2), dict(n_trials="3"), dict(n_trials=None), dict(save_as="xlsx"), dict(save_as=None), dict(save_as="CSV"), dict(n_jobs=4000)):
            World.calls = []
            c.add(cases=1)
            try:
                quiet(Multitask(algorithms=a, problems=p).execute, **{**dict(save_path=d), **kw})
                c.bad("accepted", "execute(%r)" % kw)
            except ValueError:
                if World.calls:
                    c.bad("late-refusal", "execute(%r)" % kw)
        # something that is no optimizer is named and skipped, the others still run
        for pos in (0, 1, 2):
            algs = [Scripted(0), Scripted(1)]
            algs.insert(pos, "not an optimizer")
            World.calls = []
            c.add(cases=1)
            _, out = quiet(Multitask(algorithms=algs, problems=problems(2), modes=["swarm"]).execute, n_trials=2, save_path=d)
            if sorted((r["alg"], r["prob"]) for r in World.calls) != sorted(2 * [(i, j) for i in (0, 1) for j in (0, 1)]) or str(pos + 1) not in out:
                c.bad("skipped", "non-optimizer at %d: solves %r, printed %r" % (pos, [(r["alg"], r["prob"]) for r in World.calls], out))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def parallel(c, arg):
    n, m, nj, trials, save_as, pk = arg
    run_one(c, n, m, [TERMS[i] for i in range(n)], [MODES[i + 1] for i in range(n)], [[TERMS[i]] * m for i in range(n)], [[MODES[i + 1]] * m for i in range(n)], trials,
            "n_jobs=%d n=%d m=%d trials=%d %s" % (nj, n, m, trials, save_as), njobs=nj, save_as=save_as, pk=pk, nw=2)


NAMES = ["OriginalPSO", "JADE", "OriginalWOA", "OriginalTS", "BaseGA", "OriginalHC", "OriginalABC", "OriginalBBO", "OriginalSA", "OriginalLCO", "L_SHADE", "OriginalACOR", "SAP_DE", "OriginalFFA", "OriginalPSS", "OriginalCOA"]


def real(c, arg):
    """real optimizers on real problems: every filed value equals a fresh optimizer's on a fresh problem with that seed"""
    names, pk, modes, terms = arg
    log = []
    seeds = itertools.count(5)
    algs, pars = [], []
    for nm in names:
        cls = H.all_optimizers()[nm]

        def solve(self, problem=None, mode="single", n_workers=None, termination=None, starting_solutions=None, seed=None, _c=cls):
            s = next(seeds)
            log.append(s)
            return _c.solve(self, problem, mode=mode, n_workers=n_workers, termination=termination, starting_solutions=starting_solutions, seed=s)
        sub = type(nm, (cls,), dict(solve=solve, __module__=cls.__module__))
        o = H.make(cls, epoch=3, pop_size=10)
        pars.append((cls, dict(o.get_parameters())))
        algs.append(sub(**o.get_parameters()))
    d = tempfile.mkdtemp(prefix="c22-")
    try:
        n, m, trials = len(algs), 2, 2
        c.add(cases=1)
        c.seen(*names, pk, modes, repr(terms))
        quiet(Multitask(algorithms=algs, problems=problems(m, pk), modes=[modes], terminations=None if terms is None else [terms], n_workers=2).execute, n_trials=trials, save_path=d, save_as="dataframe", save_convergence=True)
        if len(log) != n * m * trials:
            c.bad("pairs", "%d solves" % len(log))
            return
        by = {}
        k = 0
        for i in range(n):
            for j in range(m):
                for t in range(trials):
                    cls, par = pars[i]
                    o = cls(**par)
                    g = o.solve(problems(m, pk)[j], mode=modes, n_workers=2, termination=terms, seed=log[k])
                    k += 1
                    c.add(solves=1)
                    by.setdefault((i, j), []).append(dict(fit=float(g.target.fitness), conv=[float(x) for x in o.history.list_global_best_fit]))
        check_files(c, d, "real %r" % (names,), "dataframe", n, m, trials, True, by, list(names), ["prob%d" % j for j in range(m)])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def groups(tier):
    t = tier != "quick"
    mx = 4 if t else 3
    g = [(shapes, "shapes %d %d" % (n, m), (n, m, tier)) for n in range(1, mx + 1) for m in range(1, mx + 1)]
    g += [(options, "options %d %d" % nm, nm) for nm in ((1, 1), (2, 2), (1, 2), (2, 1)) + (((3, 2),) if t else ())]
    g += [(same_names, "same-names " + s, s) for s in ("csv", "json", "dataframe")] + [(refusals, "refusals", None)]
    g += [(parallel, "n_jobs %r" % (a,), a) for a in ((2, 2, 2, 3, "csv", "dict"), (1, 2, 3, 2, "json", "instance")) + (((2, 3, 4, 6, "dataframe", "mixed"), (3, 1, 2, 2, "csv", "dict")) if t else ())]
    allnames = sorted(H.all_optimizers()) if t else NAMES
    for i in range(0, len(allnames), 2):
        ns = tuple(dict.fromkeys([allnames[i], allnames[(i + 7) % len(allnames)]]))
        for pk in ("dict", "mixed"):
            for mode in ("single", "swarm"):
                for te in (None, {"max_epoch": 2}):
                    g.append((real, "real %r %s %s %r" % (ns, pk, mode, te), (ns, pk, mode, te)))
    return g


def main(tier):
    rep = Report("C22", tier, "exploration")
    rep.assumptions = ["with as many algorithms as problems a plain list of that length is read per algorithm",
                       "the schedule of the pool's worker processes for n_jobs >= 2 is the operating system's (the trials are independent: C10)"]
    rep.add(rule="every number of algorithms and problems up to 3 (thorough: 4) x every legal and illegal shape of modes and terminations and their combinations, every export option, name clash, executed by the real Multitask "
                 "with a scripted solve(); and real optimizers against fresh solves with the same seeds; distinct counts different configurations")
    gs = groups(tier)
    own = [g for g in gs if g[0] is parallel]
    U.run_groups(rep, [g for g in gs if g[0] is not parallel])
    U.run_here(rep, own)
    return rep.finish()


replay = U.replayer(groups)
