"""C21: Tuner.execute() runs every combination n_trials times as configured, files each result in its cell, picks the best."""
import contextlib
import io
import itertools
import json
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from .. import harness as H, pictures, units as U
from ..report import Report
from mealpy import FloatVar
from mealpy.optimizer import Optimizer
from mealpy.tuner import Tuner
from mealpy.utils.agent import Agent
from mealpy.utils.problem import Problem
from mealpy.utils.target import Target
from mealpy.utils.termination import Termination


class World:
    """What the scripted optimizer answers and what it was asked."""
    calls, answer, path, length = [], None, None, None


class Scripted(Optimizer):
    """An optimizer whose solve() answers from a script and writes down how it was asked."""

    def __init__(self, a=0, b=0, c="x", **kwargs):
        super().__init__(**kwargs)
        self.a, self.b, self.c = a, b, c
        self.set_parameters(["a", "b", "c"])

    def solve(self, problem=None, mode="single", n_workers=None, termination=None, starting_solutions=None, seed=None, **kw):
        pr = problem if isinstance(problem, Problem) else Problem(**problem)
        self.problem = pr
        par = {k: getattr(self, k) for k in ("a", "b", "c")}
        fit = World.answer(par)
        World.calls.append(dict(problem=problem, mode=mode, n_workers=n_workers, termination=termination, start=starting_solutions, seed=seed, extra=kw, par=par, fit=fit))
        if World.path is not None:
            with open(World.path, "a") as f:
                f.write(json.dumps([par, mode, n_workers, repr(termination), fit, pr.get_name(), os.getpid()]) + "\n")

        class Hist:
            list_global_best_fit = [fit + 100.0, fit + 1.0, fit][:World.length(par) if World.length else 3]
        self.history = Hist()
        self.g_best = Agent(solution=np.zeros(2), target=Target([fit], [1.0]))
        return self.g_best


class MyProblem(Problem):
    def __init__(self, bounds=None, minmax="min", **kw):
        super().__init__(bounds, minmax, **kw)

    def obj_func(self, x):
        return float(np.sum(np.asarray(x) ** 2))


def sphere(x):
    return float(np.sum(np.asarray(x) ** 2))


def problem(kind, minmax, name="tuned"):
    if kind == "instance":
        return MyProblem(FloatVar(lb=[-3.0] * 2, ub=[4.0] * 2), minmax, log_to=None, name=name)
    d = dict(bounds=FloatVar(lb=[-3.0] * 2, ub=[4.0] * 2), obj_func=sphere, minmax=minmax, log_to=None, name=name)
    if kind == "nominmax":
        d.pop("minmax")
    return d


def quiet(f, *a, **k):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r = f(*a, **k)
    return r, buf.getvalue()


def combos(grid):
    return [dict(zip(grid, v)) for v in itertools.product(*grid.values())]


def best_of(table, minmax):
    """indexes of the combinations that may be reported as the best: best mean, then smallest standard deviation"""
    means = [sum(r) / len(r) for r in table]
    m = min(means) if minmax == "min" else max(means)
    tied = [i for i, x in enumerate(means) if abs(x - m) < 1e-12]
    sd = [float(np.std(table[i])) for i in tied]
    return [i for i, s in zip(tied, sd) if s <= min(sd) + 1e-12], m


def verify(c, t, cs, table, minmax, what):
    n = len(table[0])
    df = t.df_fit
    if len(df) != len(cs):
        c.bad("rows", "%s: %d rows for %d combinations" % (what, len(df), len(cs)))
        return
    for i, p in enumerate(cs):
        if df["params"][i] != p:
            c.bad("params-cell", "%s: row %d is %r instead of %r" % (what, i, df["params"][i], p))
        row = [float(df["trial_%d" % (k + 1)][i]) for k in range(n)]
        if row != [float(x) for x in table[i]]:
            c.bad("wrong-cell", "%s: %r has fitness %r filed, its trials gave %r" % (what, p, row, table[i]))
        if abs(df["trial_mean"][i] - sum(table[i]) / n) > 1e-12:
            c.bad("mean", "%s: %r mean %r of %r" % (what, p, df["trial_mean"][i], table[i]))
    ok, m = best_of(table, minmax)
    if t.best_params not in [cs[i] for i in ok]:
        c.bad("not-best-" + minmax, "%s (%s): best_params %r, the trials %r say %r" % (what, minmax, t.best_params, list(zip(cs, table)), [cs[i] for i in ok]))
    elif abs(t.best_score - m) > 1e-12:
        c.bad("best-score", "%s: best_score %r, the best mean is %r" % (what, t.best_score, m))
    if len(t.best_row) < 1 or t.best_row["params"].values[0] != t.best_params:
        c.bad("best-row", "%s: best_row %r" % (what, t.best_row))
    loss = t.df_loss
    want = [(p, k, [f + 100.0, f + 1.0, f]) for p, r in zip(cs, table) for k, f in enumerate(r)]
    if len(loss) != len(want):
        c.bad("loss-rows", "%s: %d convergence rows for %d solves" % (what, len(loss), len(want)))
    else:
        for i, (p, k, conv) in enumerate(want):
            r = loss.iloc[i]
            if any(r[q] != v for q, v in p.items()) or r["trial"] != k or [float(r[e]) for e in (1, 2, 3)] != conv:
                c.bad("loss-cell", "%s: convergence row %d is %r, expected %r trial %d %r" % (what, i, dict(r), p, k, conv))
                break


def script(table, cs):
    """answers table rows in call order for each parameter combination"""
    used = {}

    def answer(par):
        for i, p in enumerate(cs):
            if all(par[k] == v for k, v in p.items()):
                k = used.get(i, 0)
                used[i] = k + 1
                return float(table[i][k]) if k < len(table[i]) else 1e9 + k
        return -1e9
    return answer


GRIDS = [dict(a=[5]), dict(a=[5, 3]), dict(b=[1, 2, 3]), dict(b=["u", "v"], a=[2, 1]), dict(c=["z", "y"], b=[0]), dict(a=(1, 2), c=np.array([7, 8]))]


def run_one(c, grid, table, minmax, pk, mode, nw, term, trials, what, njobs=None, verbose=False):
    cs = combos(grid)
    World.calls, World.answer, World.path = [], script(table, cs), None
    algo = Scripted()
    t = Tuner(algo, dict(grid))
    p = problem(pk, minmax)
    c.add(cases=1, solves=len(cs) * trials)
    c.seen(what, minmax, repr(table))
    try:
        _, out = quiet(t.execute, problem=p, termination=term, n_trials=trials, n_jobs=njobs, mode=mode, n_workers=nw, verbose=verbose)
    except Exception as e:
        c.bad("crash", "%s: execute: %r" % (what, e))
        return
    direction = "min" if pk == "nominmax" else minmax
    if not verbose and out:
        c.bad("printed", "%s: verbose=False prints %r" % (what, out[:80]))
    got = [({k: x["par"][k] for k in grid}, x["mode"], x["n_workers"], x["seed"]) for x in World.calls]
    want = [(q, mode, nw, None) for q in cs for _ in range(trials)]
    if sorted(map(repr, got)) != sorted(map(repr, want)):
        c.bad("solves", "%s: the solves made were %r, expected %r" % (what, got[:6], want[:6]))
    for x in World.calls:
        if x["termination"] is not term and x["termination"] != term:
            c.bad("termination", "%s: solved with termination %r instead of %r" % (what, x["termination"], term))
            break
        if x["start"] is not None or x["extra"]:
            c.bad("arguments", "%s: solved with extra arguments %r" % (what, x))
        q = x["problem"]
        if (q.get_name() if isinstance(q, Problem) else q["name"]) != "tuned" or (q.minmax if isinstance(q, Problem) else q.get("minmax", "min")) != direction:
            c.bad("problem", "%s: another problem was solved" % what)
    verify(c, t, cs, table, direction, what)
    bp = t.best_params
    if t.best_algorithm is not algo or any(getattr(algo, k) != v or algo.get_parameters()[k] != v for k, v in bp.items()):
        c.bad("best-algorithm", "%s: best_algorithm has %r, best_params %r" % (what, algo.get_parameters(), bp))
    algo.set_parameters({k: v for k, v in cs[-1].items()})
    World.calls, World.answer = [], (lambda par: 42.0)
    ss = [[0.0, 0.0]] * 3
    t2 = {"max_epoch": 3}
    try:
        g, _ = quiet(t.resolve, mode="swarm", starting_solutions=ss, n_workers=4, termination=t2)
    except Exception as e:
        c.bad("resolve-crash", "%s: %r" % (what, e))
        return
    x = World.calls[0]
    if len(World.calls) != 1 or any(x["par"][k] != v for k, v in bp.items()) or x["mode"] != "swarm" or x["n_workers"] != 4 or x["termination"] != t2 or x["start"] is not ss \
            or g.target.fitness != 42.0 or (x["problem"].get_name() if isinstance(x["problem"], Problem) else x["problem"]["name"]) != "tuned":
        c.bad("resolve", "%s: resolve() solved with %r, best_params %r" % (what, x, bp))


def tables(c, arg):
    gi, minmax, trials, alpha = arg
    grid = GRIDS[gi]
    n = len(combos(grid))
    for vals in itertools.product(alpha, repeat=n * trials):
        table = [list(vals[i * trials:(i + 1) * trials]) for i in range(n)]
        run_one(c, grid, table, minmax, "dict", "single", 2, None, trials, "grid %r %d trial(s)" % (grid, trials))


def arguments(c, gi):
    grid = GRIDS[gi]
    n = len(combos(grid))
    for pk in ("dict", "instance", "nominmax"):
        for minmax in ("min", "max"):
            if pk == "nominmax" and minmax == "max":
                continue
            for mode in ("single", "swarm", "thread", "process"):
                for nw in (None, 2, 5):
                    for term in (None, {"max_epoch": 2}, {"max_fe": 50, "max_time": 3}, Termination(max_epoch=4)):
                        for trials in (1, 2, 3):
                            table = [[(7 * i + 3 * k) % 5 - 2 for k in range(trials)] for i in range(n)]
                            run_one(c, grid, table, minmax, pk, mode, nw, term, trials, "grid %r %s mode=%s n_workers=%r term=%r trials=%d" % (grid, pk, mode, nw, term, trials), njobs=None if trials < 3 else 1, verbose=trials == 2)


def again(c, _):
    """two executes of one tuner, and two tuners sharing an algorithm: only the last one's results count"""
    for m1, m2 in itertools.product(("min", "max"), repeat=2):
        for p1, p2 in itertools.product(("dict", "instance"), repeat=2):
            grid = GRIDS[1]
            cs = combos(grid)
            t = Tuner(Scripted(), dict(grid))
            for m, pk, tab in ((m1, p1, [[1, 2, 1], [3, 4, 9]]), (m2, p2, [[6, 5], [2, 8]])):
                World.calls, World.answer, World.path = [], script(tab, cs), None
                c.add(cases=1)
                c.seen(m1, m2, p1, p2, m)
                quiet(t.execute, problem=problem(pk, m), n_trials=len(tab[0]), verbose=False)
                if len(World.calls) != 2 * len(tab[0]):
                    c.bad("solves", "second execute made %d solves" % len(World.calls))
                verify(c, t, cs, tab, m, "execute again")


def refusals(c, _):
    grid = dict(a=[1, 2])
    for alg in (None, "BBO", Scripted, 5):
        c.add(cases=1)
        try:
            Tuner(alg, grid)
            c.bad("accepted", "algorithm %r" % (alg,))
        except ValueError:
            pass
    for g in (None, 5, "a", ("a", [1])):
        c.add(cases=1)
        try:
            Tuner(Scripted(), g)
            c.bad("accepted", "param_grid %r" % (g,))
        except ValueError:
            pass
    for kw in (dict(n_trials=0), dict(n_trials=-1), dict(n_trials="2"), dict(n_trials=None), dict(n_jobs=1000)):
        World.calls, World.answer, World.path = [], (lambda p: 1.0), None
        c.add(cases=1)
        c.seen(repr(kw))
        try:
            quiet(Tuner(Scripted(), grid).execute, problem=problem("dict", "min"), verbose=False, **kw)
            c.bad("accepted", "execute(%r)" % kw)
        except ValueError:
            if World.calls:
                c.bad("late-refusal", "execute(%r) refused after %d solves" % (kw, len(World.calls)))
    for bad in (dict(zzz=[1]), dict(a=[1], zzz=[2])):
        c.add(cases=1)
        World.calls = []
        try:
            quiet(Tuner(Scripted(), bad).execute, problem=problem("dict", "min"), verbose=False)
            c.bad("accepted", "parameter names %r" % list(bad))
        except ValueError:
            if World.calls:
                c.bad("late-refusal", "unknown parameter refused after a solve")


def parallel(c, arg):
    """trials in real worker processes: every recorded solve is filed once, under its parameters"""
    njobs, trials, minmax, pk = arg
    grid = dict(b=["u", "v"], a=[2, 1])
    cs = combos(grid)
    d = tempfile.mkdtemp(prefix="c21-")
    try:
        World.calls, World.path = [], os.path.join(d, "log")
        World.answer = lambda par: float(cs.index({k: par[k] for k in ("b", "a")}) * 10 + (os.getpid() * 7919 + int(np.random.default_rng().integers(0, 10 ** 6))) % 5)
        t = Tuner(Scripted(), dict(grid))
        term = {"max_epoch": 2}
        c.add(cases=1, solves=len(cs) * trials)
        c.seen(njobs, trials, minmax, pk)
        quiet(t.execute, problem=problem(pk, minmax), termination=term, n_trials=trials, n_jobs=njobs, mode="swarm", n_workers=3, verbose=True)
        rec = [json.loads(x) for x in open(World.path)]
        if len(rec) != len(cs) * trials or any(r[1] != "swarm" or r[2] != 3 or r[3] != repr(term) or r[5] != "tuned" for r in rec):
            c.bad("parallel-solves", "%d solves recorded for %d; first %r" % (len(rec), len(cs) * trials, rec[:1]))
        table = []
        for i, p in enumerate(cs):
            mine = sorted(r[4] for r in rec if all(r[0][k] == v for k, v in p.items()))
            row = [float(t.df_fit["trial_%d" % (k + 1)][i]) for k in range(trials)]
            if sorted(row) != mine:
                c.bad("parallel-cell", "%r: filed %r, solved %r" % (p, row, mine))
            table.append(row)
        verify(c, t, cs, table, minmax, "n_jobs=%d" % njobs)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        World.path = None


REAL = ["OriginalPSO", "OriginalDE", "BaseGA", "OriginalWOA", "OriginalHC", "OriginalSA", "OriginalBBO", "JADE", "OriginalTS", "OriginalABC", "OriginalACOR", "OriginalLCO"]


def real(c, arg):
    """a real optimizer: each filed fitness and convergence equals a fresh optimizer's with these parameters and that seed"""
    name, minmax, mode, term, pk = arg
    cls = H.all_optimizers()[name]
    seeds = itertools.count(11)
    log = []

    class Seeded(cls):
        def solve(self, problem=None, mode="single", n_workers=None, termination=None, starting_solutions=None, seed=None):
            s = next(seeds)
            log.append((s, {k: self.__dict__[k] for k in self.get_parameters()}))
            return super().solve(problem, mode=mode, n_workers=n_workers, termination=termination, starting_solutions=starting_solutions, seed=s)
    o = H.make(cls, epoch=3, pop_size=10)
    par = dict(o.get_parameters())
    algo = Seeded(**par)
    grid = {"pop_size": [10, 16] if "pop_size" in par else [par.get("pop_size")], "epoch": [2, 4]}
    grid = {k: v for k, v in grid.items() if k in par}
    t = Tuner(algo, grid)
    c.add(cases=1)
    quiet(t.execute, problem=problem(pk, minmax), termination=term, n_trials=2, mode=mode, n_workers=2, verbose=False)
    cs = combos(grid)
    if len(log) != 2 * len(cs):
        c.bad("solves", "%s: %d solves" % (name, len(log)))
        return
    table = []
    for i, p in enumerate(cs):
        row = []
        for k in (0, 1):
            s, q = log[2 * i + k]
            ref = cls(**par)
            ref.set_parameters(p)
            g = ref.solve(problem(pk, minmax), mode=mode, n_workers=2, termination=term, seed=s)
            c.add(solves=1)
            row.append(g.target.fitness)
            if float(t.df_fit["trial_%d" % (k + 1)][i]) != g.target.fitness:
                c.bad("real-cell", "%s %r trial %d: filed %r, a fresh solve gives %r" % (name, p, k, t.df_fit["trial_%d" % (k + 1)][i], g.target.fitness), subject=name)
            lr = t.df_loss.iloc[2 * i + k]
            conv = ref.history.list_global_best_fit
            if [float(lr[e + 1]) for e in range(len(conv))] != [float(x) for x in conv] or int(lr["trial"]) != k or any(lr[a] != b for a, b in p.items()):
                c.bad("real-loss", "%s %r trial %d: convergence %r, a fresh solve gives %r" % (name, p, k, list(lr)[-4:], conv), subject=name)
        table.append(row)
        c.seen(name, minmax, mode, repr(p), repr(row))
    means = [sum(r) / len(r) for r in table]
    m = min(means) if minmax == "min" else max(means)
    if t.best_params not in [p for p, x in zip(cs, means) if abs(x - m) <= 1e-12 * abs(m)]:
        c.bad("not-best-" + minmax, "%s: best_params %r of %r" % (name, t.best_params, list(zip(cs, table))), subject=name)
    log.clear()
    g, _ = quiet(t.resolve, mode=mode, n_workers=2, termination=term)
    ref = cls(**par)
    ref.set_parameters(t.best_params)
    ref = ref.solve(problem(pk, minmax), mode=mode, n_workers=2, termination=term, seed=log[0][0])
    if g.target.fitness != ref.target.fitness or list(g.solution) != list(ref.solution):
        c.bad("real-resolve", "%s: resolve() %r, a fresh solve with best_params %r" % (name, g.target.fitness, ref.target.fitness), subject=name)


def exports(c, _):
    d = tempfile.mkdtemp(prefix="c21-")
    try:
        for gi in (0, 1, 3):
            grid = GRIDS[gi]
            cs = combos(grid)
            tab = [[i + 1, 2 * i] for i in range(len(cs))]
            World.calls, World.answer, World.path = [], script(tab, cs), None
            t = Tuner(Scripted(), dict(grid))
            quiet(t.execute, problem=problem("dict", "min"), n_trials=2, verbose=False)
            for ext in ("csv", "json", "dataframe"):
                c.add(cases=1)
                c.seen(gi, ext)
                sp = os.path.join(d, "%d" % gi, ext, "deep")
                quiet(t.export_results, save_path=sp, file_name="fit." + ext)
                f = os.path.join(sp, "fit." + {"dataframe": "pkl"}.get(ext, ext))
                if not os.path.exists(f):
                    c.bad("export", "export_results(%r) wrote %r" % (ext, os.listdir(sp)))
                    continue
                back = dict(csv=pd.read_csv, json=pd.read_json, dataframe=pd.read_pickle)[ext](f)
                if list(back["trial_1"].astype(float)) != [float(r[0]) for r in tab] or list(back["trial_2"].astype(float)) != [float(r[1]) for r in tab]:
                    c.bad("export", "export_results(%r): %r" % (ext, back))
            sp = os.path.join(d, "%d" % gi, "figs")
            quiet(t.export_figures, save_path=sp, file_name="loss.csv", exts=(".png",))
            back = pd.read_csv(os.path.join(sp, "loss.csv"))
            if len(back) != 2 * len(cs) or [float(x) for x in back["3"]] != [float(f) for r in tab for f in r]:
                c.bad("export-loss", "export_figures: %r" % back)
    finally:
        shutil.rmtree(d, ignore_errors=True)


FIG_GRIDS = [dict(a=[5]), dict(a=[5, 3]), dict(b=[1, 2, 3]), dict(b=["u", "v"], a=[2, 1]), dict(c=["z", "y"], b=[0]), dict(a=(1, 2), c=np.array([7, 8])),
             dict(a=[1, 2], b=[3, 4], c=["p", "q"]), dict(a=[0.1, 0.25], b=[True, False]), dict(b=[1, 2], a=[9], c=["p", "q", "r"])]


def figures(c, arg):
    """The tuner's own charts: for every trial and parameter, one picture per setting of the others, one curve per value."""
    gi, trials, color, exts, uneven = arg
    grid = FIG_GRIDS[gi]
    short = lambda p: 1 + cs.index({k: p[k] for k in grid}) % 3              # solves that stop after different numbers of epochs
    cs = combos(grid)
    tab = [[10.0 * i + 3 * k + 1 for k in range(trials)] for i in range(len(cs))]
    World.calls, World.answer, World.path = [], script(tab, cs), None
    t = Tuner(Scripted(), dict(grid))
    World.length = short if uneven else None
    try:
        quiet(t.execute, problem=problem("dict", "min"), n_trials=trials, verbose=False)
    finally:
        World.length = None
    longest = max(short(p) for p in cs) if uneven else 3
    what = "%r, %d trials, %s epochs" % (grid, trials, "different" if uneven else "equal")
    feats = ("color=%s" % color, "exts=%s" % (exts,))
    n_lines = {len(v) for v in grid.values() if len(v) > 1}
    with pictures.Scratch() as sc:
        kw = dict(exts=exts)
        if color == "own":
            if len(n_lines) != 1:
                return
            kw.update(color=["r", "g", "k"][:n_lines.pop()], x_label="X", y_label="Y")
        want = {}
        for k in range(trials):
            for para in grid:
                others = [q for q in grid if q != para]
                if len(grid[para]) < 2:
                    continue
                for rest in itertools.product(*[grid[q] for q in others]):
                    sel = dict(zip(others, rest))
                    ys = []
                    for v in grid[para]:
                        f = tab[[i for i, p in enumerate(cs) if p == dict(sel, **{para: v})][0]][k]
                        n = short(dict(sel, **{para: v})) if uneven else 3
                        ys.append(([f + 100.0, f + 1.0, f][:n] + [float("nan")] * 3)[:longest])
                    pic = dict(axes=[dict(title="Convergence chart for %s parameter" % para, x=kw.get("x_label", "Epoch"), y=kw.get("y_label", "Global best fitness value"),
                                          legend=["%s = %s" % (para, v) for v in grid[para]],
                                          lines=[dict(x=None, y=y, color=kw["color"][j] if color else None) for j, y in enumerate(ys)])], sup="")
                    want["trial%d/%s" % (k, "-".join("%s_%s" % (q, sel[q]) for q in others) or para)] = pic
        plt = pictures.plt
        plt.figure()
        plt.plot([1, 2], [3, 4])
        mine = repr(pictures.picture(plt.gcf()))
        c.add(cases=1, pictures=len(want))
        c.seen("figures", gi, trials, color, exts)
        quiet(t.export_figures, save_path="out", file_name="loss.csv", **kw)
        if plt.get_fignums() != [1] or repr(pictures.picture(plt.figure(1))) != mine:
            c.bad("figures-open", "%s: export_figures touched the caller's figure or left one open: %r" % (what, plt.get_fignums()), feats)
        files = sorted(["out/loss.csv"] + ["out/" + n + e for n in want for e in exts])
        if sc.files() != files:
            c.bad("figure-files", "%s: export_figures wrote %r instead of %r" % (what, sc.files(), files), feats)
        for fn, pic in pictures.SHOTS:
            stem = next((w for w in want for e in exts if os.path.relpath(os.path.abspath(fn), os.path.join(sc.dir, "out")) == w + e), None)
            d = "no such picture" if stem is None else pictures.differs(pic, want[stem])
            if d:
                c.bad("figure-content", "%s: %s: %s" % (what, fn, d), feats)
        for bad in ([], ["r"] * 7):
            if not n_lines or color:
                continue
            try:
                quiet(t.export_figures, save_path="out2", file_name="loss.csv", color=bad, exts=())
                c.bad("figure-colors", "%s: export_figures(color=%r) draws all lines" % (what, bad), feats)
            except ValueError:
                pass


def groups(tier):
    t = tier != "quick"
    g = []
    A = (0, 1, 2.5)
    for m in ("min", "max"):
        for gi, tr, al in [(0, 1, A), (0, 3, A), (1, 1, A + (-4,)), (1, 2, A), (2, 1, A), (2, 2, (0, 1)), (3, 1, A), (5, 1, A), (4, 2, A)] + \
                ([(1, 3, A), (2, 2, A), (3, 2, (0, 1, 3)), (1, 4, (0, 1, 3)), (2, 3, (0, 1))] if t else []):
            g.append((tables, "tables %d %d %s %r" % (gi, tr, m, al), (gi, m, tr, al)))
    g += [(arguments, "arguments %d" % i, i) for i in ((1, 3) if not t else range(len(GRIDS)))]
    g += [(again, "again", None), (refusals, "refusals", None), (exports, "exports", None)]
    g += [(figures, "figures %d %d %s %r %s" % a, a) for a in itertools.product(range(len(FIG_GRIDS)), (1, 2) if not t else (1, 2, 3), (None, "own"), ((".png",), (".png", ".pdf"), ()), (False, True))
          if a[2] is None or a[3] == (".png",)]
    for nj, tr, m, pk in ((2, 3, "min", "dict"), (3, 2, "max", "instance")) + (((2, 4, "max", "dict"), (4, 5, "min", "instance")) if t else ()):
        g.append((parallel, "n_jobs %d %d %s %s" % (nj, tr, m, pk), (nj, tr, m, pk)))
    terms = [None, {"max_epoch": 1}, {"max_fe": 33}]
    for n in REAL if not t else sorted(H.all_optimizers()):
        for m in ("min", "max"):
            for mode in ("single",) + (("swarm",) if t else ()):
                for te in terms if t else terms[:2]:
                    for pk in ("dict", "instance"):
                        g.append((real, "real %s %s %s %r %s" % (n, m, mode, te, pk), (n, m, mode, te, pk)))
    return g


def main(tier):
    rep = Report("C21", tier, "exploration")
    rep.assumptions = ["among combinations with the same best mean the one with the smallest standard deviation is the best, for both directions",
                       "the schedule of the pool's worker processes for n_jobs >= 2 is the operating system's (the trials are independent: C10)"]
    rep.add(rule="every fitness table over a small alphabet x grid shapes x numbers of trials x direction, every mode/worker/termination/problem form, "
                 "executed by the real Tuner with a scripted solve(); and real optimizers against fresh solves with the same parameters and seeds; distinct counts different (configuration, table)")
    gs = groups(tier)
    U.run_groups(rep, [g for g in gs if g[0] is not parallel])
    U.run_here(rep, [g for g in gs if g[0] is parallel])
    return rep.finish()


replay = U.replayer(groups)
