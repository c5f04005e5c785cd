"""C05: a solve stops exactly at its first met stopping criterion.

Part 1 drives the real solve() with a scripted optimizer through every history (evaluations, clock, improvement per epoch) up to a depth,
for every combination of criteria.  Part 2 judges every shipped optimizer against the same reference model."""
import itertools
import multiprocessing as mp
import os

import numpy as np

from .. import env, explore as E, harness as H
from ..report import Report
from mealpy import FloatVar, Problem
from mealpy.optimizer import Optimizer
from mealpy.utils.agent import Agent
from mealpy.utils.target import Target
from mealpy.utils.termination import Termination

TICK = 1.0 / 64             # clock advance; a power of two keeps sums exact


def reference(term, epoch_limit, rows, g0):
    """rows: (evaluations so far, elapsed so far, global best) at the end of each epoch.  -> number of epochs that must run."""
    eps = term.get("epsilon", 1e-10)
    es, prev = 0, g0
    for k, (fe, t, g) in enumerate(rows, 1):
        es = es + 1 if g == prev or abs(g - prev) <= eps else 0
        prev = g
        if k >= epoch_limit:
            return k
        if term.get("max_epoch") is not None and k >= term["max_epoch"]:
            return k
        if term.get("max_fe") is not None and fe >= term["max_fe"]:
            return k
        if term.get("max_time") is not None and t >= term["max_time"]:
            return k
        if term.get("max_early_stop") is not None and es >= term["max_early_stop"]:
            return k
    return None             # not stopped within the rows given


# ------------------------------------------------------------------ part 1: scripted histories

class Scripted(Optimizer):
    def __init__(self, epoch=10, pop_size=6, **kw):
        super().__init__(**kw)
        self.epoch, self.pop_size = epoch, pop_size
        self.set_parameters(["epoch", "pop_size"])

    def before_main_loop(self):
        self.mark = []

    def evolve(self, epoch):
        ev, dt, gain = self.script(epoch - 1)
        for _ in range(ev):
            self.generate_agent()
        env.CLOCK.now += dt
        best = self.g_best.target.fitness
        v = best - gain if self.problem.minmax == "min" else best + gain
        if gain:
            self.pop[0] = Agent(solution=self.pop[0].solution, target=Target([v], self.problem.obj_weights))
        self.mark.append((self.nfe_counter, env.CLOCK.now, v))


# one epoch of the environment: evaluations, clock advance, improvement of the best
KINDS = [(0, 0.0, 0.0), (4, 0.0, 8.0), (0, 4 * TICK, 8.0), (1, 3 * TICK, 0.5), (0, 0.0, 1e-11), (9, 9 * TICK, 0.0)]
LIMIT = {"max_epoch": (None, 1, 3), "max_fe": (None, 10, 15), "max_time": (None, 0.125, 0.1875), "max_early_stop": (None, 1, 2, 3)}


def combos():
    for me, fe, t, es in itertools.product(*LIMIT.values()):
        d = {k: v for k, v in zip(LIMIT, (me, fe, t, es)) if v is not None}
        if not d:
            yield None
            continue
        yield d
        if es is not None:
            yield dict(d, epsilon=0.5)


class Script:
    def __init__(self, depth):
        self.path, self.used, self.depth = [], 0, depth

    def __call__(self, k):
        while len(self.path) <= k:
            self.path.append(0)
        self.used = max(self.used, k + 1)
        return KINDS[self.path[k]]

    def next(self):
        self.path = self.path[:self.used]
        self.used = 0
        while self.path and self.path[-1] == len(KINDS) - 1:
            self.path.pop()
        if not self.path:
            return False
        self.path[-1] += 1
        return True


def scripted_solve(term, form, minmax, limit, script, o=None):
    """form: dict | instance | nested.  Returns (optimizer, epochs run, rows, clock at start)."""
    o = o or Scripted(epoch=limit)
    o.script = script
    env.CLOCK.active, env.CLOCK.step = True, 0.0
    t0 = env.CLOCK.now
    obj = (lambda x: 100.0)
    o.solve({"obj_func": obj, "bounds": FloatVar(lb=-1., ub=1.), "minmax": minmax, "log_to": None}, termination=form, seed=1)
    rows = [(a, b - t0, g) for a, b, g in o.mark]
    return o, len(o.mark), rows


def make_form(term, form):
    if term is None:
        return None
    if form == "dict":
        return dict(term)
    if form == "nested":
        return Termination(termination=dict(term))
    return Termination(**term)


def judge(term, limit, n, rows):
    want = reference(term or {}, limit, rows, 100.0)
    if want is None:
        return "stopped after %d epochs, although no criterion held (rows %r)" % (n, rows)
    if want != n:
        return "ran %d epochs, the first criterion was met after epoch %d (rows %r)" % (n, want, rows)
    return None


def script_job(job):
    term, form, minmax, limit = job
    env.fresh()
    s = Script(limit)
    n = steps = 0
    while True:
        env.CLOCK.now = 0.0
        k = 0
        try:
            f = make_form(term, form)
            o, k, rows = scripted_solve(term, f, minmax, limit, s)
            m = judge(term, limit, k, rows)
            if m is None:               # the same optimizer and the same termination object once more, later on the clock
                env.CLOCK.now += 7.0
                o, k, rows = scripted_solve(term, f, minmax, limit, s, o)
                m = judge(term, limit, k, rows)
                m = m and "second solve: " + m
        except Exception as e:          # no legal termination makes solve() raise
            m = "solve() raised %r" % e
        n += 2
        steps += 2 * k
        if m:
            env.CLOCK.active = False
            return job, (s.path[:s.used], m), n, steps
        if not s.next():
            break
    env.CLOCK.active = False
    return job, None, n, steps


def scripted(rep, tier):
    depth = 4 if tier == "quick" else 6
    jobs = []
    for i, t in enumerate(combos()):
        forms = ["dict", "instance", "nested"] if t is not None else ["dict"]
        if tier == "quick":
            jobs.append((t, forms[i % len(forms)], "min" if i % 2 else "max", depth))
        else:
            jobs += [(t, f, m, depth) for f in forms for m in ("min", "max")]
    if tier == "quick":             # every form and direction at a smaller depth
        jobs += [(t, f, m, 2) for t in combos() for f in (["dict", "instance", "nested"] if t is not None else ["dict"]) for m in ("min", "max")]
    with mp.get_context("fork").Pool(int(os.environ.get("MC_PROCS", "8"))) as pool:
        for job, bad, n, steps in pool.imap_unordered(script_job, jobs, chunksize=4):
            rep.add(scripted_histories=n, scripted_epochs=steps, criteria_sets=1)
            if bad:
                rep.violation("Optimizer", "wrong-stop", ["form=" + job[1], "minmax=" + job[2]] + sorted(job[0] or {}),
                              "criteria %r (%s, %s), epoch kinds %r: %s" % (job[0], job[1], job[2], [KINDS[i] for i in bad[0]], bad[1]),
                              dict(scripted=[job[0], job[1], job[2], job[3]]))


def refusals(rep):
    """No criterion at all, or something that is no termination, is refused before any evaluation."""
    for bad in ({}, [], 5, "max_fe", ["max_fe", 10], {"max_fe": None}, {"epsilon": 0.1}, {"max_epoch": 0}, {"max_fe": 9}, {"max_early_stop": 0}, {"max_time": 0.05}, {"max_time": "1"}, {"max_epoch": "3"}):
        calls = []
        o = Scripted(epoch=2)
        o.script = lambda k: KINDS[0]
        env.fresh()
        try:
            o.solve({"obj_func": lambda x: calls.append(1) or 1.0, "bounds": FloatVar(lb=-1., ub=1.), "log_to": None}, termination=bad, seed=1)
            m = "accepted"
        except ValueError:
            m = "refused after %d evaluations" % len(calls) if calls else None
        except Exception as e:
            m = repr(e)
        rep.add(bad_terminations=1)
        if m:
            rep.violation("Optimizer", "bad-termination", [], "termination=%r: %s" % (bad, m), dict(refusals=True))


# ------------------------------------------------------------------ part 2: every optimizer

TERM = {"mg1": {"max_epoch": 1}, "mg2": {"max_epoch": 2}, "mg9": {"max_epoch": 9}, "fe10": {"max_fe": 10}, "fe35": {"max_fe": 35}, "fe999": {"max_fe": 999},
        "t25": {"max_time": 25 * TICK}, "t60": {"max_time": 60 * TICK}, "es1": {"max_early_stop": 1}, "es2": {"max_early_stop": 2, "epsilon": 0.5}, "es3": {"max_early_stop": 3},
        "fe+t": {"max_fe": 70, "max_time": 50 * TICK}, "mg+es": {"max_epoch": 4, "max_early_stop": 2}, "fe+es": {"max_fe": 60, "max_early_stop": 2, "epsilon": 1.0},
        "t+es+mg": {"max_epoch": 5, "max_time": 80 * TICK, "max_early_stop": 3}}


def tick(n, x):
    env.CLOCK.now += TICK


def run(cls, spec):
    cfg = H.cfg_with(*spec["devs"])
    tname = cfg["term"]
    term = TERM.get(tname)
    saved = H.TERMS
    H.TERMS = dict(TERM, none=None)

    def amb():
        env.CLOCK.active, env.CLOCK.now, env.CLOCK.step = True, 0.0, 0.0
    try:
        tr = H.run(cls, cfg, ambient=amb, callback=tick)
    finally:
        H.TERMS = saved
        env.CLOCK.active = False
    if tr.exc is not None or tr.hist is None:
        return [], [tr]
    rows = [(e["nev"], e["nev"] * TICK, g) for e, g in zip(tr.epochs, tr.hist["list_global_best_fit"])]
    o = tr.opt
    want = reference(term or {}, int(o.epoch), rows, tr.init["gb"][1])
    out = []
    if want != len(tr.epochs):
        out.append(("wrong-stop", "epoch=%d, criteria %r: ran %d epochs, the first criterion was met after epoch %s (evaluations, elapsed, best: %r)" % (o.epoch, term, len(tr.epochs), want, rows)))
    elif len(tr.obj.log) != tr.epochs[-1]["nev"]:
        out.append(("evaluated-after-stop", "%d evaluations after the last epoch" % (len(tr.obj.log) - tr.epochs[-1]["nev"])))
    return out, [tr]


def plan(tier):
    def g(cls):
        for t in ["none"] + list(TERM):
            for d in ([()] if tier == "quick" else E.deviations(E.sub(land=["const", "step", "down", "alt", "wall", "void"], mode=["swarm", "thread", "process"], minmax=True, pop=["min", "24"], start=["lhs"], reuse=True, space=["f1", "mixed"]), 1)):
                yield (("epoch", 7), ("term", t)) + d
            if tier == "quick":
                yield (("epoch", 7), ("term", t), ("land", "step"), ("minmax", "max"))
                if t in ("fe35", "t60", "es2", "mg+es"):
                    for d in ((("mode", "swarm"),), (("mode", "thread"),), (("pop", "min"),), (("start", "lhs"),), (("land", "const"),), (("land", "void"),), (("land", "wall"), ("pop", "min"))):
                        yield (("epoch", 7), ("term", t)) + d
    return g


def main(tier):
    rep = Report("C05", tier, "exploration")
    rep.assumptions = ["time is the virtual clock of the harness: it advances by 1/64 per evaluation (part 2) or as scripted (part 1)"]
    refusals(rep)
    scripted(rep, tier)
    E.explore(rep, plan(tier), run, rule="part 1: every sequence of epoch kinds (evaluations, clock, improvement) up to the depth, pruned where the solve stopped, for every combination of criteria; part 2: every optimizer x criteria x configuration against the reference model")
    return rep.finish()


def replay(r):
    if "scripted" in r:
        t, f, m, d = r["scripted"]
        j = script_job((t, f, m, d))
        print(j)
        return 1 if j[1] else 0
    if "refusals" in r:
        rep = Report("C05", "quick", "exploration")
        refusals(rep)
        return rep.finish()
    return E.replay_single(run)(r)
