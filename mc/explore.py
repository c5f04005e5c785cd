"""Exhaustive exploration of bounded sets of runs over all optimizers, on all cores."""
import hashlib
import json
import multiprocessing as mp
import os
import time
import traceback

from . import harness as H
from . import hyper

FULL = dict(land=["neg", "const", "zero", "step", "lin", "big", "tiny", "up", "down", "alt", "corner", "wall", "pit", "void"], minmax=["max"],
            mode=["swarm", "thread", "process"],
            space=["f1", "f2", "negonly", "thin", "flat", "huge", "f7", "int", "bin", "perm", "mixed", "trans", "unit", "frac", "sym"],
            pop=["min", "13", "24"], epoch=[1, 2, 7], start=["lhs", "lhsL", "corner", "same"], objs=["np", "list1", "arr0", "int", "2", "2a"],
            term=["mg2", "fe10", "fe35", "es1", "es2"], reuse=["yes"], stream=[1, 2], asinst=[True], save=[False])


WIDE = {k: [v for v in vs if v not in ("process",)] for k, vs in FULL.items()}      # process mode is dearer: asked for where it matters


def sub(**kw):
    """A feature set: sub(land=True) takes all values of FULL; a list takes those."""
    return {k: (FULL[k] if v is True else v) for k, v in kw.items()}


def deviations(features, k):
    return list(H.deviations_upto(features, k))


def plan(features, k, hp=0, hpf=None):
    """Configurations for one optimizer: every combination of at most k deviations, plus every hyper-parameter
    alternative combined with at most `hp`-1 deviations out of hpf."""
    def f(cls):
        for d in H.deviations_upto(features, k):
            yield d
        if hp:
            rest = list(H.deviations_upto(hpf or {}, hp - 1))
            for a in hyper.alternatives(cls):
                for d in rest:
                    yield (("hp", a),) + d
    return f


# Longer runs: what happens every tenth epoch, after stagnation or late in the schedule of a parameter.
LONG = [(("epoch", 12),), (("epoch", 12), ("minmax", "max"), ("land", "step"), ("mode", "swarm")),
        (("epoch", 23), ("land", "step"), ("pop", "min"), ("space", "f1")), (("epoch", 23), ("land", "const"))]
LONG_HP = (("epoch", 12), ("land", "step"), ("pop", "min"))


def long_runs(cls):
    yield from LONG
    for a in hyper.alternatives(cls):
        yield (("hp", a),) + LONG_HP


def late(*runs):
    """Runs over as many epochs as users ask for: schedules reach their end, memories fill, populations converge."""
    return lambda cls: [tuple(r.items()) for r in runs]


def late_hp(**run):
    """The same with every hyper-parameter alternative."""
    return lambda cls: [(("hp", a),) + tuple(run.items()) for a in hyper.alternatives(cls)]


def mix(wide, pairs, hp=None):
    """Every configuration one deviation (out of `wide`) away from the base run, every two-deviation combination out of `pairs`,
    every hyper-parameter alternative alone and with each of the deviations in `hp`, and the longer runs."""
    def f(cls):
        yield from H.deviations_upto(wide, 1)
        for d in H.deviations_upto(pairs, 2):
            if len(d) == 2:
                yield d
        for a in hyper.alternatives(cls):
            yield (("hp", a),)
            for k, vs in (hp or {}).items():
                for v in vs:
                    yield (("hp", a), (k, v))
        yield from long_runs(cls)
    return f


def draw_plan(base, limit=1500, kinds=("lo", "hi")):
    """Every single random draw of the base run (up to `limit`) replaced by an extreme but legal outcome."""
    base = tuple(base.items())

    def f(cls):
        tr = H.run(cls, H.cfg_with(*base), cpu=5)
        yield dict(devs=base)
        for i in range(min(tr.draws, limit)):
            for v in kinds:
                yield dict(devs=base, draws={i: v}, extra=("draw=" + v,))
    return f


def answer_plan(base, pairs=0, limit=80):
    """Every single objective answer of the base run (every pair for `pairs` first ones) replaced by a new best,
    a new worst, a tie with the first answer, or an infinite penalty."""
    base = tuple(base.items())

    def f(cls):
        tr = H.run(cls, H.cfg_with(*base), cpu=5)
        log = [v for _, v in tr.obj.log]
        if not log:
            return
        vals = dict(best=-1e6, worst=1e6, tie=log[0], penalty=float("inf"))
        if tr.cfg["minmax"] == "max":
            vals.update(best=1e6, worst=-1e6, penalty=float("-inf"))
        n = min(len(log), limit)
        for i in range(n):
            for k, v in vals.items():
                yield dict(devs=base, answers={i: v}, extra=("answer=" + k,))
        m = min(len(log), pairs)
        for i in range(m):
            for j in range(i + 1, m):
                for a, va in vals.items():
                    for b, vb in vals.items():
                        yield dict(devs=base, answers={i: va, j: vb * 0.5 if b != "tie" else vb}, extra=("answer=" + a, "answer2=" + b))
    return f


_JOB = {}


def _chunk(args):
    name, lo, hi = args
    J = _JOB
    cls = J["classes"][name]
    devs = J["plans"][name][lo:hi]
    out, n, evals, epochs, draws, seen, more = [], 0, 0, 0, 0, set(), {}
    for d in devs:
        if isinstance(d, dict):                     # explicit run spec
            spec = d
        else:
            spec = dict(devs=d)
        try:
            r = J["run"](cls, spec)
        except Exception as e:                      # e.g. the class can no longer be constructed as documented
            r = [("unexpected-" + type(e).__name__, "%s: %s" % (e, " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-4:]))))], []
        if r is None:
            continue
        viols, trs = r[0], r[1]
        for k, v in (r[2].items() if len(r) > 2 else ()):
            more[k] = more.get(k, 0) + v
        for kind, det in viols:
            out.append((name, kind, tuple(H.feats(spec["devs"])) + tuple(spec.get("extra", ())), det,
                        dict(optimizer=name, devs=[list(x) for x in spec["devs"]], spec={k: v for k, v in spec.items() if k != "devs"})))
        for tr in trs:
            n += 1
            evals += len(tr.obj.log)
            epochs += len(tr.epochs)
            draws += tr.draws
            if tr.epochs:
                seen.add(hashlib.blake2b(repr((name, tr.obj.log, tr.cfg["minmax"])).encode(), digest_size=8).digest())
    return out, n, evals, epochs, draws, seen, more


def single(oracles, cpu=20.0, **kw):
    """run function: execute one configuration and apply the oracles."""
    def run(cls, spec):
        cfg = H.cfg_with(*spec["devs"])
        far = dict(draw_limit=10 ** 10) if cfg["epoch"] > 100 else {}
        tr = H.run(cls, cfg, cpu=cpu + (0.1 * cfg["epoch"] if far else 0), deviations=spec.get("draws"), answers=spec.get("answers"), **dict(kw, **far))
        v = []
        for o in oracles:
            v += o(tr)
        return v, [tr]
    return run


def explore(rep, plans, run, classes=None, procs=None, chunk=120, budget=None, rule="", sample_of=None):
    """plans: callable cls -> iterable of specs (tuples of deviations or dicts with key 'devs')."""
    classes = classes or H.all_optimizers()
    _JOB.clear()
    _JOB.update(classes=classes, run=run, plans={})
    tasks = []
    for n, c in classes.items():
        try:
            ps = list(plans(c))
        except Exception as e:              # the default construction or the base run already fails
            ps = [()]
            rep.violation(n, "unexpected-" + type(e).__name__, (), "while listing its configurations: %r" % e, dict(optimizer=n, devs=[], spec={}))
        _JOB["plans"][n] = ps
        for i in range(0, len(ps), chunk):
            tasks.append((n, i, min(len(ps), i + chunk)))
    # a fixed interleaving so that slow optimizers do not end up last
    tasks.sort(key=lambda t: hashlib.md5(repr(t).encode()).digest())
    seen = set()
    with mp.get_context("fork").Pool(procs or int(os.environ.get("MC_PROCS", "8"))) as pool:
        for out, n, ev, ep, dr, s, more in pool.imap_unordered(_chunk, tasks):
            for name, kind, fs, det, rp in out:
                rep.violation(name, kind, fs, det, rp)
            rep.add(evaluations=n, objective_calls=ev, epochs=ep, random_draws=dr, **more)
            seen |= s
    rep.add(distinct_nontrivial=len(seen), optimizers=0, configurations=sum(len(p) for p in _JOB["plans"].values()))
    rep.cov["optimizers"] = len(classes)
    any_n = sorted(classes)[0]
    samples = [dict(optimizer=n, run=H.cfg_id(_JOB["plans"][n][j]["devs"] if isinstance(_JOB["plans"][n][j], dict) else _JOB["plans"][n][j]))
               for n in list(classes)[::max(1, len(classes) // 4)] for j in (0, len(_JOB["plans"][n]) // 2, len(_JOB["plans"][n]) - 1) if _JOB["plans"][n]]
    rep.cov["samples"] = rep.cov.get("samples", []) + samples
    rep.cov["exhaustive"] = True
    if rule:
        rep.cov["rule"] = rule


RULE = ("every optimizer x every configuration with at most k deviations from the base run (features and values listed in DESIGN.md), "
        "each executed to the end on the real code under a controlled random stream; a run is non-trivial when it completed at least "
        "one epoch, and distinct by its (optimizer, direction, evaluation log)")


def replay_single(run):
    def rp(r):
        c = H.all_optimizers()[r["optimizer"]]
        spec = dict(r["spec"], devs=tuple(tuple(x) for x in r["devs"]))
        for k in ("draws", "answers", "faults"):
            if spec.get(k):
                spec[k] = {int(a): b for a, b in spec[k].items()}
        v, trs = run(c, spec)[:2]
        for tr in trs:
            print("run", H.cfg_id(spec["devs"]), "exc", repr(tr.exc), "evaluations", len(tr.obj.log), "epochs", len(tr.epochs))
        for k, d in v:
            print("VIOLATED", k, d)
        return 1 if v else 0
    return rp
