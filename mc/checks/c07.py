"""C07: a seed fully determines the run, whatever the ambient state; and no solve touches the global random state."""
import json
import os
import random
import subprocess
import sys

import numpy as np

from .. import env, explore as E, harness as H, pairs
from ..report import Report
from mealpy.utils.agent import Agent

F = E.sub(mode=["swarm", "thread", "process"], minmax=True, land=["const", "alt"], space=["f1", "mixed", "perm", "trans"], pop=["min", "24"], epoch=[1, 7],
          start=["lhs"], term=["fe35", "es1"], asinst=True, reuse=True, stream=[1, -7, 2 ** 70], objs=["2"])
PAIR = [("mode", "space"), ("mode", "start"), ("land", "epoch")]
FT = E.sub(mode=True, minmax=True, land=True, space=True, pop=True, epoch=True, start=True, term=True, asinst=True, reuse=True, objs=["2"], stream=[1, -7, 2 ** 70])

SNAP = {}


def snap_globals():
    SNAP["np"] = np.random.get_state()
    SNAP["py"] = random.getstate()


def globals_changed():
    a, b = SNAP["np"], np.random.get_state()
    if a[2:] != b[2:] or not np.array_equal(a[1], b[1]):
        return "numpy.random"
    if SNAP["py"] != random.getstate():
        return "random"
    return None


def amb_globals():
    np.random.seed(99)
    np.random.random(17)
    random.seed("other")
    snap_globals()


def amb_unseeded():
    env.UNSEEDED[0] = 5000
    snap_globals()


def amb_clock():
    env.CLOCK.active, env.CLOCK.now, env.CLOCK.step = True, 12345.5, 0.37
    snap_globals()


def amb_ids():
    Agent.ID += 12345
    snap_globals()


def amb_prior(cls):
    def f():
        ob = H.Objective("lin")
        o = H.make(cls, epoch=2, pop_size=10)
        sv, env.SCHED.active = env.SCHED.active, True
        try:
            o.solve({"obj_func": ob, "bounds": H.sp_f2(), "minmax": "max", "log_to": None}, seed=5)
        except Exception:
            pass
        env.SCHED.active = sv
        snap_globals()
    return f


def amb_all(cls):
    def f():
        amb_prior(cls)()
        amb_ids()
        amb_unseeded()
        amb_clock()
        amb_globals()
    return f


def run(cls, spec):
    cfg = H.cfg_with(*spec["devs"])
    a = H.run(cls, cfg, ambient=snap_globals)
    out = []
    w = globals_changed()
    if w:
        out.append(("global-state", "the run changed the global random state of %s" % w))
    va = pairs.view(a)

    def against(amb):
        b = H.run(cls, cfg, ambient=amb)
        return b, pairs.diff(va, pairs.view(b))
    b, d = against(amb_all(cls))
    if d:
        names = [n for n, f in (("global-rng", amb_globals), ("unseeded-entropy", amb_unseeded), ("clock", amb_clock),
                                ("agent-ids", amb_ids), ("prior-activity", amb_prior(cls))) if against(f)[1]]
        out.append(("depends-on-" + ("+".join(names) or "history"), "%s differs: %s" % d))
    return out, [a, b]


HASH_DEVS = [(), (("space", "mixed"),), (("mode", "thread"), ("minmax", "max")), (("pop", "min"), ("epoch", 7)), (("pop", "24"), ("epoch", 7)),
             (("pop", "13"), ("epoch", 7), ("land", "const"), ("mode", "swarm"))]


def hash_digest(n):
    c = _ALL[n]
    return n, [pairs.digest(pairs.view(H.run(c, H.cfg_with(*d)))) for d in HASH_DEVS]


_ALL = {}


def hash_digests():
    import multiprocessing as mp
    _ALL.update(H.all_optimizers())
    with mp.get_context("fork").Pool(int(os.environ.get("MC_PROCS", "8"))) as p:
        return dict(p.map(hash_digest, list(_ALL), chunksize=4))


def child(environ):
    r = subprocess.run([sys.executable, "-W", "ignore", "-m", "mc.checks.c07"], env=environ, capture_output=True, text=True)
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        raise SystemExit("hash-seed subprocess failed: " + r.stderr[-500:])


def main(tier):
    rep = Report("C07", tier, "exploration")
    rep.assumptions = ["ambient states are the ones enumerated: global RNG states, entropy of unseeded generators, clocks, agent id counter, prior solve, hash seed",
                       "floating point results are compared exactly within one machine and library build"]

    def plan(cls):
        if tier == "quick":
            yield from E.plan(F, 1, 1, {})(cls)
            for a, b in PAIR:
                yield from (d for d in E.plan({a: [v for v in F[a] if v != "process"], b: F[b]}, 2)(cls) if len(d) == 2)
        else:
            yield from E.plan(FT, 2, 2, E.sub(mode=["swarm", "thread"], minmax=True))(cls)
    base = hash_digests()
    for seed in (["1", "2", "3"] if tier == "quick" else ["1", "2", "3", "4", "5", "6", "7", "random"]):
        other = child(dict(os.environ, PYTHONHASHSEED=seed))
        rep.add(hash_seed_runs=len(other) * len(HASH_DEVS))
        for n, ds in base.items():
            for d, x, y in zip(HASH_DEVS, ds, other[n]):
                if x != y:
                    rep.violation(n, "depends-on-hash-seed", H.feats(d), "digest differs under PYTHONHASHSEED=%s" % seed,
                                  dict(optimizer=n, devs=[list(v) for v in d], spec={}))
    # the control group: the same runs on numpy's, Python's and the clock's own code, no seam installed
    bare = child(dict(os.environ, MC_BARE="1", PYTHONHASHSEED="0"))
    rep.add(uncontrolled_runs=0)
    for n, ds in base.items():
        for d, x, y in zip(HASH_DEVS, ds, bare[n]):
            if ("mode", "thread") not in d:
                rep.add(uncontrolled_runs=1)
                if x != y:
                    rep.violation(n, "depends-on-environment", H.feats(d), "the run on the unmodified environment differs from the controlled one",
                                  dict(optimizer=n, devs=[list(v) for v in d], spec={}))
    E.explore(rep, plan, run, rule="every optimizer x configurations (at most k deviations from the base run) x two ambient states that differ in everything a run could read; a case is one configuration executed twice, non-trivial when an epoch completed, distinct by its evaluation log")
    return rep.finish()


replay = E.replay_single(run)

if __name__ == "__main__":
    print(json.dumps(hash_digests()))
