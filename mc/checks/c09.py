"""C09: parallel modes equal swarm mode under every worker schedule; non-parallelizable optimizers run as in single mode."""
import os

from .. import env, explore as E, harness as H, pairs
from ..report import Report

ORDERS = {
    "fifo": lambda b, n: range(n),
    "lifo": lambda b, n: range(n - 1, -1, -1),
    "odd-even": lambda b, n: list(range(1, n, 2)) + list(range(0, n, 2)),
    "rotate": lambda b, n: [(k + b + 1) % n for k in range(n)],
    "middle": lambda b, n: sorted(range(n), key=lambda k: (abs(2 * k - n), k)),
}


def start_all_lifo(b, opts):        # fill the workers, then finish the newest task first
    return len(opts) - 1 if opts[-1][0] == "start" else len(opts) - 1


def start_all_fifo(b, opts):        # fill the workers, then finish the oldest task first
    return len(opts) - 1 if opts[-1][0] == "start" else 0


OVER = {"overlap-lifo": start_all_lifo, "overlap-fifo": start_all_fifo}
NEUTRAL = ("evaluations",)


def cmp(ref, tr):
    va, vb = pairs.view(ref), pairs.view(tr)
    d = pairs.diff(va, vb, skip=NEUTRAL)
    if d is None and sorted(map(repr, ref.obj.log)) != sorted(map(repr, tr.obj.log)):
        d = ("evaluations", "the set of evaluated points differs")
    return d


def run(cls, spec):
    cfg = H.cfg_with(*spec["devs"])
    o = H.make(cls, epoch=cfg["epoch"], pop_size=H.pop_of(cls, cfg))
    base = "swarm" if o.is_parallelizable else "single"
    ref = H.run(cls, dict(cfg, mode=base))
    out, trs = [], [ref]
    for mode, sched, workers in spec["scheds"]:
        tr = H.run(cls, dict(cfg, mode=mode, workers=workers), order=ORDERS.get(sched), chooser=OVER.get(sched), cpu=60)
        trs.append(tr)
        d = cmp(ref, tr)
        if d:
            out.append(("%s-differs-from-%s" % (mode, base), "schedule %s, %d workers: %s: %s" % ((sched, workers) + d)))
            break
        if env.SCHED.workers and any(w != workers for _, w in env.SCHED.workers):
            out.append(("workers", "%d workers requested, pool created with %r" % (workers, env.SCHED.workers[0])))
            break
    return out, trs


Q = [("thread", "lifo", 2), ("thread", "overlap-lifo", 4), ("process", "odd-even", 3)]
T = [("thread", s, w) for s in list(ORDERS) + list(OVER) for w in (2, 3, 5)] + [("process", s, 2) for s in ORDERS]


# ---- exhaustive schedule exploration on the shared evaluation code

CORE = ["OriginalGWO", "OriginalDE", "BaseGA", "ModifiedSLO", "OriginalPSS", "OriginalHS", "OriginalWOA", "JADE"]


class Dfs:
    """Stateless enumeration of the choices made in one batch (the other batches run first-in-first-out)."""

    def __init__(self, batch, limit):
        self.batch, self.path, self.pos, self.limit, self.count = batch, [], 0, limit, 0

    def __call__(self, b, opts):
        if b != self.batch:
            return len(opts) - 1 if opts[-1][0] == "start" and len(opts) == 1 else 0
        if self.pos == len(self.path):
            self.path.append([0, len(opts)])
        k = self.path[self.pos]
        k[1] = len(opts)
        self.pos += 1
        return k[0]

    def next(self):
        self.count += 1
        while self.path and self.path[-1][0] + 1 >= self.path[-1][1]:
            self.path.pop()
        self.pos = 0
        if not self.path or self.count >= self.limit:
            return False
        self.path[-1][0] += 1
        return True


class Preempt:
    """Opcode level: task 0 of the batch runs `at` bytecodes, then task 1 runs to its end, then task 0 goes on."""

    def __init__(self, batch, at):
        self.batch, self.at, self.n, self.reached = batch, at, 0, False

    def __call__(self, b, opts):
        if b != self.batch:
            return 0
        starts = [i for i, o in enumerate(opts) if o[0] == "start"]
        flying = len(opts) - len(starts)
        if self.n < self.at:
            if flying == 0:
                return starts[0]
            self.n += 1
            return 0
        self.reached = True
        # prefer a second task until it is gone, then go on with the first
        if flying >= 2:
            return 1
        if flying == 1 and starts and self.n == self.at:
            self.n += 1
            return starts[0]
        return 0


def core_job(job):
    name, kind, batch, arg, devs = job
    cls = H.all_optimizers()[name]
    cfg = H.cfg_with(*devs)
    ref = H.run(cls, dict(cfg, mode="swarm"))
    out, n, states = [], 0, 0
    if kind == "dfs":
        width, limit = arg
        d = Dfs(batch, limit)
        while True:
            tr = H.run(cls, dict(cfg, mode="thread", workers=width), chooser=d, cpu=60)
            n += 1
            states += env.SCHED.steps
            env.SCHED.steps = 0
            x = cmp(ref, tr)
            if x:
                out.append(("thread-schedule", "batch %d, %d workers, choices %r: %s: %s" % ((batch, width, [k[0] for k in d.path]) + x)))
                break
            if batch >= len(env.SCHED.batches) or not d.next():
                break
    else:
        lo, hi = arg
        for at in range(lo, hi):
            p = Preempt(batch, at)
            tr = H.run(cls, dict(cfg, mode="thread", workers=2), chooser=p, opcodes=True, cpu=60)
            n += 1
            states += env.SCHED.steps
            env.SCHED.steps = 0
            x = cmp(ref, tr)
            if x:
                out.append(("thread-preemption", "batch %d, first task preempted after %d bytecodes: %s: %s" % ((batch, at) + x)))
                break
            if not p.reached:
                break
    return job, out, n, states


def core(rep, tier):
    import multiprocessing as mp
    jobs = []
    devs = (("pop", "min"), ("epoch", 1), ("space", "f2"))
    names = CORE[:3] if tier == "quick" else CORE
    for nm in names:
        for b in range(2 if tier == "quick" else 4):
            jobs.append((nm, "dfs", b, (2, 400 if tier == "quick" else 20000), devs))
            if tier != "quick":
                jobs.append((nm, "dfs", b, (3, 20000), devs))
            for lo in range(0, 400, 50):
                jobs.append((nm, "preempt", b, (lo, lo + 50), devs))
    with mp.get_context("fork").Pool(int(os.environ.get("MC_PROCS", "8"))) as pool:
        for job, out, n, st in pool.imap_unordered(core_job, jobs, chunksize=1):
            rep.add(schedules=n, scheduling_steps=st)
            for k, det in out:
                rep.violation(job[0], k, ["sched=" + job[1]], det, dict(optimizer=job[0], devs=[], spec={}, core=[job[0], job[1], job[2], list(job[3]), [list(x) for x in job[4]]]))


# ---- the simulated executors agree with the real ones, and n_workers is validated

def real_pools(rep, names):
    for nm in names:
        cls = H.all_optimizers()[nm]
        cfg = H.cfg_with(("pop", "min"), ("epoch", 2))
        ref = H.run(cls, dict(cfg, mode="swarm"))
        for mode in ("thread", "process"):
            tr = real_run(cls, dict(cfg, mode=mode))
            rep.add(real_pool_runs=1)
            d = pairs.diff(pairs.view(ref), pairs.view(tr), skip=NEUTRAL)
            if d:
                rep.violation(nm, "real-%s-pool" % mode, ["mode=" + mode], "%s: %s" % d, dict(optimizer=nm, devs=[["mode", mode]], spec={"scheds": [[mode, "fifo", 2]]}))


def real_run(cls, cfg):
    sv = env.CtlThreadPool, env.CtlProcessPool
    env.CtlThreadPool, env.CtlProcessPool = env.REAL_THREADPOOL, env.REAL_PROCESSPOOL
    try:
        return H.run(cls, cfg, cpu=60)
    finally:
        env.CtlThreadPool, env.CtlProcessPool = sv


def workers(rep):
    """Every (cpu count, mode, n_workers): accepted exactly within the documented range."""
    from mealpy import GWO
    real = os.cpu_count
    try:
        for cpus in (1, 2, 3, 4, 8, 16, 61, 62, 64, 128):
            os.cpu_count = lambda: cpus
            for mode in ("thread", "process", "single", "swarm"):
                hi = min(61, cpus - 1) if mode == "process" else min(32, cpus + 4)
                for w in [-1, 0, 1, 2, 3, hi - 1, hi, hi + 1, 61, 62, 33, 100, 2.5, "2", True, None]:
                    o = GWO.OriginalGWO(epoch=1, pop_size=10)
                    env.fresh()
                    env.SCHED.active = True
                    ok = None
                    try:
                        o.solve({"obj_func": H.Objective(), "bounds": H.sp_f1(), "log_to": None}, mode=mode, n_workers=w, seed=1)
                        ok = True
                    except ValueError:
                        ok = False
                    except Exception as e:
                        ok = repr(e)
                    env.SCHED.active = False
                    if mode in ("single", "swarm") or w is None:
                        want = True
                    elif w is True or isinstance(w, str):
                        want = False
                    elif isinstance(w, float):
                        continue                    # whether an integral-looking float is an integer is C18's business
                    else:
                        want = 2 <= w <= hi
                    rep.add(worker_counts=1)
                    if ok is not want:
                        rep.violation("Optimizer", "n_workers", ["mode=" + mode], "cpu_count %d, mode %s, n_workers=%r: accepted=%r, expected %r" % (cpus, mode, w, ok, want),
                                      dict(optimizer="OriginalGWO", devs=[], spec={}, workers=True))
    finally:
        os.cpu_count = real
    for bad in ("Thread", "parallel", "", None, 1, "swarm "):
        o = GWO.OriginalGWO(epoch=1, pop_size=10)
        env.fresh()
        try:
            o.solve({"obj_func": H.Objective(), "bounds": H.sp_f1(), "log_to": None}, mode=bad, seed=1)
            rep.violation("Optimizer", "mode-accepted", [], "mode=%r accepted" % (bad,), dict(optimizer="OriginalGWO", devs=[], spec={}, workers=True))
        except ValueError:
            pass
        rep.add(worker_counts=1)


def main(tier):
    rep = Report("C09", tier, "exploration")
    rep.assumptions = ["worker processes see a pickled copy and share nothing; checked against the real pools on a few optimizers",
                       "preemption inside a task is explored at objective entry for every optimizer, at every bytecode (one preemption) for the shared evaluation code"]
    workers(rep)
    core(rep, tier)
    real_pools(rep, ["OriginalGWO", "OriginalABC"] if tier == "quick" else CORE)

    def plan(cls):
        devs = [(), (("minmax", "max"), ("land", "corner")), (("pop", "min"), ("epoch", 7)), (("start", "lhs"), ("space", "f1")), (("space", "mixed"), ("epoch", 2))]
        if tier == "quick":
            for i, d in enumerate(devs):
                yield dict(devs=d, scheds=[Q[i % 3]] if i else Q)
        else:
            for d in E.deviations(E.sub(minmax=True, land=["const", "step", "corner", "big"], space=["f1", "int", "mixed", "perm"], pop=["min", "13", "24"], epoch=[1, 7], start=True, objs=["2"], term=["fe35", "es1"]), 1):
                yield dict(devs=d, scheds=T)
            for d in E.deviations(E.sub(minmax=True, land=["const", "corner"], space=["mixed"], pop=["min", "13"], epoch=[7], start=["lhs"]), 2):
                if len(d) == 2:
                    yield dict(devs=d, scheds=Q)
    E.explore(rep, plan, run, rule="every optimizer x configuration x worker schedule (completion orders and overlapping tasks with 2-5 workers) against the sequential run; plus all interleavings of one batch (2-3 workers, switch at objective entry) and every single bytecode preemption for the shared code; non-trivial when an epoch completed, distinct by evaluation log", chunk=20)
    return rep.finish()


def replay(r):
    if r.get("core"):
        j = r["core"]
        _, out, n, st = core_job((j[0], j[1], j[2], tuple(j[3]), tuple(tuple(x) for x in j[4])))
        print(out)
        return 1 if out else 0
    if r.get("workers"):
        rep = Report("C09", "quick", "exploration")
        workers(rep)
        return rep.finish()
    r["spec"].setdefault("scheds", Q)
    return E.replay_single(run)(r)
