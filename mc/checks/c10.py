"""C10: solves that overlap in one process do not influence each other.

Part 1 nests a complete solve inside every evaluation of another one.  Part 2 runs two solves in two real threads under a scheduler that
switches only at objective calls: every schedule with two context switches (bounded preemption) and the strict alternation."""
import threading

from .. import env, explore as E, harness as H, pairs
from ..report import Report

PARTNERS = ["OriginalGWO", "OriginalPSO", "BaseGA", "JADE", "OriginalSA", "OriginalTS", "OriginalHS", "OriginalACOR"]


def light(cls, cfg, hook=None, opt=None):
    """A solve without the harness's per-run reset, so that it can run inside another one."""
    log = []

    def obj(x):
        n = len(log)
        xt = tuple(map(float, x))
        log.append(None)
        if hook is not None:
            hook(n)
        v = H.LANDS[cfg["land"]](x, n)
        log[n] = (xt, v)
        return v
    o = opt or H.make(cls, epoch=cfg["epoch"], pop_size=H.pop_of(cls, cfg))
    exc = None
    try:
        g = o.solve({"obj_func": obj, "bounds": H.SPACES[cfg["space"]](), "minmax": cfg["minmax"], "log_to": None, "save_population": True},
                    mode=cfg["mode"], n_workers=2 if cfg["mode"] == "thread" else None, seed=7 + cfg["stream"], termination=H.TERMS[cfg["term"]])
    except Exception as e:
        exc = e
        g = None
    v = {"exception": pairs.exc_id(exc), "evaluations": log, "counter": o.nfe_counter}
    if g is not None:
        v["result"] = H._agent(g)
        for n in H.HIST_AGENTS:
            v[n] = [H._agent(a) for a in getattr(o.history, n)]
        for n in pairs.NUM:
            v[n] = [float(x) for x in getattr(o.history, n)]
        v["list_population"] = [[H._agent(a) for a in p] for p in o.history.list_population]
        v["epochs timed"] = len(o.history.list_epoch_time)
        v["history epoch"] = o.history.epoch
        v["g_best"] = H._agent(o.g_best)
    return v


ALONE = {}


def alone(cls, devs):
    k = (cls.__name__, devs)
    if k not in ALONE:
        if len(ALONE) > 200:
            ALONE.clear()
        env.fresh()
        env.SCHED.active = True
        ALONE[k] = light(cls, H.cfg_with(*devs))
        env.SCHED.active = False
    return ALONE[k]


class T:        # what explore counts
    def __init__(self, name, devs, v):
        self.cfg, self.draws = H.cfg_with(*devs), env.STATE.n
        self.epochs = v.get("list_diversity", [])
        self.obj = self
        self.log = v["evaluations"] + [name.__name__, env.STATE.n]


def nested(A, da, B, db, at, mode2="single"):
    """B runs as a whole inside A's evaluation number `at`."""
    env.fresh()
    env.SCHED.active = True
    inner = []

    def hook(n):
        if n == at:
            inner.append(light(B, H.cfg_with(*db)))
    va = light(A, H.cfg_with(*da), hook)
    env.SCHED.active = False
    return va, (inner[0] if inner else None)


class Switcher:
    """Two threads, one running at a time; the token is handed over at chosen evaluation counts."""

    def __init__(self, plan):
        self.plan = plan                        # list of (who, evaluations made by who) at which to hand over; or 'alternate'
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.over = [False, False]
        self.done = threading.Semaphore(0)
        self.switches = 0

    def hook(self, who):
        def f(n):
            go = self.plan == "alternate"
            if not go and self.plan and self.plan[0][0] == who and n >= self.plan[0][1]:
                self.plan.pop(0)
                go = True
            if go and not self.over[1 - who]:
                self.switches += 1
                self.sem[1 - who].release()
                self.sem[who].acquire()
        return f

    def main(self, who, fn, out):
        self.sem[who].acquire()
        try:
            out[who] = fn(self.hook(who))
        finally:
            self.over[who] = True
            if not self.over[1 - who]:
                self.sem[1 - who].release()
            self.done.release()


def threads(A, da, B, db, plan):
    env.fresh()
    env.SCHED.active = True
    sw = Switcher(plan if plan == "alternate" else list(plan))
    out = [None, None]
    ts = [threading.Thread(target=sw.main, args=(w, lambda h, c=c, d=d: light(c, H.cfg_with(*d), h), out), daemon=True) for w, (c, d) in enumerate(((A, da), (B, db)))]
    for t in ts:
        t.start()
    sw.sem[0].release()
    for _ in ts:
        sw.done.acquire()
    env.SCHED.active = False
    return out[0], out[1], sw.switches


def partner(cls, spec):
    C = H.all_optimizers()
    return cls if spec["other"] == "same" else C.get(spec["other"]) or cls


def run(cls, spec):
    da, db = spec["devs"], spec["odevs"]
    B = partner(cls, spec)
    ra, rb = alone(cls, da), alone(B, db)
    sw = 0
    H.signal.setitimer(H.signal.ITIMER_VIRTUAL, 60, 0.05)
    try:
        if spec["how"] == "nest":
            va, vb = nested(cls, da, B, db, spec["at"])
        else:
            va, vb, sw = threads(cls, da, B, db, spec["at"])
    except H.Timeout:
        return [("hang", "no end within the CPU budget")], []
    finally:
        H.signal.setitimer(H.signal.ITIMER_VIRTUAL, 0)
        env.SCHED.active = False
    out = []
    for lab, r, v in (("outer" if spec["how"] == "nest" else "first", ra, va), ("inner" if spec["how"] == "nest" else "second", rb, vb)):
        if v is None:
            continue
        d = pairs.diff(r, v)
        if d:
            out.append((spec["how"] + "-" + lab, "%s with %s (%s at %r): %s: %s" % (cls.__name__, B.__name__, spec["how"], spec["at"], d[0], d[1])))
    return out, [T(cls, da, va)], dict(switches=sw, nested=int(spec["how"] == "nest"))


def plan(tier):
    names = sorted(H.all_optimizers())

    def g(cls):
        small = (("pop", "min"), ("epoch", 2), ("space", "f2"))
        da = small + (("minmax", "max"),)
        db_same = small + (("space", "f3"), ("stream", 1))
        db_twin = da
        other = PARTNERS[names.index(cls.__name__) % len(PARTNERS)]
        db_other = small + (("space", "f1"), ("land", "lin"))
        n = len(alone(cls, da)["evaluations"])
        m = len(alone(cls, db_same)["evaluations"])
        if tier == "quick":
            for i in range(n):
                yield dict(devs=da, odevs=db_same, other="same", how="nest", at=i)
            for i in sorted({0, n // 3, n // 2, n - 1}):
                yield dict(devs=da, odevs=db_other, other=other, how="nest", at=i)
                yield dict(devs=da + (("mode", "swarm"),), odevs=db_twin, other="same", how="nest", at=i)
                yield dict(devs=da + (("mode", "thread"),), odevs=db_same + (("mode", "thread"),), other="same", how="nest", at=i)
            for i in sorted({0, 1, n // 2, n - 1}):
                for j in sorted({0, 1, m // 2, m - 1}):
                    yield dict(devs=da, odevs=db_same, other="same", how="thread", at=((0, i), (1, j)))
            yield dict(devs=da, odevs=db_same, other="same", how="thread", at="alternate")
            yield dict(devs=da, odevs=db_other, other=other, how="thread", at="alternate")
            yield dict(devs=da + (("mode", "swarm"),), odevs=db_same + (("mode", "swarm"),), other="same", how="thread", at="alternate")
            return
        for mode in ("single", "swarm", "thread"):
            md = (("mode", mode),)
            for i in range(n):
                for d, o in ((db_same, "same"), (db_twin, "same")) + tuple((db_other, p) for p in PARTNERS[:4]):
                    yield dict(devs=da + md, odevs=d + md, other=o, how="nest", at=i)
        for i in range(n):
            for j in range(m):
                yield dict(devs=da, odevs=db_same, other="same", how="thread", at=((0, i), (1, j)))
        for p in PARTNERS:
            for mode in ("single", "swarm"):
                yield dict(devs=da + (("mode", mode),), odevs=db_other, other=p, how="thread", at="alternate")
    return g


def main(tier):
    rep = Report("C10", tier, "exploration")
    rep.assumptions = ["context switches happen at objective calls (where user code runs); bytecode-level switches are explored for the shared evaluation code in C09"]
    E.explore(rep, plan(tier), run, rule="every optimizer x partner x (nesting at every evaluation index | thread hand-over at every pair of evaluation indexes [quick: the boundary ones] | strict alternation); both solves compared with themselves run alone")
    return rep.finish()


def replay(r):
    a = r["spec"].get("at")
    if isinstance(a, list):
        r["spec"]["at"] = tuple(tuple(x) for x in a)
    r["spec"]["odevs"] = tuple(tuple(x) for x in r["spec"]["odevs"])
    return E.replay_single(run)(r)
