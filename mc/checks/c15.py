"""C15: feasible starting solutions are evaluated as given and never lost; malformed ones are refused."""
import numpy as np

from .. import env, explore as E, harness as H, oracles as O
from ..report import Report

F = E.sub(land=["neg", "const", "alt", "down"], minmax=True, mode=True, space=["f1", "int", "mixed", "thin", "huge"], pop=["min", "13"], epoch=[1], objs=["2"],
          reuse=True, stream=[1], asinst=True)
HOME = E.sub(minmax=True, mode=["swarm", "thread"], space=["f1", "int", "f7"], pop=["min", "13"], epoch=[1], stream=[1])
RUN = E.single([O.c15])


def plan(k, kh, f, hpstarts):
    def g(cls):
        for s in E.FULL["start"]:
            for d in E.plan(f, k, 0)(cls):
                yield (("start", s),) + d
            if s in hpstarts:
                for d in E.plan(f, 0, kh, {})(cls):
                    if d:
                        yield (("start", s),) + d
    return g


# -------- malformed starting solutions: every way of breaking a legal matrix at every row

def malformed(n, d):
    """(label, value) pairs; every one differs from a legal n x d matrix in exactly one aspect."""
    ok = [[0.1 * (i + 1)] * d for i in range(n)]
    yield "too few", ok[:-1]
    yield "too many", ok + ok[:1]
    yield "empty", []
    yield "none of them (array)", np.zeros((0, d))
    yield "transposed", np.full((d, n), 0.5) if d != n else np.full((d + 1, n), 0.5)
    yield "one dimension less", np.full((n, d - 1), 0.5)
    yield "one dimension more", np.full((n, d + 1), 0.5)
    yield "flat list", [0.1] * n
    yield "flat array", np.full(n, 0.1)
    yield "text", "x" * n
    yield "number", 5
    yield "set", {(0.1 * i,) * d for i in range(n)}
    yield "dict", {i: r for i, r in enumerate(ok)}
    yield "generator", (r for r in ok)
    for i in range(n):
        for lab, bad in (("short", [0.1] * (d - 1)), ("long", [0.1] * (d + 1)), ("scalar", 0.3), ("None", None), ("text", "a" * d), ("set", {0.1 + k for k in range(d)})):
            yield "row %d is %s" % (i, lab), ok[:i] + [bad] + ok[i + 1:]
            yield "row %d is %s (tuple)" % (i, lab), tuple(ok[:i] + [bad] + ok[i + 1:])


def run_bad(cls, spec):
    out, bads = [], 0
    cfg = H.cfg_with(*spec["devs"])
    o = H.make(cls, epoch=1, pop_size=H.pop_of(cls, cfg))
    n, d = o.pop_size, 3
    for lab, bad in malformed(n, d):
        bads += 1
        env.fresh()
        ob = H.Objective()
        o = H.make(cls, epoch=1, pop_size=n)
        env.SCHED.active = True
        try:
            o.solve({"obj_func": ob, "bounds": H.sp_f3(), "log_to": None}, mode=cfg["mode"], n_workers=2 if cfg["mode"] in ("thread", "process") else None, starting_solutions=bad, seed=1)
            res = "accepted"
        except ValueError:
            res = None
        except Exception as e:
            res = "answered with %r" % (e,)
        finally:
            env.SCHED.active = False
        if res is None and ob.log:
            res = "refused only after %d evaluations" % len(ob.log)
        if res:
            out.append(("malformed-start", "%d x %d starting solutions expected, given %s: %s" % (n, d, lab, res)))
            break
    return out, [], dict(malformed_inputs=bads)


def run_home(cls, spec):
    """The starting points are better than anything the search can find: one that gets lost is missed at the end."""
    cfg = H.cfg_with(*spec["devs"])
    n = int(H.make(cls, epoch=cfg["epoch"], pop_size=H.pop_of(cls, cfg)).pop_size)
    tr = H.run(cls, cfg, obj=H.Home(cfg["land"], cfg["objs"], cfg["minmax"], n, True))
    return O.c15(tr), [tr]


def run(cls, spec):
    return run_bad(cls, spec) if spec.get("bad") else run_home(cls, spec) if spec.get("home") else RUN(cls, spec)


def home_plan(f, k):
    def g(cls):
        for d in E.plan(f, k)(cls):
            yield dict(devs=(("start", "lhs"),) + d, home=True, extra=("home",))
    return g


def bad_plan(modes):
    def g(cls):
        for m in modes:
            yield dict(devs=(("mode", m), ("pop", "min")), bad=True, extra=("malformed",))
    return g


def main(tier):
    rep = Report("C15", tier, "exploration")
    rep.assumptions = ["feasible means inside [lb, ub] of the encoded space"]
    if tier == "quick":
        plans = [plan(1, 1, F, ("lhs",)), home_plan(HOME, 1), bad_plan(["single"])]
    else:
        plans = [plan(2, 2, {k: v for k, v in E.FULL.items() if k != "start"}, E.FULL["start"]), home_plan(HOME, 2), bad_plan(["single", "swarm", "thread", "process"])]
    for pl in plans:
        E.explore(rep, pl, run, rule=E.RULE + "; malformed matrices: every row x every kind of breakage")
    return rep.finish()


replay = E.replay_single(run)
