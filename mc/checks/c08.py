"""C08: a solve on a used optimizer equals the same solve on a fresh one, after every short sequence of earlier solves."""
import itertools

from .. import env, explore as E, harness as H, hyper, pairs
from ..report import Report

# what an earlier solve may have been
PRIOR = {
    "dims": dict(space="f7"),
    "one-dim": dict(space="f1", land="const"),
    "max": dict(space="f3", minmax="max", land="lin"),
    "term": dict(space="f2", term="fe10"),
    "early": dict(space="f2", term="es1", land="const"),
    "thread": dict(space="f2", mode="thread"),
    "start": dict(space="f2", start="lhs"),
    "big": dict(space="huge", land="big"),
    "mixed": dict(space="mixed", land="neg", objs="2"),
    "same": dict(),
    "abort-init": dict(space="f2", _fault=3),
    "abort-loop": dict(space="f2", _fault=17),
}


def prior_solve(o, kind):
    c = dict(H.BASE, **{k: v for k, v in PRIOR[kind].items() if k[0] != "_"})
    f = PRIOR[kind].get("_fault")
    ob = H.Objective(c["land"], c["objs"], faults={f: H.Injected("planned")} if f is not None else None)
    p = H.build_problem(c, ob)
    st = None
    if c["start"] != "none":
        st = H.corner_starts(H.Problem(**dict(p, bounds=H.SPACES[c["space"]]())), o.pop_size, c["start"])
    t = H.TERMS[c["term"]]
    try:
        o.solve(p, mode=c["mode"], n_workers=2 if c["mode"] == "thread" else None, termination=dict(t) if t else None,
                starting_solutions=st, seed=31)
    except Exception:
        pass


def run(cls, spec):
    cfg = H.cfg_with(*spec["devs"])
    seq = spec.get("prior", ())
    a = H.run(cls, cfg)
    b = H.run(cls, cfg, prior=lambda o: [prior_solve(o, k) for k in seq])
    d = pairs.diff(pairs.view(a), pairs.view(b))
    return ([("reuse-differs", "after %s: %s differs: %s" % ((",".join(seq),) + d))] if d else []), [b]


def main(tier):
    rep = Report("C08", tier, "exploration")

    def plan(cls):
        seqs = [(k,) for k in PRIOR]
        devs = [(), (("mode", "swarm"), ("minmax", "max")), (("term", "fe35"), ("epoch", 7)), (("start", "lhs"),), (("space", "mixed"),)]
        if tier == "quick":
            todo = [(d, s) for s in seqs for d in devs[:2]] + [(d, ("dims",)) for d in devs[2:]] + [((), ("dims", "thread")), ((), ("abort-loop", "one-dim"))]
            todo += [((("hp", h),), s) for h in hyper.alternatives(cls) for s in (("dims",), ("same",), ("abort-loop",))]
        else:
            seqs += [s for s in itertools.product(PRIOR, repeat=2)]
            todo = [(d, s) for s in seqs for d in devs]
            todo += [((("hp", h),), s) for h in hyper.alternatives(cls) for s in (("dims",), ("same",), ("abort-loop",))]
        todo += [(d, ("same",)) for d in E.LONG] + [((("hp", h),) + E.LONG_HP, ("same",)) for h in hyper.alternatives(cls)]
        for d, s in todo:
            yield dict(devs=d, prior=s, extra=tuple("prior=" + k for k in s))
    E.explore(rep, plan, run, rule="every optimizer x configuration of the last solve x every sequence (length <= bound) of earlier solves from a set of kinds; each case runs the sequence plus the last solve on one object and the last solve alone on a fresh one; non-trivial when an epoch completed")
    return rep.finish()


replay = E.replay_single(run)
