"""C29: maximising f and minimising -f are the same search: same candidates, same agents, same history, fitness negated."""
import numpy as np

from .. import explore as E, harness as H, pairs
from ..report import Report


class Mirror(H.Objective):
    """The same environment with every objective value negated."""

    def __call__(self, x):
        r = super().__call__(x)
        xt, v = self.log[-1]
        self.log[-1] = (xt, -v)
        return [-i for i in r] if isinstance(r, list) else -r


def neg(v):
    """A view of a mirrored run, mirrored back."""
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], tuple):       # (solution, fitness)
        return (v[0], None if v[1] is None else -v[1])
    if isinstance(v, (list, tuple)):
        return type(v)(neg(i) for i in v)
    return v


FITS = ("list_global_best_fit", "list_current_best_fit")


def run(cls, spec):
    cfg = H.cfg_with(*spec["devs"])
    kw = dict(deviations=spec.get("draws"), answers=spec.get("answers"))
    a = H.run(cls, cfg, **kw)
    other = dict(cfg, minmax="max" if cfg["minmax"] == "min" else "min")
    o = Mirror(cfg["land"], cfg["objs"], spec.get("answers"))
    b = H.run(cls, other, obj=o, deviations=spec.get("draws"))
    va, vb = pairs.view(a), {k: [-x for x in v] if k in FITS else neg(v) for k, v in pairs.view(b).items()}
    d = pairs.diff(va, vb)
    if d and d[0] == "exception" and va["exception"] and vb["exception"]:
        d = None if type(a.exc) is type(b.exc) else d
    return ([("direction", "%simising f against %simising -f: %s: %s" % ((cfg["minmax"], other["minmax"]) + d))] if d else []), [a, b]


WIDE = E.sub(land=["neg", "const", "step", "lin", "big", "tiny", "down", "alt", "corner", "zero", "wall", "pit", "void"], mode=["swarm", "thread"],
             space=["f1", "f2", "negonly", "thin", "flat", "huge", "f7", "int", "bin", "perm", "mixed", "trans", "unit"],
             pop=["min", "13", "24"], epoch=[1, 2, 7], start=True, objs=True, term=["fe35", "es1", "es2"], reuse=True, stream=True)
PAIR = E.sub(land=["neg", "step", "lin", "corner"], space=["f1", "mixed", "perm"], pop=["min", "13"], epoch=[7], mode=["swarm"])


def main(tier):
    rep = Report("C29", tier, "exploration")
    rep.assumptions = ["the objective never answers NaN", "both runs start from the same seed, so they read the same random stream"]
    rule = "every optimizer x configuration (k deviations), once minimising f and once maximising -f under the same random stream; a pair is non-trivial when an epoch completed, distinct by evaluation log"
    if tier == "quick":
        E.explore(rep, E.mix(WIDE, E.sub(land=["neg", "step", "corner"], epoch=[7], pop=["13"], space=["f1"])), run, rule=rule, chunk=40)
    else:
        E.explore(rep, E.mix(WIDE, E.sub(**{k: v for k, v in WIDE.items() if k != "objs"}), WIDE), run, rule=rule, chunk=60)
        E.explore(rep, E.draw_plan(dict(land="lin", pop="min", epoch=2)), run, rule=rule, chunk=200)
        E.explore(rep, E.answer_plan(dict(pop="min", epoch=2), pairs=6), run, rule=rule, chunk=200)
    return rep.finish()


replay = E.replay_single(run)
