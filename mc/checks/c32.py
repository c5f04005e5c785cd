"""C32: every hyper-parameter takes effect: for each option of a choice, and for a value near each end of a range, there is, within the bounded
space of configurations, a run that it changes, in the single and in the swarm mode and in both directions."""
import inspect
import re
from .. import explore as E, harness as H, hyper
from ..report import Report

POP, EPOCH = 24, 12
# The configurations a parameter may show itself in, simplest first.
CONFIGS = [(), (("land", "step"),), (("land", "lin"), ("epoch", 55), ("stream", 1)), (("space", "int"), ("land", "step")), (("space", "f7"),),
           (("epoch", 30), ("space", "sym"), ("stream", 2)), (("space", "bin"), ("land", "neg")), (("space", "f1"),)]
GA = dict(selection=["tournament", "random", "roulette"], crossover=["one_point", "multi_points", "uniform", "arithmetic"],
          mutation=["flip", "swap", "scramble", "inversion"], mutation_multipoints=[True, False], k_way=[0.05, 0.9])
# Values that mean the same as the default (or as another option), as documented or by the rule they feed:
SAME = {("OriginalCSO", "selected_strategy", 4),            # "else: random (decrease by quality)", as 3
        ("OriginalICA", "revolution_rate", 0.02),           # at least one variable is revoluted
        ("OriginalIMODE", "archive_size", 5),               # the archive holds at least one population
        ("OriginalWSO", "a2", 0.02004)}                     # the share of the school, times the population size, stays below one shark


def documented(cls):
    """Names of the hyper-parameters: arguments of the constructor, and those its Args section lists."""
    for c in cls.__mro__:
        f = vars(c).get("__init__")
        if f is not None:
            names = [p.name for p in inspect.signature(f).parameters.values() if p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL)]
            args = (f.__doc__ or "").split("Args:")[-1]
            names += re.findall(r"^\s+(\w+) ?(?:\([^)]*\))?:", args, re.M) if c.__name__ == "BaseGA" else []
            return [n for n in dict.fromkeys(names) if n not in ("self", "epoch", "pop_size", "kwargs")]
    return []


def other_values(v):
    if isinstance(v, bool):
        return [not v]
    if isinstance(v, int):
        return [v + 1, v * 2, v - 1, v // 2]
    if isinstance(v, float):
        return [v * 0.5, v * 2, v + 0.1]
    return []


def table(cls):
    """name -> (default, [other values])."""
    o = H.make(cls, epoch=EPOCH, pop_size=POP)
    names = documented(cls)
    alts = {n: [] for n in names}
    for a in hyper.alternatives(cls, POP, EPOCH):
        if len(a) == 1:
            (n, v), = a.items()
            if n in alts and v not in alts[n]:
                alts[n].append(v)
    out = {}
    for n in names:
        d = getattr(o, n, None)
        if n in GA and any(c.__name__ == "BaseGA" for c in cls.__mro__):
            vs = [v for v in GA[n] if v != d]
            if cls.__name__ in ("MultiGA", "EliteMultiGA"):
                vs = [v for v in vs if v not in ("scramble", "inversion")]
        else:
            vs = alts[n] or [v for v in other_values(d) if v != d]
        out[n] = (d, vs)
    return out


def tried(cls, cfg, hp, cache, trs):
    key = (tuple(sorted((k, repr(v)) for k, v in cfg.items())), hyper.hp_id(hp))
    if key not in cache:
        base = H.make(cls, epoch=cfg["epoch"], pop_size=cfg["pop"]).get_parameters()
        try:
            o = cls(**{**base, **hp})
        except (ValueError, TypeError):          # not accepted together
            cache[key] = None
        else:
            t = H.run(cls, cfg, opt=o)
            trs.append(t)
            cache[key] = (t.obj.log, repr(t.exc)) if t.init is not None else None
    return cache[key]


def run(cls, spec):
    tab = table(cls)
    todo = {}                                   # what has to be seen -> the values that may show it
    for n, (d, vs) in tab.items():
        for v in vs:
            if (cls.__name__, n, v) not in SAME:
                todo[n, "%s=%s" % (n, str(v).replace(" ", ""))] = [v]
    blind = [n for n, (d, vs) in tab.items() if not vs]
    cache, trs = {}, []
    n_all = len(todo)
    configs = [dict(H.cfg_with(("pop", POP), ("epoch", EPOCH), *c), **dict(spec["devs"])) for c in CONFIGS]
    companions = [{}] + [{n: v} for n, (d, vs) in tab.items() for v in vs]
    for comp in companions:                     # alone first, then next to another value of one other parameter
        for cfg in configs if not comp else configs[:4]:
            if not todo:
                break
            base = tried(cls, cfg, comp, cache, trs)
            if base is None:
                continue
            for k in list(todo):
                if k[0] in comp:
                    continue
                for v in todo[k]:
                    t = tried(cls, cfg, dict(comp, **{k[0]: v}), cache, trs)
                    if t is not None and t != base:
                        del todo[k]
                        break
    out = []
    for n in dict.fromkeys(n for n, _ in todo):
        dead = [w for m, w in todo if m == n]
        vs = [v for v in tab[n][1] if (cls.__name__, n, v) not in SAME]
        for k in ([n] if len(dead) == len(vs) else dead):
            out.append(("no-effect-" + k, "default %r: %s changes no run, alone or next to another value of any other hyper-parameter (%d runs)" % (tab[n][0], " or ".join(dead), len(trs))))
    return out, trs, dict(parameters=n_all, without_alternatives=len(blind))


def plan(tier):
    def f(cls):
        for d in ((), (("mode", "swarm"),), (("minmax", "max"),)) + ((("mode", "thread"),), (("mode", "swarm"), ("minmax", "max"))) * (tier == "thorough"):
            yield d
    return f


def main(tier):
    rep = Report("C32", tier, "exploration")
    rep.assumptions = ["a hyper-parameter shows itself within %d configurations of up to 55 epochs, alone or next to one other value of one other hyper-parameter" % len(CONFIGS)]
    E.explore(rep, plan(tier), run, chunk=1,
              rule="every optimizer x documented hyper-parameter x each option of a choice or a value near each end of its range x direction or mode: searched through all configurations and companions until one run differs")
    return rep.finish()


replay = E.replay_single(run)
