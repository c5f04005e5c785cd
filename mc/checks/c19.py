"""C19: set_parameters({...}) gives the same optimizer as constructing with those values; unknown names change nothing."""
import copy

from .. import env, explore as E, harness as H, hyper, oracles, pairs
from ..report import Report


def base_kw(cls, pop):
    o = H.make(cls, epoch=3, pop_size=pop)
    return dict(o.get_parameters())


def build(cls, kw):
    try:
        return cls(**kw)
    except ValueError:              # its own parameters are refused (C18 judges that): build it as a user would
        return cls(epoch=kw["epoch"], pop_size=kw["pop_size"])


def attrs(o):
    return {k: repr(v) for k, v in vars(o).items() if k not in ("validator", "logger")}


def run(cls, spec):
    cfg = H.cfg_with(*spec["devs"])
    kw = base_kw(cls, spec["pop"])
    alt = spec["set"]
    how = spec["how"]
    if how == "unknown":
        return unknown(cls, kw)
    if not set(alt) <= set(kw):
        return None
    try:
        ref_o = cls(**{**kw, **alt})
    except (ValueError, TypeError):
        return None
    out = []
    o = build(cls, kw)
    if how == "after":              # on an optimizer that has already solved something
        H.run(cls, H.cfg_with(("space", "f1"), ("land", "lin"), ("epoch", 1)), opt=o)
    try:
        if how == "stepwise":           # one name per call, in the given order
            for k, v in alt.items():
                o.set_parameters({k: v})
        elif how == "all":              # every parameter, in reverse order
            o.set_parameters({k: v for k, v in reversed(list({**kw, **alt}.items()))})
        else:
            o.set_parameters(dict(alt))
    except Exception as e:
        return [("refused", "set_parameters with %r (%s): %r" % (alt, how, e))], []
    pa, pb = ref_o.get_parameters(), o.get_parameters()
    if repr(sorted(pa.items())) != repr(sorted(pb.items())) or str(ref_o) != str(o):
        out.append(("parameters", "set %r: get_parameters() gives %r, constructing gives %r" % (alt, pb, pa)))
    a = H.run(cls, cfg, opt=ref_o)
    b = H.run(cls, cfg, opt=o)
    d = pairs.diff(pairs.view(a), pairs.view(b))
    if d:
        out.append(("differs-" + "+".join(sorted(alt)), "set %r (%s): %s: %s" % ((alt, how) + d)))
    return out, [a, b]


def unknown(cls, kw):
    out = []
    n = 0
    names = list(kw)
    for bad in ({"no_such_parameter": 1}, {names[0]: kw[names[0]], "no_such_parameter": 1}, {"no_such_parameter": 1, names[-1]: 0},
                {"problem": None}, {"g_best": 3}, {names[0] + "_": 1}, {names[0].upper(): 1}, {"": 1}, {names[0]: 77, "zzz": None, names[-1]: 55}):
        if set(bad) <= set(names):
            continue
        o = build(cls, kw)
        before, pars = attrs(o), copy.deepcopy(o.get_parameters())
        n += 1
        try:
            o.set_parameters(bad)
            out.append(("unknown-accepted", "set_parameters(%r) was accepted" % (bad,)))
        except ValueError:
            if attrs(o) != before or o.get_parameters() != pars:
                out.append(("unknown-changed", "set_parameters(%r) was refused but changed the optimizer" % (bad,)))
        except Exception as e:
            out.append(("unknown-accepted", "set_parameters(%r): %r" % (bad, e)))
    return out, [], dict(unknown_names=n)


def plan(tier):
    def g(cls):
        base = H.make(cls, epoch=3, pop_size=10)
        pop = 10 if base.pop_size == 10 else int(base.get_parameters().get("pop_size", base.pop_size))
        alts = [{}] + list(hyper.alternatives(cls)) + [{"epoch": 2}, {"epoch": 5}]
        big = base.pop_size > 2 * pop           # the population is a multiple of pop_size
        pop = 3 if big else pop
        alts += [{"pop_size": n} for n in ((2, 4, 5) if big else (13, 16, 20))] + [{"epoch": 4, "pop_size": 6 if big else 24}]
        yield dict(devs=(), set={}, pop=pop, how="unknown", extra=("unknown",))
        devs = [()] if tier == "quick" else [(), (("mode", "swarm"),), (("minmax", "max"), ("land", "alt")), (("term", "fe35"),), (("start", "lhs"),)]
        for a in alts:
            for d in devs:
                if d and d[0][0] == "start" and "pop_size" in a:
                    continue
                for how in (("once", "after", "all") if tier == "quick" else ("once", "after", "all", "stepwise")):
                    yield dict(devs=d, set=a, pop=pop, how=how, extra=("how=" + how, "set=" + "+".join(a)))
        ## what depends on the size, in the branches that need a stagnating run or another parameter to be reached
        for a in [{}] + list(hyper.alternatives(cls)):
            for ds in ((("land", "const"),), (("mode", "swarm"), ("land", "step"))):
                for sz in ((4,) if big else (16,) if tier == "quick" else (13, 16, 24)):
                    if "pop_size" not in a and "epoch" not in a:
                        yield dict(devs=ds, set={**a, "pop_size": sz, "epoch": 6}, pop=pop, how="once", extra=("how=once", "set=pop+" + "+".join(a)))
        if tier != "quick":
            hs = list(hyper.alternatives(cls))
            for i in range(len(hs)):
                for j in range(i):
                    m = {**hs[i], **hs[j]}
                    if len(m) > 1:
                        yield dict(devs=(), set=m, pop=pop, how="stepwise", extra=("pair",))
    return g


def main(tier):
    rep = Report("C19", tier, "exploration")
    rep.assumptions = ["legal values are the ones the constructor accepts together with the other parameters"]
    E.explore(rep, plan(tier), run, rule="every optimizer x every hyper-parameter alternative (and population/epoch sizes) set in one call, after an earlier solve, and together with all others, against construction with these values; plus every malformed name set", chunk=24)
    return rep.finish()


replay = E.replay_single(run)
