"""C31: every mode carries out the whole search: the population moves, what is tried next depends on the objective, its direction and the seed,
and the swarm mode differs from the single mode only in when updates take effect: no candidate gets lost."""
from .. import env, explore as E, harness as H, hyper
from ..report import Report
from mealpy.utils.problem import Problem

# Position updates without a random term (Dove Swarm Optimization, eq. 8 and 9): only its first population is drawn.
NO_DRAWS = {"OriginalDSO"}
# These put new agents in place whatever they are worth, so that later moves start elsewhere, and find improvements, even if none of the
# first agents is ever beaten.
REPLACING = {"OriginalSBO", "OriginalSMA", "OriginalWOA", "OriginalWOAmM", "MGTO", "ETLBO", "OriginalDO"}
# These correct positions on the way to a candidate, or replace one before it is evaluated, in every mode.
STEPS = {"OriginalLSHADEcnEpSin", "OriginalMPA", "OriginalSeaHO", "OriginalSquirrelSA"}

# In the parallel modes these evaluate what they keep unchanged again, so that fewer old answers remain.
AGAIN = {"OriginalAO", "AAO", "EliteSingleGA", "EliteMultiGA", "SAP_DE", "MLFA_GD"}
# In the parallel modes these evaluate agents they keep, or their whole population, again: more calls, no more points.
RECOUNT = AGAIN | {"OriginalEOA", "OriginalFA", "OriginalICA", "OriginalPFA", "OriginalSFO", "OriginalCSO"}

CAND = []
_REAL = Problem.correct_solution


def _recording(self, x):
    y = _REAL(self, x)
    CAND.append(tuple(map(float, y)))
    return y


def one(cls, cfg, obj=None, record=False, **kw):
    CAND.clear()
    if record:
        Problem.correct_solution = _recording
    try:
        tr = H.run(cls, cfg, obj=obj, **kw)
    finally:
        Problem.correct_solution = _REAL
    tr.cand = list(CAND)
    tr.pts = [x for x, _ in tr.obj.log]
    tr.later = tr.pts[tr.init["nev"]:] if tr.init else []
    return tr


def calls(t):
    """Objective calls at initialisation and in each epoch."""
    c = [0, t.init["nev"]] + [e["nev"] for e in t.epochs]
    return [b - a for a, b in zip(c, c[1:])]


def kept(t):
    """Per epoch, how many agents carry an answer given before that epoch: the answers of these landscapes tell which call they belong to."""
    out, n = [], t.init["nev"]
    for e in t.epochs:
        out.append(sum(1 for _, f in e["pop"] if abs(f) <= n - (t.cfg["land"] == "down")))
        n = e["nev"]
    return out


def run(cls, spec):
    cfg = H.cfg_with(*spec["devs"])
    name = cls.__name__
    out, trs = [], []
    a = one(cls, cfg, record=True)
    trs.append(a)
    if a.exc is not None or a.init is None:
        return [], trs                       # C12 judges whether a run completes
    first = set(a.pts[:a.init["nev"]])
    if not any(x not in first for x in a.later):
        return [("never-moves", "%d epochs, %d evaluations, and no point beyond the first population was ever tried" % (len(a.epochs), len(a.pts)))], trs
    # what is tried depends on the answers, on the direction (a hyper-parameter near the end of its range may all but rule that out) ...
    extreme = cfg["hp"] is not None
    alike = [not extreme]
    for lab, c in () if extreme else (("direction", dict(minmax="max" if cfg["minmax"] == "min" else "min")), ("objective", dict(land="lin" if cfg["land"] != "lin" else "sphere")),
                   ("both", dict(land="step", minmax="max" if cfg["minmax"] == "min" else "min")), ("landscape", dict(land="corner"))):
        t = one(cls, dict(cfg, **c))
        trs.append(t)
        alike.append(t.pts == a.pts)
    if all(alike):
        out.append(("ignores-objective", "under four other objectives and directions the search tries the same %d points" % len(a.pts)))
    # ... and on the seed; without one, on fresh entropy
    other = [] if extreme else [("another seed", one(cls, dict(cfg, stream=cfg["stream"] + 1))), ("no seed", one(cls, dict(cfg, stream=None))),
             ("no seed again", one(cls, dict(cfg, stream=None), ambient=lambda: env.UNSEEDED.__setitem__(0, 777)))]
    if (name not in NO_DRAWS or cfg["start"] == "none") and not extreme:
        seen = [("the seed", a)]
        for lab, t in other:
            trs.append(t)
            for l2, u in seen:
                if t.later == u.later:
                    out.append(("ignores-seed", "with %s and with %s the search tries the same %d points" % (l2, lab, len(t.later))))
            seen.append((lab, t))
    # the swarm mode: updates take effect later, everything else stays
    sw = one(cls, dict(cfg, mode="swarm"), record=True)
    trs.append(sw)
    if sw.exc is None and sw.init is not None:
        if set(sw.pts[:sw.init["nev"]]) >= set(sw.pts):
            out.append(("never-moves", "swarm mode: no point beyond the first population was ever tried"))
        elif name not in STEPS:
            for lab, t in (("single", a), ("swarm", sw)):
                log = set(t.pts)
                lost = [x for x in t.cand if x not in log]
                if lost:
                    out.append(("candidate-lost", "%s mode: %d of %d candidates were never evaluated, e.g. %r" % (lab, len(lost), len(t.cand), lost[0])))
    if name not in REPLACING:
        n = int(H.make(cls, epoch=cfg["epoch"], pop_size=H.pop_of(cls, cfg)).pop_size)
        found = []
        # a move may land on one of the first points, a survivor may be evaluated again: what counts is a difference under both readings
        for pure in (True, False):
            p, q = [one(cls, dict(cfg, mode=m), obj=H.Home(cfg["land"], cfg["objs"], cfg["minmax"], n, pure)) for m in ("single", "swarm")]
            trs += [p, q]
            if p.exc is not None or q.exc is not None:
                found = []
                break
            if pure and p.init is not None and q.init is not None:
                cp, cq = calls(p), calls(q)
                if len(cp) != len(cq) or any((y < x) if name in RECOUNT else (y != x) for x, y in zip(cp, cq)):
                    out.append(("calls-differ", "with an objective no move improves on, the epochs make %s calls in single and %s in swarm mode" % (cp, cq)))
            if set(p.pts) == set(q.pts):
                found = []
                break
            x = sorted(set(p.pts) - set(q.pts)) or sorted(set(q.pts) - set(p.pts))
            found.append(("modes-differ", "with an objective no move improves on, single and swarm mode try different points (%d and %d, %d in common), e.g. %r" % (
                len(set(p.pts)), len(set(q.pts)), len(set(p.pts) & set(q.pts)), x[0])))
        out += found[:1]
    # with an objective on which every later move is an improvement, both modes must come to hold as many of them
    for mm, land in (("min", "down"), ("max", "up")):
        p, q = [one(cls, dict(cfg, mode=m, minmax=mm, land=land, objs="1")) for m in ("single", "swarm")]
        trs += [p, q]
        if p.exc is not None or q.exc is not None or p.init is None or q.init is None:
            continue
        ko, kq = kept(p), kept(q)
        if any((y > x) if name in AGAIN else (y != x) for x, y in zip(ko, kq)):
            out.append(("improvements-lost", "with an objective every move improves on (%s), the agents kept unchanged in each epoch are %s in single and %s in swarm mode" % (mm, ko, kq)))
            break
    return out, trs, dict(pairs=len(trs) - 1)


BASE = (("epoch", 7),)
F = E.sub(minmax=["max"], land=["neg", "lin"], space=["f7", "unit"], pop=["13", "24"], start=["lhs"], asinst=True, save=[False])


def plan(k, f=F):
    def g(cls):
        for d in E.plan(f, k)(cls):
            yield BASE + d
        for a in hyper.alternatives(cls):
            yield BASE + (("hp", a),)
    return g


def main(tier):
    rep = Report("C31", tier, "exploration")
    rep.assumptions = ["continuous variables, so that two different random streams do not meet in the same points by chance"]
    E.explore(rep, plan(1 if tier == "quick" else 2), run, chunk=20,
              rule="every optimizer x configurations; each case runs the configuration, its variations in direction, objective, seed and mode, and compares the points tried")
    return rep.finish()


replay = E.replay_single(run)
