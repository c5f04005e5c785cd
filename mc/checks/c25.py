"""C25: what the caller passed in or was handed stays as it was."""
import copy

from .. import env, harness as H, hyper, pairs, units as U
from ..report import Report
import numpy as np
from mealpy import Problem, Termination


def freeze(x, depth=0):
    """A structural snapshot (identity of leaves does not matter, their value does)."""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.dtype.str, x.tobytes() if x.dtype != object else tuple(freeze(i) for i in x.ravel()))
    if isinstance(x, dict):
        return ("dict",) + tuple((repr(k), freeze(v, depth + 1)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(i, depth + 1) for i in x)
    if isinstance(x, H.mealpy.utils.space.BaseVar):
        return (type(x).__name__,) + tuple((k, freeze(v, depth + 1)) for k, v in sorted(vars(x).items()) if not callable(v) and k not in ("_seed", "seed", "generator"))
    if isinstance(x, np.random.Generator) or hasattr(x, "fit"):
        return type(x).__name__
    if callable(x):
        return id(x)
    return repr(x)


class Buf:
    """The objective: keeps every array it was handed, and answers out of one buffer when asked to."""

    def __init__(self, land, style):
        self.land, self.style = land, style
        self.kept, self.copies = [], []
        self.buf = [0.0, 0.0] if style == "list" else np.zeros(2)

    def __call__(self, x):
        n = len(self.kept)
        v = H.LANDS[self.land](x, n)
        self.kept.append(x)
        self.copies.append(np.array(x))
        if self.style == "plain":
            return v
        w = float(np.sum(np.asarray(x, dtype=float)))
        if self.style == "fresh":
            return [v, w]
        self.buf[0], self.buf[1] = v, w
        return self.buf

    def __deepcopy__(self, memo):
        return self


def bounds_of(space):
    b = H.SPACES[space]()
    if space == "f3":                                       # bounds given as the caller's own arrays
        lb, ub = np.array([-10., -2., 1.]), np.array([10., 3., 4.])
        return H.FloatVar(lb=lb, ub=ub), (lb, ub)
    return b, ()


def solve(c, cls, cfg, style, where, feats):
    env.fresh()
    hp = copy.deepcopy(cfg["hp"] or {})
    hp0 = freeze(hp)
    o = H.make(cls, epoch=cfg["epoch"], pop_size=H.pop_of(cls, cfg), **hp)
    pop_size = o.pop_size
    ob = Buf(cfg["land"], style)
    bounds, raw = bounds_of(cfg["space"])
    data = {"weights": [1, 2, {"deep": (3, 4)}], "matrix": np.arange(6.0)}
    p = {"obj_func": ob, "bounds": bounds, "minmax": cfg["minmax"], "log_to": None, "save_population": True, "name": "mine", "data": data}
    if style != "plain":
        p["obj_weights"] = [1.0, -0.5] if cfg["stream"] == 0 else np.array([1.0, -0.5])
    st = None
    if cfg["start"] != "none":
        st = H.corner_starts(Problem(**dict(p, bounds=H.SPACES[cfg["space"]]())), pop_size, cfg["start"].rstrip("L"))
        if cfg["start"].endswith("L"):
            st = [np.array(r) for r in st]
    t = dict(H.TERMS[cfg["term"]]) if cfg["term"] != "none" else None
    prob = Problem(**p) if cfg["asinst"] else p
    ids = {k: id(v) for k, v in p.items()}
    snap = dict(problem=freeze(p), termination=freeze(t), starts=freeze(st), raw=freeze(raw), data=freeze(data), bounds=freeze(bounds))
    env.SCHED.active = True
    try:
        g = o.solve(prob, mode=cfg["mode"], n_workers=2 if cfg["mode"] == "thread" else None, termination=t, starting_solutions=st, seed=7 + cfg["stream"])
    except Exception:
        return None                                         # C12's business
    finally:
        env.SCHED.active = False
    c.add(cases=1)
    c.seen(where)
    now = dict(problem=freeze(p), termination=freeze(t), starts=freeze(st), raw=freeze(raw), data=freeze(data), bounds=freeze(bounds))
    for k in snap:
        if snap[k] != now[k]:
            c.bad("input-changed-" + k, "%s: %s was %s and became %s" % (where, k, str(snap[k])[:150], str(now[k])[:150]), feats)
    if {k: id(v) for k, v in p.items()} != ids:
        c.bad("input-changed-problem", "%s: entries of the problem dictionary were replaced" % where, feats)
    if freeze(hp) != hp0:
        c.bad("input-changed-parameters", "%s: the constructor's arguments %s became %s" % (where, hp0, hp), feats)
    for i, (x, y) in enumerate(zip(ob.kept, ob.copies)):
        if not np.array_equal(x, y):
            c.bad("kept-position-changed", "%s: the position handed to the objective at evaluation %d was %s and is %s after the solve" % (where, i, y, x), feats)
            break
    return o, g, ob, p, prob, st, t


def record(o):
    h = o.history
    d = {n: [(H._agent(a), tuple(np.ravel(a.target.objectives).tolist())) for a in getattr(h, n)] for n in H.HIST_AGENTS}
    d["population"] = [[(H._agent(a), tuple(np.ravel(a.target.objectives).tolist())) for a in q] for q in h.list_population]
    for n in pairs.NUM:
        d[n] = [float(v) for v in getattr(h, n)]
    return d


def rdiff(a, b, last=True):
    for k in a:
        x, y = a[k], b[k]
        if len(x) != len(y):
            return "%s has %d entries instead of %d" % (k, len(y), len(x))
        for i in range(len(x) if last else len(x) - 1):
            if x[i] != y[i] and not pairs.same(x[i], y[i]):
                return "%s[%d] was %s and is %s" % (k, i, str(x[i])[:90], str(y[i])[:90])
    return None


def per_config(c, cls, devs, style):
    cfg = H.cfg_with(*devs)
    feats = H.feats(devs) + (["objs=" + style] if style != "plain" else [])
    where = ",".join(feats) or "base"
    r = solve(c, cls, cfg, style, where, feats)
    if r is None:
        return
    o, g, ob, p, prob, st, t = r
    rec = record(o)
    before_g = (H._agent(g), H._agent(o.g_best))
    # 1. the caller goes on using his own data
    for x in ob.kept:
        x[...] = 77.0
    if st is not None:
        for row in st:
            row[...] = 55.0
    if style == "list":
        ob.buf[:] = [9e9, 9e9]
    elif style == "array":
        ob.buf[:] = 9e9
    d = rdiff(rec, record(o))
    if d:
        c.bad("record-shared", "%s: after the caller overwrote the arrays it was handed, %s" % (where, d), feats)
        return
    if H._agent(g) != before_g[0]:
        c.bad("record-shared", "%s: overwriting the arrays handed to the objective changed the returned agent" % where, feats)
        return
    # 2. the returned agent and the final population belong to the caller: other epochs' records stay
    for a in [g, o.g_best] + list(o.pop):
        a.solution[...] = -99.0
        np.asarray(a.target.objectives)[...] = -99.0
        a.target._fitness = -99.0
    d = rdiff(rec, record(o))
    if d:
        c.bad("record-shared", "%s: changing the returned agent and the final population changed the record of an earlier epoch: %s" % (where, d), feats)
        return
    # 3. records of different epochs do not share storage with each other
    h = o.history
    seen = {}
    for n in H.HIST_AGENTS:
        for i, a in enumerate(getattr(h, n)):
            for arr, w in ((a.solution, "solution"),):
                if id(arr) in seen and seen[id(arr)][1] != i:
                    c.bad("record-aliased", "%s: %s[%d] and %s[%d] are one %s array" % (where, n, i, seen[id(arr)][0], seen[id(arr)][1], w), feats)
                    return
                seen[id(arr)] = (n, i)
    for i, q in enumerate(h.list_population):
        for a in q:
            if id(a.solution) in seen and seen[id(a.solution)][1] not in (i + 1,):
                c.bad("record-aliased", "%s: the saved population of epoch %d shares an array with %s[%d]" % (where, i + 1, seen[id(a.solution)][0], seen[id(a.solution)][1]), feats)
                return
        for a in q:
            seen.setdefault(id(a.solution), ("population", i + 1))


def buffers(c, cls):
    """An objective answering out of one reused buffer gives the same run as one answering with new lists."""
    views = []
    for style in ("fresh", "list", "array"):
        cfg = H.cfg_with(("objs", "2"))
        r = solve(c, cls, cfg, style, "buffer " + style, ["objs=" + style])
        if r is None:
            return
        o, g, ob = r[:3]
        views.append((style, dict(record(o), result=[H._agent(g)], evaluations=[tuple(x) for x in ob.copies])))
    for s, v in views[1:]:
        d = rdiff(views[0][1], v)
        if d:
            c.bad("objectives-shared", "objective values returned in one reused %s: %s" % (s, d), ["objs=" + s])


def per_opt(c, arg):
    name, tier = arg
    cls = H.all_optimizers()[name]
    base = [((), "plain"), ((("mode", "swarm"), ("minmax", "max")), "plain"), ((("mode", "thread"), ("start", "lhs")), "plain"),
            ((("start", "lhsL"), ("term", "mix"), ("epoch", 7)), "plain"), ((("asinst", True), ("space", "mixed")), "fresh"), ((("space", "mixed"),), "plain"),
            ((("space", "int"), ("start", "corner")), "list"), ((("space", "perm"), ("land", "lin")), "plain"), ((("space", "trans"),), "plain"),
            ((("land", "const"), ("pop", "13")), "array"), ((("stream", 1), ("space", "f1")), "array"), ((("land", "up"), ("term", "es1")), "plain")]
    if tier == "thorough":
        feats = dict(land=["neg", "const", "up", "down", "step"], minmax=["max"], mode=["swarm", "thread"], space=["f1", "f7", "flat", "int", "mixed", "trans", "perm", "bin"],
                     pop=["min", "24"], epoch=[1, 7], start=["lhs", "lhsL", "same"], term=["mg2", "fe35", "es1"], asinst=[True])
        base += [(d, s) for d in H.deviations_upto(feats, 2) for s in ("plain",) if d]
    for d, s in base:
        per_config(c, cls, d, s)
    for a in hyper.alternatives(cls):
        per_config(c, cls, (("hp", a),), "plain")
    buffers(c, cls)


def groups(tier):
    return [(per_opt, n, (n, tier)) for n in H.all_optimizers()]


def main(tier):
    rep = Report("C25", tier, "exploration")
    rep.assumptions = ["the seed stored on variable objects during a solve is not part of their definition", "objectives do not themselves modify the position they are handed"]
    U.run_groups(rep, groups(tier))
    rep.add(rule="every optimizer x configuration set: deep snapshots of everything passed in before and after, kept positions compared, then everything handed out is overwritten and the records compared; non-trivial = distinct configuration that completed")
    return rep.finish()


replay = U.replayer(groups)
