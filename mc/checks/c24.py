"""C24: an optimizer saved at any point of its life and loaded again is the optimizer that was saved."""
import itertools
import os
import shutil
import subprocess
import sys
import tempfile

from .. import env, harness as H, hyper, pairs, units as U
from ..report import Report
import numpy as np
from mealpy.utils import io as mio
from mealpy import Problem

LOG = [[]]
HOOK = [None]


class Obj:
    """Picklable by value; what it saw is kept outside of it."""

    def __init__(self, land, objs="1"):
        self.land, self.objs = land, objs

    def __call__(self, x):
        n = len(LOG[0])
        xt = tuple(np.asarray(x, dtype=float).ravel().tolist())
        LOG[0].append(xt)
        if HOOK[0] is not None:
            HOOK[0](n)
        v = H.LANDS[self.land](x, n)
        return v if self.objs == "1" else [v, float(np.sum(np.asarray(x, dtype=float)))]


def solve(o, cfg, hook=None):
    """One solve; everything observable afterwards."""
    LOG[0], HOOK[0] = [], hook
    env.SCHED.active = True
    exc = g = None
    try:
        p = {"obj_func": Obj(cfg["land"], cfg["objs"]), "bounds": H.SPACES[cfg["space"]](), "minmax": cfg["minmax"], "log_to": None, "save_population": True,
             "name": "the problem"}
        if cfg["objs"] == "2":
            p["obj_weights"] = [1.0, -0.5]
        t = H.TERMS[cfg["term"]]
        g = o.solve(Problem(**p) if cfg["asinst"] else p, mode=cfg["mode"], n_workers=2 if cfg["mode"] == "thread" else None,
                    seed=7 + cfg["stream"], termination=dict(t) if t else None)
    except Exception as e:
        exc = e
    finally:
        HOOK[0] = None
        env.SCHED.active = False
    v = {"exception": pairs.exc_id(exc), "evaluations": list(LOG[0]), "result": g and H._agent(g)}
    v.update(observe(o))
    return v


def plain(x):
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(plain(i) for i in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((plain(k), plain(v)) for k, v in x.items())
    return x


def observe(o):
    d = {"class": type(o), "name": o.get_name(), "parameters": plain(o.get_parameters()), "parameter attributes": plain({k: getattr(o, k) for k in o.get_parameters()}),
         "counter": getattr(o, "nfe_counter", None), "text": str(o), "epoch": o.epoch, "pop_size": o.pop_size, "parallelizable": o.is_parallelizable}
    pop = getattr(o, "pop", None)
    d["population"] = None if pop is None else [H._agent(a) for a in pop]
    d["objectives"] = None if pop is None else [plain(np.asarray(a.target.objectives)) if a.target is not None else None for a in pop]
    for k in ("g_best", "g_worst"):
        a = getattr(o, k, None)
        d[k] = a and H._agent(a)
    h = getattr(o, "history", None)
    if h is not None:
        for n in H.HIST_AGENTS:
            d[n] = [H._agent(a) for a in getattr(h, n)]
        for n in pairs.NUM:
            d[n] = [float(v) for v in getattr(h, n)]
        d["list_population"] = [[H._agent(a) for a in p] for p in h.list_population]
        d["recorded epochs"] = len(h.list_epoch_time)
    p = getattr(o, "problem", None)
    if p is not None:
        d["problem"] = (p.name, p.minmax, p.n_dims, plain(p.lb), plain(p.ub), plain(p.obj_weights), [type(b) for b in p.bounds])
    return d


def differ(a, b):
    for k in a:
        if k not in b:
            return k, "%s is gone" % k
        if a[k] != b[k] and not pairs.same(a[k], b[k]):
            return k, pairs.first_diff(a[k], b[k], k) if isinstance(a[k], (list, tuple)) else "%s: %r against %r" % (k, a[k], b[k])
    return None


NEXT = dict(H.BASE, space="f2", minmax="max", land="lin", stream=3)
REF = {}


def build(cls, cfg):
    env.fresh()
    return H.make(cls, epoch=cfg["epoch"], pop_size=H.pop_of(cls, cfg), **(cfg["hp"] or {}))


def one(c, arg):
    """All save points of one configuration of one optimizer."""
    cls, devs, stride = arg
    cfg = H.cfg_with(*devs)
    where0 = H.cfg_id(devs)
    feats = H.feats(devs)
    d = tempfile.mkdtemp(prefix="c24-")
    try:
        o = build(cls, cfg)
        ref0 = solve(build(cls, cfg), NEXT)
        ref1 = solve(o, cfg)
        ref2 = solve(o, NEXT)
        if ref1["exception"] or ref2["exception"]:
            return                                  # C12's business
        n = len(ref1["evaluations"])
        pts = ["before", "after"] + ([] if cfg["mode"] == "thread" and stride > 10 else list(range(0, n, stride))) + ([n - 1] if (n - 1) % stride else [])
        for pt in pts:
            path = os.path.join(d, "model-%s.pkl" % pt)
            o = build(cls, cfg)
            saved = {}

            def save(_=None):
                saved["obs"] = observe(o)
                mio.save_model(o, path)
            if pt == "before":
                save()
            v1 = solve(o, cfg, hook=(lambda k: k == pt and save()) if isinstance(pt, int) else None)
            if pt == "after":
                save()
            c.add(cases=1)
            c.seen(where0, pt)
            w = "%s saved at %s: " % (where0, pt if isinstance(pt, str) else "evaluation %d" % pt)
            x = differ(ref1, v1)
            if x:
                c.bad("saving-disturbs", w + x[1], feats)
                continue
            if sorted(os.listdir(d)) != [os.path.basename(path)]:
                c.bad("save-path", w + "wrote %s" % os.listdir(d), feats)
                continue
            L = mio.load_model(path)
            os.remove(path)
            x = differ(saved["obs"], observe(L))
            if x:
                c.bad("loaded-differs", w + x[1], feats)
                continue
            x = differ(ref0, solve(L, NEXT)) if pt == "before" else differ(ref2, solve(L, NEXT))
            if x:
                c.bad("continued-differs", w + "a further solve: " + x[1], feats)
            # the original must not have been touched by solving on the loaded one, and a second generation is as good
            x = differ(v1, observe(o) | {k: v1[k] for k in ("exception", "evaluations", "result")})
            if x:
                c.bad("shared-state", w + "solving on the loaded object changed the original: " + x[1], feats)
            if pt == "after":
                mio.save_model(L, path)
                x = differ(observe(L), observe(mio.load_model(path)))
                os.remove(path)
                if x:
                    c.bad("loaded-differs", w + "second generation: " + x[1], feats)
    finally:
        shutil.rmtree(d)


def per_opt(c, arg):
    name, tier = arg
    cls = H.all_optimizers()[name]
    deep = tier == "thorough"
    one(c, (cls, (), 3 if deep else 29))
    for devs in ((("mode", "swarm"), ("minmax", "max"), ("land", "neg")), (("space", "mixed"), ("term", "mg2")), (("mode", "thread"), ("objs", "2")), (("asinst", True), ("pop", "13"))):
        one(c, (cls, devs, 7 if deep else 1000))
    for a in hyper.alternatives(cls):
        one(c, (cls, (("hp", a),), 11 if deep else 1000))


# ------------------------------------------------------------------ paths and other processes
def paths(c, arg):
    cls = H.all_optimizers()["OriginalGWO"]
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix="c24-")
    try:
        os.chdir(d)
        os.mkdir("sub")
        os.mkdir("dir.pkl")
        for given, want in (("m", "m.pkl"), ("m.pkl", "m.pkl"), ("a.b", "a.b.pkl"), ("sub/x", "sub/x.pkl"), ("sub/x.pkl", "sub/x.pkl"), ("dir.pkl/y", "dir.pkl/y.pkl"),
                            ("pkl", "pkl.pkl"), (".pkl", ".pkl"), ("x.PKL", "x.PKL.pkl"), ("with space", "with space.pkl"), ("\u00fc", "\u00fc.pkl"), (None, "model.pkl"),
                            (os.path.join(d, "abs"), "abs.pkl"), (os.path.join(d, "sub", "abs.pkl"), "sub/abs.pkl"), ("./z.pkl", "z.pkl"), ("sub/../t", "t.pkl")):
            o = H.make(cls, epoch=3, pop_size=11)
            before = solve(o, dict(H.BASE))
            mio.save_model(o, given)
            c.add(cases=1)
            c.seen(given)
            files = sorted(os.path.relpath(os.path.join(r, f), ".") for r, _, fs in os.walk(".") for f in fs)
            if files != [want]:
                c.bad("save-path", "save_model(%r) wrote %s, expected %s" % (given, files, want))
            L = mio.load_model(given)
            x = differ(before, observe(L) | {k: before[k] for k in ("exception", "evaluations", "result")})
            if x:
                c.bad("loaded-differs", "path %r: %s" % (given, x[1]))
            # saving again over the same path replaces what was there (a longer file by a shorter one)
            o2 = H.make(cls, epoch=4, pop_size=12)
            mio.save_model(o2, given)
            L2 = mio.load_model(given)
            if differ(observe(o2), observe(L2)):
                c.bad("loaded-differs", "path %r saved twice" % (given,))
            for f in files:
                os.remove(f)
            try:
                mio.load_model(given)
                c.bad("load-missing", "load_model(%r) of a file that does not exist gives something" % (given,))
            except OSError:
                pass
    finally:
        os.chdir(here)
        shutil.rmtree(d)


CHILD = """
import sys, pickle
from mc.checks import c24
from mc import env, harness as H
from mealpy.utils import io
out = []
for name, path in pickle.load(open(sys.argv[1], 'rb')):
    o = io.load_model(path)
    out.append((name, c24.observe(o), c24.solve(o, c24.NEXT)))
pickle.dump(out, open(sys.argv[2], 'wb'))
"""


def elsewhere(c, names):
    """Loaded in another interpreter (other hash seed) it is still the same optimizer."""
    d = tempfile.mkdtemp(prefix="c24-")
    try:
        import pickle
        todo, refs = [], {}
        for n in names:
            o = build(H.all_optimizers()[n], dict(H.BASE))
            v1 = solve(o, dict(H.BASE))
            path = os.path.join(d, n + ".pkl")
            mio.save_model(o, path)
            refs[n] = (observe(o), solve(o, NEXT))
            todo.append((n, path))
        pickle.dump(todo, open(os.path.join(d, "in"), "wb"))
        e = dict(os.environ, PYTHONHASHSEED="4242", MPLBACKEND="Agg")
        e["PYTHONPATH"] = os.pathsep.join([os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))] + sys.path)
        r = subprocess.run([sys.executable, "-c", CHILD, os.path.join(d, "in"), os.path.join(d, "out")], env=e, capture_output=True, text=True)
        if r.returncode:
            c.bad("load-elsewhere", r.stderr[-350:])
            return
        for n, obs, v in pickle.load(open(os.path.join(d, "out"), "rb")):
            c.add(cases=1)
            c.seen(n)
            for a, b, t in ((refs[n][0], obs, "loaded"), (refs[n][1], v, "further solve")):
                x = differ(a, b)
                if x:
                    c.bad("load-elsewhere", "in another process, %s: %s" % (t, x[1]), subject=n)
    finally:
        shutil.rmtree(d)


def groups(tier):
    names = list(H.all_optimizers())
    g = [(per_opt, n, (n, tier)) for n in names]
    g += [(elsewhere, "elsewhere-%d" % i, names[i::8]) for i in range(8)]
    g.append((paths, "paths", None))
    return g


def main(tier):
    rep = Report("C24", tier, "exploration")
    rep.assumptions = ["the objective function itself can be pickled", "'.pkl' is appended to a path that does not end in it (documented by the code)"]
    U.run_groups(rep, groups(tier))
    rep.add(rule="every optimizer x configurations x save points (before, after, and inside evaluations at a stride of the run, down to every third one in thorough), each loaded, compared and solved further; every path form; a second interpreter; non-trivial = distinct (configuration, save point)")
    return rep.finish()


replay = U.replayer(groups)
