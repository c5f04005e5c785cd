"""Runs one mealpy optimisation in a closed environment and records a trace."""
import gc
import itertools
import math
import os
import pickle
import re
import signal
import sys
import warnings

from . import env
env.install()

warnings.filterwarnings("ignore")
import numpy as np
np.seterr(all="ignore")
import logging
logging.lastResort = None
logging.raiseExceptions = False

import mealpy
from mealpy import (FloatVar, IntegerVar, StringVar, BinaryVar, BoolVar, CategoricalVar, SequenceVar,
                    PermutationVar, TransferBinaryVar, TransferBoolVar, Problem)

_root = logging.getLogger()
if not _root.handlers:
    _root.addHandler(logging.NullHandler())     # mealpy adds no handler when one exists: quiet and fd-free


def all_optimizers():
    """name -> class for every optimizer module, without trusting the registry helper (C27 checks that)."""
    import importlib
    import inspect
    import pkgutil
    from mealpy.optimizer import Optimizer
    out = {}
    for m in pkgutil.walk_packages(mealpy.__path__, "mealpy."):
        if not m.ispkg and m.name.count(".") == 2 and ".utils." not in m.name:
            mod = importlib.import_module(m.name)
            for n, c in vars(mod).items():
                if inspect.isclass(c) and issubclass(c, Optimizer) and c is not Optimizer \
                        and c.__module__ == m.name:
                    out[n] = c
    return dict(sorted(out.items()))


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout("cpu budget exceeded")


signal.signal(signal.SIGVTALRM, _alarm)

# ------------------------------------------------------------------ construction

_MK = {}


def make(cls, epoch=3, pop_size=10, **kw):
    """Build an optimizer, moving hyper-parameters that depend on the population size into their stated range."""
    kw = dict(kw, epoch=epoch, pop_size=pop_size)
    key = (cls, tuple(sorted((k, repr(v)) for k, v in kw.items())))
    fixed = _MK.get(key)
    if fixed is not None:
        return cls(**{**kw, **fixed})
    adj, emptied = {}, set()
    last = None
    for _ in range(60):
        try:
            o = cls(**{**kw, **adj})
            _MK[key] = adj
            return o
        except ValueError as e:
            last = e
            m = re.match(r"'(\w+)'.*?range: ([\[(])([^,]+), ([^\])]+)[\])]", str(e))
            if not m:
                raise
            name, lo, hi = m[1], float(m[3]), float(m[4])
            if lo > hi:                       # empty range: it depends on the epoch budget
                if name not in emptied:
                    emptied.add(name)
                    adj["epoch"] = max(4, epoch)
                else:                         # ... or on the population size
                    adj.pop("epoch", None)
                    adj["pop_size"] = adj.get("pop_size", pop_size) + 1
                adj.pop(name, None)
                continue
            if name in adj or (name == "epoch"):
                raise
            if math.isinf(hi):
                v = lo + 1
            elif m[2] == "(":
                v = (lo + hi) / 2
            else:
                cur = kw.get(name)
                v = lo if (cur is not None and cur < lo) else hi
                if name == "pop_size":
                    v = lo
            adj[name] = int(v) if float(v) == int(v) else v
            if "integer" in str(e):
                adj[name] = int(adj[name])
    raise last


def min_pop(cls):
    o = make(cls, epoch=2, pop_size=2)
    return int(o.pop_size)


# ------------------------------------------------------------------ landscapes

def _arr(x):
    return np.asarray(x, dtype=float)


def l_sphere(x, n):
    x = _arr(x)
    return float(np.sum((x - 0.37) ** 2))


def l_neg(x, n):
    return -1.0 - l_sphere(x, n)


def l_const(x, n):
    return 1.0


def l_zero(x, n):
    return 0.0


def l_step(x, n):
    x = _arr(x)
    return float(np.sum(np.floor(x / 2.0)) > 0)


def l_lin(x, n):
    x = _arr(x)
    return float(np.dot(x, np.arange(1, len(x) + 1)))


def l_big(x, n):
    return 1e120 * l_sphere(x, n)


def l_tiny(x, n):
    return 1e-200 * l_sphere(x, n)


def l_up(x, n):        # every evaluation is larger than the one before
    return float(n + 1)


def l_down(x, n):      # every evaluation is smaller than the one before
    return float(-n)


def l_alt(x, n):
    return float((-1) ** n * (n + 1))


def l_corner(x, n):    # optimum at the lower corner of the box, ties elsewhere
    x = _arr(x)
    return float(np.round(np.max(np.abs(x)), 1))


def l_wall(x, n):      # an infinite penalty beyond a wall through the middle
    x = _arr(x)
    return float("inf") if x[0] > 0.37 else l_sphere(x, n)


def l_pit(x, n):
    return -l_wall(x, n)


def l_void(x, n):
    return float("inf")


LANDS = dict(sphere=l_sphere, neg=l_neg, const=l_const, zero=l_zero, step=l_step, lin=l_lin, big=l_big,
             tiny=l_tiny, up=l_up, down=l_down, alt=l_alt, corner=l_corner, wall=l_wall, pit=l_pit, void=l_void)


class Injected(Exception):
    """Raised by the objective when a fault is planned there."""


class InjectedBase(BaseException):
    pass


_OBJ = {}


def _get_obj(k):
    return _OBJ[k]


class Objective:
    """The environment: logs every call and answers it as planned."""
    _ids = itertools.count()

    def __init__(self, land="sphere", objs="1", answers=None, faults=None, callback=None):
        self.key = next(Objective._ids)
        _OBJ.clear()
        _OBJ[self.key] = self
        self.f = LANDS[land] if isinstance(land, str) else land
        self.objs = objs
        self.answers = answers or {}
        self.faults = faults or {}
        self.callback = callback
        self.log = []          # (x as tuple of float, x shape ok, fitness expected)
        self.raw = []
        self.keep_raw = False

    def __reduce__(self):
        return (_get_obj, (self.key,))

    def __deepcopy__(self, memo):
        return self

    def __call__(self, x):
        if env.SCHED.chooser is not None:
            env.yield_point()
        n = len(self.log)
        if self.keep_raw:
            self.raw.append(x)
        try:
            xt = tuple(np.asarray(x, dtype=float).ravel().tolist())
        except Exception:
            xt = ("unconvertible", repr(x))
        if self.callback is not None:
            self.callback(n, x)
        fault = self.faults.get(n)
        if fault is not None:
            self.log.append((xt, None))
            raise fault
        v = self.answers[n] if n in self.answers else self.f(x, n)
        o = self.objs
        if o == "1":
            self.log.append((xt, v))
            return v
        if o == "np":
            self.log.append((xt, v))
            return np.float64(v)
        if o == "list1":
            self.log.append((xt, v))
            return [v]
        if o == "arr0":
            self.log.append((xt, v))
            return np.array(v)
        if o == "int":
            v = int(max(min(v, 2 ** 40), -2 ** 40))
            self.log.append((xt, float(v)))
            return v
        # two objectives, weights 1 and -0.5 (see space below): fitness = v - 0.5*w
        w = float(np.sum(np.asarray(x, dtype=float)))
        self.log.append((xt, float(np.dot(WEIGHTS2, np.array([v, w])))))
        return [v, w] if o == "2" else (np.array([v, w]))


class Home(Objective):
    """The first n points are better than all others (again, when tried again, if `pure`); apart from that the landscape is the configured one."""

    def __init__(self, land, objs, minmax, n, pure):
        super().__init__(land, objs)
        g, first, sign = self.f, set(), (-1.0 if minmax == "min" else 1.0)

        def f(x, i):
            k = tuple(map(float, x))
            if i < n:
                first.add(k)
            return g(x, i) + (sign * 1e6 if (k in first if pure else i < n) else 0.0)
        self.f = f


WEIGHTS2 = np.array([1.0, -0.5])


# ------------------------------------------------------------------ search spaces

def sp_f3():
    return FloatVar(lb=[-10., -2., 1.], ub=[10., 3., 4.])


def sp_f1():
    return FloatVar(lb=-3., ub=5.)


def sp_f2():
    return FloatVar(lb=[-4., 1.], ub=[-1., 6.])


def sp_unit():
    return FloatVar(lb=[0.] * 4, ub=[1.] * 4)


def sp_negonly():
    return FloatVar(lb=[-9., -7., -5.], ub=[-4., -3., -2.])


def sp_thin():
    return FloatVar(lb=[1., -3., 5.], ub=[1. + 1e-9, 2., 5. + 1e-7])


def sp_flat():
    return FloatVar(lb=[2., -3., 0.], ub=[2., 2., 0.])


def sp_huge():
    return FloatVar(lb=[-1e8, 0., -1e3], ub=[1e8, 1e10, 1e-3])


def sp_f7():
    return FloatVar(lb=[-5.] * 7, ub=[8.] * 7)


def sp_frac():
    return FloatVar(lb=[-0.5, 0.1], ub=[-0.4, 0.9])


def sp_sym():
    return FloatVar(lb=[-1.] * 3, ub=[1.] * 3)


def sp_int():
    return IntegerVar(lb=[-3, 0, 5], ub=[4, 1, 9])


def sp_bin():
    return BinaryVar(n_vars=5)


def sp_perm():
    return PermutationVar(valid_set=(3, 1, 4, 7, 9))


def sp_mixed():
    return [FloatVar(lb=[-2., 0.], ub=[2., 9.], name="f"), IntegerVar(lb=1, ub=6, name="i"),
            CategoricalVar(valid_sets=("a", 2, 3.5), name="c"), StringVar(valid_sets=("u", "v", "w"), name="s"),
            BinaryVar(n_vars=2, name="b"), BoolVar(n_vars=1, name="bo"),
            SequenceVar(valid_sets=((1,), (2, 3), (4, 5, 6)), return_type=list, name="q"),
            PermutationVar(valid_set=(5, 6, 7), name="p")]


def sp_trans():
    return [TransferBinaryVar(n_vars=3, name="tb"), FloatVar(lb=-1., ub=1., name="f"), TransferBoolVar(n_vars=2, name="tB")]


SPACES = dict(f3=sp_f3, f1=sp_f1, f2=sp_f2, unit=sp_unit, negonly=sp_negonly, thin=sp_thin, flat=sp_flat,
              huge=sp_huge, f7=sp_f7, frac=sp_frac, sym=sp_sym, int=sp_int, bin=sp_bin, perm=sp_perm, mixed=sp_mixed, trans=sp_trans)


def corner_starts(problem, n, kind):
    """n starting positions in the encoded space, deterministic."""
    lb, ub = problem.lb, problem.ub
    out = []
    for i in range(n):
        if kind == "same":
            t = np.full(len(lb), 0.5)
        elif kind == "corner":
            t = np.array([(i >> (j % 4)) & 1 for j in range(len(lb))], dtype=float)
        else:
            t = np.array([((i * (j + 3) + j) % n + 0.5) / n for j in range(len(lb))])
        x = lb + t * (ub - lb)
        out.append(np.minimum(np.maximum(x, lb), ub))
    return np.array(out)


# ------------------------------------------------------------------ one run

BASE = dict(land="sphere", minmax="min", space="f3", mode="single", pop="10", epoch=3, start="none", objs="1",
            term="none", save=True, stream=0, reuse="no", asinst=False, hp=None)


class Trace:
    pass


CUR = [None]


def _agent(a):
    s = a.solution
    try:
        st = tuple(np.asarray(s, dtype=float).ravel().tolist())
    except Exception:
        st = ("unconvertible", repr(s)[:60])
    t = a.target
    return (st, float(t.fitness) if t is not None else None)


class _Hook:
    """Picklable instance-level wrapper around an overridable method."""

    def __init__(self, opt, name):
        self.opt, self.name = opt, name

    def __call__(self, *a):
        tr = CUR[0]
        if self.name == "evolve":
            if tr is not None and tr.per_epoch_pre is not None:
                tr.per_epoch_pre(self.opt, *a)
            r = getattr(type(self.opt), "evolve")(self.opt, *a)
            if tr is not None:
                tr.snap(self.opt, a[0] if a else None)
            return r
        if tr is not None:
            tr.snap_init(self.opt)
        return getattr(type(self.opt), self.name)(self.opt, *a)


def _snap(tr, o, epoch):
    tr.epochs.append(dict(pop=[_agent(a) for a in o.pop], nfe=o.nfe_counter, nev=len(tr.obj.log), cb_at=None))


def _pre_epoch(o, *a):
    """Start of an epoch: remember what the history says about the previous one."""
    tr = CUR[0]
    if tr.epochs and o.history.list_current_best:
        tr.epochs[-1]["cb_at"] = _agent(o.history.list_current_best[-1])


HIST_AGENTS = ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst")
HIST_NUM = ("list_epoch_time", "list_global_best_fit", "list_current_best_fit", "list_diversity",
            "list_exploration", "list_exploitation")


def _final(tr, o):
    h = o.history
    d = {n: [_agent(a) for a in getattr(h, n)] for n in HIST_AGENTS}
    for n in HIST_NUM:
        d[n] = [float(v) for v in getattr(h, n)]
    d["list_population"] = [[_agent(a) for a in p] for p in h.list_population]
    d["epoch"] = h.epoch
    tr.hist = d
    tr.opt_gbest = _agent(o.g_best) if o.g_best is not None else None


def _snap_init(tr, o):
    tr.init = dict(pop=[_agent(a) for a in o.pop], gb=_agent(o.g_best), nfe=o.nfe_counter, nev=len(tr.obj.log))


def build_problem(cfg, obj):
    p = {"obj_func": obj, "bounds": SPACES[cfg["space"]](), "minmax": cfg["minmax"], "log_to": None,
         "save_population": cfg["save"]}
    if cfg["objs"] in ("2", "2a"):
        p["obj_weights"] = WEIGHTS2.tolist()
    return Problem(**p) if cfg["asinst"] else p


def pop_of(cls, cfg):
    p = cfg["pop"]
    return min_pop(cls) if p == "min" else int(p)


TERMS = {"none": None, "mg2": {"max_epoch": 2}, "mg9": {"max_epoch": 9}, "fe10": {"max_fe": 10},
         "fe35": {"max_fe": 35}, "es1": {"max_early_stop": 1}, "es2": {"max_early_stop": 2, "epsilon": 0.5},
         "mix": {"max_epoch": 3, "max_fe": 1000, "max_early_stop": 3}}


def run(cls, cfg, deviations=None, answers=None, faults=None, order=None, draw_limit=2_000_000, cpu=20.0,
        opt=None, glob=0, callback=None, fresh=True, keep_raw=False, problem=None, obj=None, ambient=None, prior=None, chooser=None, opcodes=False):
    """Execute one configuration; never raises for what the code under test does."""
    tr = Trace()
    tr.cfg = cfg
    tr.init, tr.epochs, tr.exc, tr.result, tr.hist = None, [], None, None, None
    tr.snap = lambda o, e: _snap(tr, o, e)
    tr.snap_init = lambda o: _snap_init(tr, o)
    tr.per_epoch_pre = _pre_epoch
    tr.opt_gbest = None
    if fresh:
        env.fresh(deviations, draw_limit, glob)
    if ambient is not None:
        ambient()
    if obj is None:
        obj = Objective(cfg["land"], cfg["objs"], answers, faults, callback)
    tr.obj = obj
    obj.keep_raw = keep_raw
    o = opt if opt is not None else make(cls, epoch=cfg["epoch"], pop_size=pop_of(cls, cfg), **(cfg["hp"] or {}))
    tr.opt = o
    seed = None if cfg["stream"] is None else 7 + cfg["stream"]
    if prior is not None:
        prior(o)
        _OBJ[obj.key] = obj
    pop_size = o.pop_size       # some optimizers adapt it during a run
    n_workers = cfg.get("workers", 2) if cfg["mode"] in ("thread", "process") else None
    env.SCHED.active = True
    env.SCHED.order = order
    env.SCHED.chooser, env.SCHED.opcodes = chooser, opcodes
    CUR[0] = None
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu, 0.05)
    try:
        try:
            if cfg["reuse"] == "yes":
                ob2 = Objective("lin", "1")
                o.solve({"obj_func": ob2, "bounds": sp_f2(), "minmax": "max", "log_to": None}, seed=99)
                _OBJ[obj.key] = obj
            p = problem if problem is not None else build_problem(cfg, obj)
            tr.problem = p
            st = None
            if cfg["start"] != "none":
                tmp = p if isinstance(p, Problem) else Problem(**dict(p, bounds=SPACES[cfg["space"]]()))
                kind = cfg["start"].rstrip("L")
                st = corner_starts(tmp, pop_size, kind)
                tr.starts = st.copy()
                if cfg["start"].endswith("L"):
                    st = [list(map(float, r)) for r in st]
                tr.starts_given = st
            if deviations is not None:
                pass
            o.evolve = _Hook(o, "evolve")
            o.before_main_loop = _Hook(o, "before_main_loop")
            CUR[0] = tr
            term = TERMS[cfg["term"]]
            g = o.solve(p, mode=cfg["mode"], n_workers=n_workers, termination=dict(term) if term else None,
                        starting_solutions=st, seed=seed)
            tr.g = g
            tr.result = _agent(g)
            _final(tr, o)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            CUR[0] = None
            env.SCHED.active = False
            o.__dict__.pop("evolve", None)
            o.__dict__.pop("before_main_loop", None)
    except (Timeout, env.Horizon) as e:
        tr.exc = e
        tr.hang = True
    except Exception as e:
        tr.exc = e
    except InjectedBase as e:
        tr.exc = e
    except (KeyboardInterrupt, SystemExit, GeneratorExit) as e:
        if not faults:          # only a planned one is an outcome of the run
            raise
        tr.exc = e
    tr.draws = env.STATE.n
    tr.batches = [n for _, n in env.SCHED.batches]
    return tr


def cfg_with(*devs):
    c = dict(BASE)
    for d in devs:
        c[d[0]] = d[1]
    return c


def deviations_upto(features, k, base=None):
    """All configurations at most k feature changes away from BASE, simplest first.

    features: dict feature -> list of alternatives to the base value.
    """
    names = list(features)
    for r in range(k + 1):
        for combo in itertools.combinations(names, r):
            for vals in itertools.product(*(features[f] for f in combo)):
                yield tuple(zip(combo, vals))


def feats(devs):
    from . import hyper
    return ["%s=%s" % (a, hyper.hp_id(b) if isinstance(b, dict) else b) for a, b in devs]


def cfg_id(devs):
    return ",".join(feats(devs)) or "base"
