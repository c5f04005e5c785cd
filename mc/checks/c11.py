"""C11: an exception raised by the objective at any evaluation surfaces unchanged, stops the solve, and leaves everything usable."""
import concurrent.futures

import numpy as np

from .. import env, explore as E, harness as H, pairs
from ..report import Report

TYPES = {
    "Injected": lambda: H.Injected("planned", 3), "ValueError": lambda: ValueError("planned"), "KeyError": lambda: KeyError("planned"),
    "IndexError": lambda: IndexError("planned"), "ZeroDivisionError": lambda: ZeroDivisionError("planned"), "TypeError": lambda: TypeError("planned"),
    "AttributeError": lambda: AttributeError("planned"), "RuntimeError": lambda: RuntimeError("planned"), "LinAlgError": lambda: np.linalg.LinAlgError("planned"),
    "OverflowError": lambda: OverflowError("planned"), "StopIteration": lambda: StopIteration("planned"), "MemoryError": lambda: MemoryError("planned"),
    "AssertionError": lambda: AssertionError("planned"), "InjectedBase": lambda: H.InjectedBase("planned"),
    "KeyboardInterrupt": lambda: KeyboardInterrupt("planned"), "SystemExit": lambda: SystemExit(3), "GeneratorExit": lambda: GeneratorExit("planned"),
    "FloatingPointError": lambda: FloatingPointError("planned"), "RecursionError": lambda: RecursionError("planned"), "OSError": lambda: OSError("planned"),
    "TimeoutError": lambda: TimeoutError("planned"), "NotImplementedError": lambda: NotImplementedError("planned"), "NameError": lambda: NameError("planned"),
    "CancelledError": lambda: concurrent.futures.CancelledError("planned"), "UserWarning": lambda: UserWarning("planned"), "EOFError": lambda: EOFError("planned"),
}
MAIN = ["Injected", "ValueError", "ZeroDivisionError", "StopIteration", "InjectedBase", "KeyboardInterrupt"]
RARE = ["FloatingPointError", "RecursionError", "OSError", "TimeoutError", "NotImplementedError", "NameError", "CancelledError", "UserWarning", "EOFError", "GeneratorExit"]
PAR = ("thread", "process")
FRESH = {}


def fresh_view(cls, devs):
    k = (cls.__name__, devs)
    if k not in FRESH:
        FRESH.clear() if len(FRESH) > 64 else None
        FRESH[k] = H.run(cls, H.cfg_with(*devs))
    return FRESH[k]


def run(cls, spec):
    devs = spec["devs"]
    cfg = H.cfg_with(*devs)
    i, tname = spec["fault"]
    ref = fresh_view(cls, devs)
    exc = TYPES[tname]()
    tr = H.run(cls, cfg, faults={i: exc})
    out = []
    if i >= len(ref.obj.log):
        return [], []
    done = sum(1 for e in ref.epochs if e["nev"] <= i)      # epochs completed before the fatal evaluation
    if tr.exc is None:
        out.append(("swallowed", "objective raised %s at evaluation %d, solve() returned normally" % (tname, i)))
    elif (tr.exc is not exc) if cfg["mode"] != "process" else (type(tr.exc) is not type(exc) or tr.exc.args != exc.args):
        out.append(("other-exception", "objective raised %r at evaluation %d, solve() raised %r" % (exc, i, tr.exc)))
    if len(tr.epochs) > done:
        out.append(("went-on", "objective raised at evaluation %d (after %d epochs), %d epochs were completed" % (i, done, len(tr.epochs))))
    limit = i + 1
    if cfg["mode"] in PAR:          # tasks already handed to the pool may still run: the rest of that batch
        limit = i + 1 + max(ref.batches or [0])
    if len(tr.obj.log) > limit:
        out.append(("evaluated-on", "objective raised at evaluation %d, it was called %d more times" % (i, len(tr.obj.log) - i - 1)))
    trs = [tr]
    if spec.get("again") and not out:
        # once more on the same optimizer (and, when an instance, the same Problem), now without fault
        p = tr.problem if isinstance(getattr(tr, "problem", None), H.Problem) else None
        ob = None
        if p is not None:
            ob = tr.obj
            ob.faults, ob.log = {}, []
            H._OBJ[ob.key] = ob
        b = H.run(cls, cfg, opt=tr.opt, problem=p, obj=ob)
        trs.append(b)
        d = pairs.diff(pairs.view(ref), pairs.view(b))
        if d:
            out.append(("unusable-after", "after an exception at evaluation %d the next solve is not that of a fresh optimizer: %s: %s" % ((i,) + d)))
    return out, trs


def plan(tier):
    def g(cls):
        small = (("pop", "min"), ("epoch", 2), ("space", "f2"))
        cfgs = [(small, MAIN, "all"), (small, [t for t in TYPES if t not in MAIN + RARE], "some"), (small, RARE, "few"),
                (small + (("mode", "swarm"), ("asinst", True)), ["Injected"], "all"),
                (small + (("mode", "thread"),), ["Injected", "InjectedBase", "KeyboardInterrupt"], "some"), (small + (("mode", "process"),), ["Injected"], "few")]
        if tier != "quick":
            cfgs = [(small + d, list(TYPES), "all") for d in ((), (("mode", "swarm"),), (("asinst", True),), (("start", "lhs"),), (("space", "mixed"),), (("term", "es1"),), (("minmax", "max"),))]
            cfgs += [(small + (("mode", m), ("asinst", a)), [t for t in TYPES if t != "StopIteration"], "all") for m in PAR for a in (False, True)]
            cfgs += [((("pop", "min"), ("epoch", 4)), ["Injected", "InjectedBase"], "all")]
        for devs, types, which in cfgs:
            ref = fresh_view(cls, devs)
            n = len(ref.obj.log)
            idx = range(n)
            if which != "all":      # around every boundary: first, last, and both sides of every epoch's end
                cuts = {0, 1, n // 2, n - 1} | ({k for e in ref.epochs for k in (e["nev"] - 1, e["nev"])} | {ref.init["nev"] - 1, ref.init["nev"]} if ref.init else set())
                idx = sorted(k for k in cuts if 0 <= k < n)
                if which == "few":
                    idx = idx[:5]
            for i in idx:
                for t in types:
                    yield dict(devs=devs, fault=(i, t), again=(t == "Injected" or tier != "quick"), extra=("fault=" + t,))
    return g


def main(tier):
    rep = Report("C11", tier, "exploration")
    rep.assumptions = ["the exception is raised by the objective itself; worker processes are simulated by pickling (exception compared by type and arguments)"]
    E.explore(rep, plan(tier), run, rule="every optimizer x small configuration x every evaluation index (in the parallel modes: every index next to an epoch or initialisation boundary) x exception type; each case is the faulty solve, and for most a second solve on the same objects against a fresh one")
    return rep.finish()


replay = E.replay_single(run)
