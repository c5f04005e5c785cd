"""C26: every solve logs where its own problem says, and nowhere else, after every short sequence of earlier solves."""
import contextlib
import io
import itertools
import logging
import os
import re
import shutil
import sys
import tempfile

from .. import env, harness as H, units as U
from ..report import Report
import numpy as np
from mealpy import Problem, Termination

LINE = re.compile(r">>>Problem: (.*?), Epoch: (\d+), Current best: ([^,\s]+), Global best: ([^,\s]+), ")
SETTINGS = {
    "none": dict(log_to=None),
    "none+file": dict(log_to=None, log_file="never.log"),
    "console": dict(log_to="console"),
    "console+file": dict(log_to="console", log_file="never.log"),
    "unset": dict(),                               # the default is the console
    "A": dict(log_to="file", log_file="a.log"),
    "B": dict(log_to="file", log_file="b.log"),
    "sub": dict(log_to="file", log_file="sub/c.txt"),
    "default": dict(log_to="file"),
    "nofile": dict(log_to="file", log_file=None),
}
DEST = {"A": "a.log", "B": "b.log", "sub": "sub/c.txt", "default": "history.txt", "nofile": "mealpy.log"}


def read_files():
    out = {}
    for r, _, fs in os.walk("."):
        for f in fs:
            p = os.path.relpath(os.path.join(r, f), ".")
            with open(p, errors="replace") as h:
                out[p] = h.read()
    return out


def clean_logging():
    """The state of a new interpreter: no handlers anywhere, default last resort."""
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    for n, lg in list(logging.Logger.manager.loggerDict.items()):
        if n.startswith("mealpy") and isinstance(lg, logging.Logger):
            for h in list(lg.handlers):
                lg.removeHandler(h)
                h.close()
            lg.setLevel(logging.NOTSET)
            lg.propagate = True
    logging.lastResort = logging._defaultLastResort
    logging.raiseExceptions = True


@contextlib.contextmanager
def world():
    keep = logging.lastResort, list(logging.getLogger().handlers), logging.raiseExceptions
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix="c26-")
    try:
        os.chdir(d)
        os.mkdir("sub")
        clean_logging()
        yield d
    finally:
        clean_logging()
        logging.lastResort, logging.raiseExceptions = keep[0], keep[2]
        for h in keep[1]:
            logging.getLogger().addHandler(h)
        os.chdir(here)
        shutil.rmtree(d)


class Out:
    """Where everything printed so far went, per solve."""

    def __init__(self):
        self.err, self.out = [], []

    def next(self):
        self.err.append(io.StringIO())
        self.out.append(io.StringIO())
        return contextlib.redirect_stderr(self.err[-1]), contextlib.redirect_stdout(self.out[-1])

    def texts(self):
        d = {("stderr", i): s.getvalue() for i, s in enumerate(self.err)}
        d.update({("stdout", i): s.getvalue() for i, s in enumerate(self.out)})
        return d


def obj1(x):
    return float(np.sum(np.asarray(x, dtype=float) ** 2))


def obj2(x):
    return [obj1(x), float(x[0])]


def check_solve(c, where, o, setting, name, before, after, i, epochs, extra_ok=True):
    """before/after: (texts, files) around solve i."""
    dest = ("file", DEST[setting]) if setting in DEST else ("stderr", i) if setting in ("console", "console+file", "unset") else None
    t0, f0 = before
    t1, f1 = after
    new = {}
    for k, v in t1.items():
        old = t0.get(k, "")
        if not v.startswith(old):
            c.bad("log-rewritten", "%s: what was printed before changed" % where)
        if v[len(old):]:
            new[k] = v[len(old):]
    for p, v in f1.items():
        old = f0.get(p, "")
        if not v.startswith(old):
            c.bad("log-rewritten", "%s: %s lost earlier lines" % (where, p))
        if v[len(old):]:
            new[("file", p)] = v[len(old):]
    for p in f1:
        if p not in f0 and ("file", p) != dest:
            c.bad("log-stray-file", "%s: created %s" % (where, p))
    for k in new:
        if k != dest:
            c.bad("log-leak", "%s: %r was written to %s" % (where, new[k][:120], k))
    if dest is None:
        return
    got = LINE.findall(new.get(dest, ""))
    n = len(o.history.list_epoch_time)
    if n < 1 or (epochs and n != epochs):
        c.bad("log-epochs", "%s: %d epochs were recorded" % (where, n))
    want = [(name, str(k + 1)) for k in range(n)]
    if [(a, b) for a, b, _, _ in got] != want:
        c.bad("log-lines" if len(got) >= len(want) else "log-missing", "%s: epoch lines %s, expected %s" % (where, [(a, int(b)) for a, b, _, _ in got], n))
        return
    for k, (_, _, cb, gb) in enumerate(got):
        try:
            ok = float(cb) == float(o.history.list_current_best[k + 1 if len(o.history.list_current_best) > n else k].target.fitness) and \
                float(gb) == float(o.history.list_global_best[k + 1 if len(o.history.list_global_best) > n else k].target.fitness)
        except ValueError:
            ok = False
        if not ok:
            c.bad("log-values", "%s: line of epoch %d says current %s, global %s" % (where, k + 1, cb, gb))
            break


def sequence(c, arg):
    cls_names, settings_list, forms = arg
    allc = H.all_optimizers()
    for seq in settings_list:
        for form in forms:
            for same_opt in (True, False):
                with world():
                    o = Out()
                    made = {}
                    texts, files = {}, {}
                    for i, s in enumerate(seq):
                        env.fresh()
                        name = cls_names[i % len(cls_names)]
                        w = "%s [%s] solve %d (%s, %s)" % (">".join(seq), form, i + 1, name, s)
                        e, so = o.next()
                        with e, so:
                            if name not in made or not same_opt:
                                made[name] = H.make(allc[name], epoch=3, pop_size=10)
                            opt = made[name]
                            p = dict(obj_func=obj1, bounds=H.sp_f2(), minmax="min", name="P%d" % i, **SETTINGS[s])
                            kw = {}
                            if form == "instance":
                                p = Problem(**p)
                            elif form == "term":
                                kw["termination"] = {"max_epoch": 2}
                            elif form == "terminst":
                                kw["termination"] = Termination(max_fe=25, log_to=None)
                            elif form == "thread":
                                kw["mode"] = "thread"
                                env.SCHED.active = True
                            elif form == "multi":
                                p["obj_func"] = obj2
                            try:
                                opt.solve(p, seed=5, **kw)
                            finally:
                                env.SCHED.active = False
                        t, f = o.texts(), read_files()
                        check_solve(c, w, opt, s, "P%d" % i, (texts, files), (t, f), i, 3 if form in ("dict", "instance", "thread", "multi") else None)
                        texts, files = t, f
                    c.add(cases=1, solves=len(seq))
                    c.seen(seq, form, same_opt)


def prepared(c, _):
    """All problems are built first (each with its own settings), then solved in every order."""
    allc = H.all_optimizers()
    kinds = ["none", "console", "A", "B"]
    for order in itertools.permutations(kinds):
        for multi in (False, True):
            with world():
                o = Out()
                e, so = o.next()
                with e, so:
                    probs = {s: Problem(obj_func=obj2 if multi else obj1, bounds=H.sp_f2(), minmax="max", name="P" + s, **SETTINGS[s]) for s in kinds}
                    opts = {s: H.make(allc["OriginalGWO"], epoch=2, pop_size=10) for s in kinds}
                texts, files = o.texts(), read_files()
                if any(texts.values()) or any(files.values()):
                    c.bad("log-leak", "building problems printed something")
                for i, s in enumerate(order):
                    env.fresh()
                    e, so = o.next()
                    with e, so:
                        opts[s].solve(probs[s], seed=2)
                    t, f = o.texts(), read_files()
                    check_solve(c, "prepared %s%s, solve %d (%s)" % (">".join(order), " multi-objective" if multi else "", i + 1, s), opts[s], s, "P" + s, (texts, files), (t, f), i + 1, 2)
                    texts, files = t, f
                c.add(cases=1, solves=4)
                c.seen(order, multi)


def user_handlers(c, _):
    """Handlers the application attached stay attached, and a log file is written although the root logger has handlers."""
    allc = H.all_optimizers()
    for seq in itertools.product(("none", "console", "A"), repeat=2):
        for where in ("root", "own"):
            with world():
                s = io.StringIO()
                h = logging.StreamHandler(s)
                cls = allc["OriginalGWO"]
                lg = logging.getLogger("" if where == "root" else "%s.%s" % (cls.__module__, cls.__name__))
                lg.addHandler(h)
                for i, k in enumerate(seq):
                    env.fresh()
                    before = len(s.getvalue())
                    fb = read_files().get("a.log", "")
                    err = io.StringIO()
                    with contextlib.redirect_stderr(err):
                        H.make(cls, epoch=3, pop_size=10).solve(dict(obj_func=obj1, bounds=H.sp_f2(), name="P", **SETTINGS[k]), seed=1)
                    fresh = s.getvalue()[before:]
                    n_user = len(LINE.findall(fresh))
                    n_file = len(LINE.findall(read_files().get("a.log", "")[len(fb):]))
                    n_err = len(LINE.findall(err.getvalue()))
                    w = "%s handler on %s logger, %s solve %d" % (where, where, ">".join(seq), i + 1)
                    if h not in lg.handlers:
                        c.bad("user-handler-removed", w)
                    if n_file != (3 if k == "A" else 0):
                        c.bad("log-missing" if n_file < 3 else "log-lines", "%s: %d epoch lines in the file" % (w, n_file))
                    if k == "none" and (n_user or n_err):
                        c.bad("log-leak", "%s: log_to None printed %d lines" % (w, n_user + n_err))
                    if k == "console" and n_user + n_err < 3:
                        c.bad("log-missing", "%s: %d lines reached the console" % (w, n_user + n_err))
                lg.removeHandler(h)
                c.add(cases=1, solves=2)
                c.seen(seq, where)


def every_optimizer(c, names):
    """Each optimizer: one solve per destination, in both orders."""
    allc = H.all_optimizers()
    for n in names:
        for seq in (("none", "A", "console", "B", "none"), ("console", "none", "A", "A")):
            with world():
                o = Out()
                texts, files = {}, {}
                opt = None
                for i, s in enumerate(seq):
                    env.fresh()
                    e, so = o.next()
                    with e, so:
                        opt = opt or H.make(allc[n], epoch=2, pop_size=10)
                        try:
                            opt.solve(dict(obj_func=obj1, bounds=H.sp_f2(), name="P%d" % i, **SETTINGS[s]), seed=5)
                        except Exception:
                            break                       # C12's business
                    t, f = o.texts(), read_files()
                    k = len(c.viols)
                    check_solve(c, "%s %s solve %d (%s)" % (n, ">".join(seq), i + 1, s), opt, s, "P%d" % i, (texts, files), (t, f), i, None)
                    c.viols[k:] = [(n,) + v[1:] for v in c.viols[k:]]
                    texts, files = t, f
                c.add(cases=1, solves=len(seq))
                c.seen(n, seq)


def aborted(c, _):
    """A solve that dies in the objective leaves the next one's logging alone."""
    allc = H.all_optimizers()
    for first, second in itertools.product(("none", "console", "A"), ("none", "console", "A", "B")):
        for at in (0, 5, 14):
            with world():
                o = Out()
                opt = H.make(allc["OriginalGWO"], epoch=3, pop_size=10)
                cnt = [0]

                def dies(x):
                    cnt[0] += 1
                    if cnt[0] > at:
                        raise H.Injected("x")
                    return obj1(x)
                e, so = o.next()
                with e, so:
                    try:
                        opt.solve(dict(obj_func=dies, bounds=H.sp_f2(), name="Q", **SETTINGS[first]), seed=1)
                    except H.Injected:
                        pass
                before = o.texts(), read_files()
                e, so = o.next()
                with e, so:
                    opt.solve(dict(obj_func=obj1, bounds=H.sp_f2(), name="P", **SETTINGS[second]), seed=1)
                check_solve(c, "%s aborted at %d, then %s" % (first, at, second), opt, second, "P", before, (o.texts(), read_files()), 1, 3)
                c.add(cases=1, solves=2)
                c.seen(first, second, at)


def groups(tier):
    deep = tier == "thorough"
    names = list(H.all_optimizers())
    g = []
    core = ["none", "console", "A", "B"]
    for a in SETTINGS:
        seqs = [(a,)] + [(a, b) for b in SETTINGS]
        if a in core:
            seqs += [(a, b, d) for b in core for d in core]
        if deep and a in core:
            seqs += [(a, b, d, e) for b in core for d in core for e in core]
        if deep:
            seqs += [(a, b, d) for b in SETTINGS for d in SETTINGS if not {a, b, d} <= set(core)]
        g.append((sequence, "one-class-" + a, (["OriginalGWO"], seqs, ("dict", "instance", "term") + (("terminst", "thread", "multi") if deep else ()))))
        g.append((sequence, "two-classes-" + a, (["OriginalGWO", "BaseGA"], [s for s in seqs if len(s) > 1], ("dict",) + (("instance", "term") if deep else ()))))
        if not deep:
            g.append((sequence, "forms-" + a, (["OriginalPSO"], [s for s in seqs if len(s) <= 2], ("terminst", "thread", "multi"))))
    g += [(every_optimizer, "all-%d" % i, names[i::16]) for i in range(16)]
    g += [(prepared, "prepared", None), (user_handlers, "user-handlers", None), (aborted, "aborted", None)]
    return g


def main(tier):
    rep = Report("C26", tier, "exploration")
    rep.assumptions = ["solves run one after the other", "only the per-epoch lines are compared line by line; other log text is only required to go to the same place"]
    U.run_groups(rep, groups(tier))
    rep.add(rule="every sequence of up to 3 (thorough: 4) solves over the log settings (None, console, files, defaults) x problem form x one or two optimizer classes x shared or new optimizer object, plus every optimizer through all destinations; non-trivial = distinct sequence")
    return rep.finish()


replay = U.replayer(groups)
