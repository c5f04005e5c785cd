"""Exhaustive enumeration over small components: groups of cases, spread over the cores."""
import multiprocessing as mp
import os
import traceback

_J = {}


class Ctx:
    """What one group of cases found and covered."""

    def __init__(self, subject, replay):
        self.subject, self.replay = subject, replay
        self.viols, self.n, self.distinct = [], {}, set()

    def add(self, **kw):
        for k, v in kw.items():
            self.n[k] = self.n.get(k, 0) + v

    def bad(self, kind, detail, features=(), subject=None):
        if len(self.viols) < 40:
            self.viols.append((subject or self.subject, kind, tuple(features), str(detail)[:400], self.replay))

    def seen(self, *key):
        self.distinct.add(hash(key))


def _one(i):
    fn, gid, arg = _J["groups"][i]
    c = Ctx(gid, dict(group=gid))
    try:
        fn(c, arg)
    except Exception as e:
        c.bad("unexpected-" + type(e).__name__, "%s: %s" % (e, " <- ".join(
            "%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-4:]))))
    return c.viols, c.n, len(c.distinct)


def run_groups(rep, groups, procs=None):
    """groups: list of (function(ctx, arg), group id, arg)."""
    _J["groups"] = groups
    n = procs or int(os.environ.get("MC_PROCS", "8"))
    with mp.get_context("fork").Pool(n) as pool:
        for viols, cov, d in pool.imap_unordered(_one, range(len(groups)), chunksize=1):
            for s, k, fs, det, rp in viols:
                rep.violation(s, k, fs, det, rp)
            cases = cov.pop("cases", None)
            rep.add(distinct_nontrivial=d, evaluations=sum(cov.values()) if cases is None else cases, **cov)
    rep.add(groups=len(groups))
    rep.cov["exhaustive"] = True
    rep.cov.setdefault("samples", [])
    rep.cov["samples"] += [g[1] for g in groups[:: max(1, len(groups) // 8)]][:10]


def run_here(rep, groups):
    """For groups that start worker processes of their own (a pool's daemonic worker may not)."""
    _J["groups"] = groups
    for i in range(len(groups)):
        viols, cov, d = _one(i)
        for s, k, fs, det, rp in viols:
            rep.violation(s, k, fs, det, rp)
        cases = cov.pop("cases", None)
        rep.add(distinct_nontrivial=d, evaluations=sum(cov.values()) if cases is None else cases, groups=1, **cov)


def replayer(all_groups):
    """all_groups: callable tier -> groups"""
    def rp(r):
        for fn, gid, arg in all_groups("thorough") + all_groups("quick"):
            if gid == r["group"]:
                _J["groups"] = [(fn, gid, arg)]
                viols = _one(0)[0]
                for v in viols:
                    print("VIOLATED", v[0], v[1], v[2], v[3])
                return 1 if viols else 0
        print("no such group", r)
        return 2
    return rp
