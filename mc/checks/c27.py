"""C27: the registry knows every shipped optimizer under its names, and no other name."""
import contextlib
import inspect
import io
import json
import os

from .. import env, harness as H, hyper, units as U
from ..report import Report
import mealpy
from mealpy.optimizer import Optimizer

INV = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "inventory.json")))
ALL = {n: m for m, ns in INV.items() for n in ns}


def quiet(f, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = f(*a, **k)
    return r, out.getvalue()


def registry(c, _):
    found = H.all_optimizers()
    c.add(cases=4, classes=len(found))
    for n in sorted(set(ALL) - set(found)):
        c.bad("class-missing", "%s is no longer defined in any module" % n, subject=n)
    for verbose in (False, True):
        got, text = quiet(mealpy.get_all_optimizers, verbose=verbose)
        if not isinstance(got, dict):
            c.bad("registry-type", "get_all_optimizers returns %r" % type(got))
            return
        for n in sorted(set(found) - set(got)):
            c.bad("registry-missing", "get_all_optimizers lacks %s" % n, subject=n)
        for n in sorted(set(got) - set(found)):
            c.bad("registry-extra", "get_all_optimizers lists %s, which no module ships" % n, subject=n)
        for n, k in got.items():
            if k is not found.get(n) or k.__name__ != n:
                c.bad("registry-wrong", "get_all_optimizers maps %s to %r" % (n, k), subject=n)
        if verbose:
            for n in found:
                if n not in text:
                    c.bad("registry-silent", "verbose listing omits %s" % n, subject=n)
        elif text:
            c.bad("registry-noise", "verbose=False printed %r" % text[:80])
    a, _ = quiet(mealpy.get_all_optimizers, verbose=False)
    a.clear()                                       # the caller's dictionary is his own
    b, _ = quiet(mealpy.get_all_optimizers, verbose=False)
    if set(b) != set(found):
        c.bad("registry-shared", "emptying one answer of get_all_optimizers changes the next")
    for m, ns in INV.items():
        mod = getattr(mealpy, m, None)
        for n in ns:
            if not (inspect.isclass(getattr(mod, n, None)) and issubclass(getattr(mod, n), Optimizer)):
                c.bad("class-missing", "mealpy.%s.%s is not importable" % (m, n), subject=n)
            c.seen(n)


def mutations(name):
    yield from {name.lower(), name.upper(), name + "s", name[:-1], " " + name, name + " ", name + ".", "mealpy." + name, name[::-1], name.swapcase(), name + "\n", name.replace("_", "-") + "-"} - {name}


def by_class(c, names):
    found = H.all_optimizers()
    for n in names:
        for verbose in (False, True)[:1]:
            r, text = quiet(mealpy.get_optimizer_by_class, n)
            c.add(cases=1)
            c.seen(n)
            if r is not found.get(n) or r is None:
                c.bad("by-class", "get_optimizer_by_class(%r) gives %r" % (n, r), subject=n)
            if text:
                c.bad("by-class-noise", "get_optimizer_by_class(%r) printed %r" % (n, text[:60]), subject=n)
        r, _ = quiet(mealpy.get_optimizer_by_name, n)
        if r is not found.get(n) or r is None:
            c.bad("by-name", "get_optimizer_by_name(%r) gives %r" % (n, r), subject=n)
        for m in mutations(n):
            if m in found or m in INV:
                continue
            for f in (mealpy.get_optimizer_by_class, mealpy.get_optimizer_by_name):
                c.add(cases=1)
                c.seen(f.__name__, m)
                try:
                    r, text = quiet(f, m)
                except Exception as e:
                    r, text = e, "x"
                if r is not None:
                    c.bad("unknown-accepted", "%s(%r) gives %r" % (f.__name__, m, r), subject=n)


def by_name(c, mods):
    found = H.all_optimizers()
    for m in mods:
        want = {n: k for n, k in found.items() if k.__module__.rsplit(".", 1)[1] == m}
        for verbose in (False, True):
            r, text = quiet(mealpy.get_optimizer_by_name, m, verbose=verbose)
            c.add(cases=1)
            c.seen(m, verbose)
            if not isinstance(r, dict) or {n: id(k) for n, k in r.items()} != {n: id(k) for n, k in want.items()}:
                c.bad("by-name", "get_optimizer_by_name(%r, verbose=%s) gives %s, the module ships %s" % (m, verbose, sorted(r) if isinstance(r, dict) else r, sorted(want)), subject=m)
            if verbose and not all(n in text for n in want):
                c.bad("by-name-silent", "verbose listing of %s is %r" % (m, text[:200]), subject=m)
            if not verbose and text:
                c.bad("by-name-noise", "get_optimizer_by_name(%r) printed" % m, subject=m)
        r, _ = quiet(mealpy.get_optimizer_by_class, m)
        if m not in found and r is not None:
            c.bad("unknown-accepted", "get_optimizer_by_class(%r) gives %r" % (m, r), subject=m)
        for x in mutations(m):
            if x in found or x in INV:
                continue
            for f in (mealpy.get_optimizer_by_class, mealpy.get_optimizer_by_name):
                c.add(cases=1)
                c.seen(f.__name__, x)
                try:
                    r, text = quiet(f, x)
                except Exception as e:
                    r = e
                if r is not None:
                    c.bad("unknown-accepted", "%s(%r) gives %r" % (f.__name__, x, r if not isinstance(r, dict) else sorted(r)), subject=m)


def strangers(c, _):
    """Names that exist in the package but are no optimizer."""
    names = [n for n in dir(mealpy) if n not in ALL and n not in INV] + ["", " ", "Optimizer", "optimizer", "current_module", "__init__", "PSO.OriginalPSO", "OriginalPSO()", "*", None, 3, True, 2.5, ("OriginalPSO",)]
    for n in names:
        for f in (mealpy.get_optimizer_by_class, mealpy.get_optimizer_by_name):
            for v in (False, True)[: 2 if f is mealpy.get_optimizer_by_name else 1]:
                c.add(cases=1)
                c.seen(f.__name__, repr(n), v)
                try:
                    r, text = quiet(f, n, verbose=v)
                except Exception as e:
                    r = e
                if r is not None:
                    c.bad("unknown-accepted", "%s(%r, verbose=%s) gives %r" % (f.__name__, n, v, r if not isinstance(r, dict) else dict(list(r.items())[:3])))


def describes(c, o, what, name):
    t = str(o)
    p = o.get_parameters()
    if o.get_name() != str(o.name) and o.get_name() != name:
        c.bad("name", "%s: get_name() is %r" % (what, o.get_name()), subject=name)
    if not (t.startswith(name + "(") and t.endswith(")")):
        c.bad("text", "%s: str() is %r" % (what, t), subject=name)
        return
    body = t[len(name) + 1:-1]
    want = sorted("%s=%s" % (k, p[k]) for k in p)
    rest = body
    for w in sorted(want, key=len, reverse=True):
        if w not in rest:
            c.bad("text", "%s: str() is %r, parameters are %r" % (what, t, p), subject=name)
            return
        rest = rest.replace(w, "", 1)
    if rest.strip(", "):
        c.bad("text", "%s: str() says %r besides the parameters" % (what, rest), subject=name)
    for k, v in p.items():
        a = getattr(o, k, "missing")
        if (name, k) == ("OriginalPO", "pop_size"):
            continue                                # n parties of n members: the attribute counts agents, the parameter parties
        if a is not v and repr(a) != repr(v):
            c.bad("parameter-attribute", "%s: get_parameters()[%r] is %r, the attribute is %r" % (what, k, v, a), subject=name)


def construct(c, names):
    found = H.all_optimizers()
    for n in names:
        cls = found[n]
        sig = inspect.signature(cls.__init__).parameters
        try:
            o = cls()
        except Exception as e:
            c.bad("default-construction", "%s(): %r" % (n, e), subject=n)
            continue
        c.add(cases=1)
        c.seen(n)
        describes(c, o, "%s()" % n, n)
        for k, p in sig.items():
            if k in o.get_parameters() and p.default is not inspect.Parameter.empty:
                v = o.get_parameters()[k]
                d = p.default
                if not (v == d or repr(v) == repr(d) or (isinstance(d, (list, tuple)) and list(v) == list(d))):
                    c.bad("default-value", "%s(): %s is %r, the signature says %r" % (n, k, v, d), subject=n)
        if "epoch" not in o.get_parameters() or "pop_size" not in o.get_parameters():
            c.bad("parameters", "%s(): parameters are %s" % (n, list(o.get_parameters())), subject=n)
        named = cls(name="my own name")
        if named.get_name() != "my own name":
            c.bad("name", "%s(name=...) is called %r" % (n, named.get_name()), subject=n)
        for a in hyper.alternatives(cls):
            c.add(cases=1)
            c.seen(n, hyper.hp_id(a))
            o = H.make(cls, epoch=3, pop_size=10, **a)
            describes(c, o, "%s(%s)" % (n, hyper.hp_id(a)), n)
            for k, v in a.items():
                if k in o.get_parameters() and o.get_parameters()[k] != v and repr(o.get_parameters()[k]) != repr(v):
                    c.bad("parameter-attribute", "%s(%s=%r) stores %r" % (n, k, v, o.get_parameters()[k]), subject=n)
        # after a solve it still describes itself by the parameters it was given (some adapt their population during a run)
        o = H.make(cls, epoch=3, pop_size=10)
        t = str(o)
        env.fresh()
        try:
            o.solve({"obj_func": lambda x: float(sum(x * x)), "bounds": H.sp_f2(), "log_to": None}, seed=1)
        except Exception:
            continue
        if str(o) != t:
            c.bad("text", "%s: str() is %r before a solve and %r afterwards" % (n, t, str(o)), subject=n)


def groups(tier):
    names = sorted(H.all_optimizers())
    g = [(registry, "registry", None), (strangers, "strangers", None)]
    g += [(by_class, "by-class-%d" % i, names[i::16]) for i in range(16)]
    g += [(by_name, "by-name-%d" % i, sorted(INV)[i::8]) for i in range(8)]
    g += [(construct, "construct-%d" % i, names[i::16]) for i in range(16)]
    return g


def main(tier):
    rep = Report("C27", tier, "exploration")
    rep.assumptions = ["the shipped optimizers are those of mc/inventory.json (pinned) plus whatever the modules define"]
    U.run_groups(rep, groups(tier))
    rep.add(rule="every shipped class and module name, twelve misspellings of each, every other name of the package, every hyper-parameter alternative of every class; non-trivial = distinct name or configuration")
    return rep.finish()


replay = U.replayer(groups)
