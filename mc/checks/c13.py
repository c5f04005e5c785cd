"""C13: encode / decode / correct of every variable type, on every domain value and every vector of a critical grid."""
import numpy as np

from .. import env, spaces as S, units as U
from ..report import Report


def vec(kind, x):
    a = np.array(x, dtype=float)
    if kind == "list":
        return list(x)
    if kind == "tuple":
        return tuple(x)
    if kind == "readonly":
        a.setflags(write=False)
    if kind == "view":
        b = np.full(2 * len(x) + 1, 7.7)
        b[1::2] = a
        return b[1::2]
    if kind == "int":
        return np.array([int(max(min(v, 2 ** 60), -2 ** 60)) for v in x])
    return a


def objarr(s):
    a = np.empty(len(s), dtype=object)
    for i, x in enumerate(s):
        a[i] = x
    return a


def draws(v, d):
    """Outcomes of the random draws a correction makes: transfer variables draw one number per coordinate."""
    if hasattr(v, "tf_func"):
        import itertools
        return [dict(enumerate(c)) for c in itertools.product(("lo", "hi"), repeat=min(d.n + (0 if getattr(v, "all_zeros", True) else 1), 3))]
    return [{}]


def group(c, arg):
    d, cap = arg
    env.fresh()
    v = d.make()
    if v.n_vars != d.n or len(v.lb) != d.n or len(v.ub) != d.n or not np.all(v.lb <= v.ub):
        c.bad("shape", "n_vars=%r lb=%r ub=%r for %s" % (v.n_vars, v.lb, v.ub, d.label))
        return

    def with_draws(dv, f, x):
        v.seed = 7
        env.STATE.reset(dv)
        return f(x)
    # every domain value
    for val in d.values():
        if hasattr(v, "all_zeros") and not v.all_zeros and not any(val):
            continue
        for form in (list, tuple, objarr) if d.kind != "seq" else (list, tuple):
            given = form(val)
            e = v.encode(given)
            c.add(domain_values=1)
            if not (isinstance(e, np.ndarray) and e.shape == (d.n,) and e.dtype == float and np.all(e >= v.lb) and np.all(e <= v.ub)):
                c.bad("encode-range", "encode(%r) = %r" % (val, e))
                continue
            for dv in draws(v, d):
                back = with_draws(dv, v.decode, e)
                w = [tuple(val)] if d.kind == "seq" else val
                if not S.same_val(list(back), [list(w[0])] if d.kind == "seq" and d.ret is list else list(w)):
                    c.bad("roundtrip", "decode(encode(%r)) = %r" % (val, back))
                if d.kind == "seq" and type(back[0]) is not d.ret:
                    c.bad("decoded-type", "decode gives %r, declared %r" % (type(back[0]), d.ret))
                c2 = with_draws(dv, v.correct, e)
                b2 = with_draws(dv, v.decode, c2)
                if not S.same_val(list(b2), list(back)):
                    c.bad("meaning-changed", "decode(correct(encode(%r))) = %r" % (val, b2))
            c.seen("value", repr(val))
    # every vector of the grid
    lb0, ub0 = v.lb.copy(), v.ub.copy()
    for x in S.grid(d, v, cap):
        inside = all(a <= y <= b for a, y, b in zip(lb0, x, ub0))
        kinds = ("array", "list", "tuple", "readonly", "view", "int") if c.n.get("vectors", 0) % 5 == 0 else ("array",)
        for k in kinds:
            a = vec(k, x)
            xs = [float(t) for t in a]
            was = [float(t) for t in a]
            for dv in draws(v, d):
                c.add(vectors=1)
                y = with_draws(dv, v.correct, a)
                if not (isinstance(y, np.ndarray) and y.shape == (d.n,) and y.dtype.kind in "fi" and np.all(np.isfinite(y)) and np.all(y >= lb0) and np.all(y <= ub0)):
                    c.bad("correct-range", "correct(%r as %s) = %r" % (x, k, y))
                    continue
                y2 = with_draws({}, v.correct, y)
                if not np.array_equal(y, y2):
                    c.bad("not-idempotent", "correct(%r) = %r, again %r" % (x, y, y2))
                if inside and d.kind in ("float", "int", "bit", "bool") and not hasattr(v, "tf_func") and not np.array_equal(np.asarray(y, dtype=float), np.asarray(xs)):
                    if k != "int":
                        c.bad("valid-changed", "correct(%r) = %r although it is inside" % (x, y))
                z = with_draws(dv, v.decode, a)
                why = S.in_domain(d, z[0] if d.kind == "seq" else z)
                if why:
                    c.bad("decode-domain", "decode(%r as %s) = %r: %s" % (x, k, z, why))
                if d.kind == "seq" and type(z[0]) is not d.ret:
                    c.bad("decoded-type", "decode gives %r, declared %r" % (type(z[0]), d.ret))
                z2 = with_draws({}, v.decode, y)
                if not S.same_val(list(z), list(z2)):
                    c.bad("decode-correct-differ", "decode(%r) = %r but decode(correct(x)) = %r" % (x, z, z2))
                if [float(t) for t in a] != was:
                    c.bad("argument-changed", "%r became %r" % (was, a))
        c.seen("vec", x)
    if not (np.array_equal(v.lb, lb0) and np.array_equal(v.ub, ub0)):
        c.bad("bounds-changed", "%r %r" % (v.lb, v.ub))


def groups(tier):
    cap = 1500 if tier == "quick" else 60000
    return [(group, "%d %s" % (i, d.label), (d, cap)) for i, d in enumerate(S.definitions(tier))]


def main(tier):
    rep = Report("C13", tier, "exploration")
    rep.cov["rule"] = ("every variable definition of a finite family x every domain value (up to 3000) x every vector of the grid of critical coordinates "
                       "(bounds, one ulp around them, cell borders, middles, huge, signed zero) x the forms an array can be passed in x both outcomes of "
                       "every random draw of transfer variables; distinct counts (definition, value or vector) pairs")
    U.run_groups(rep, groups(tier))
    return rep.finish()


replay = U.replayer(groups)
