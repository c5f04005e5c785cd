"""C16: a problem over a list of variables is exactly the concatenation of its variables, for every ordered list up to a length."""
import copy
import itertools

import numpy as np

from .. import env, harness as H, spaces as S, units as U
from ..report import Report
from mealpy.utils.problem import Problem


def pool(tier):
    ds = []
    ds += S.D_float(-3., 5., ("scalar",))
    ds += S.D_float([0., -10.], [1., 10.], ("list",))
    ds += S.D_int(1, 3, ("scalar",))
    ds += S.D_int([-2, 0], [0, 4], ("list",))
    ds += S.D_label(S.CategoricalVar, ("a", 2, None), nested=False)
    ds += S.D_label(S.StringVar, (("a", "b"), ("u", "v", "w")))
    ds += S.D_seq(((1,), (2, 3), (4, 5, 6)), list)
    ds += S.D_seq(([1, 2], [3, 4, 5]), tuple)
    ds += S.D_seq(((7,), (8, 9, 10)), np.array)
    ds += S.D_perm((3, 1, 4))
    ds += S.D_bits(S.BinaryVar, 2)
    ds += S.D_bits(S.BoolVar, 1)
    ds += S.D_bits(S.TransferBinaryVar, 2, tf_func="sstf_02", all_zeros=False)
    ds += S.D_bits(S.TransferBoolVar, 1, tf_func="vstf_03")
    if tier == "thorough":
        ds += S.D_bits(S.BinaryVar, 1)
        ds += S.D_bits(S.BoolVar, 3)
        ds += S.D_bits(S.TransferBinaryVar, 1, tf_func="vstf_01")
        ds += S.D_label(S.StringVar, ("p", "q"), nested=False)
        ds += S.D_seq(((1, 2), (3, 4), (5, 6)), set)
    return ds


def points(vs, ds, k):
    """k positions of the whole space, every component running through its critical values."""
    cs = [c for d, v in zip(ds, vs) for c in S.crit(d, v)]
    for t in range(k):
        yield [c[(t * (2 * j + 1) + 3 * j) % len(c)] for j, c in enumerate(cs)]


def as_py(x):
    if isinstance(x, np.ndarray):
        return [as_py(t) for t in x.tolist()]
    if isinstance(x, (list, tuple)):
        return [as_py(t) for t in x]
    return S.py(x)


def check_list(c, ds, form, k, minmax="min"):
    env.fresh()
    names = ["n%d" % i for i in range(len(ds))]

    def build():
        vs = [d.make(n) for d, n in zip(ds, names)]
        b = vs[0] if form == "bare" else list(vs) if form == "list" else tuple(vs)
        return vs, b
    vs, b = build()
    p = Problem(bounds=b, minmax=minmax, obj_func=lambda x: 0.0, log_to=None)
    alone, _ = build()
    sizes = [v.n_vars for v in alone]
    lb = [float(t) for v in alone for t in v.lb]
    ub = [float(t) for v in alone for t in v.ub]
    if list(map(float, p.lb)) != lb or list(map(float, p.ub)) != ub or p.n_dims != len(lb) or p.n_dims != sum(sizes):
        c.bad("shape", "lb=%s ub=%s n_dims=%s for variables with lb=%s ub=%s" % (p.lb, p.ub, p.n_dims, lb, ub))
        return
    cuts = np.cumsum([0] + sizes)

    def seeded(s):
        p.set_seed(s)
        for v, mine in zip(alone, p.bounds):
            v.seed = s
            v.generator = copy.deepcopy(mine.generator)        # the same outcomes of the draws, whatever stream a problem gives its variables
        env.STATE.reset({})

    for t, x in enumerate(points(alone, ds, k)):
        c.add(positions=1)
        parts = [x[cuts[i]:cuts[i + 1]] for i in range(len(ds))]
        for cont in (np.array, list, tuple) if t < 3 else (np.array,):
            xs = cont(x)
            seeded(t)
            got = p.correct_solution(xs)
            want = [np.asarray(v.correct(np.array(q)), dtype=float) for v, q in zip(alone, parts)]
            if not isinstance(got, np.ndarray) or got.dtype != float or got.shape != (len(lb),) or got.tolist() != np.concatenate(want).tolist():
                c.bad("correct", "correct(%s) = %s, variables give %s" % (x, got, want))
            seeded(t)
            got = p.decode_solution(xs)
            exp = {}
            for v, n, q in zip(alone, names, parts):
                r = v.decode(np.array(q))
                exp[n] = r[0] if v.n_vars == 1 else r
            if list(got) != list(exp) or any(as_py(got[n]) != as_py(exp[n]) or (np.ndim(got[n]) == 0) != (np.ndim(exp[n]) == 0) for n in exp):
                c.bad("decode", "decode(%s) = %s, variables give %s" % (x, got, exp))
            if list(map(float, xs)) != list(map(float, x)):
                c.bad("argument-changed", "%s -> %s" % (x, xs))
        c.seen(repr([d.label for d in ds]), t)
    # generation: in the order of the variables, each from its own generator
    for s in (0, 3, 8):
        seeded(s)
        raw = p.generate_solution(encoded=False)
        want = [v.generate() for v in alone]
        if not isinstance(raw, list) or [as_py(t) for t in raw] != [as_py(t) for t in want]:
            c.bad("generate", "generate = %s, variables give %s" % (raw, want))
            continue
        seeded(s)
        enc = p.generate_solution()
        wenc = np.concatenate([v.encode(t) for v, t in zip(alone, want)])
        if not isinstance(enc, np.ndarray) or enc.tolist() != wenc.tolist():
            c.bad("encode", "generated %s encodes to %s, variables give %s" % (want, enc, wenc))
        e2 = p.encode_solution(want)
        if e2.tolist() != wenc.tolist():
            c.bad("encode", "encode(%s) = %s, variables give %s" % (want, e2, wenc))
        c.add(generated=1)
    # every domain value of each variable in turn, the others at their first one
    vals = [d.values(40) for d in ds]
    vals = [[w for w in vv if not (hasattr(v, "all_zeros") and not v.all_zeros and not any(w))] for vv, v in zip(vals, alone)]
    for i, vv in enumerate(vals):
        for w in vv:
            full = [vals[j][0] for j in range(len(ds))]
            full[i] = w
            e = p.encode_solution(full)
            want = np.concatenate([v.encode(q) for v, q in zip(alone, full)])
            if e.tolist() != want.tolist():
                c.bad("encode", "encode(%s) = %s, variables give %s" % (full, e, want))
                continue
            env.STATE.reset({})
            dec = p.decode_solution(e)
            for n, v, q, d in zip(names, alone, full, ds):
                g = dec[n]
                exp = q if d.kind == "seq" or v.n_vars > 1 else q[0]
                if not S.same_val(as_py(g), as_py(exp)):
                    c.bad("roundtrip", "%s of %s decodes to %r" % (n, full, g))
            c.add(domain_values=1)


def group(c, arg):
    ds, form, k = arg
    check_list(c, ds, form, k)


def many(c, arg):
    for ds, form, k in arg:
        check_list(c, ds, form, k)
        c.add(lists=1)


def groups(tier):
    P = pool(tier)
    out = []
    deep = 3 if tier == "quick" else 4
    kk = {1: 40, 2: 16, 3: 6, 4: 4}
    for n in range(1, deep + 1):
        combos = list(itertools.product(P[:12] if n == 4 else P, repeat=n))
        batch = [(ds, f, kk[n] if tier == "quick" else 3 * kk[n]) for i, ds in enumerate(combos) for f in (("bare", "list", "tuple") if n == 1 else ("list", "tuple") if n == 2 else ("list",) if i % 2 else ("tuple",))]
        for i in range(0, len(batch), 40):
            out.append((many, "%d variables, lists %d.." % (n, i), batch[i:i + 40]))
    return out


def main(tier):
    rep = Report("C16", tier, "exploration")
    rep.cov["rule"] = ("every ordered list of up to %d variables out of a pool of %d definitions of all types x critical positions and every domain value of each variable; "
                       "the reference is the same variables used alone with the same random draws; distinct counts (list, position) pairs" % (3 if tier == "quick" else 4, len(pool(tier))))
    U.run_groups(rep, groups(tier))
    return rep.finish()


replay = U.replayer(groups)
