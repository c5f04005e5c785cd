"""Writes mc/ranges.json: for every optimizer the ranges its constructor states (recorded by watching the validator while
constructing), in the default context and in every context with one hyper-parameter changed in which they differ."""
import json, math, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mc import harness as H, hyper


def enc(kind, b1, b2):
    def one(b):
        if b is None:
            return None
        if not isinstance(b, (list, tuple)) or (kind == "check_str"):
            return list(b)
        return dict(open=isinstance(b, tuple), lo=str(float(b[0])), hi=str(float(b[1])))
    if kind in ("check_str", "check_bool"):
        return dict(kind=kind, options=list(b1) if b1 is not None else None)
    return dict(kind=kind, b=one(b1), b2=one(b2))


def table(cls, **kw):
    o, seen, err = hyper.watch(cls, **kw)
    return (None if err else o), {n: enc(k, b1, b2) for k, n, v, b1, b2 in seen if n not in ()}, err


out = {}
for n, c in H.all_optimizers().items():
    o, base, err = table(c)
    if err is not None:
        raise SystemExit("%s() fails: %s" % (n, err))
    ctxs = []
    for a in hyper.alternatives(c) + [dict(pop_size=20), dict(pop_size=51), dict(epoch=50)]:
        if not all(isinstance(v, (int, float, str, bool)) for v in a.values()):
            continue
        o2, t, err = table(c, **a)
        diff = {k: v for k, v in t.items() if base.get(k) != v}
        if diff and o2 is not None:
            ctxs.append(dict(given=a, ranges=diff))
    out[n] = dict(ranges=base, contexts=ctxs)
json.dump(out, open(os.path.join(ROOT, "mc/ranges.json"), "w"), indent=0, sort_keys=True)
print(len(out), sum(len(v["ranges"]) for v in out.values()), sum(len(v["contexts"]) for v in out.values()))

# the inside values the constructor refuses because of ANOTHER parameter's value (the message names that one)
import re
from mc.checks import c18
R = json.load(open(os.path.join(ROOT, "mc/ranges.json")))
for n, c in H.all_optimizers().items():
    ex = []
    for given, ranges in [({}, R[n]["ranges"])] + [(x["given"], x["ranges"]) for x in R[n]["contexts"]]:
        for p, r in ranges.items():
            for x in c18.probes(r)[0]:
                o, e = c18.construct(c, {**given, p: x})
                if o is None:
                    m = re.match(r"'(\w+)'", str(e))
                    assert isinstance(e, ValueError) and m and m[1] != p, (n, given, p, x, e)
                    ex.append([repr(sorted(given.items())), p, repr(x)])
    if ex:
        R[n]["coupled"] = ex
json.dump(R, open(os.path.join(ROOT, "mc/ranges.json"), "w"), indent=0, sort_keys=True)
print(sum(len(v.get("coupled", [])) for v in R.values()), "coupled")
