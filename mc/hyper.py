"""Finds, by watching the validator during construction, each optimizer's hyper-parameters and their stated ranges."""
import math
from . import harness as H
from mealpy.utils.validator import Validator

KINDS = ("check_int", "check_float", "check_str", "check_bool", "check_is_int_and_float", "check_tuple_int", "check_tuple_float")


def watch(cls, **kw):
    """Construct cls(**kw); return (object or None, list of (kind, name, value, bounds), error)."""
    seen = []
    saved = {k: getattr(Validator, k) for k in KINDS}

    def wrap(k):
        f = saved[k]

        def g(self, name, value, *a, **b):
            seen.append((k, name, value, a[0] if a else b.get("bound", b.get("bounds", b.get("bound_int"))),
                         a[1] if len(a) > 1 else b.get("bound_float")))
            return f(self, name, value, *a, **b)
        return g
    for k in KINDS:
        setattr(Validator, k, wrap(k))
    try:
        return cls(**kw), seen, None
    except ValueError as e:
        return None, seen, e
    finally:
        for k in KINDS:
            setattr(Validator, k, saved[k])


_CACHE = {}
GA_EXTRA = [dict(selection="roulette"), dict(selection="random"), dict(crossover="one_point"), dict(crossover="multi_points"),
            dict(crossover="arithmetic"), dict(mutation_multipoints=False), dict(mutation="swap"),
            dict(mutation_multipoints=False, mutation="swap"), dict(mutation_multipoints=False, mutation="scramble"),
            dict(mutation_multipoints=False, mutation="inversion"), dict(k_way=0.9), dict(selection="tournament", k_way=0.01)]


def _num(kind, v, b):
    """In-range alternatives to v: close to each end of the stated range (bounded so that runs stay small)."""
    if not isinstance(b, (list, tuple)) or len(b) != 2:
        return []
    lo, hi = float(b[0]), float(b[1])
    out = []
    if kind == "int":
        if math.isinf(lo):
            lo = -3
        a = int(lo) if isinstance(b, list) else int(math.floor(lo)) + 1
        if hi - a <= 6:
            return [x for x in range(a, int(hi) + (1 if isinstance(b, list) else 0)) if x != v]
        z = min(hi if isinstance(b, list) else math.ceil(hi) - 1, max(abs(v) * 2 + 2, a + 2))
        out = [a, int(z)]
    else:
        lo2 = lo if not math.isinf(lo) else -abs(v) * 3 - 1
        hi2 = min(hi, max(abs(v) * 4 + 1, lo2 + 1)) if not math.isinf(hi) else max(abs(v) * 4 + 1, lo2 + 1)
        eps = 0.02 * (hi2 - lo2)
        a = lo2 if isinstance(b, list) else lo2 + eps
        z = hi2 if isinstance(b, list) else hi2 - eps
        out = [a, z]
    return [x for x in dict.fromkeys(out) if x != v]


def alternatives(cls, pop_size=10, epoch=3):
    """[{name: value}, ...]: one hyper-parameter (or one coupled group) changed at a time, all accepted by the constructor."""
    if (cls, pop_size, epoch) in _CACHE:
        return _CACHE[cls, pop_size, epoch]
    base = H.make(cls, epoch=epoch, pop_size=pop_size)
    kw0 = {k: v for k, v in base.get_parameters().items()}
    o, seen, err = watch(cls, **kw0)
    if err is not None:
        o, seen, err = watch(cls, epoch=epoch, pop_size=int(base.pop_size))
    cands = []
    done = set()
    for kind, name, val, b1, b2 in seen:
        if name in ("epoch", "pop_size") or name in done:
            continue
        done.add(name)
        if kind == "check_str":
            cands += [{name: x} for x in list(b1 or []) if x != val]
        elif kind == "check_bool":
            cands.append({name: not val})
        elif kind == "check_int":
            cands += [{name: x} for x in _num("int", val, b1)]
        elif kind == "check_float":
            cands += [{name: x} for x in _num("float", val, b1)]
        elif kind == "check_is_int_and_float":
            cands += [{name: x} for x in _num("int", int(val), b1)] + [{name: float(x)} for x in _num("float", float(val), b2)]
        elif kind.startswith("check_tuple"):
            bs = b1 if b1 is not None else []
            for i, b in enumerate(bs):
                for x in _num("int" if kind.endswith("int") else "float", val[i], b):
                    t = list(val)
                    t[i] = x
                    cands.append({name: tuple(t)})
    if any(c.__name__ == "BaseGA" for c in cls.__mro__):
        cands += GA_EXTRA
    out = []
    seenr = set()
    for c in cands:
        r = repr(sorted(c.items()))
        if r in seenr:
            continue
        seenr.add(r)
        try:
            o = cls(**{**kw0, **c})
        except TypeError:
            continue
        except ValueError:
            continue                    # coupled to another parameter's value
        out.append(c)
    _CACHE[cls, pop_size, epoch] = out
    return out


def hp_id(c):
    return "+".join("%s:%s" % (k, repr(v).replace(" ", "").replace("'", "").replace(",", "|")) for k, v in sorted(c.items()))
