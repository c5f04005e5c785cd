"""Collects what a check covered and found, prints the verdict, writes evidence and replay files."""
import hashlib
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")


def load_known(prop):
    """Lines: KNOWN property=C12 subject=JADE kind=crash-IndexError when=pop=min ; text
    An entry covers a violation with that subject and kind whose configuration contains every `when` feature."""
    out = []
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        line = line.strip()
        if not line.startswith("KNOWN "):
            continue
        head, _, text = line[6:].partition(" ; ")
        d = dict(kv.split("=", 1) for kv in head.split())
        if d["property"] != prop:
            continue
        when = d.get("when", "")
        d["when"] = frozenset(w for w in when.split(",") if w and w != "*")
        d["text"] = text
        d["hits"] = 0
        out.append(d)
    return out


class Report:
    ENVIRONMENT = {}              # what the environment's self-test compared, in every evidence file

    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.viol = {}            # (subject, kind) -> dict
        self.known = load_known(prop)
        self.cov = {}
        self.assumptions = []
        self.n_known = 0
        self.cov.update(self.ENVIRONMENT)

    def violation(self, subject, kind, features, detail, replay):
        """features: iterable of 'name=value' describing where it happened (simplest case is reported first)."""
        fs = frozenset(features)
        for k in self.known:
            if k["subject"] == subject and k["kind"] == kind and k["when"] <= fs:
                k["hits"] += 1
                self.n_known += 1
                return
        key = (subject, kind)
        v = self.viol.get(key)
        if v is None:
            self.viol[key] = dict(subject=subject, kind=kind, features=sorted(fs), detail=detail, replay=replay, count=1)
        else:
            v["count"] += 1
            if len(fs) < len(v["features"]):
                v.update(features=sorted(fs), detail=detail, replay=replay)

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            else:
                self.cov[k] = v

    def finish(self):
        wall = round(time.time() - self.t0, 2)
        for k in self.known:
            # a listed finding is reported whenever its entry is in force; hits tell whether this run met it
            print("KNOWN-FINDING: property=%s subject=%s kind=%s when=%s (%d cases this run) %s" % (
                self.prop, k["subject"], k["kind"], ",".join(sorted(k["when"])) or "*", k["hits"], k["text"]))
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=self.level,
                  coverage=self.cov, assumptions=self.assumptions, wall_s=wall, violations=len(self.viol))
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        rd = os.path.join(ROOT, "replay", self.prop)
        for v in self.viol.values():
            os.makedirs(rd, exist_ok=True)
            nm = "%s-%s-%s" % (v["subject"], v["kind"], hashlib.sha1(json.dumps(v["replay"], sort_keys=True, default=str).encode()).hexdigest()[:8])
            nm = "".join(c if c.isalnum() or c in "-_." else "_" for c in nm)[:120]
            path = os.path.join(rd, nm + ".json")
            with open(path, "w") as f:
                json.dump(dict(v, property=self.prop), f, indent=1, default=str)
            print("  %s [%s] %s (%d cases) at %s: %s" % (v["subject"], v["kind"], self.prop, v["count"], ",".join(v["features"]) or "base", str(v["detail"])[:300]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        c = {k: v for k, v in self.cov.items() if k not in ("samples", "rule")}
        print("%s %s: %d violation(s), %d known case(s), %.1fs, coverage %s" % (self.prop, self.tier, len(self.viol), self.n_known, wall, json.dumps(c, default=str)))
        sys.stdout.flush()
        return 1 if self.viol else 0
