"""Writes MANIFEST.json from the checks that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "trace": ("exhaustive exploration of bounded run configurations (and single random-draw / objective-answer deviations) of the real code under a controlled environment", "exploration",
              "Every run within the stated bounds is executed on the real code; outside the bounds (larger deviations, other problems) nothing is claimed. Trusts the oracle in mc/oracles.py and the controlled random stream."),
}
INFO = {i: TECH["trace"] for i in ("C01", "C02", "C03", "C04", "C06", "C12", "C15")}
try:
    from manifest_info import EXTRA
    INFO.update(EXTRA)
except ImportError:
    pass

if __name__ == "__main__":
    props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        if p in INFO and os.path.exists(os.path.join(ROOT, "mc/checks/%s.py" % p.lower())):
            t, lv, note = INFO[p]
            checks.append(dict(property=p, quick_cmd="bin/check %s quick" % p, thorough_cmd="bin/check %s thorough" % p,
                               evidence_file="evidence/%s.json" % p, technique=t, level=lv, level_note=note))
        else:
            na.append(dict(property=p, reason="not claimed: no check built yet"))
    m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
             notes="bin/check <id> [quick|thorough] [--replay FILE]; no hooks in /repo: all seams are attributes of numpy/random/time/concurrent.futures replaced inside the check process (mc/env.py).")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed")
