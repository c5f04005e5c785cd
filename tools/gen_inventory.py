"""Pins the shipped optimizers (module short name -> classes) in mc/inventory.json; run on a tree known to be good."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mc import harness as H
inv = {}
for n, c in H.all_optimizers().items():
    inv.setdefault(c.__module__.rsplit(".", 1)[1], []).append(n)
json.dump({k: sorted(v) for k, v in sorted(inv.items())}, open(os.path.join(ROOT, "mc/inventory.json"), "w"), indent=0)
print(len(inv), sum(map(len, inv.values())))
