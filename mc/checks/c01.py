from .. import explore as E, oracles as O
from ._trace import trace_check

F = E.sub(minmax=True, mode=["swarm", "thread"], space=True, pop=["min", "24"], epoch=[1, 7], start=["lhs", "corner"], stream=[1], land=["const", "up", "step"])
HF = E.sub(space=["negonly", "thin", "int"])
Q = E.sub(minmax=True, mode=["swarm"], space=["negonly", "thin", "int", "f1"], pop=["min"], epoch=[7], start=["corner"])
D = dict(space="f2", pop="min", epoch=2)
main, replay = trace_check("C01", O.c01,
    [E.mix(E.WIDE, Q, HF)],
    [E.late(dict(epoch=1000, pop="min", space="negonly", minmax="max"), dict(epoch=3000), dict(epoch=3000, pop="min", space="mixed", mode="swarm", land="step")), E.plan(E.FULL, 2, 2, F), E.draw_plan(D), E.draw_plan(dict(space="thin", pop="min", epoch=1, land="const"), 600)])
