from .. import explore as E, oracles as O
from ._trace import trace_check

F = E.sub(minmax=True, mode=True, space=["f1", "int", "mixed", "perm", "thin"], pop=["min", "24"], epoch=[1, 7], start=["lhs", "same"], stream=[1, 2],
          land=["const", "step", "alt", "up", "corner"], objs=["2"], reuse=True)
HF = E.sub(minmax=True, land=["alt"], mode=["swarm"])
Q = E.sub(minmax=True, mode=["swarm"], space=["int", "thin"], pop=["min"], epoch=[7], start=["same"], land=["step", "alt", "up"])
A = dict(space="f2", pop="min", epoch=2)
main, replay = trace_check("C02", O.c02,
    [E.mix(E.FULL, Q, HF), E.answer_plan(A, limit=16)],
    [E.late(dict(epoch=1000, pop="min", space="f1"), dict(epoch=3000), dict(epoch=3000, pop="min", space="mixed", mode="swarm", land="step")), E.plan(E.FULL, 2, 2, F), E.answer_plan(A, pairs=24), E.draw_plan(A, 800)])
