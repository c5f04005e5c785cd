from .. import explore as E, oracles as O
from ._trace import trace_check

F = E.sub(land=True, minmax=True, mode=["swarm", "thread"], space=["f1", "int", "mixed", "flat"], pop=["min", "24"], epoch=[1, 7], start=["lhs"], stream=[1, 2])
HF = E.sub(minmax=True, land=["const", "up", "down", "alt"])
Q = E.sub(minmax=True, land=["const", "up", "down", "alt"], mode=["swarm"], space=["int"], pop=["min"], epoch=[7], start=["lhs"])
A, B = dict(space="f2", pop="min", epoch=2), dict(space="f2", pop="min", epoch=2, minmax="max")
main, replay = trace_check("C03", O.c03,
    [E.mix(E.WIDE, Q, HF), E.answer_plan(B, limit=20)],
    [E.late(dict(epoch=1000, pop="min", space="negonly", minmax="max"), dict(epoch=3000), dict(epoch=3000, pop="min", space="mixed", mode="swarm", land="step")), E.plan(E.FULL, 2, 2, F), E.answer_plan(A, pairs=24), E.answer_plan(B, pairs=24), E.draw_plan(B, 800)])
