from .. import explore as E, oracles as O
from ._trace import trace_check

F = E.sub(mode=True, land=["const", "alt", "up", "down"], minmax=True, space=["f1", "mixed"], pop=["min", "24"], epoch=[1, 7], start=["lhs", "same"], term=["fe35", "es1"], reuse=True, stream=[1])
HF = E.sub(mode=["swarm"], land=["const", "down"])
Q = E.sub(mode=["swarm"], land=["const", "alt", "down"], minmax=True, pop=["min"], epoch=[7], start=["lhs"], term=["fe35"], reuse=True)
A = dict(space="f2", pop="min", epoch=2)
main, replay = trace_check("C06", O.c06,
    [E.mix(E.FULL, Q, HF), E.answer_plan(A, limit=16)],
    [E.plan(E.FULL, 2, 2, F), E.answer_plan(A, pairs=24), E.draw_plan(A, 800)])
