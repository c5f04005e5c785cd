from .. import explore as E, oracles as O
from ._trace import trace_check

F = E.sub(land=["const", "alt", "up", "down", "big"], minmax=True, mode=["swarm", "thread"], space=["f1", "int", "flat"], pop=["min", "24"], epoch=[1, 2, 7], start=["lhs"],
          term=["mg2", "fe10", "fe35", "es1", "es2"], save=True, reuse=True, stream=[1])
HF = E.sub(minmax=True, land=["alt"], epoch=[7])
Q = E.sub(land=["const", "alt", "down"], minmax=True, mode=["swarm"], epoch=[1, 7], term=["fe35", "es1"], save=True, reuse=True)
A, B = dict(space="f2", pop="min", epoch=2), dict(space="f2", pop="min", epoch=2, minmax="max")
main, replay = trace_check("C04", O.c04,
    [E.mix(E.WIDE, Q, HF), E.answer_plan(B, limit=16)],
    [E.plan(E.FULL, 2, 2, F), E.answer_plan(A, pairs=24), E.answer_plan(B, pairs=24), E.draw_plan(B, 800)])
