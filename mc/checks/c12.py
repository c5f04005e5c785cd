from .. import explore as E, oracles as O
from ._trace import trace_check

F = E.sub(land=True, minmax=True, mode=["swarm", "thread"], space=["f1", "f2", "thin", "flat", "huge", "frac", "int", "bin", "perm", "mixed", "trans"],
          pop=["min", "13", "24"], epoch=[1, 2, 7], start=["same"], objs=["2"], stream=[1])
HF = E.sub(space=["f1", "flat"], land=["const"], pop=["min"], epoch=[1])
Q = E.sub(land=["const", "big", "neg", "alt"], minmax=True, mode=["swarm"], space=["f1", "flat", "huge", "perm"], pop=["min"], epoch=[1, 7])
D = dict(space="f1", pop="min", epoch=2, land="const")
L1000 = [dict(epoch=1000, pop="min", space="f2"), dict(epoch=1000, pop="min", space="f1", land="const", minmax="max")]
L10000 = [dict(epoch=10000, pop="min", space="f2"), dict(epoch=10000, pop="min", space="f3", land="step", minmax="max"), dict(epoch=3000, land="wall", mode="swarm")]
main, replay = trace_check("C12", O.c12,
    [E.mix(E.FULL, Q, HF)],
    [E.late_hp(epoch=300, pop="min", space="f2", land="step"), E.late(*L1000, *L10000), E.late_hp(epoch=300, pop="min", space="f2", land="const", minmax="max"),
     E.late_hp(epoch=1000, pop="min", space="f2", land="step"), E.plan(E.FULL, 2, 2, F), E.draw_plan(D), E.draw_plan(dict(space="f2", pop="min", epoch=2), 1000)])
