"""Shared driver of the checks that judge single runs (C01, C02, C03, C04, C06, C12, C15)."""
from .. import explore as E
from ..report import Report


def trace_check(prop, oracle, quick, thorough, assumptions=()):
    run = E.single([oracle])

    def main(tier):
        rep = Report(prop, tier, "exploration")
        rep.assumptions = list(assumptions)
        for pl in (quick if tier == "quick" else thorough):
            E.explore(rep, pl, run, rule=E.RULE)
        return rep.finish()
    return main, E.replay_single(run)
