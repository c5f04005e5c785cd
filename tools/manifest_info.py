"""Technique, level and level note per check that is not one of the trace checks."""
L = "exploration"
RUN = "stateless exploration of the real code: every configuration within a deviation bound is executed under a controlled environment "
UNIT = "bounded exhaustive enumeration on the real code: "
B = " Outside the stated bounds nothing is claimed."
EXTRA = {
    "C05": (UNIT + "every history of (evaluations, clock, improvement) per epoch up to a depth drives the real solve(), compared with a reference model of the stopping rule", L,
            "The scripted optimizer overrides only evolve(); the clock is replaced. Part 2 binds the model to every shipped optimizer." + B),
    "C07": (RUN + "in two ambient states that differ in everything a run could read; the traces must be equal", L, "Ambient states: global RNGs, clock, hash seed (child interpreters), earlier activity." + B),
    "C08": (RUN + "after every short sequence of earlier solves, against a fresh object", L, "Sequences up to 2 earlier solves out of a fixed set of kinds." + B),
    "C09": ("systematic schedule exploration: worker pools are replaced by a controlled executor that enumerates completion orders and overlaps, and, for the shared code, every single bytecode preemption", L,
            "Process mode is exercised through the same executor plus real pools on a few configurations; schedules beyond the bound are not covered."),
    "C10": ("systematic interleaving exploration: solves nested at every evaluation, and two threads handed over at every pair of evaluation indexes", L, "Switch points are objective calls; bounds on switches are reported." + B),
    "C11": ("exhaustive fault injection: an exception at every evaluation index of a run, then a second solve compared with a fresh object", L, "In parallel modes the indexes next to epoch boundaries." + B),
    "C13": (UNIT + "every variable definition of a family x every domain value x every vector over a critical grid", L, "Grids contain the cell edges, ties and huge values." + B),
    "C14": (UNIT + "every outcome of the random draws on a lattice at least as fine as the domain", L, "The generator is replaced by an enumerating one." + B),
    "C16": (UNIT + "every ordered list of variables up to a length, compared with the single variables", L, "Lengths up to 3 (thorough 4)." + B),
    "C17": (UNIT + "all small vectors of objective values x weights x containers against exact rational arithmetic", L, "Tolerance of a few ulps for floating sums." + B),
    "C18": (UNIT + "every check x bound x value around the bound; every constructor parameter at, in and outside its range", L, "Ranges of the constructors are pinned in mc/ranges.json." + B),
    "C19": (RUN + "with parameters set later against constructed with them", L, "Values from the table in mc/hyper.py." + B),
    "C20": (UNIT + "every grid up to 4 keys against itertools.product", L, "Small sizes." + B),
    "C21": (UNIT + "every fitness table over a small alphabet through the real Tuner, against a reference ranking", L, "Solves are replaced by scripted ones where only bookkeeping is examined." + B),
    "C22": (UNIT + "every number of algorithms/problems/trials and every argument shape through the real Multitask under enumerated completion orders", L, "Scripted optimizers record how they were run." + B),
    "C23": (UNIT + "every population over small fitness alphabets and every lattice outcome of the draws", L, "The generator is replaced by an enumerating one." + B),
    "C24": (RUN + "saved at enumerated points of its life, loaded and compared, then solved further", L, "Points inside an epoch are taken at objective calls." + B),
    "C25": (RUN + "with snapshots of everything passed in or handed out, which is overwritten afterwards", L, "Values are compared structurally." + B),
    "C26": (UNIT + "every sequence of up to 3-4 solves over log destinations, with captured streams and files", L, "Sequential solves only." + B),
    "C27": (UNIT + "every shipped name, misspellings of each and every other name of the package", L, "The inventory is pinned in mc/inventory.json." + B),
    "C28": (UNIT + "all functions on dense grids from denormal to 1e308, all draw levels", L, "Grids, not all doubles." + B),
    "C29": (RUN + "twice, as max f and as min -f; the mirrored traces must be equal", L, "The objective never answers NaN." + B),
    "C30": (UNIT + "every short series, every choice of agents and dimensions, every order of two charts with figures of the caller's open, and all charts of a solve of every optimizer; the saved pictures are compared with the recorded data", L,
            "Pictures are read from the figure when it is saved; the bytes written are only checked for their file type." + B),
    "C31": (RUN + "together with its variations in objective, direction, seed and mode; the sets of points tried are compared", L,
            "Continuous variables; where no move improves, single and swarm mode are compared, otherwise only that no candidate gets lost." + B),
    "C32": (RUN + "with every hyper-parameter at its default and at every other option or near either end of its range, alone and next to every value of every other; the points tried are compared", L,
            "One value near each end stands for a range; up to eight configurations of at most 55 epochs, four next to a companion." + B),
}
