"""Writes the `fixed:` part of known_findings.txt from the fix commits in /repo (development only; KNOWN lines are kept)."""
import os, re, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [  # first match wins
    (r"mutation probability|c1 takes effect|by patch_reduction|gain nutrients|pulse frequency leads|vibration they have just", "C32"),
    (r"in the parallel modes too|its moves in the parallel|second half in the parallel|derived rates in the parallel|to the place it was made|own orca|best scrounger", "C31"),
    (r"stream of its own", "C14"),
    (r"set_parameters|reports pop_size squared|truncates the step size Ci|keeps the clan size|derive the bee counts", "C19"),
    (r"later solve|second solve|next solve with|earlier solve|previous positions of", "C08"),
    (r"global random state|unseeded generator", "C07"),
    (r"worker scheduling", "C09"),
    (r"log_to|logging handler", "C26"),
    (r"get_optimizer_by_name", "C27"),
    (r"icmic|vstf_03", "C28"),
    (r"ParameterGrid", "C20"),
    (r"Tuner", "C21"), (r"Multitask", "C22"),
    (r"Validator|refused its own default|left pop_size out|under the name p1", "C18"),
    (r"Target ", "C17"), (r"Target\.", "C17"), (r"Target without", "C17"),
    (r"compare_target, compare_fitness|improved_ms|tournament selection|roulette wheel selection fails on non-finite", "C23"),
    (r"whatever the direction", "C29"),
    (r"chart", "C30"),
    (r"generate exceeds|generate turned|generate ignored|cannot encode or generate", "C14"),
    (r"PermutationVar|StringVar|CategoricalVar|transfer variables|IntegerVar|truncate later", "C13"),
    (r"starting solution|given ones|drops half of the initial|drops an initial|rebuild", "C15"),
    (r"caller's problem|private arrays", "C25"),
    (r"one object with the last record|Agent.copy|history keeps|rewrites the history|exploration percentage", "C04"),
    (r"function evaluations of the current", "C06"),
    (r"termination' dictionary|Termination", "C05"),
    (r"outside the bounds|beyond bounds|leave the bounds|undefined \(NaN\)|uncorrected position", "C01"),
    (r"in place|fitness of new ones|did not evaluate|other positions than|scores other", "C02"),
    (r"loses its best|loses track", "C03"),
]
if __name__ == "__main__":
    path = os.path.join(ROOT, "known_findings.txt")
    keep = [l.rstrip("\n") for l in open(path)] if os.path.exists(path) else []
    keep = [l for l in keep if not l.startswith("fixed:")] or ["# Accepted findings (KNOWN lines, see mc/report.py) and repaired defects (fixed: lines, which suppress nothing)."]
    log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
    for l in log.splitlines():
        h, s = l.split(" ", 1)
        if s.startswith("fix: "):
            prop = next((p for r, p in RULES if re.search(r, s)), "C12")
            keep.append("fixed: property=%s %s %s" % (prop, h, s[5:]))
    open(path, "w").write("\n".join(keep) + "\n")
