"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=[observe], hook_needed=None))
    if state:
        d["anchors"]["state"] = state
    P.append(d)


OPT = "mealpy/optimizer.py"
ALLO = ["mealpy/optimizer.py", "mealpy/utils/problem.py", "mealpy/utils/space.py", "mealpy/*_based/*.py"]

p("C01", "Every evaluated or reported position is feasible",
  "For every optimizer, hyper-parameter setting, search space, execution mode and random stream, each position handed to the objective function and each position reported to the user (returned agent, g_best, population, history) is a finite vector of length n_dims inside the problem's bounds [lb, ub].",
  ["inputs", "configurations", "histories"],
  "all optimizers x legal hyper-parameters x bounded/mixed search spaces x modes x random draws, at every evaluation of a run",
  "Tests check the shape of the final solution on one space; a missing bound correction only shows for particular draws, spaces (negative-only, degenerate, discrete) or modes, in one of 200+ update rules.",
  ALLO, [("box correction", OPT + ":Optimizer.correct_solution/amend_solution"), ("variable correction", "mealpy/utils/space.py:*.correct"),
         ("per-optimizer moves", "mealpy/*_based/*.py:evolve")], "arguments of every obj_func call; returned agent, optimizer.pop, history")

p("C02", "A reported fitness belongs to the reported position",
  "Every agent the library reports (initial population, population after each epoch, returned agent, every agent stored in the history) carries a position that the objective was really called with during this solve, together with the fitness (weighted objectives) the objective gave for exactly that position.",
  ["inputs", "configurations", "histories"],
  "all optimizers x hyper-parameters x spaces x modes x minmax x objective answers",
  "Stale or swapped targets look like a normal solution; only comparing every reported agent with the complete evaluation log of a run shows them, and they need specific acceptance patterns.",
  ALLO, [("evaluation", OPT + ":get_target/update_target_for_population"), ("agent bookkeeping", "mealpy/utils/agent.py:Agent.copy/update"),
         ("selection", OPT + ":greedy_selection_population, get_better_agent")], "obj_func log against optimizer.pop, history and the returned agent")

p("C03", "The best-so-far is never lost and goes the right way",
  "For minmax 'min' and 'max' alike, the global best reported after each epoch is at least as good as every agent of the initial population and of every end-of-epoch population so far, so it never gets worse from epoch to epoch. solve() returns that last global best, the optimizer's g_best equals it, and its fitness is one the objective really produced.",
  ["inputs", "configurations", "histories"],
  "all optimizers x minmax x objective landscapes (including ties, adversarially alternating answers) x epochs",
  "One seeded run on a smooth function hides direction mistakes and lost elites; they appear for particular acceptance orders, ties, or maximisation.",
  [OPT, "mealpy/utils/history.py", "mealpy/*_based/*.py"], [("global best update", OPT + ":update_global_best_agent"), ("comparison", OPT + ":get_better_agent/compare_target/get_sorted_population")],
  "optimizer.pop after each epoch, history.list_global_best*, returned agent")

p("C04", "History is complete, faithful and immutable",
  "After a solve of n epochs every history list has exactly n entries (list_population only when save_population is on), and entry k describes epoch k: best/worst of that epoch's population, best/worst so far, its diversity, a non-negative runtime, and the saved population. Exploration and exploitation are percentages of the maximal diversity that sum to 100, and what was recorded for an epoch never changes afterwards.",
  ["histories", "configurations", "inputs"],
  "all optimizers x epochs x minmax x landscapes x save_population x termination",
  "Requires relating every recorded list to the population at that epoch; aliasing corrupts old entries only when later epochs mutate shared agents.",
  [OPT, "mealpy/utils/history.py", "mealpy/utils/agent.py"], [("recording", OPT + ":track_optimize_step/track_optimize_process/update_global_best_agent"), ("initial record", "mealpy/utils/history.py:store_initial_best_worst")],
  "optimizer.history at every epoch boundary and after solve")

p("C05", "A solve stops exactly when its first stopping criterion is met",
  "A solve runs epochs 1..epoch and stops after the first completed epoch at which some configured criterion holds: max_epoch reached, evaluations of this solve >= max_fe, elapsed time >= max_time, or the global best unimproved by more than epsilon for max_early_stop consecutive epochs. It never stops earlier and never runs a further epoch; the criteria mean the same when given as a dict or a Termination instance and for any combination of them.",
  ["histories", "configurations", "schedules"],
  "all combinations of criteria and all bounded histories of (evaluations, clock advance, improvement) per epoch",
  "Tests wait for one criterion at a time with real time; the interaction of several criteria, boundary equality and reset between runs need every history of epoch outcomes.",
  [OPT, "mealpy/utils/termination.py", "mealpy/utils/history.py"], [("decision", "mealpy/utils/termination.py:should_terminate"), ("wiring", OPT + ":check_termination, solve"), ("early stop counter", "mealpy/utils/history.py:get_global_repeated_times")],
  "number of evolve() calls, history length, termination.message")

p("C06", "The evaluation counter counts the objective calls of this solve",
  "At initialisation and after every epoch, nfe_counter equals the number of times the objective function has been called since this solve began, for every optimizer, hyper-parameters, mode (single, swarm, thread, process) and with or without starting solutions or termination.",
  ["histories", "configurations", "schedules"],
  "all optimizers x modes x starts x termination x reuse of the optimizer",
  "Counting happens in two cooperating places (get_target / update_target_for_population) in 200+ optimizers and differs per mode; max_fe and fair comparisons silently depend on it.",
  [OPT, "mealpy/*_based/*.py"], [("counter", OPT + ":get_target/update_target_for_population/_generate_agents")], "nfe_counter against the objective call log")

p("C07", "A seed fully determines the run",
  "Two solves of the same configuration with the same integer seed evaluate the same points in the same order and return and record identical results (times aside), independent of the global random state, the clock, the hash seed, and of what ran before in the process. No solve changes numpy's or random's global random state.",
  ["configurations", "histories", "schedules"],
  "all optimizers x modes x ambient states (global RNG states, clocks, PYTHONHASHSEED, prior activity)",
  "A test with one seed passes as long as the ambient state happens to agree; hidden entropy sources (global RNG, time, set order) differ only between environments.",
  [OPT, "mealpy/utils/space.py", "mealpy/utils/problem.py", "mealpy/*_based/*.py"], [("seeding", OPT + ":check_problem"), ("variables", "mealpy/utils/space.py:seed/generator"), ("draws", "mealpy/*_based/*.py: self.generator / self.rng")],
  "evaluation log, history and result of paired runs in different ambient states")

p("C08", "Solving again on a used optimizer equals solving on a fresh one",
  "After any earlier solve (different problem, dimension, direction, mode, termination, or one aborted by an exception), a further solve on the same optimizer behaves exactly as on a newly built optimizer with the same parameters: same evaluations, history and result for the same seed.",
  ["histories"], "all optimizers x all short sequences of preceding solves",
  "Leaked state (counters, adaptive parameters, populations, termination) only shows in specific two-step sequences with changing problems.",
  [OPT, "mealpy/*_based/*.py"], [("reset", OPT + ":check_problem/check_termination/initialize_variables"), ("adaptive state", "mealpy/*_based/*.py:initialize_variables/__init__")],
  "evaluation log, history and result of the last solve of a sequence against a fresh optimizer")

p("C09", "Parallel modes equal the swarm mode under every worker schedule",
  "For every parallelizable optimizer, 'thread' and 'process' modes evaluate the same points and give the same populations, history, counter and result as 'swarm' mode with the same seed, whatever number of workers runs the tasks and in whatever order they start and finish. Optimizers that are not parallelizable run exactly as in 'single' mode, and n_workers outside its documented range is refused.",
  ["schedules", "configurations"], "all optimizers x all completion orders of the tasks of a batch x worker counts",
  "The OS scheduler produces one order per run; results that depend on completion order need every permutation.",
  [OPT, "mealpy/*_based/*.py"], [("fan out", OPT + ":update_target_for_population/_generate_agents"), ("mode choice", OPT + ":check_mode_and_workers")],
  "evaluation set, history, result of controlled-executor runs")

p("C10", "Independent solves do not influence each other",
  "Several optimizers solving independent problems in one process at the same time (interleaved at any evaluation, nested inside an objective function, or in different threads) each give exactly the evaluations, history and result they give when run alone.",
  ["schedules"], "all interleavings of two solves at objective-call granularity up to a context-switch bound, over optimizer pairs",
  "Shared class-level or module-level state shows only under particular interleavings.",
  [OPT, "mealpy/utils/*.py", "mealpy/*_based/*.py"], [("instance state", OPT + ":Optimizer.__init__/check_problem"), ("class state", "mealpy/utils/agent.py:Agent.ID; module globals")],
  "per-solve evaluation logs and results, interleaved against alone")

p("C11", "An exception in the objective surfaces and leaves everything usable",
  "When the objective function raises at any evaluation, in any mode, solve() raises that same exception to the caller after no further main-loop epoch; and the optimizer and problem stay usable: a following solve gives the result of a fresh optimizer.",
  ["fault_sequences", "crash_points"], "all evaluation indices of a run x modes x optimizers",
  "A test injects one fault at one place; swallowed exceptions and half-updated state depend on where in the epoch the fault hits.",
  [OPT, "mealpy/*_based/*.py"], [("evaluation", OPT + ":get_target/update_target_for_population/_generate_agents")], "exception seen by the caller of solve, and the following solve")

p("C12", "Every legal configuration runs to completion",
  "For every optimizer, any hyper-parameters its constructor accepts and any well-formed problem (one or many dimensions, discrete or mixed variables, constant, zero, huge, negative or tied objective values), solve() finishes its epochs and returns an agent: it never crashes, never hangs and always ends with a non-empty population.",
  ["inputs", "configurations"], "all optimizers x bounded deviations of population size, epochs, dimension, space, landscape, direction, mode, hyper-parameters and random draws",
  "Crashes need corner combinations (one dimension, smallest population, all-equal fitness, extreme random draw) that example tests on one 'nice' problem never reach.",
  ["mealpy/*_based/*.py", OPT, "mealpy/utils/*.py"], [("update rules", "mealpy/*_based/*.py:evolve"), ("parameter ranges", "mealpy/utils/validator.py")], "outcome of solve()")

p("C13", "Variables encode, decode and correct consistently",
  "For each variable type and any valid definition: decode(encode(v)) == v for every domain value v; correct() maps any finite real vector into [lb, ub] (a transfer variable's box contains 0 and 1), is idempotent and leaves already valid encodings' meaning unchanged; decode() of any encoded position within the bounds yields a domain value of the declared type, equal values for x and correct(x), without raising and without changing its argument.",
  ["inputs"], "all variable types x definitions up to small domains x a grid of encoded values including bounds, ties and boundaries between cells",
  "The encoded space is continuous with rounding boundaries and ties; examples miss bucket edges, tied permutations and duplicated or mixed-type categories.",
  ["mealpy/utils/space.py", "mealpy/utils/transfer.py"], [("codec", "mealpy/utils/space.py:encode/decode/correct of each *Var"), ("label encoder", "mealpy/utils/space.py:LabelEncoder")], "return values of encode/decode/correct")

p("C14", "Generated values lie in the domain and every domain value can occur",
  "generate() of every variable type returns values of the declared type inside the declared domain for every outcome of its random draws, every value of a discrete domain (including both end points) can be produced, and the same seed yields the same sequence. The variables of one problem, successive solutions and the optimizer's own draws are independent of each other: with a seed as without, every combination of the variables' values occurs.",
  ["inputs", "schedules"], "all variable types x definitions x all outcomes of the random draws (discretised to every choice)",
  "Off-by-one in a random bound changes only a rare draw; sampling tests cannot conclude about never or always.",
  ["mealpy/utils/space.py"], [("generation", "mealpy/utils/space.py:generate of each *Var"), ("seed", "mealpy/utils/space.py:BaseVar.seed")], "return values of generate() and Problem.generate_solution")

p("C15", "Starting solutions are honoured",
  "When feasible starting_solutions (list, tuple or array of pop_size positions) are given, each of them is evaluated exactly as given before the first epoch, the initial population's best and the final result are at least as good as the best of them, and the caller's container is not modified; a wrong number, length or type of starting solutions is refused with ValueError.",
  ["inputs", "configurations"], "all optimizers x modes x spaces x kinds of starting sets (distinct, corners, identical) x container types",
  "Optimizers that rebuild or post-process the initial population silently drop the starting points; one smoke test per class cannot see it.",
  [OPT, "mealpy/*_based/*.py"], [("start", OPT + ":before_initialization"), ("overrides", "mealpy/*_based/*.py:initialization/generate_agent/generate_empty_agent")], "first evaluations, initial population, result, caller's data")

p("C16", "A mixed problem is exactly the concatenation of its variables",
  "For any ordered list of variables, the problem's lb/ub/n_dims are the concatenation of theirs, and encode, decode, correct and generate act on each variable's own slice exactly as that variable does alone, with decoded values filed under the variable's name (scalar for one-component variables).",
  ["inputs", "configurations"], "all ordered lists of up to 3 variables out of all types and sizes",
  "Offset errors only appear for particular orders and sizes of neighbouring variables.",
  ["mealpy/utils/problem.py", "mealpy/utils/space.py"], [("composition", "mealpy/utils/problem.py:*_with_bounds, set_bounds")], "Problem methods against the single variables")

p("C17", "Fitness is the weighted sum of the objectives",
  "For every legal objective return type (number, list, tuple, array) and obj_weights, the fitness is the dot product of weights and objectives (equal weights when none are given), the objectives are stored unchanged, copies equal their originals, and illegal return values or weights that do not match are refused instead of being mis-scored.",
  ["inputs"], "all small vectors of objective values x weight vectors x container types",
  "Wrong broadcasting or default weights give plausible numbers for the single example tested.",
  ["mealpy/utils/target.py", "mealpy/utils/problem.py"], [("scalarisation", "mealpy/utils/target.py:Target"), ("weights", "mealpy/utils/problem.py:n_objs/get_target")], "Target.fitness/objectives/weights; Problem.get_target")

p("C18", "Parameter validation accepts exactly the stated domain",
  "Each Validator check returns the given value (check_int: its integer part) when it has the right type and lies in the stated bound (open, closed or half-open ends, or option list) and raises ValueError otherwise; and every optimizer constructor stores accepted hyper-parameters unchanged under their own name in get_parameters() and refuses values outside the range it states.",
  ["inputs", "configurations"], "all validator kinds x bounds x grid of values around them; all optimizers x each hyper-parameter at/inside/outside its bounds",
  "Bound comparisons are easy to get wrong at exact end points, and a parameter passed to the wrong slot keeps example tests green.",
  ["mealpy/utils/validator.py", "mealpy/*_based/*.py", OPT], [("checks", "mealpy/utils/validator.py:Validator"), ("constructors", "mealpy/*_based/*.py:__init__")], "return value / ValueError; get_parameters()")

p("C19", "Setting parameters later equals constructing with them",
  "For every optimizer, solving after set_parameters({...}) of legal values gives exactly the result of an optimizer constructed with those values; unknown names are refused and change nothing.",
  ["histories", "configurations"], "all optimizers x each hyper-parameter x legal alternative values",
  "Values derived in the constructor go stale only for particular parameters; the Tuner and Multitask depend on this path.",
  [OPT, "mealpy/*_based/*.py", "mealpy/tuner.py"], [("setter", OPT + ":set_parameters"), ("derived values", "mealpy/*_based/*.py:__init__/initialize_variables")], "solve() after set_parameters against a newly constructed optimizer")

p("C20", "The parameter grid enumerates exactly the Cartesian product",
  "A ParameterGrid yields every combination of its value lists exactly once (over a list of grids: the concatenation, in order), len() equals the number of combinations, grid[i] is the i-th combination of the iteration for every i (out of range raises IndexError), and malformed grids are refused.",
  ["inputs"], "all grids with up to 4 keys and 3 values per key, and lists of up to 2 grids",
  "Indexing by mixed radix is only right for every index or wrong for many; tests probe a few.",
  ["mealpy/tuner.py"], [("enumeration", "mealpy/tuner.py:ParameterGrid.__iter__/__len__/__getitem__")], "iteration, len and indexing")

p("C21", "The tuner runs every combination and picks the best one",
  "Tuner.execute() runs each parameter combination exactly n_trials times with the given termination and mode, records each trial's returned fitness in the right cell, and reports as best the combination whose mean fitness (then the smaller standard deviation) is the best in the problem's direction, for min and max problems alike; resolve() solves with exactly those parameters.",
  ["inputs", "schedules", "configurations"], "all assignments of fitness outcomes to (combination, trial) from a small set x minmax x modes/worker orders",
  "The ranking is only exercised on one outcome table by a test; direction, ties and cell mix-ups need all small tables.",
  ["mealpy/tuner.py"], [("execution", "mealpy/tuner.py:Tuner.execute"), ("ranking", "mealpy/tuner.py:Tuner.execute ranks, best_params"), ("resolve", "mealpy/tuner.py:Tuner.resolve")], "Tuner.best_params/best_row/best_score/df_fit and the sequence of solves")

p("C22", "Multitask runs every algorithm on every problem as configured",
  "Multitask.execute() performs n_trials solves for every (algorithm, problem) pair, each with the termination and mode configured for it, on independent copies so that pairs do not influence each other, and files each convergence and best fitness under that pair and trial, for every legal form of the mode/termination arguments (one for all; one per algorithm; one per problem; a full matrix; a list that fits both is taken per algorithm); bad shapes are refused.",
  ["inputs", "schedules", "configurations"], "all small numbers of algorithms/problems/trials x all argument shapes x worker completion orders",
  "Row/column confusions are invisible for square or single inputs and depend on completion order.",
  ["mealpy/multitask.py"], [("matrix of settings", "mealpy/multitask.py:check_input"), ("execution", "mealpy/multitask.py:execute/__run__")], "sequence of solves and exported tables")

p("C23", "Shared selection and sampling helpers meet their contracts",
  "For every population and direction: sorting orders best first as a permutation of the input, best/worst/special agents and better-of-two agree with it, greedy selection takes the strictly better of each pair, trimming keeps the best ones, index samplers never return an excluded or repeated or out-of-range index and can return every other one, tournament/roulette selection returns legal indexes for any fitness values, crossover returns genes taken from the parents, and the GA mutations permute the child or redraw genes within the bounds.",
  ["inputs", "schedules"], "all fitness vectors over a small value set up to length 5 x directions x all outcomes of the random draws",
  "Ties, equal, negative or zero fitness and extreme draws are exactly the inputs example tests skip.",
  [OPT, "mealpy/utils/agent.py"], [("sorting and selection", OPT + ":get_sorted_population ... get_special_fitness"), ("sampling", OPT + ":sample_indexes_exclude_one/list"), ("roulette, tournament, crossover", OPT + ":get_index_*; crossover_arithmetic")], "return values of the helpers")

p("C24", "Saving and loading preserves an optimizer",
  "An optimizer saved with mealpy.utils.io.save_model at any point (before solving, after solving, from within an epoch) and loaded again has the same parameters, history, best agent and population, and solving further on the loaded object gives exactly what the original would give; the file lands exactly at the requested path ('.pkl' appended if missing).",
  ["crash_points", "histories"], "all optimizers x save points x follow-up solves x path forms",
  "One save after one solve for one class says nothing about per-class unpicklable or aliased state.",
  ["mealpy/utils/io.py", OPT, "mealpy/*_based/*.py"], [("persistence", "mealpy/utils/io.py:save_model/load_model")], "loaded optimizer against the original")

p("C25", "The caller's inputs are left untouched",
  "Solving never modifies what the caller passed in: the problem dictionary's own entries, bounds' definitions, the termination dictionary, starting solutions and constructor arguments stay equal, and the arrays handed to the objective may be kept by the caller without later changing. Overwriting, after the solve, arrays handed to the objective, its own reused return buffer, the returned agent or the final population does not alter what the history recorded.",
  ["histories", "configurations"], "all optimizers x all mutable inputs, checked at every evaluation and at the end",
  "Aliasing is invisible unless the caller keeps and re-inspects every object at every later step.",
  [OPT, "mealpy/utils/problem.py", "mealpy/utils/agent.py"], [("copies", OPT + ":before_initialization, update_global_best_agent, duplicate_pop")], "caller-held references before and after")

p("C26", "Logging follows log_to and log_file",
  "With log_to None nothing is printed or written; 'console' prints and 'file' writes every epoch's line to the given log_file of this solve; switching settings between one solve and the next takes effect for the next solve without duplicating lines or leaking into earlier destinations.",
  ["histories", "configurations"], "all sequences of up to 3 solves over log settings and files",
  "Handlers are process-global, so mistakes show only in sequences of differently configured solves.",
  ["mealpy/utils/logger.py", OPT], [("handlers", "mealpy/utils/logger.py:Logger.create_logger")], "captured stdout/stderr and log files")

p("C27", "The registry finds every optimizer, by every advertised name",
  "get_all_optimizers() returns exactly the concrete optimizer classes shipped (under the names documented), get_optimizer_by_name returns exactly the class of that name (for a module name: the dictionary of its classes; otherwise None) and get_optimizer_by_class the class of exactly that class name (otherwise None), for every shipped class, and every shipped optimizer can be constructed with its defaults and describes itself by its parameters.",
  ["inputs"], "all class and module names shipped, and near-miss names",
  "Tests look up a few names; omissions and duplicates need the full inventory.",
  ["mealpy/__init__.py", "mealpy/*_based/*.py"], [("registry", "mealpy/__init__.py:get_all_optimizers/get_optimizer_by_name/get_optimizer_by_class")], "returned classes")

p("C28", "Transfer functions and chaotic maps stay in their range",
  "For every real input (including huge magnitudes) each transfer function returns a value in [0, 1], monotone (s-shaped) or symmetric (v-shaped) as documented, without overflow to NaN; each chaotic map/fuzzy helper returns finite values in its documented range; and a transfer variable keeps coordinates that are 0 or 1 and turns every other one into 1 with exactly the probability of its transfer value, else 0.",
  ["inputs"], "all transfer functions and maps x a grid of magnitudes from denormal to 1e308 x random draws",
  "Overflow and range violations occur only for extreme inputs.",
  ["mealpy/utils/transfer.py", "mealpy/utils/chaotic.py", "mealpy/utils/fuzzy.py", "mealpy/utils/space.py"], [("transfer", "mealpy/utils/transfer.py"), ("chaos", "mealpy/utils/chaotic.py")], "function values")

p("C29", "Maximising f and minimising -f are the same search",
  "For every shipped optimizer, solving a problem with minmax 'max' and objective f makes exactly the same moves as solving it with minmax 'min' and objective -f from the same seed: the same evaluations in the same order, and the same populations, history and result with negated fitness. This holds in every mode, space, termination and hyper-parameter setting, for ties between agents and for positive, negative, huge and tiny objective values.",
  ["inputs", "configurations"], "all optimizers x landscapes x modes x spaces x hyper-parameters",
  "A comparison hard-wired for minimisation still improves on smooth test functions; only the paired run of the mirrored problem shows that it prefers the wrong agents.",
  [OPT, "mealpy/*_based/*.py"], [("comparison", OPT + ":compare_target/compare_fitness/get_sorted_population"), ("update rules", "mealpy/*_based/*.py:evolve")],
  "evaluation logs, populations and history of the paired runs")

p("C30", "Charts show exactly the recorded history and land where asked",
  "Every chart of a History (convergence, runtime, diversity, exploration/exploitation, objectives, trajectory of agents) draws exactly the recorded series it is named for, one curve per series, objective or chosen agent and dimension with its own label, and writes exactly the requested files (special characters removed from the name, parent folders created). Drawing changes neither the history nor the caller's open figures or matplotlib settings nor a later chart, and a selection that does not exist is refused with ValueError without writing anything; get_global_repeated_times(epsilon) counts the last consecutive epochs whose best changed by at most epsilon.",
  ["inputs", "histories"], "all short series and selections x file name forms x orders of two charts x open figures; all charts of a solve of every optimizer",
  "A picture with the wrong series or a stale figure underneath looks plausible, and tests only see that a file appeared.",
  ["mealpy/utils/history.py", "mealpy/utils/visualize/linechart.py"], [("charts", "mealpy/utils/history.py:History.save_*_chart"), ("drawing", "mealpy/utils/visualize/linechart.py:_draw_line_, _draw_multi_line_, _draw_multi_subplots_in_same_figure_, export_trajectory_chart")],
  "figures at the moment they are saved; files; the caller's figures")

p("C31", "Every optimizer searches, and every mode carries out the whole search",
  "In every mode a solve tries points beyond its first population, which depend on the objective and its direction, and on the seed (unseeded solves draw fresh entropy; an optimizer whose published moves are deterministic depends on the seed through its first population alone). The swarm mode differs from the single mode only in when updates take effect: every candidate an epoch makes is evaluated, in both, and as long as no agent of the first population is beaten both try the same points with the same number of evaluations in each epoch (more in the parallel modes only where agents that are kept are evaluated again), except in optimizers that replace agents whatever they are worth. Where every later move is an improvement, the swarm mode comes to hold as many of them, epoch by epoch, as the single mode (more, where it evaluates what it keeps again).",
  ["configurations", "inputs"], "all optimizers x modes x pairs of objectives, directions and seeds x bounded deviations of the configuration",
  "Tests look at the type of the result: a search that re-evaluates its first population, drops half of its moves in one mode or ignores the seed still returns an agent.",
  ["mealpy/*_based/*.py", OPT], [("candidates", "mealpy/*_based/*.py:evolve, generate_empty_agent"), ("selection per mode", "mealpy/*_based/*.py: branches on self.mode"), ("seeding", OPT + ":check_problem")],
  "points handed to the objective in paired runs, candidates handed out by Problem.correct_solution")

p("C32", "Every documented hyper-parameter takes effect, in every mode and direction",
  "Each hyper-parameter of an optimizer's constructor governs its search: another option of a choice, or a value near either end of the stated range, changes which points some solve tries, be it alone or next to another value of one other hyper-parameter that switches it on, in the single and in the swarm mode and for minimization and maximization alike.",
  ["configurations", "inputs"], "all optimizers x documented hyper-parameters x options or values near both ends of the range x modes and directions",
  "Tests set hyper-parameters and look at the type of the result: one that is read by nobody, or only in one branch, passes them all while a user tunes it in vain.",
  ["mealpy/*_based/*.py"], [("use of hyper-parameters", "mealpy/*_based/*.py:__init__, initialize_variables, evolve and their helpers")],
  "points handed to the objective by runs that differ in one hyper-parameter")

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        assert d["statement"].count(". ") <= 2, d["id"]
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
