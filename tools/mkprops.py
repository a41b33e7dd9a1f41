#!/usr/bin/env python3
"""Source of properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ALG = "src/niapy/algorithms"
prop("C01", "A seeded optimization run is fully reproducible",
     "Two fresh instances of the same algorithm built with the same parameters and the same integer seed, each run on its own identical task, evaluate the same points in the same order and return the same result, whichever bundled bound-repair function the task uses. All randomness is drawn from the instance's own seeded generator: nothing depends on process-wide random state, a freshly created unseeded generator, the clock, hash order, or what other instances did earlier in the process.",
     ["inputs", "configurations", "histories"], "every algorithm, seed, parameter setting, problem, repair function and preceding activity in the process",
     "Tests compare one seed on one small problem with the clipping repair, so draws made outside the seeded generator on rarer paths (random repair, stagnation restarts, optional strategies) are never exercised.",
     [ALG, "src/niapy/util/repair.py", "src/niapy/util/random.py", "src/niapy/task.py"],
     [("per-instance generator", "algorithms/algorithm.py Algorithm.__init__ (default_rng(seed)), Algorithm.random/uniform/normal/integers"),
      ("random repair", "util/repair.py rand; task.py Task.repair(x, rng)"),
      ("individual construction", "algorithms/algorithm.py Individual.__init__, evaluate, default_individual_init")])
prop("C02", "The objective is only ever evaluated inside the search box",
     "Every point an algorithm hands to the task for evaluation lies within the problem's lower and upper bounds in every coordinate (up to floating-point rounding), in every phase: initialization, moves, local searches and restarts. A point that was modified after being confined to the box is confined again before it is evaluated.",
     ["inputs", "configurations", "histories"], "every algorithm, problem bounds (including different bounds per coordinate), dimension, seed and parameter setting",
     "Whether a step leaves the box depends on random draws, step-size parameters and how close the optimum lies to the boundary; tests run centred benchmarks for a few iterations and never look at intermediate points.",
     [ALG, "src/niapy/task.py", "src/niapy/util/repair.py"],
     [("repair before evaluation", "task.py Task.repair; Individual.evaluate; each run_iteration"),
      ("sampling inside bounds", "algorithms/algorithm.py default_numpy_init, Individual.generate_solution"),
      ("feasibility guard", "task.py Task.is_feasible used by pso.py and ca.py")])
prop("C03", "Every objective evaluation is counted and none exceeds the budget",
     "The objective function is invoked only through the task, exactly once for each increment of the task's evaluation counter, and never once any stopping criterion is already met; an evaluation requested after that point leaves the counters and recorded best untouched and yields the worst possible fitness. Nothing but the task itself changes its counters, limits or recorded best.",
     ["programs", "histories", "configurations"], "every algorithm and every history of calls on a task, for every limit setting",
     "Tests count evaluations for a few algorithm/limit pairs; the guarantee is about every call site in every algorithm and every position at which the budget can run out.",
     ["src/niapy/task.py", ALG],
     [("counted evaluation", "task.py Task.eval"), ("who may call the objective", "problems/problem.py Problem.evaluate/__call__; all algorithm modules")],
     [("evals / iters / x_f", "task counters and recorded best")])
prop("C04", "A run stops on exactly the configured criteria",
     "A run ends as soon as the evaluation limit, the iteration limit or the target value is reached, whichever comes first and for both minimization and maximization, and not before; limits that were not given never end a run. The criteria are rechecked before every iteration and the iteration counter advances exactly once per completed iteration, regardless of the algorithm.",
     ["inputs", "histories", "configurations"], "every combination of limits, target value and direction, every history of evaluations",
     "Tests use a few limit combinations; the criterion is a predicate over every ordering of counters, limits and best value, and over every algorithm's iteration.",
     ["src/niapy/task.py", ALG + "/algorithm.py"],
     [("stopping predicate", "task.py Task.stopping_condition, stopping_condition_iter"), ("main loop", "algorithms/algorithm.py Algorithm.run"), ("iteration counter", "task.py Task.next_iter")])
prop("C05", "The reported best point is the one that produced the reported best fitness",
     "At the start of, after, and between all iterations, and in the final result, the best fitness an algorithm reports is the objective value of exactly the best point it reports. The reported point is a private copy: later moves of the population never change it.",
     ["histories", "inputs", "configurations"], "every algorithm, iteration, seed and problem",
     "Tests check only that the final value is plausible; aliasing with population memory and mismatched (point, fitness) bookkeeping show up only for particular move sequences after the best was recorded.",
     [ALG],
     [("best extraction with copy", "algorithms/algorithm.py Algorithm.get_best"), ("incumbent updates", "every run_iteration and local-search helper")])
prop("C06", "The best fitness never gets worse from one iteration to the next",
     "Whatever happens to the population (replacement, shrinking, restarts, failed moves), the best fitness reported after an iteration is at least as good as the one reported before it. The incumbent is replaced only by a point whose fitness is not worse.",
     ["histories", "inputs", "configurations"], "every algorithm, iteration, seed and problem",
     "A worse incumbent appears only when a particular move sequence loses the best individual or the budget ends mid-iteration; tests observe only end results of short runs.",
     [ALG],
     [("incumbent comparison", "algorithms/algorithm.py Algorithm.get_best; guarded assignments in each run_iteration")])
prop("C07", "No evaluated solution is ignored when the best is reported",
     "The outcome of every evaluation made during initialization or an iteration takes part in determining the best solution reported at the end of that same step. No phase, local search or restart evaluates points whose fitness can never become the reported best.",
     ["histories", "inputs", "configurations"], "every algorithm and every phase that evaluates points",
     "Tests never compare the reported best with the best value the objective returned; a phase whose results are dropped changes only search quality on rare runs.",
     [ALG],
     [("best update after evaluation", "get_best calls and guarded incumbent updates in each run_iteration")])
prop("C08", "Iteration state is complete: an iteration never misses its inputs",
     "Every piece of per-run state an iteration needs is supplied by the initialization step and supplied again, under the same name, by every iteration that precedes it, on every path. Consequently no iteration fails because a value was not carried over, and callbacks receive that same state.",
     ["histories", "configurations"], "every algorithm, every number of iterations, every branch through an iteration",
     "Tests run a handful of iterations along common branches; an early-return or rarely taken branch that drops state fails only when it is followed by another iteration.",
     [ALG],
     [("state dictionary", "Algorithm.run: params passed from init_population to run_iteration and from each run_iteration to the next")])
prop("C09", "Algorithm parameters are honoured and reported back consistently",
     "Every algorithm-specific option accepted by an algorithm's constructor is stored as given, can be changed afterwards through the parameter-setting call with the same effect as passing it at construction, and options left out take the same default either way. The parameter report lists the algorithm's options with their current values.",
     ["inputs", "configurations"], "every algorithm, every option, every value",
     "Tests set a few options of a few algorithms; a swapped, dropped or shadowed option in a constructor chain is invisible unless that option is set to a non-default value and observed.",
     [ALG],
     [("constructor chain", "__init__ of every algorithm"), ("set_parameters / get_parameters", "every algorithm class")])
prop("C10", "Runs of one instance are independent: configuration survives a run",
     "Running an algorithm leaves its configured options unchanged, and any working state kept on the instance is re-initialized at the start of each run before it is used. So the same instance can be run again, on the same or another task, and behaves as a newly configured one apart from the position of its random generator.",
     ["histories", "configurations"], "every algorithm, any sequence of runs on the same or different tasks",
     "Tests create a fresh instance per run, so state leaking between runs (sizes, counters, schedules) is never observed.",
     [ALG, "src/niapy/runner.py"],
     [("instance attributes written during a run", "init_population / run_iteration of every algorithm")])
prop("C11", "Evaluating a problem has no side effects",
     "Evaluating a benchmark problem at a point returns a value that depends only on the point and the problem's parameters, and leaves both the point and the problem unchanged, so repeated evaluations of the same point agree. A point of the wrong dimension is rejected before any evaluation takes place.",
     ["inputs", "histories"], "every bundled problem, every point, any history of earlier evaluations",
     "Tests evaluate each problem once at its optimum; hidden state, caching, randomness or in-place modification of the point shows only on later calls.",
     ["src/niapy/problems"],
     [("evaluation", "problems/problem.py Problem.evaluate and every _evaluate")])
prop("C12", "Every exported algorithm and problem can be created by name",
     "Each publicly exported, instantiable algorithm can be requested from the algorithm factory by its class name and yields exactly that class, with the given arguments passed through; each exported benchmark problem can likewise be created by its registered name. Names differing from any registered one are rejected, and each algorithm lists its own name among its names.",
     ["programs", "inputs"], "every exported algorithm and problem",
     "Tests request a few names; a missing, swapped or stale registry entry matters only to the user of that one name.",
     ["src/niapy/util/factory.py", ALG, "src/niapy/problems"],
     [("registries", "util/factory.py _algorithm_options, _problem_options"), ("exports", "algorithms/*/__init__.py __all__, problems/__init__.py __all__")])
prop("C13", "Maximization and minimization are exact mirror images",
     "Algorithms internally always minimize: the task multiplies objective values by the direction sign exactly once on the way in, and values shown to the user (recorded best, target comparison, returned fitness) are converted back exactly once. Nothing in any algorithm behaves differently for the two directions.",
     ["inputs", "configurations"], "every algorithm, problem and direction",
     "Tests are almost all minimization; a lost or doubled sign is only visible for maximization tasks, often only at a boundary such as the initial best or the target value.",
     ["src/niapy/task.py", ALG],
     [("direction sign", "task.py OptimizationType, Task.__init__, Task.eval, Task.stopping_condition; algorithm.py Algorithm.run, Individual.__init__")])
prop("C14", "Callbacks see every run and every iteration exactly once, in order",
     "For every run each registered callback is told, in registration order, about the start of the run, then before and after every iteration with the population, fitness, best solution, best fitness and state current at that moment, and finally about the end of the run. Registration, at construction or later, always attaches the callback to its algorithm or rejects non-callbacks, and the notifications never change the course of the run.",
     ["histories", "schedules", "configurations"], "every algorithm, any number of callbacks and iterations",
     "Tests check one or two callbacks; missing or reordered notifications, or stale arguments, depend on the hook, iteration and number of callbacks.",
     ["src/niapy/callbacks.py", ALG + "/algorithm.py"],
     [("callback list forwarding", "callbacks.py CallbackList"), ("notification points", "algorithms/algorithm.py Algorithm.run, __init__")])
prop("C15", "The experiment runner covers every algorithm/problem/run combination",
     "A runner executes every requested algorithm on every requested problem the requested number of times, each time on a fresh task built from the requested dimension and evaluation limit, and its results hold every outcome under that algorithm's and that problem's name. The selected export format alone decides which single export is written, and an unknown format is rejected.",
     ["inputs", "configurations", "histories"], "every list of algorithms and problems (names or instances), run count, dimension, limit and export format",
     "Tests run one small grid; overwritten cells, shared tasks, off-by-one run counts or ignored settings need other shapes to show.",
     ["src/niapy/runner.py"],
     [("grid loop", "runner.py Runner.run"), ("task construction", "runner.py Runner.task_factory"), ("export dispatch", "runner.py Runner.run")])
prop("C16", "Bound repair always returns a point inside the box",
     "Each bundled repair function returns, for every real point and every lower < upper, a point with every coordinate inside its own bounds, leaves coordinates that were already inside unchanged, and uses the bounds of that same coordinate. The task applies the chosen function with its own bounds and passes the caller's random generator through.",
     ["inputs", "configurations"], "every finite point (however far outside), every bounds, every bundled repair function",
     "Tests try a few random points; far-outside points, per-coordinate bounds and coordinates violating only one side need specific inputs.",
     ["src/niapy/util/repair.py", "src/niapy/task.py"],
     [("repair functions", "util/repair.py limit, limit_inverse, wang, rand, reflect"), ("dispatch", "task.py Task.repair")])
prop("C17", "Running an algorithm never changes the task's problem or bounds",
     "No algorithm modifies the task, the problem, or the arrays holding their bounds: neither by assignment nor by in-place operations on them or on views of them. The bounds seen by the last iteration are those the user configured.",
     ["programs", "histories"], "every algorithm and run",
     "In-place modification through an alias corrupts the bounds only on particular paths and silently changes later iterations or later runs on the same problem.",
     [ALG, "src/niapy/task.py", "src/niapy/util"],
     [("bounds", "task.py Task.lower/upper/range shared with problems/problem.py Problem.lower/upper")])
prop("C18", "A failing run is never mistaken for a successful one",
     "If anything raises during a run, in the main thread of the main process the original exception reaches the caller; in worker threads or processes the run returns no solution, the exception is kept on the algorithm and it reports a bad run. A run that completes is reported as good and returns its best solution.",
     ["fault_sequences", "schedules"], "every exception at any point of a run, in any thread or process",
     "Tests raise one exception in the main thread; the outcome depends on where the fault happens and in which thread or process.",
     [ALG + "/algorithm.py"],
     [("fault handling", "algorithms/algorithm.py Algorithm.run, bad_run")])
prop("C19", "The recorded convergence history is faithful",
     "The task records an entry for an evaluation exactly when it strictly improves the best value, with the evaluation number at which it happened and the objective value in the problem's own direction; the per-iteration record holds the best value so far once per iteration. The two convergence curves a user can request are built from these records, agree on values, and never mix them up.",
     ["histories", "configurations"], "every history of evaluations and iterations, both directions",
     "Tests look at the lengths of the records for a single run; values, alignment and direction need particular improvement patterns.",
     ["src/niapy/task.py"],
     [("improvement log", "task.py Task.eval (n_evals, fitness_evals)"), ("iteration log", "task.py Task.next_iter"), ("curves", "task.py Task.convergence_data, plot_convergence")])
prop("C20", "Problems and tasks honour the requested dimension and bounds",
     "Every bundled problem built with a dimension and bounds carries exactly that dimension and per-coordinate bound arrays of that length with the requested lower bound as lower and upper as upper (fixed-size or self-bounded problems excepted), and its own shape parameters are stored unchanged. A task takes its dimension, bounds and range from its problem, forwards those options when it creates a problem by name, and rejects anything that is not a problem.",
     ["inputs", "configurations"], "every bundled problem, every dimension and bounds (scalar or per coordinate)",
     "Tests construct problems with default or scalar bounds; swapped or dropped arguments in one of fifty constructors only show for asymmetric or non-default settings.",
     ["src/niapy/problems", "src/niapy/task.py", "src/niapy/util/array.py"],
     [("constructor chain", "problems/*.py __init__ -> Problem.__init__ -> full_array"), ("task construction", "task.py Task.__init__")])
prop("C21", "Every iteration terminates",
     "Every loop or recursion inside an algorithm's initialization or iteration is bounded: it either walks a finite collection or range fixed before it starts, or repeats under a condition that the loop body itself can make false for every admissible configuration. No iteration can hang once the evaluation budget is exhausted.",
     ["inputs", "configurations", "histories"], "every algorithm, parameter setting, population size and fitness landscape",
     "A non-terminating loop needs a degenerate population size, fitness pattern or an exhausted budget in the middle of an iteration; tests would simply not hit it.",
     [ALG],
     [("while loops and retry recursion", "algorithms/basic/abc.py, bfo.py, ga.py, fa.py, de.py ...; Algorithm.integers(skip)")])
prop("C22", "A population and its fitness values stay aligned",
     "After initialization and after every iteration, each entry of the fitness list an algorithm carries forward is the objective value of the population member at the same position (or the worst possible value when that member was not evaluated). Selection, sorting, merging and truncation are applied to both in the same way.",
     ["histories", "inputs", "configurations"], "every algorithm, iteration, seed and problem",
     "Misalignment silently degrades selection and only shows as wrong fitness for particular individuals after specific replacement patterns; tests never re-evaluate the population.",
     [ALG],
     [("population/fitness pairs", "run_iteration returns of every algorithm; Individual.x/.f")])
prop("C23", "The command line yields exactly the requested experiment settings",
     "Every command-line option is parsed to the setting of the same meaning with a usable type: algorithm, problem, dimension, evaluation and iteration limits, population size, run type, seed and direction ('min' or 'max'). Omitted limits mean unlimited, the default direction is minimization, and every other omitted option takes its documented default (problem Ackley, dimension 10, population size 43, no seed).",
     ["inputs"], "every command line",
     "Tests parse a few options; a swapped destination or type matters only when that option is used.",
     ["src/niapy/util/argparser.py"],
     [("option table", "util/argparser.py get_argparser, _optimization_type")])
prop("C24", "Benchmark problems compute their documented formulas",
     "For every point of its domain a benchmark problem returns the value of the mathematical formula it documents, and its documented optimum attains the documented minimum.",
     ["inputs"], "every bundled problem and every real point",
     "Tests evaluate each problem at its optimum only.",
     ["src/niapy/problems"], [("formulas", "problems/*.py _evaluate and latex_code")])
prop("C25", "Algorithms converge towards the optimum",
     "With a growing evaluation budget the best fitness found on a benchmark problem approaches its global minimum.",
     ["inputs", "histories"], "every algorithm, benchmark and seed",
     "Convergence is a statistical property of unbounded runs.",
     [ALG], [("search dynamics", "run_iteration of every algorithm")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
