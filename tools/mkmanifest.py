"""Writes MANIFEST.json from the rules present."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("whole-program abstract interpretation with provenance tags on random draws + ambient-input queries", "Sound for flows through the modelled language; unmodelled values count as undecided, never as proved."),
 "C02": ("whole-program abstract interpretation with a symbolic per-coordinate interval domain at every evaluation site", "Each evaluation site is proved confined, reported, or listed as undecided."),
 "C03": ("abstract interpretation of Task.eval into gated summaries folded over all orderings + effect query over all code", "Summaries are exhaustively folded over the finite orderings of counters and limits."),
 "C04": ("gated summaries of the stopping predicate folded over all orderings + typestate of run()", "Typestate on every path of run(); summary folded exhaustively over orderings."),
 "C05": ("abstract interpretation to value-number terms with object identities and may-share storage; inductive decision of fitness == objective(point)", "Reported best pairs are proved, refuted or listed as undecided; undecided pairs never alarm."),
 "C06": ("abstract interpretation to value-number terms; order facts of each path; inductive decision of new best <= incumbent", "Iteration results are proved monotone, refuted by a freely valued new point, or listed as undecided."),
 "C08": ("abstract interpretation: definite-key analysis of the state record across init/iteration", "Keys read must be definitely present in what the previous step returned."),
 "C13": ("gated summaries of Task.eval/Individual under both directions compared term by term", "The two directions are folded over all orderings; results must be exact negations."),
 "C14": ("typestate (protocol automaton) over every path of run() + alias check of announced values", "All paths of run(), loops to fixpoint."),
 "C16": ("per-coordinate abstract interpretation of the repair functions in a polyhedral domain (Fourier-Motzkin)", "Each path of each repair function is proved to end inside [lower, upper] or reported."),
 "C17": ("effect and alias analysis: no write reaches task, problem or bound arrays", "Every write of all algorithm code is resolved to abstract objects."),
 "C19": ("gated summaries of the logging code and of convergence_data folded over all orderings of the logged values", "The update of the log is decided on all orderings of the new value, the best value and the last entry."),
 "C22": ("abstract interpretation to value-number terms; element-wise inductive decision of fitness[i] == objective(population[i])", "Populations are proved aligned, refuted or listed as undecided; undecided ones never alarm."),
 "C12": ("abstract interpretation of the factory functions at every registered and unregistered name with constructions intercepted", "Every exported class is looked up by its name; arguments reaching the class are compared."),
 "C11": ("abstract interpretation of every problem's evaluation at a symbolic point: frame condition on point, problem and shared objects; rejection decided per dimension relation", "Storage aliasing (views, out=, asarray) is modelled; unmodelled constructs are undecided."),
 "C20": ("abstract construction of every problem and of Task with symbolic options, compared in a polynomial normal form", "Each attribute is the requested symbol, differs, or is undecided."),
 "C23": ("abstract interpretation of the option declarations with the parser as a recording object; converters interpreted on constants", "Flags, destinations, types, arities, defaults of every option are compared with their meaning; get_args/get_args_dict interpreted over the parsed namespace."),
 "C15": ("abstract interpretation of Runner with the factory, Task, Algorithm.run and the exports as recording primitives over symbolic settings and outcomes", "Executions, tasks, results and exports are compared with the requested combinations for several list configurations; up to three elements per list."),
 "C10": ("abstract interpretation of two consecutive runs; what the first leaves on the instance is opaque in the second, and every read of it before it is assigned anew is a violation", "Every exported algorithm; attributes of the instance, objects it holds, class and module level containers. Values that may or may not be reset depending on the run are undecided."),
 "C09": ("abstract interpretation of constructors, set_parameters and get_parameters with symbolic options; objects compared attribute by attribute in a polynomial normal form", "Every option of every exported algorithm; terms that cannot be compared are undecided."),
 "C07": ("abstract interpretation with every evaluation marked by its call path; value-cone of the reported best, and whether a mark that is better than everything else survives to it", "Every evaluation call path must reach the reported best; dropping a best value depending on chance, options or progress is a violation, other undecided selections are counted and never alarm."),
 "C21": ("abstract interpretation of every loop: exit conditions as terms over loop-carried values, folded under four situations of the evaluations (any, exhausted budget, flat landscape, no iteration end)", "A loop alarms only if every exit is blocked: unchanged, moving away or false in one situation; redraw and recursion likewise. Loops that may end are not proved to."),
 "C18": ("typestate with exceptional edges over run(), handler guards folded over thread/process cases", "All exceptional paths of run()."),
}
NA = {
 "C24": "agreement of code with a mathematical formula over the reals is a numerical equivalence question; no static analysis in reach decides it without evaluating the code",
 "C25": "statistical behaviour over random trajectories; no static argument bounds it",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "nialint/rules/%s.py" % i.lower())) and i in T:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": "static analysis: " + T[i][0], "level": "other",
                       "level_note": T[i][1] + " Trusts the analyser's models of numpy and of the Python subset used; reads only /repo's source."})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q nialint check.py", "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
