#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c)
                            for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))


AP = "src/solver/AdaptivePartitioner.py"
prop("C01", "The adaptive method returns the exact optimum",
     "For every packing instance (non-negative data, positive capacities), tolerance, variable type and method configuration, an adaptive solve that ends by itself reports a solution that satisfies all but the tolerated number of scenarios, whose objective value is the reported lower bound. That value is within the requested relative gap of the true optimum of the chance-constrained problem, and the reported upper bound is never below the true optimum.",
     ["inputs", "configurations", "schedules"],
     "all instances in the stated small spaces, all values of k=floor(eps*N), binary and continuous variables, all combinations of initial partition, split rule, big-M method or indicator constraints, merging and lazy constraints, and all outcomes of the random choices",
     "The integration tests solve a handful of files with a few configurations and one random stream, and compare with the MILP of the same code base; an error that needs ties, unusual epsilon, degenerate rows or one particular configuration is invisible.",
     [AP, "src/UpperBounder.py", "src/LowerBounder.py", "src/refiner/Refiner.py", "src/Merger.py", "src/BigMFinder.py", "src/optim/CCLPModel.py"],
     [("iterate relax / check / project / refine / merge", AP + ":solve"), ("stop when the relaxed solution is feasible or the gap is closed", AP + ":solve")],
     ["solver.xLB", "solver.vLB", "solver.vUB after solve()"])
prop("C02", "The extended MILP is exact in every formulation",
     "For every packing instance, the extended formulation with one indicator per scenario returns the exact optimum (within the requested gap) whether it uses indicator constraints or any of the three big-M methods, with or without lazy constraints. The returned indicators are consistent: a scenario whose indicator is one is satisfied by the returned solution, and the number of indicators at zero is at most the tolerated number.",
     ["inputs", "configurations"],
     "all instances of the stated spaces, all k, both variable types, all eight formulations, with and without bound recording",
     "Tests compare a few files only; an invalid big-M or a dropped constraint changes the optimum only on particular rows.",
     ["src/solver/MilpSolver.py", "src/solver/Solver.py", "src/optim/CCLPModel.py", "src/optim/OptiModel.py", "src/BigMFinder.py"],
     [("big-M / indicator model construction", "src/optim/OptiModel.py"), ("chance constraint", "src/optim/OptiModel.py:_add_chance_constraint")],
     ["MilpSolver.solve", "Solver.solve_cclp_model"])
prop("C03", "Bounds bracket the optimum at every instant",
     "At every instant of an adaptive solve the upper bound is at least, and the lower bound at most, the true optimum, and neither bound ever gets worse. Whenever a lower bound is available it is the value of an available solution that is feasible for the chance-constrained problem, and every line of the iteration log states the bounds, partition size and gap that held at that time.",
     ["inputs", "configurations", "schedules", "histories"],
     "every assignment of a bound during every explored solve (all configurations, random choices, optimal solutions the environment may return)",
     "Tests look at the final bounds of a few runs only.",
     [AP, "src/solver/Solver.py", "src/Informer.py", "src/LowerBounder.py"],
     [("bound updates", AP), ("iteration log", "src/Informer.py:store_iteration_info")],
     ["solver.vUB", "solver.vLB", "informer.iteration_info / write_iteration_details"])
prop("C04", "Every adaptive solve terminates",
     "Whatever the instance, the configuration, the outcome of the random choices and the choice among equally good relaxed solutions, an adaptive solve without time limit ends after finitely many iterations. Without merging it solves at most N - k relaxed problems, because each refinement makes the partition strictly finer.",
     ["inputs", "configurations", "schedules"],
     "all explored instances, configurations, random choices, and all choices among the optimal solutions of each relaxed problem",
     "Termination of merge/split cycles depends on ties and on which optimal solution the solver happens to return; the tests meet one of them.",
     [AP, "src/refiner/Refiner.py", "src/Merger.py"],
     [("refinement excludes the last relaxed solution", "src/refiner/Refiner.py:refine"), ("merge guard", AP + ":_merge")],
     ["number of relaxed problems solved"])
prop("C05", "The partition always partitions the scenarios",
     "Initially and after every refinement and merge, the subsets are non-empty, pairwise disjoint and together contain every scenario exactly once. There are always at least as many subsets as the tolerated number of violated scenarios plus one, and the initial partition has exactly that many.",
     ["inputs", "schedules", "histories"],
     "all reachable partitions for N<=5 under all violation patterns, random choices and merges, for every initial partition; all partitions loaded in full solves",
     "Tests refine one given partition with one seed.",
     ["src/Initializer.py", "src/refiner/Refiner.py", "src/refiner/CostRefiner.py", "src/refiner/RandomRefiner.py", "src/Merger.py"],
     [("initial partition", "src/Initializer.py:create_first_partition"), ("split", "src/refiner/Refiner.py"), ("merge", "src/Merger.py")],
     ["Initializer.create_first_partition", "Refiner.refine", "Merger.merge_all", "load_partition"])
prop("C06", "Refinement excludes the relaxed solution with the fewest splits",
     "Refining a partition for a relaxed solution that satisfies enough subsets but violates too many scenarios yields a partition in which exactly k+1 subsets contain a violated scenario, so that solution is no longer admitted, and adds exactly the missing number of subsets. Each new subset lies inside one old subset, subsets without at least two violated scenarios are left alone, the caller's partition is not modified, and the refiner names exactly the subsets it changed or created and those that are free of violations.",
     ["inputs", "schedules", "histories"],
     "all set partitions of N<=5 scenarios, all violated sets, all k, all random choices, both split rules, fresh and long-lived refiners",
     "Tests use one partition, one seed.",
     ["src/refiner/Refiner.py", "src/refiner/RandomRefiner.py", "src/refiner/CostRefiner.py"],
     [("number of splits", "src/refiner/Refiner.py:_find_number_of_splits_to_perform"), ("split traversal", "src/refiner/Refiner.py:_traverse_subsets_and_split")],
     ["RandomRefiner.refine", "CostRefiner.refine"])
prop("C07", "Merging preserves scenarios, bound and progress",
     "Merging replaces exactly the chosen subsets by their union and leaves every other subset unchanged and in order, and the lists of deleted and target subsets let the caller realign per-subset data; when merging feasible subsets, those with the largest rescaled margins are chosen. After a merge inside a solve, the partition is no larger than before the preceding refinement, the relaxed optimum over it is not above the known upper bound, and the last relaxed solution stays excluded.",
     ["inputs", "histories", "schedules"],
     "all set partitions of N<=5 x all candidate lists in every order; all merges met in solves with all optimal answers of the environment",
     "Tests merge a few hand-made partitions.",
     ["src/Merger.py", AP],
     [("merge", "src/Merger.py:merge_all"), ("margin ranking", "src/Merger.py:merge_feasible"), ("merge conditions", AP + ":_merge")],
     ["Merger.merge_all", "Merger.merge_feasible", "Merger.merge", "load_partition"])
prop("C08", "Stored subset values always belong to the current subsets",
     "Whenever the relaxed problem is solved, there is exactly one stored value and one stored solution per subset of the current partition, in the same order. The value is the true optimum over the scenarios of that subset and the solution attains it while satisfying all of them, however many splits and merges happened before.",
     ["inputs", "configurations", "histories", "schedules"],
     "every relaxed problem of every explored solve, including merge/split sequences",
     "Tests never compare stored values with a re-evaluation after several iterations; a misaligned value only shows through later pruning or merging.",
     [AP, "src/Evaluator.py", "src/Merger.py"],
     [("cost update after split", AP + ":_split"), ("cost update after merge", AP + ":_post_merge_processing")],
     ["solver.subset_costs", "solver.subset_sols"])
prop("C09", "Big-M values never cut off a feasible solution",
     "For the naive, Belotti and Song methods, on the original scenarios and on any partition, every solution that satisfies the chance constraint (and, for Belotti, whose objective does not exceed the bound used) violates each constraint by at most its big-M value. Recomputing for a new partition or a new bound leaves no value from an earlier call behind.",
     ["inputs", "configurations", "histories"],
     "all binary points or arrangement vertices of the stated instances, all set partitions for N<=5, all k, sequences of updates",
     "Tests compare a few stored numbers; validity is a statement over all feasible points.",
     ["src/BigMFinder.py", "src/song_big_m.py", "src/optim/BigMKnapsackModel.py", "violations.pyx", "violations.h"],
     [("naive", "src/BigMFinder.py:_naive_bigM"), ("Belotti", "src/BigMFinder.py:run_belotti_et_al_big_M"), ("Song", "src/BigMFinder.py:run_song_et_al_big_m")],
     ["BigMFinder.get_vector_big_M"])
prop("C10", "The compiled violation kernel computes exact knapsack maxima",
     "For two different scenarios the compiled kernel returns, for each constraint of the first, the smallest over the constraints of the second of the exact maximum violation of the former over the box subject to the latter; the Python implementation returns the same. For a scenario against itself it returns a valid upper bound that is never positive, and the inputs are not modified.",
     ["inputs"],
     "all pairs of rows with entries in a small grid, n<=3, m<=2, all capacities in a grid, plus wide rows up to 40 items",
     "Tests compare the two implementations on a few files.",
     ["violations.h", "violations.pyx", "src/song_big_m.py"],
     [("sorted fill with early stop", "violations.h:update"), ("pairing both directions of one sort", "violations.h:compute")],
     ["violations.compute_all_violations", "song_big_m.compute_all_violations", "song_big_m.solve_continuous_knapsack"])
prop("C11", "The projection step yields valid, history-free lower bounds",
     "Projecting a relaxed solution solves the deterministic problem over the smallest sufficient set of scenarios that the solution violates least (or that were satisfied most often, for the counter rule) and returns its exact optimum, which is a feasible solution of the chance-constrained problem. The answer depends only on the solution, the current lower bound and the recorded satisfaction counts, not on earlier projections, and no solution is returned exactly when none is at least as good as the current lower bound.",
     ["inputs", "histories"],
     "all sequences of up to 3 projected points from the relevant points of each instance, all k, all non-decreasing lower bounds, both projection rules",
     "The projection model is updated incrementally; tests call it once or twice.",
     ["src/LowerBounder.py", "src/optim/DeterModel.py"],
     [("incremental model update", "src/LowerBounder.py:_solve_deter_model"), ("scenario selection", "src/LowerBounder.py:_get_selected_scenarios")],
     ["LowerBounder.deterministic_bound"])
prop("C12", "Quantile and first-iteration bounds are exact",
     "The quantile bound equals the (k+1)-th smallest single-scenario value and names a scenario with that value, and it is never below the optimum of the chance-constrained problem. The first relaxed bound is the exact optimum of the relaxation over the initial partition, with a solution attaining it and satisfying the subset it marks as satisfied.",
     ["inputs", "configurations"],
     "all value vectors over a small grid with ties for N<=6, all permutations, all k; all (N,k) with N<=200; all set partitions into k+1 subsets",
     "Off-by-one in the cumulative probability shows only for particular N, epsilon and ties.",
     ["src/UpperBounder.py"],
     [("quantile", "src/UpperBounder.py:ahmed_et_al_bound"), ("first bound", "src/UpperBounder.py:first_iteration_bound")],
     ["UpperBounder.ahmed_et_al_bound", "UpperBounder.first_iteration_bound"])
prop("C13", "The feasibility verdict is exact",
     "A point is declared feasible exactly when the number of scenarios with a constraint exceeded by more than 1e-6 is at most the tolerated number, for every epsilon and number of scenarios including those where epsilon times N is an integer. The reported violated scenarios, satisfied scenarios and violation amounts (rescaled by the row norm) describe that same point, independently of points examined before.",
     ["inputs", "histories", "configurations"],
     "all grid and arrangement points of each instance shifted to violations just below and above 1e-6, all k, all (N,k) with N<=200, all sequences of two points",
     "Tests evaluate a few points far from the boundary.",
     ["src/instance/ChanceKnapInstance.py"],
     [("tolerance", "src/instance/ChanceKnapInstance.py:_get_scenario_infeasibility"), ("count", "src/instance/ChanceKnapInstance.py:is_feasible")],
     ["is_feasible", "check_feasibility", "get_feasible_scenarios", "get_sum_infeasibility"])
prop("C14", "Cost-based splits are optimal, also when reused",
     "Splitting a subset by cost assigns every scenario to one of two sides, each containing a violated scenario, and minimises over all such assignments the larger of the two continuous subset optima, which is the value returned. A refiner that has already answered other requests returns splits of the same quality for the current violated scenarios as a fresh one.",
     ["inputs", "histories"],
     "all subsets and violated sets for N<=5 in stated instance spaces, both variable types; all sequences of up to 3 requests",
     "Tests never compare with the best bipartition, and the memory of earlier answers is only exercised by long solves.",
     ["src/optim/AccObjModel.py", "src/refiner/CostRefiner.py"],
     [("dual min-max model", "src/optim/AccObjModel.py"), ("memory", "src/refiner/CostRefiner.py:_evaluate_single_accurate_split")],
     ["CostRefiner.accurate_obj_split", "CostRefiner.refine"])
prop("C15", "The partitioned model is exactly the relaxation over the partition",
     "After loading a partition, a subset's constraints are those of its scenarios stacked in order, and a set of violated subsets is tolerated exactly when it has at most k members. Solving the partitioned model gives the optimum of that relaxation in every formulation, independently of partitions loaded before, and leaves the original instance untouched.",
     ["inputs", "configurations", "histories"],
     "all set partitions of N<=5 scenarios into at least k+1 subsets, all k, both variable types, all formulations, sequences of loads",
     "Tests load one or two partitions.",
     ["src/instance/PartitionChanceKnapInstance.py", "src/optim/CCLPModel.py", "src/optim/OptiModel.py"],
     [("stacking", "src/instance/PartitionChanceKnapInstance.py:get_matrix_A"), ("tolerance rescaling", "src/instance/PartitionChanceKnapInstance.py:load_partition")],
     ["get_matrix_A", "get_vector_b", "get_proba", "get_epsilon", "Solver.solve_cclp_model"])
prop("C16", "Running out of time is graceful at every point",
     "If the time limit expires at any point of a solve, the solve ends promptly, either by returning or by raising the keyboard interruption the command line handles, never by another error. The limit counts from the construction of the solver; the optimizer is never given more time than is left, nor less, and an adaptive solve begins no lower bound and no refinement once the time has run out. Whatever it leaves behind is true: the bounds bracket the optimum, the incumbent is feasible and has the reported value, and a solution is not declared optimal unless it is.",
     ["crash_points", "configurations", "inputs"],
     "expiry at every single clock reading of every explored run, and inside every solver call (no solution yet, or a suboptimal one), for all methods",
     "Tests never run out of time.",
     [AP, "src/solver/Solver.py", "src/solver/MilpSolver.py", "src/TimeManager.py", "src/optim/OptiModel.py"],
     [("time checks", AP + ":solve"), ("solver time limit", "src/solver/Solver.py:solve_cclp_model")],
     ["solve()", "solver.vUB", "solver.vLB", "solver.xLB"])
prop("C17", "An interrupted run still writes a truthful result row",
     "If a solve is interrupted at any instruction, the result row and the iteration log can still be written and read back. The row identifies the instance and parameters, its bounds bracket the true optimum, its gap and partition size are consistent with them, and its computation time is the time that passed. The alarm that the command line sets for the time limit of an adaptive run causes such an interruption.",
     ["crash_points", "configurations"],
     "an interruption before every executed line of the sources during explored solves, for all four command-line methods",
     "No test interrupts a run or writes results.",
     [AP, "src/solver/MilpSolver.py", "src/solver/Solver.py", "src/Informer.py", "main.py"],
     [("result row", AP + ":write_all_computation_details"), ("interruption", "main.py")],
     ["the result file", "the iteration file"])
prop("C18", "Each command-line run writes the row the reporting step reads",
     "For every method, variable type and epsilon, running the command line on an instance creates the output folder if needed and one result file under the name the reporting step looks up for that experiment. The row's instance name, sizes, variable type, epsilon, limits and method code are those of the run, its bounds equal the true optimum, its gap is their relative difference in percent, its computation times are those that passed in the run and in its big-M computation, and the last line of the iteration file shows the same upper bound.",
     ["configurations", "inputs"],
     "all four methods x both variable types x all two-digit epsilons x stated instances and output locations",
     "main.py and the writers are not exercised by any test.",
     ["main.py", AP, "src/solver/MilpSolver.py", "src/Informer.py", "src/export/format_results.py"],
     [("file naming", "main.py"), ("row layout", AP + ":write_all_computation_details"), ("lookup", "src/export/format_results.py:read_single_experiment")],
     ["result file", "read_single_experiment"])
prop("C19", "Instance files are read back exactly",
     "For every well-formed instance file, the loaded instance has the file's dimensions, costs, capacities and scenario matrices in file order, rounded to one decimal, with uniform probabilities and the given epsilon and variable type. Each scenario's data is independent of the others'.",
     ["inputs"],
     "all dimensions n,m,N<=4, number formats, line endings, both variable types",
     "Tests read a few files with equal shapes.",
     ["src/instance/ChanceInstance.py", "src/instance/ChanceKnapInstance.py"],
     [("parsing", "src/instance/ChanceKnapInstance.py:_parse_model_data")],
     ["get_* of the instance"])
prop("C20", "Result tables report exactly what the result files say",
     "For every combination of solved, unsolved and missing experiments, the table entry of a method is the average time if all its runs reached the required gap and otherwise the average gap with the number of solved runs, followed by the average iteration count for adaptive methods, and no number where results are missing. The highlighted entry is the fastest fully solved method, or else the one with most runs solved and then the smallest average gap, and big-M times are averages over the runs they describe.",
     ["inputs", "fault_sequences"],
     "all solved/unsolved/missing patterns with several time and gap orders for all methods of one table row, and a whole export",
     "The export code has no tests.",
     ["src/export/format_results.py", "export_results.py"],
     [("aggregation", "src/export/format_results.py:format_method"), ("highlighting", "export_results.py")],
     ["format_method", "the files written by export_results.py"])
prop("C21", "Warm starts and pruning never change the relaxed optimum",
     "Each relaxed problem is solved with hints only for subsets that overlap a subset the previous relaxed solution satisfied, and with every such surviving subset hinted. Only subsets whose own optimum is below the current lower bound are excluded beforehand, so the relaxed optimum is that of the unrestricted relaxation whenever it is not below the lower bound.",
     ["inputs", "histories", "schedules"],
     "every relaxed problem of every explored solve with merges and splits, all optimal answers of the environment; all indicator vectors and deletion lists up to length 6 directly",
     "Misaligned hints are silently discarded by the solver, and wrong pruning needs particular cost/bound relations.",
     ["src/Warmstarter.py", "src/UpperBounder.py", AP],
     [("hints", "src/Warmstarter.py:get_z_start"), ("pruning", "src/UpperBounder.py:partition_bound")],
     ["arguments of Solver.solve_cclp_model", "Warmstarter.get_z_start"])
prop("C22", "The incumbent search returns the best feasible candidate",
     "Given candidate solutions and the current bounds, the incumbent search returns the feasible candidate with the highest objective among those that improve the lower bound and do not exceed the upper bound, together with its objective value. It reports no improvement exactly when there is none, and never alters the candidates.",
     ["inputs"],
     "all lists of up to 3 candidates from the relevant points of each instance, all bound pairs from the attained objective values, all k",
     "Tests try one or two lists.",
     ["src/LowerBounder.py"],
     [("ranking and check", "src/LowerBounder.py:_find_best_incumbent")],
     ["LowerBounder.incumbent_bound"])
prop("C23", "The recorded bound trace is monotone and truthful",
     "When bound recording is requested, the trace file is written whether the solve completes, runs out of time or is interrupted. It has a line for every change of incumbent or bound the solver reported. Its times are the elapsed time given plus the time of the solve and never decrease, its incumbent values and bounds never get worse, and every line brackets the true optimum.",
     ["inputs", "crash_points", "configurations"],
     "stated instances x formulations x interruption at every callback",
     "Only the existence of a solve with recording is tested.",
     ["src/optim/OptiModel.py", "src/solver/Solver.py"],
     [("callback", "src/optim/OptiModel.py:_save_bounds_callback"), ("file", "src/optim/OptiModel.py:_save_bounds_to_file")],
     ["the trace file"])
prop("C24", "Generated instances are well formed and keep the base data",
     "For every base instance and every outcome of the random draws, the generator writes the requested number of files, named after their dimensions, that load with the base costs and capacities. Every scenario entry is non-negative, zero where the item failed in that scenario, and otherwise the drawn value (around the base entry, with a tenth of it as standard deviation) rounded to four decimals; an item fails in all constraints of a scenario or in none.",
     ["inputs", "schedules"],
     "all failure patterns and scripted draws for tiny base instances, several sizes",
     "The generator has no tests and is unseeded.",
     ["data/cc-instances/knapsack/instance-generator.py"],
     [("sampling and writing", "data/cc-instances/knapsack/instance-generator.py")],
     ["the generated files", "ChanceKnapInstance"])
prop("C25", "Subset values are exact and incremental models equal fresh ones",
     "The value of a scenario, list of scenarios or partition is the exact optimum when all listed scenarios must hold, with a solution that attains it. A deterministic model to which scenarios are added and removed in any order gives the same optimum as one built afresh for the resulting set.",
     ["inputs", "histories"],
     "all subsets and partitions for the stated instances, all add/remove sequences up to the stated depth",
     "Tests add and remove once.",
     ["src/Evaluator.py", "src/optim/DeterModel.py", "src/optim/OptiModel.py"],
     [("model", "src/optim/DeterModel.py"), ("evaluation", "src/Evaluator.py")],
     ["Evaluator.subset_cost", "Evaluator.scenario_costs", "Evaluator.partition_cost", "DeterModel.add", "DeterModel.remove"])
prop("C26", "Runs do not influence each other and are reproducible",
     "With the same random choices, solving the same instance again gives the same iterations, bounds and solution, whatever other instances, tolerances or methods were solved before in the process, and even if the runs share one instance object. The instance data is never changed by a solve.",
     ["histories", "configurations"],
     "all sequences of up to 3 solves over the listed methods and instances",
     "Each test runs on fresh objects; shared class-level or default-argument state is never exercised.",
     [AP, "src/TimeManager.py", "src/optim/OptiModel.py", "src/instance/PartitionChanceKnapInstance.py", "src/solver/Solver.py"],
     [("shared environment and clock", "src/optim/OptiModel.py"), ("shared instance data", "src/instance/PartitionChanceKnapInstance.py")],
     ["solver results", "instance getters"])
prop("C27", "The experiment scripts, the solver script and the tables fit together",
     "Running the generation script, then the experiment script, then the export yields complete tables: every experiment of the tables is run exactly once, on an instance that the generation script makes and with the method, variable type and epsilon of that experiment, and its result file is the one the export reads. Stopped after any number of experiments, the export shows the averages of exactly those that are complete and no number for the others.",
     ["configurations", "crash_points", "histories"],
     "all experiments; the export after the stated prefixes of the runs",
     "No test runs the scripts.",
     ["run_all_experiments.sh", "data/cc-instances/knapsack/generate-all-instances.sh", "main.py", "export_results.py", "src/export/format_results.py"],
     [("experiments", "run_all_experiments.sh"), ("tables", "export_results.py")],
     ["started command lines", "result files", "result tables"])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps(p) + "\n")
