import json
P=[]
def add(id,title,st,over,qt,why,files,mech,obs=(),state=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),
      why_tests_cant=why,anchors=dict(files=files,
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],
      observe_at=list(obs),hook_needed=None)))
AP='src/solver/AdaptivePartitioner.py'
D="Domain: multi-dimensional packing data (non-negative weights, capacities and profits), equiprobable scenarios, a risk level below one, binary or unit-interval continuous variables, no time limit reached unless said otherwise."
add('C01','The adaptive method returns an exact optimum of the chance-constrained problem',
 "Whenever a run of the adaptive partitioning method ends by itself, its lower and its upper bound both equal the true optimal value of the chance-constrained problem, or, when a larger gap was requested, bracket it and lie within that gap of each other; and it reports a solution that attains the lower bound and violates at most the tolerated number of scenarios. This holds for every combination of splitting, initial-partition, projection, big-M, merging, lazy-constraint and objective options. "+D,
 ['inputs','configurations','histories'],"all instances of the domain x all option combinations x all random choices and ties",
 "The integration tests solve about a dozen fixed files with a few option combinations and compare the methods with each other; they cannot reach every combination of instance, tie, random split and option.",
 [AP,'src/UpperBounder.py','src/LowerBounder.py','src/solver/Solver.py'],
 [('main loop, stops on a feasible relaxed solution or on a closed gap',AP+':solve'),('gap','src/solver/Solver.py:_compute_gap')],
 ['AdaptivePartitioner.solve return: vLB, vUB, xLB'],[('bounds','best feasible value and relaxed value','vLB, vUB')])
add('C02','Bounds always bracket the optimum, never worsen, and are attained',
 "At every moment of an adaptive run the lower bound is at most the true optimum and the upper bound at least the true optimum; the lower bound never decreases and the upper bound never increases, and neither is ever worse than a value that a step of the run has returned, nor the lower bound than a feasible stored solution of a block. A finite lower bound is the objective of the stored solution, which violates at most the tolerated number of scenarios.",
 ['inputs','configurations','histories'],"every iteration of every run, every option combination",
 "Tests look at final values only, and never at the bounds of intermediate iterations against an independent optimum.",
 [AP,'src/LowerBounder.py','src/UpperBounder.py'],
 [('bound updates',AP+':_upper_bound, _lower_bound, _improve_vlb_with_candidate_sols')],['start of each iteration','end of the run'])
add('C03','The partition covers every scenario exactly once',
 "Throughout a run the blocks of the scenario partition are non-empty and contain every scenario exactly once, there are always more blocks than tolerated violations, and the aggregated problem that is solved is the one of that partition. This holds after initialisation, after every refinement and after every merge.",
 ['inputs','configurations','histories'],"every iteration of every run",
 "Unit tests refine and merge a handful of fixed partitions once; they do not follow a partition through a history of refinements and merges.",
 ['src/Initializer.py','src/refiner/Refiner.py','src/Merger.py',AP],
 [('assertions on the refined partition','src/refiner/Refiner.py:_check_final_partition'),('assertions on the merged partition','src/Merger.py')],
 ['start of each iteration','refinement and merge results'],[('partition','list of blocks','AdaptivePartitioner.partition')])
add('C04','A refinement is minimal and rules out the relaxed solution',
 "A refinement only splits existing blocks, performs exactly as many splits as needed so that the scenarios violated by the last relaxed solution meet one block more than tolerated, and reports correctly which blocks are new and which hold no violated scenario. The refined relaxation is at least as tight as before.",
 ['inputs','histories','configurations'],"all partitions, all relaxed-feasible but infeasible points, all splitting methods and random orders",
 "Tests refine a few fixed partitions at fixed points; the number of splits depends on how violated scenarios fall into blocks.",
 ['src/refiner/Refiner.py','src/refiner/RandomRefiner.py','src/refiner/CostRefiner.py'],
 [('number of splits','src/refiner/Refiner.py:_find_number_of_splits_to_perform'),('splitting both violated and satisfied scenarios','src/refiner/Refiner.py:_split_scenarios_subset')],['result of refine'])
add('C05','Merging never undoes the refinement and never loosens the bound',
 "A merge after a refinement only joins blocks, leaves no more blocks than before that refinement, keeps the last relaxed solution ruled out, and keeps the relaxed value at or below the current upper bound. After mu splits it joins one group: the mu+1 satisfied blocks with the largest normalised slack at the relaxed solution or, if there are only mu, all of them with the costliest violated block. It is made whenever the upper bound has improved since the last merge and exceeds the cost of every block that the refinement has changed. Merging given pairs joins exactly these, and the partners proposed for them are the violated blocks that cost at most the upper bound, costliest first.",
 ['inputs','histories','configurations'],"all merges performed in runs and all merges of arbitrary refined partitions",
 "Tests merge two or three fixed partitions and check block counts only; whether the relaxed solution stays excluded depends on the history.",
 ['src/Merger.py',AP],[('merge of mu+1 satisfied blocks / of all satisfied blocks with one other','src/Merger.py:merge_feasible, merge_all'),('guard on subset costs',AP+':_merge')],['result of a merge','next iteration'])
add('C06','Stored costs and solutions of the blocks stay exact and aligned',
 "At every iteration the stored cost of each block is the optimum of the problem that enforces exactly the scenarios of that block, and the stored solution satisfies them and attains this cost. Refinements and merges keep costs, solutions and blocks aligned.",
 ['inputs','histories','configurations'],"every block at every iteration of every run",
 "No test looks at the stored costs after a refinement or merge; misalignment only shows after particular sequences of splits and merges.",
 [AP,'src/Evaluator.py','src/Merger.py'],[('update of costs',AP+':_split, _post_merge_processing'),('evaluation','src/Evaluator.py:subset_cost, partition_cost')],['start of each iteration'])
add('C07','The relaxed problem is exact whatever the formulation options',
 "For every partition, the relaxed (partitioned) problem returns its exact optimal value, a solution attaining it that satisfies all but the tolerated number of blocks, and block indicators consistent with that solution. This holds with indicator constraints or any big-M method, with or without lazy constraints, pruning by subset cost and warm start.",
 ['inputs','configurations'],"all partitions x formulation options x warm starts x valid prunings",
 "Tests compare a few formulations on fixed files; an over-tight big-M or a wrong pruning only shows on specific data.",
 ['src/optim/CCLPModel.py','src/optim/OptiModel.py','src/UpperBounder.py','src/solver/Solver.py'],
 [('indicator / big-M rows','src/optim/CCLPModel.py'),('pruning','src/UpperBounder.py:partition_bound')],['result of the relaxed problem'])
add('C08','Big-M values never cut off a needed point and are never weaker than naive',
 "Each big-M value is at least the violation of its row at every point that is relevant for its method (relaxed-feasible, and not above the given upper bound for the tightened one), and at most the larger of zero and the naive value; the tightened value is no weaker than the largest violation among the points not above that upper bound, and the pairwise method's no weaker than the quantile it takes. Values stay aligned with the rows of the (aggregated) scenario they belong to, also after the partition has changed.",
 ['inputs','configurations','histories'],"all instances, partitions, upper bounds and methods",
 "Tests check values on two small files; validity quantifies over all points of the feasible region.",
 ['src/BigMFinder.py','src/song_big_m.py','src/optim/BigMKnapsackModel.py','violations.h','violations.pyx'],
 [('tightening by the objective','src/BigMFinder.py:run_belotti_et_al_big_M'),('quantile of pairwise violations','src/BigMFinder.py:run_song_et_al_big_m')],['big-M vectors after an update'])
add('C09','The extended formulation is solved exactly with every big-M choice',
 "Solving the full mixed-integer formulation returns the true optimum as lower and upper bound (or, when a larger gap was requested, bounds around it within that gap), a solution attaining the lower bound that violates at most the tolerated number of scenarios, and scenario indicators consistent with it, whichever big-M method or indicator constraints are used.",
 ['inputs','configurations'],"all instances x formulation options",
 "Tests solve a few files; they have no independent optimum.",
 ['src/solver/MilpSolver.py','src/optim/CCLPModel.py','src/solver/Solver.py'],[('model','src/optim/CCLPModel.py')],['MilpSolver.solve'])
add('C10','Feasibility verdicts are exact',
 "The verdict on a point lists exactly the scenarios it violates and accepts the point if and only if the share of violated scenarios is at most the risk level, also when the product of risk level and number of scenarios is rounded in floating point, and for points with solver noise.",
 ['inputs'],"all instances, risk levels and points",
 "Tests use a few points of one file; rounding only matters for particular pairs of risk level and number of scenarios.",
 ['src/instance/ChanceKnapInstance.py','src/instance/ChanceInstance.py'],[('counting of violated scenarios','src/instance/ChanceKnapInstance.py:check_feasibility, is_feasible')],['check_feasibility','is_feasible'])
add('C11','The projection enforces the right scenarios and is exact',
 "The projection step enforces exactly all scenarios but the tolerated number: the satisfied and least violated ones, or, with the counter method, those most often satisfied by the solutions seen so far. Its value is the optimum under these scenarios whenever that improves the lower bound, is feasible for the chance constraint, and never exceeds the true optimum.",
 ['inputs','histories'],"all sequences of relaxed solutions, both projection methods",
 "Tests project one or two fixed solutions; the counter method depends on the whole history.",
 ['src/LowerBounder.py','src/optim/DeterModel.py'],[('choice of scenarios','src/LowerBounder.py:deterministic_bound')],['deterministic_bound'])
add('C12','The incumbent search finds the best feasible improving candidate',
 "Among candidate solutions the incumbent search reports an improvement if and only if one of them is feasible, strictly better than the current lower bound and not above the upper bound, and then returns the best such candidate with its objective.",
 ['inputs'],"all candidate lists and bounds, with ties",
 "Tests use one list; order, ties and infeasible better candidates matter.",
 ['src/LowerBounder.py'],[('search','src/LowerBounder.py:incumbent_bound')],['incumbent_bound'])
add('C13','The quantile bound is the right quantile and bounds the optimum',
 "The quantile bound is the smallest scenario cost such that scenarios costing no more outweigh the risk level, for any weights and any risk level including exact multiples. With true scenario costs it is an upper bound on the optimum.",
 ['inputs'],"all cost lists, weights and risk levels",
 "Tests evaluate one cost list; off-by-one errors only show at exact multiples of the weights.",
 ['src/UpperBounder.py','src/Evaluator.py'],[('cumulated probability in cost order','src/UpperBounder.py:ahmed_et_al_bound')],['ahmed_et_al_bound'])
add('C14','The aggregated view of a partition is faithful',
 "For any partition loaded into it, the aggregated instance has one scenario per block, containing exactly the constraints of the block's scenarios, with equal probabilities and a risk level under which exactly the originally tolerated number of blocks may be violated. The original instance is left unchanged, and loading another partition forgets the previous one.",
 ['inputs','histories'],"all partitions and sequences of partitions",
 "Tests load a single partition of one file.",
 ['src/instance/PartitionChanceKnapInstance.py','src/instance/ChanceInstance.py'],[('aggregation','src/instance/PartitionChanceKnapInstance.py:load_partition')],['getters of the aggregated instance'])
add('C15','The pairwise violation table is exact',
 "For any two scenarios and any row, the table holds the largest violation of the row of the first that is possible while the second is satisfied row by row (minimum over the rows of the second of a fractional knapsack). The compiled and the pure-Python implementation agree with this, including zero weights, zero capacities and ties.",
 ['inputs'],"all matrices and capacities",
 "Tests compare the two implementations on two files; both could be wrong together, and degenerate data does not occur there.",
 ['violations.h','violations.pyx','src/song_big_m.py'],[('fractional knapsack','violations.h; src/song_big_m.py:solve_continuous_knapsack')],['compute_all_violations'])
add('C16','A run that is stopped leaves valid bounds and can still be reported',
 "Whenever an adaptive or extended-formulation run is stopped, by its time limit at any point or by an interruption between any two steps, its bounds still bracket the true optimum, a stored solution is feasible, and the result files can be written and show these bounds. After the time limit no further iteration is begun, and the command-line program ends with its result files even if its alarm strikes at the last moment.",
 ['inputs','crash_points','configurations'],"all instances x all points at which the clock may run out or the interruption may arrive",
 "Tests never let a time limit expire in the middle of a run and never interrupt one.",
 [AP,'src/solver/Solver.py','src/solver/MilpSolver.py','src/TimeManager.py','src/optim/OptiModel.py','main.py'],[('checks of the remaining time',AP+':solve'),('reporting',AP+':write_all_computation_details')],['bounds after the stop','result files'])
add('C17','Result rows and iteration logs tell what the run was and found',
 "The result row written after a run states the instance, risk level, limits, options and method codes of that run, its bounds, gap, iterations, partition size and time, and nothing else. The iteration log lists iterations in order with valid, monotone bounds, matching gaps and partition sizes, and agrees with the final result. The bounds file saved by the extended formulation holds valid bounds that only tighten, with increasing times, and each change the solver reports, once, also when the run is interrupted.",
 ['inputs','configurations'],"all instances, options, limits and file names",
 "No test writes a result file for a real run of each option.",
 [AP,'src/solver/MilpSolver.py','src/solver/Solver.py','src/Informer.py'],[('rows',AP+':write_all_computation_details; src/solver/MilpSolver.py'),('log','src/Informer.py')],['result files'])
add('C18','A cost-based split minimises the larger cost of the two halves',
 "The cost-based split of a block separates it into two parts, both holding a violated scenario, such that the larger of the two optimal (continuous) costs is as small as possible, and it reports that cost. A cost-based refinement splits the block with the largest such cost among those not above the upper bound, or else the one with the least, whatever splits were evaluated before.",
 ['inputs'],"all instances, blocks and sets of violated scenarios, all histories of refinements by one refiner",
 "Tests check one block; minimality quantifies over all splits.",
 ['src/optim/AccObjModel.py','src/refiner/CostRefiner.py'],[('split model','src/optim/AccObjModel.py'),('call','src/refiner/CostRefiner.py:accurate_obj_split')],['accurate_obj_split'])
add('C19','Instance files are read and generated faithfully',
 "Reading an instance file gives exactly its dimensions, objective, scenario matrices and capacities (rounded to one decimal), equal probabilities, the given risk level and variable type, and its name. Generated files have the announced name, dimensions and row counts, repeat objective and capacities, scatter the weights around the source with whole items failing per scenario, and can be read back.",
 ['inputs'],"all files of the format, all generator arguments",
 "Tests read two or three files and do not compare every entry; the generator has no test.",
 ['src/instance/ChanceKnapInstance.py','data/cc-instances/knapsack/instance-generator.py'],[('parsing','src/instance/ChanceKnapInstance.py'),('generation','data/cc-instances/knapsack/instance-generator.py')],['getters of a loaded instance','generated files'])
add('C20','The command-line program solves, configures and reports correctly',
 "For every instance file, variable type, risk level and each of the four methods, the command-line program exits successfully, runs the documented configuration, and writes result files under the name the export looks for, whose bounds equal the true optimum.",
 ['inputs','configurations'],"all instances of the domain x four methods x output folders",
 "No test runs the program.",
 ['main.py',AP,'src/solver/MilpSolver.py','src/export/format_results.py'],[('argument handling and dispatch','main.py')],['exit code','result files'])
add('C21','The initial partition is balanced, complete and dealt by cost',
 "The initial partition has one block more than the tolerated number of violations, covers every scenario once and has block sizes differing by at most one. With cost-based initialisation scenarios are dealt in turns by decreasing exact cost, so that its relaxed value is at most the quantile bound.",
 ['inputs','configurations'],"all instances, risk levels and initialisation methods",
 "Tests build a few partitions; rounding of the risk level and ties of costs are not covered.",
 ['src/Initializer.py',AP],[('creation','src/Initializer.py:create_first_partition')],['state after construction'])
add('C22','Warm-start hints refer to the blocks they were computed for',
 "Warm-start hints for the next relaxed problem select exactly the blocks that were selected in the last one and still exist, at their current positions after deletions by a merge, and never a deleted or unselected block.",
 ['inputs','histories'],"all indicator vectors, deletion lists and runs with merging",
 "Tests use two deletion lists; wrong hints do not change results, so no integration test can notice.",
 ['src/Warmstarter.py','src/UpperBounder.py','src/Merger.py',AP],[('index shift','src/Warmstarter.py:get_z_start')],['get_z_start'])
add('C23','The adaptive method always makes progress and terminates',
 "Without merging a run needs at most as many iterations as there are scenarios beyond the tolerated ones, and each iteration strictly refines the partition. With merging every run still ends, never cycling over partitions.",
 ['inputs','configurations','histories'],"all runs",
 "A test either ends or hangs on its few instances; cycling needs particular ties and merge histories.",
 [AP,'src/refiner/Refiner.py','src/Merger.py'],[('refinement in each iteration',AP+':solve'),('merge guard',AP+':_merge')],['number of iterations','partitions over time'])
add('C24','Exported tables summarise the result files faithfully',
 "For any set of result files the export finds each one, reports the number solved to the required gap and either the mean time (all solved) or mean gap with the number solved, the mean iterations, and the mean big-M times, marks missing results as missing, highlights a best method, and labels every row with the instance, risk level and number of scenarios it is about.",
 ['inputs'],"all complete or incomplete sets of result files",
 "No test runs the export.",
 ['export_results.py','src/export/format_results.py'],[('look-up and averages','src/export/format_results.py'),('tables','export_results.py')],['exported tables'])
add('C25','Deterministic and block problems stay exact after any change of scenarios',
 "Whatever sequence of scenarios has been added to, enforced in or removed from a deterministic model or asked of the evaluator, the value returned for a set of scenarios is the optimum of the problem enforcing exactly those scenarios, and the solution returned satisfies them and attains it.",
 ['inputs','histories'],"all instances, all sequences of additions, removals and queries",
 "Tests solve one or two fixed sets with a fresh model; stale constraints of earlier queries only show after particular sequences.",
 ['src/optim/DeterModel.py','src/Evaluator.py','src/optim/OptiModel.py'],[('scenario constraints','src/optim/DeterModel.py'),('memory of evaluated subsets','src/Evaluator.py')],['DeterModel.solve','Evaluator.subset_cost'])
add('C26','A run depends only on its data, options and seed',
 "Two runs on the same instance with the same options and random seed take the same steps and return the same bounds, whatever else was solved before in the same process; and two runs of the command-line program on the same file write the same results apart from times.",
 ['inputs','histories','configurations'],"all instances, options, seeds, and earlier runs in the same process",
 "Every test starts from a fresh object and none repeats a run; state that leaks between runs (class attributes, default arguments, a shared instance) shows only in a second run.",
 [AP,'src/Initializer.py','src/refiner/Refiner.py','src/refiner/CostRefiner.py','src/TimeManager.py','src/instance/ChanceInstance.py','main.py'],[('random generator',AP),('shared time manager','src/TimeManager.py')],['steps of a run','result files'])
add('C27','Generator script, experiment script, runs and export fit together',
 "The generation script writes one well-formed instance for every size, scenario count, constraint type and seed it lists, each derived from the source data it names, under a name of its own. The experiment script starts one run for every generated instance, every risk level and every method variant that it lists, each on a file the generation script writes and with a result file of its own; the names of these result files are those the program writes. The export then finds the results of every such run and reports each under its own instance, risk level and method, never mixing two of them.",
 ['inputs','configurations','histories'],"all runs listed by the two scripts, all subsets of them that have finished, all orders",
 "No test runs the scripts, the instance generator or the export; that their names agree is visible only when all four are put together.",
 ['run_all_experiments.sh','generate-all-instances.sh','instance-generator.py','main.py','export_results.py'],
 [('list of runs','run_all_experiments.sh'),('name of a result file','main.py'),('lookup of result files','export_results.py'),('name of an instance file','instance-generator.py')],['files written by the generator','command lines of the experiment script','result files','export tables'])
with open('/verif/properties.jsonl','w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
# manifest
NOTE="TLC checks the design models exhaustively within small constants, and every recorded execution of the real code, event by event, against the specification (exact integer semantics). Assurance is for the executions explored (seeded random and TLC-enumerated instances); Gurobi, numpy and the recording wrappers are trusted."
M=dict(version=1,setup_cmd='python3 prepare.py',checks=[dict(property=p['id'],quick_cmd='python3 check.py %s quick'%p['id'],thorough_cmd='python3 check.py %s thorough'%p['id'],evidence_file='evidence/%s.json'%p['id'],
 technique='TLA+ specification: TLC design models + trace validation of the real code (Trace.tla)',level='model_checking',level_note=NOTE) for p in P],not_applicable=[],
 notes='No hooks: the harness wraps public methods at run time from /verif/harness/rec.py. fix: commits in /repo are listed in known-findings.txt.')
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
