#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so the text stays reviewable)."""
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
SYS='core/include/bertini2/system/system.hpp'; SYSC='core/src/system/system.cpp'
prop('C01','Editing a system never leaves stale derivatives, programs or orderings',
 'After any public operation that changes a polynomial system (adding, reordering, scaling, summing or simplifying functions, parameters or constants; adding, clearing, copying or homogenizing variables; choosing the evaluation or differentiation method), the next Jacobian, time derivative, or evaluation at given values is computed from the changed system. No derivative, compiled program, or variable ordering built before the change is used after it, and a patch is not kept across a change of the variable groups it was made for.',
 ['histories','inputs'],'every sequence of public mutators and evaluations of a system',
 'The tests build a system once, then evaluate it; the mutate-after-differentiate histories are unbounded, and the system tests do not even compile at this commit.',
 [SYS,SYSC],[('flag reset in each mutator',SYSC+' System::Add*, Homogenize, operator+=, ...'),('lazy re-differentiation',SYS+' JacobianInPlace, TimeDerivativeInPlace, SetVariables, SetPathVariable')],
 [('is_differentiated_','derivatives and program are current',SYS),('have_ordering_','variable ordering is current',SYS),('is_patched_','patch is valid',SYS)])
prop('C02','Evaluating at new values never returns results cached from earlier values',
 'Every evaluation, Jacobian, or time derivative of a system at given variable or path-variable values is recomputed from those values: whatever was cached for earlier values, for another numeric type, or at another precision is discarded before the result is produced. This holds for tree evaluation and for compiled straight-line programs alike, and clearing a node clears everything it depends on.',
 ['histories','inputs','configurations'],'every interleaving of set-value, set-precision and evaluate calls, both evaluation methods, both numeric types',
 'A stale cache shows only on a second evaluation, after a specific interleaving of setters, precision changes and numeric types; the evaluation tests are disabled and sample single calls.',
 [SYS,'core/include/bertini2/function_tree/node.hpp','core/src/function_tree/node.cpp','core/src/system/straight_line_program.cpp','core/include/bertini2/system/straight_line_program.hpp'],
 [('set, then reset, then evaluate',SYS+' EvalInPlace/JacobianInPlace/TimeDerivativeInPlace overloads'),('recursive Reset','core/src/function_tree/**'),('evaluated flag','core/include/bertini2/system/straight_line_program.hpp')])
prop('C03','Copying, assigning, moving or swapping an object carries its whole state',
 'A copy of a system, patch, slice, node, start system, or other value-like object behaves exactly as the original, whatever the original had been used for before: every part of the state that influences later results is transferred. Swapping two systems exchanges all of it.',
 ['histories','inputs'],'every object state reachable before the copy',
 'Tests copy freshly built objects; forgetting one member shows only when that member had left its default value.',
 [SYS,SYSC,'core/include/bertini2/system/patch.hpp'],[('copy constructor, swap',SYSC),('Patch copy','core/include/bertini2/system/patch.hpp')])
prop('C04','Saving and restoring an object loses nothing and reads what was written',
 'For every serializable type, what is written to an archive is exactly what is read back, in the same order, and covers every member that influences later behaviour together with its base classes. Every concrete expression-node type can be saved and restored through a pointer to its base.',
 ['inputs','programs'],'every object of every serializable type',
 'Serialization tests of nodes and systems are disabled at this commit, and a missing member is seen only when it is not at its default.',
 [SYS,'core/include/bertini2/system/patch.hpp','core/include/bertini2/system/slice.hpp','core/include/bertini2/function_tree','core/include/bertini2/mpfr_complex.hpp','core/include/bertini2/mpfr_extensions.hpp'],
 [('serialize / save / load members','core/include/bertini2/**'),('class export','core/src/function_tree/**')])
prop('C05','All evaluation routes of an expression compute the same operation',
 'Every expression node denotes one mathematical operation, and every route to its value computes that operation on the same operands in the same order: double and multiple precision, by value and in place, by walking the tree or by running the compiled straight-line program. Building an expression with an operator or named function yields the node of that operation.',
 ['inputs','configurations'],'every expression and every point',
 'Agreement between routes is a relation over all trees; tests sample a few trees, most of them disabled at this commit.',
 ['core/src/function_tree/operators/arithmetic.cpp','core/src/function_tree/operators/trig.cpp','core/include/bertini2/function_tree/operators','core/src/system/straight_line_program.cpp'],
 [('FreshEval_d / FreshEval_mp','core/src/function_tree/operators'),('SLP visitors, interpreter','core/src/system/straight_line_program.cpp')])
prop('C06','Symbolic derivatives obey the rules of calculus',
 'Differentiating any expression with respect to a variable yields an expression equal to its mathematical derivative: linearity, product, quotient, power and chain rules, the derivatives of the elementary functions, one for the variable itself and zero for constants and other variables. The same holds whether the differentiation variable is given or left symbolic.',
 ['inputs'],'every expression, every variable',
 'The differentiation tests do not compile at this commit; and rules interact over unboundedly many trees.',
 ['core/src/function_tree/operators/arithmetic.cpp','core/src/function_tree/operators/trig.cpp','core/src/function_tree/symbols'],
 [('Differentiate overrides','core/src/function_tree/**')])
prop('C07','A precision change reaches every part of an object',
 'Changing the working precision of a node, system, straight-line program, patch, slice, predictor, corrector, or tracker changes the precision of every multiple-precision part it owns or will use, and of nothing partially: afterwards the object reports the new precision and no part remains at the old one. Multiple-precision constants are recomputed from their exact source, not padded.',
 ['histories','configurations','inputs'],'every object state and every sequence of precisions',
 'A member left behind is seen only when adaptive precision changes precision at a specific moment; tests do not vary precision over all parts.',
 [SYSC,'core/include/bertini2/system/patch.hpp','core/include/bertini2/trackers/explicit_predictors.hpp','core/include/bertini2/trackers/newton_corrector.hpp','core/src/system/straight_line_program.cpp','core/src/function_tree'],
 [('precision(unsigned)','all node types, System, SLP'),('ChangePrecision','predictor, corrector, AMP tracker')])
prop('C08','Non-polynomial input is never treated as polynomial',
 'Degree, homogeneity and polynomiality queries combine the answers of sub-expressions so that a non-polynomial sub-expression always makes the whole non-polynomial in the variables concerned. Homogenizing, building a start system, and setting up a zero-dimensional solve refuse, before changing anything, a system that is not polynomial or not square as required.',
 ['inputs'],'every expression and system',
 'Tests try a few expressions; masking of a negative degree by a sum or maximum needs particular operand orders.',
 ['core/src/function_tree/operators/arithmetic.cpp','core/src/function_tree/operators/operator.cpp',SYSC,'core/src/system/start','core/include/bertini2/nag_algorithms/zero_dim_solve.hpp'],
 [('Degree / IsHomogeneous / IsPolynomial','core/src/function_tree'),('guards','System::Homogenize, start system constructors, ZeroDim::ConsistencyCheck')])
prop('C09','A path is reported tracked only if the tracker really reached the end time',
 'Tracking a path returns success only when the current time has reached the requested end time with every accepted step having passed prediction and correction; every failure of initialisation, of the per-step limits, or of precision ends tracking with that failure code. A rejected step changes neither the current point nor the current time, and tracker clean-up runs on every return.',
 ['inputs','histories','configurations'],'every homotopy, start point, configuration, and sequence of step outcomes',
 'Which step fails, and how, depends on the path; the tracker tests do not compile at this commit.',
 ['core/include/bertini2/trackers/base_tracker.hpp','core/include/bertini2/trackers/amp_tracker.hpp','core/include/bertini2/trackers/fixed_precision_tracker.hpp'],
 [('TrackPath loop','core/include/bertini2/trackers/base_tracker.hpp'),('TrackerIteration','amp_tracker.hpp, fixed_precision_tracker.hpp')])
prop('C10','Prediction and correction report success only when it was earned',
 'Newton correction reports success only after a step smaller than the requested tolerance and at least the minimum number of iterations, never exceeds the maximum number of iterations, and reports a failed linear solve, a lack of precision or non-convergence as such. Prediction likewise reports a failed linear solve or a precision shortfall, and neither hides a failure code of the other.',
 ['inputs','configurations'],'every system, point, tolerance and iteration limit',
 'Failure branches need singular or ill-conditioned data at a specific iteration; corrector and predictor tests do not compile at this commit.',
 ['core/include/bertini2/trackers/newton_corrector.hpp','core/include/bertini2/trackers/newton_correct.hpp','core/include/bertini2/trackers/explicit_predictors.hpp','core/include/bertini2/trackers/predict.hpp'],
 [('Correct, EvalIterationStep','core/include/bertini2/trackers/newton_corrector.hpp'),('FullStep, Predict','core/include/bertini2/trackers/explicit_predictors.hpp')])
prop('C11','An endgame reports success only for a converged approximation',
 'Running an endgame returns success only if two consecutive approximations of the endpoint agreed within the final tolerance; a failure of tracking, refining, or extrapolating while collecting samples is returned to the caller, never dropped. Samples and the times they belong to are always added and removed together.',
 ['inputs','histories','configurations'],'every path, tracker type, configuration, and sequence of sub-operation outcomes',
 'The Cauchy tests do not compile, the power-series tests run only well-behaved paths; the failure of a particular refinement in a particular iteration is not sampled.',
 ['core/include/bertini2/endgames/base_endgame.hpp','core/include/bertini2/endgames/cauchy.hpp','core/include/bertini2/endgames/powerseries.hpp','core/include/bertini2/endgames/fixed_prec_endgame.hpp','core/include/bertini2/endgames/amp_endgame.hpp'],
 [('RunImpl of each endgame','cauchy.hpp, powerseries.hpp')])
prop('C12','A zero-dimensional solve accounts for every start point exactly once',
 'A solve tracks every start point up to the endgame boundary, checks there for crossed paths, retracks those with tightened tolerance at most the configured number of times, and runs the endgame exactly on the paths that reached the boundary; each path\'s solution and metadata are stored under its own index with the codes and data of that path. Reported multiplicities and nonsingular solution lists are drawn only from paths whose endgame succeeded, and output skips paths that never reached the endgame. Solving again starts afresh. A target system that has a path variable, is underconstrained or is not polynomial is refused at construction.',
 ['inputs','histories','configurations'],'every system, every pattern of path failures and crossings, repeated solves',
 'The zero-dim algorithm tests do not compile at this commit, and crossings and failures are rare events on sampled systems.',
 ['core/include/bertini2/nag_algorithms/zero_dim_solve.hpp','core/include/bertini2/nag_algorithms/midpath_check.hpp','core/include/bertini2/nag_algorithms/output.hpp'],
 [('Solve and its phases','core/include/bertini2/nag_algorithms/zero_dim_solve.hpp'),('crossed-path check','core/include/bertini2/nag_algorithms/midpath_check.hpp')])
prop('C13','Each configuration keyword sets exactly the option it names',
 'Every Bertini-classic configuration keyword, wherever it stands in the configuration text and whatever other keywords surround it, sets exactly the option it names, to the value given, and leaves the other options at their documented defaults. Enumerated values select the alternative documented for that number.',
 ['inputs'],'every configuration text',
 'The tests feed a handful of keyword combinations per struct; the space of keyword subsets and orders is exponential.',
 ['core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp','core/include/bertini2/io/parsing/settings_parsers/endgames.hpp','core/include/bertini2/io/parsing/settings_parsers/tracking.hpp'],
 [('ConfigSettingParser specialisations','core/include/bertini2/io/parsing/settings_parsers')])
prop('C14','The input language means what it says',
 'Parsing a function or system text builds the expression the text denotes: each operator and function name yields its own operation with ordinary precedence and associativity, and each declaration keyword (functions, subfunctions, constants, parameters, variable groups, homogeneous variable groups, path variable) declares that kind of symbol, in order of declaration. A text that does not parse completely is reported as a failure, and leaves the output untouched.',
 ['inputs'],'every input text',
 'The grammar tests compare a few strings; precedence and keyword bugs appear only for particular operator combinations.',
 ['core/include/bertini2/io/parsing/function_rules.hpp','core/include/bertini2/io/parsing/system_rules.hpp','core/include/bertini2/io/parsing/number_rules.hpp','core/include/bertini2/io/parsing/function_parsers.hpp','core/include/bertini2/io/parsing/system_parsers.hpp','core/include/bertini2/io/parsing/number_parsers.hpp'],
 [('FunctionParser','core/include/bertini2/io/parsing/function_rules.hpp'),('SystemParser','core/include/bertini2/io/parsing/system_rules.hpp'),('parse entry points','core/include/bertini2/io/parsing/*_parsers.hpp')])
prop('C15','Ill-sized or ill-timed requests are refused before anything changes',
 'Evaluating, differentiating, dehomogenizing, setting values, or tracking with a point of the wrong length, or with a missing or superfluous path-variable value, throws an error before any of the object\'s stored values changes. Rescaling a point of the wrong length to the patch, and evaluating in place at the stored values into a destination of the wrong size, are refused before anything is written. Well-formed requests are not refused by these guards.',
 ['inputs'],'every call with mismatching arguments, in every configuration',
 'Each guard is one branch per overload; tests exercise only a few overloads and do not observe that the state is unchanged.',
 [SYS,SYSC,'core/include/bertini2/system/patch.hpp','core/include/bertini2/trackers/base_tracker.hpp'],
 [('size and path-variable guards',SYS),('patch','core/include/bertini2/system/patch.hpp'),('start point','core/include/bertini2/trackers/base_tracker.hpp')])
prop('C16','Observers see every event exactly once',
 'An observer attached to an observable receives every event emitted until it is detached, each exactly once however often it was attached, also when observers detach themselves while being notified. Every path tracked announces its start, the outcome of each step, prediction and correction, each precision change, and its ending, once each and truthfully; an endgame announces every approximation it judges, and convergence exactly when it reports success.',
 ['histories'],'every sequence of attach, detach and notify calls, including those made by observers',
 'Detaching during notification and duplicate attachment are interleavings; the observer tests do not compile at this commit.',
 ['core/include/bertini2/detail/observable.hpp','core/include/bertini2/trackers/observers.hpp','core/include/bertini2/trackers/amp_tracker.hpp','core/include/bertini2/trackers/fixed_precision_tracker.hpp'],
 [('AddObserver, RemoveObserver, NotifyObservers','core/include/bertini2/detail/observable.hpp')])
prop('C17','Each predictor is the method it is named for, at the order it claims',
 'Every selectable predictor uses the coefficients of the Runge-Kutta method it is named for: the tableau is explicit and consistent, satisfies the order conditions up to the order the predictor reports, and where an error estimate is offered, it is the difference to a consistent embedded method of adjacent order. Selecting a predictor always installs its own tableau and stage count, and a predictor without an error estimate never claims one.',
 ['inputs','configurations'],'every predictor, every initial value problem',
 'Predictor tests do not compile at this commit; a wrong coefficient still converges, only at a lower order, which sampled paths do not show.',
 ['core/src/tracking/explicit_predictors.cpp','core/include/bertini2/trackers/explicit_predictors.hpp'],
 [('tableaux','core/src/tracking/explicit_predictors.cpp'),('PredictorMethod, Order, HasErrorEstimate','core/include/bertini2/trackers/explicit_predictors.hpp')])
prop('C18','The working precision is one consistent setting and temporary changes are undone',
 'Setting the default precision sets it for real and complex numbers together, so the two never differ. Operations outside the trackers, endgames and solver phases that need another precision temporarily (random numbers, slices, output) leave the default precision as they found it when they return. Random numbers requested with a number of digits carry at least that many random digits and have that precision; those requested without one have the current default. Random coefficients of slices and patches are generated, and slices orthogonalised, at the highest precision allowed. Whenever the adaptive tracker has switched precision, its own precision and the default agree; an endgame that raises precision raises both; making samples uniform leaves the default at the precision it reports.',
 ['histories','inputs','configurations'],'every call sequence, every requested precision',
 'A leak of the thread-wide default shows only in a later, unrelated computation; missing random digits do not show in any value.',
 ['core/include/bertini2/mpfr_complex.hpp','core/include/bertini2/mpfr_extensions.hpp','core/src/basics/random.cpp','core/include/bertini2/random.hpp','core/include/bertini2/system/slice.hpp'],
 [('DefaultPrecision','core/include/bertini2/mpfr_extensions.hpp, mpfr_complex.hpp'),('save and restore','core/src/basics/random.cpp')])
prop('C19','Run-time choices of start system, tracker and endgame are honoured',
 'Building a solver from run-time choices yields exactly the chosen start system, tracker, and endgame for every combination, with the storage policy that the start system needs, and refuses combinations it does not support. The same choice made through configuration text selects the same algorithm.',
 ['configurations'],'all combinations of start system, tracker, endgame',
 'Tests build two combinations and look at none of the resulting types.',
 ['core/include/bertini2/blackbox/switches_zerodim.hpp','core/include/bertini2/blackbox/user_homotopy.hpp','core/include/bertini2/blackbox/config.hpp','core/include/bertini2/io/parsing/settings_parsers/tracking.hpp'],
 [('switch cascade','core/include/bertini2/blackbox/switches_zerodim.hpp')])
prop('C20','Start systems have exactly the advertised start points',
 'A start system\'s start-point count is the product or sum of products its type promises, and every index below the count, and no other, yields a start point, distinct indices yielding distinct points; the start functions have the degrees of the target\'s functions in the same variable structure. Each start point solves every start function (after homogenization, with the rescaling to the patch, too), and a target the start system is not made for is refused. The random numbers of the functions are drawn separately.',
 ['inputs'],'every target system, every index',
 'The start-system tests do not compile at this commit, and mixed-radix index errors show only for particular degree patterns.',
 ['core/src/system/start/total_degree.cpp','core/src/system/start/mhom.cpp','core/src/system/start/user.cpp','core/include/bertini2/system/start/utility.hpp'],
 [('NumStartPoints, GenerateStartPoint','core/src/system/start/*.cpp'),('IndexToSubscript','core/include/bertini2/system/start/utility.hpp')])
prop('C21','Homogenizing gives homogeneous functions that agree with the originals',
 'After homogenizing a polynomial system, every function is homogeneous in every variable group together with its homogenizing variable, has the degree it had before, and equals the original function when the homogenizing variables are set to one. This holds for every expression, including powers and negatives of sums and sub-expressions shared by several functions, and homogenizing again changes nothing. Degree queries give the degree of the polynomial as written, in a variable, in a group, and in total.',
 ['inputs'],'every polynomial system, every nesting and sharing of sub-expressions',
 'Tests homogenize a few flat sums; a wrong power of the homogenizing variable needs a nested or shared sum, or a particular pattern of degrees.',
 ['core/src/function_tree/operators/arithmetic.cpp','core/src/function_tree/operators/operator.cpp','core/src/function_tree/linear_product.cpp',SYSC],
 [('SumOperator::Homogenize','core/src/function_tree/operators/arithmetic.cpp'),('System::Homogenize',SYSC),('Degree queries','core/src/function_tree')])
prop('N01','Computed endpoints are accurate to the final tolerance',
 'Every endpoint reported with success approximates a true solution of the target system to the final tolerance.',
 ['inputs'],'every system','Depends on floating-point behaviour on every input.',['core/include/bertini2/endgames'],[('endgames','core/include/bertini2/endgames')])
prop('N02','A solve finds every isolated solution',
 'With probability one, every isolated solution of a square polynomial system is among the endpoints of a zero-dimensional solve.',
 ['inputs'],'every system','Probability-one statement about random homotopies.',['core/include/bertini2/nag_algorithms/zero_dim_solve.hpp'],[('gamma trick, random patches','core/include/bertini2/nag_algorithms/zero_dim_solve.hpp')])
prop('N03','Numbers survive printing and parsing at full precision',
 'A number written by the generators and read back by the parsers at the same precision is the same number.',
 ['inputs'],'every number and precision','Round trip over an infinite numeric domain.',['core/include/bertini2/io/generators.hpp','core/include/bertini2/io/parsing/number_rules.hpp'],[('generators, number parser','core/include/bertini2/io')])
prop('N04','Adaptive precision is always high enough',
 'Adaptive tracking raises precision whenever the rounding error could exceed what the tracking tolerance allows.',
 ['inputs'],'every path','Quantifies over run-time condition numbers.',['core/include/bertini2/trackers/amp_criteria.hpp','core/include/bertini2/trackers/amp_tracker.hpp'],[('criteria A, B, C','core/include/bertini2/trackers/amp_criteria.hpp')])
with open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
