"""The properties, and for each the harness cases which decide it.  gen.py writes
properties.jsonl and MANIFEST.json from this table; check.py runs it."""
S = 'src/'
PROPS = {}
def prop(pid, title, statement, over, qtext, why, files, mech, bounds, cases, assumptions=(), note='', total=None):
    P = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, bounds=bounds, cases=cases, assumptions=list(assumptions), note=note)
    if total: P['total'] = total
    PROPS[pid] = P
def C(harness, case, budget=120, tbudget=1200, thorough=None, **params):
    d = dict(harness=harness, case=case, params=params, budget=budget, tbudget=tbudget)
    for k in ('tier', 'qtimeout', 'maxconc', 'pathtime'):
        if k in params: d[k] = params.pop(k)
    if thorough: d['thorough'] = thorough
    return d
ONE = 'The only reliable test solves one small convex example through the C++ interface; '

prop('P01', 'Node problem handed to the NLP solver is the user problem',
     'At every node the NLP solver is given exactly the user\'s functions, derivatives, sparsity structure and constraint bounds, the variable bounds most recently set through the API, and the start point most recently set (or the user\'s own one); copies made of the node problem are equal to it and independent of it. '
     'What the NLP solver returns (status, objective, primal point, constraint values, multipliers) is stored unchanged, and re-checking a stored solution rounds the integer variables and reports the largest constraint violation at the rounded point.',
     ['inputs', 'histories'], 'for all problem data and all sequences of bound changes, start-point changes, clones and solver answers',
     ONE + 'it samples one problem and the bound histories its single tree produces, and compares nothing the solver is given.',
     [S + 'Interfaces/BonTMINLP2TNLP.cpp', S + 'Interfaces/BonTMINLP2TNLP.hpp'],
     [dict(name='bounds, start point and solution storage of the node problem', where='BonTMINLP2TNLP.cpp: SetVariable*Bound*, setxInit, setDualsInit, get_starting_point, finalize_solution, check_solution, copy'),
      dict(name='evaluation forwarding', where='BonTMINLP2TNLP.cpp: eval_*')],
     '2 variables, 2 constraints, dense Jacobian and Hessian; histories of 2-3 operations (thorough: 3-4); all real data in [-8,8]',
     [C('node_problem.cpp', 'bounds', steps=2, thorough=dict(steps=3)), C('node_problem.cpp', 'evals'), C('node_problem.cpp', 'start', steps=3, thorough=dict(steps=4)), C('node_problem.cpp', 'finalize', thorough=dict(rounds=2)), C('node_problem.cpp', 'check_solution')],
     ['the user problem is a stub returning symbolic values and recording its arguments'])

prop('P02', 'Reported solve outcome is the NLP solver\'s outcome',
     'After a solve through the solver interface, optimality, infeasibility, unboundedness and iteration-limit are reported exactly when the NLP solver reached that conclusion for the bounds currently set, never two contradicting ones at once. '
     'The reported objective, point and multipliers are those of that solve; a failure of the NLP solver that is not resolved by retrying is raised as an error unless the user asked to continue.',
     ['inputs', 'fault_sequences'], 'for all solver return statuses, returned values and bounds',
     ONE + 'the NLP solver always succeeds there, so no failing status is ever seen.',
     [S + 'Interfaces/BonOsiTMINLPInterface.cpp', S + 'Interfaces/BonTNLPSolver.cpp', S + 'Interfaces/BonTMINLP2TNLP.cpp'],
     [dict(name='status predicates', where='BonOsiTMINLPInterface.cpp: isProvenOptimal, isProvenPrimalInfeasible, isAbandoned, ...'), dict(name='solve and error raising', where='BonOsiTMINLPInterface.cpp: solveAndCheckErrors, initialSolve, resolve')],
     '2 variables, 1 constraint, one solve, all 13 return statuses, all returned values in [-8,8] (objective [-100,100])',
     [C('interface.cpp', 'solve')], ['the NLP solver is a stub with symbolic status and solution; its warm starts are inert'])

prop('P03', 'Retries after failure and repeated solves keep the right result',
     'When a solve fails, further attempts are made from the user\'s start point and then from random points inside the bounds, as many as configured, stopping at the first success; the reported result is that of the successful attempt. '
     'When several solves for a better objective are configured, as many as configured (for the root, for nodes, for infeasible nodes) are made from points inside the bounds and the reported objective, point and multipliers all come from one solve, the best optimal one.',
     ['inputs', 'fault_sequences'], 'for all sequences of solver statuses and solutions, all bounds and random draws',
     ONE + 'neither retries nor repeated solves are switched on or triggered in it.',
     [S + 'Interfaces/BonOsiTMINLPInterface.cpp'], [dict(name='retry loops', where='BonOsiTMINLPInterface.cpp: resolveForRobustness, resolveForCost, randomStartingPoint')],
     '2 variables, 1 constraint; up to 1 random retry and 2 (thorough: 3) repeated solves; statuses optimal, optimal-to-tolerance, infeasible, failed',
     [C('interface.cpp', 'robust', fathom=0), C('interface.cpp', 'robust', fathom=1), C('interface.cpp', 'robust', node=1), C('interface.cpp', 'robust', node=2, fathom=1), C('interface.cpp', 'cost', retries=2, nst=4, thorough=dict(retries=3)), C('interface.cpp', 'cost', retries=2, node=1), C('interface.cpp', 'cost', retries=0, inf=2, node=1), C('interface.cpp', 'cost', retries=0, node=1), C('interface.cpp', 'cost', retries=1, inf=2, node=2), C('interface.cpp', 'cost', retries=0, inf=2, node=2), C('interface.cpp', 'random', type=0), C('interface.cpp', 'random', type=1)],
     ['random numbers are symbolic in [0,1)', 'the NLP solver is a stub with symbolic status and solution'])

prop('P04', 'Outer-approximation cuts are exactly the linearisations at the point',
     'Each outer-approximation cut generated at a point is satisfied by every point within the variable bounds that satisfies the linearised constraint (or objective) it comes from, and up to the documented tolerances excludes every point that violates it. '
     'One cut is generated per nonlinear constraint, on the side selected by its multiplier when it has two sides, plus one for the objective when requested; this holds also when small coefficients are dropped.',
     ['inputs', 'configurations'], 'for all constraint values, gradients, bounds, multipliers and candidate points, both index styles',
     ONE + 'it runs the outer-approximation code on one problem without looking at any cut.',
     [S + 'Interfaces/BonOsiTMINLPInterface.cpp', S + 'Interfaces/BonOsiTMINLPInterface.hpp'], [dict(name='cut generation', where='BonOsiTMINLPInterface.cpp: getOuterApproximation, getConstraintOuterApproximation, cleanNnz')],
     'up to 2 constraints and 2 variables, dense; data in [-8,8] (bounds and points up to 1e6 in one case); coefficients ordinary, tiny or negligible; infinite bounds as alternatives',
     [C('oa.cpp', 'oa', kinds=3, m=1), C('oa.cpp', 'oa', kinds=3, big=1, thorough=dict(big=0), tbudget=2400), C('oa.cpp', 'oa', m=1, kinds=2, wide=1, tiny=1), C('oa.cpp', 'oa', m=1, kinds=2, fortran=1, calls=2), C('oa.cpp', 'oa_single', kinds=3, fortran=1), C('oa.cpp', 'oa_single', kinds=3), C('oa.cpp', 'oa', kinds=2, big=1, lin=1, linobj=1), C('oa.cpp', 'oa', kinds=3, m=1, tiny=1, inf=1, tier='thorough')],
     ['reals in place of doubles; comparisons allow 1e-9 (1e-5 where data reach 1e6)'])

prop('P05', 'Linear relaxation extracted for cutting-plane algorithms is the problem\'s',
     'The linear program built from a problem has its columns, column bounds and integrality, its linear constraints unchanged, one linearisation for each nonlinear constraint (two-sided ones on the side their multiplier selects, left out when it is zero), and its objective (copied when linear, linearised in an added free column otherwise). '
     'Every point that satisfies the linearised constraints stays feasible in it.',
     ['inputs', 'configurations'], 'for all problem data, constraint types, multipliers and points',
     ONE + 'the relaxation of one problem is used but never compared with it.',
     [S + 'Interfaces/BonOsiTMINLPInterface.cpp'], [dict(name='relaxation extraction', where='BonOsiTMINLPInterface.cpp: extractLinearRelaxation, addObjectiveFunction')],
     'up to 2 constraints and 2 variables, dense; data in [-8,8] (bounds and points up to 1e6 in one case)',
     [C('oa.cpp', 'relax', kinds=2), C('oa.cpp', 'relax', kinds=3, big=1), C('oa.cpp', 'relax', kinds=4, m=1, lin=1, inf=1), C('oa.cpp', 'relax', kinds=4, lin=1, big=1, linobj=1), C('oa.cpp', 'relax', m=1, kinds=2, wide=1, tiny=1), C('oa.cpp', 'relax', m=1, kinds=2, fortran=1, vt=1)],
     ['the LP solver is a stub recording what it is loaded with', 'CoinPackedMatrix is replaced by an encoded stand-in'])

prop('P06', 'Benders cut is the multiplier-weighted linearisation',
     'The Benders cut taken from an NLP solution is satisfied by every point within the bounds that satisfies the linearised objective and constraints, and is the aggregation of them with the solution\'s multipliers.',
     ['inputs'], 'for all problem data, solutions and multipliers of the right sign',
     ONE + 'no option used there generates a Benders cut.',
     [S + 'Interfaces/BonOsiTMINLPInterface.cpp'], [dict(name='Benders cut', where='BonOsiTMINLPInterface.cpp: getBendersCut')],
     '1 constraint and 2 variables, or 2 constraints and 1 variable; data in [-8,8] (up to 1e6 in one case)',
     [C('oa.cpp', 'benders', kinds=3, m=1), C('oa.cpp', 'benders', kinds=3, n=1), C('oa.cpp', 'benders', m=1, kinds=2, wide=1, tiny=1)])

prop('P07', 'Row and column data of the solver interface are the problem\'s',
     'Row sense, right-hand side and range reported by the solver interface are consistent with the constraint bounds of the problem in whatever order they are asked for, and column bounds and types are the problem\'s; a clone of the interface reports the same.',
     ['inputs', 'histories'], 'for all bounds (finite and infinite), column types and query orders',
     ONE + 'it never asks for the row data in that form.',
     [S + 'Interfaces/BonOsiTMINLPInterface.cpp'], [dict(name='cached row data', where='BonOsiTMINLPInterface.cpp: getRowSense, getRightHandSide, getRowRange, clone')],
     '2 rows, 2 columns', [C('interface.cpp', 'rows')])

prop('P08', 'Feasibility-pump and local-branching problems are what they are documented to be',
     'The auxiliary NLP used by feasibility pumps, local branching and RINS keeps the user\'s variables, bounds and constraints; its objective is the documented combination of the scaled distance (L1 or L2) to the target point and the user\'s objective when the feasibility-pump objective is on, and the user\'s objective otherwise. '
     'The optional cutoff row is the user\'s objective, limited strictly below the given value; the optional local-branching row is the L1 distance to the 0/1 point, limited by its right-hand side. Values, gradient, Jacobian, Hessian, linearity, start point and returned solution agree with each other and stay inside their arrays, also in copies; switching back gives the original problem.',
     ['inputs', 'configurations'], 'for all problem data, points, multipliers, target points, norms, weights, combinations of extra rows and index styles',
     ONE + 'it runs no feasibility pump or local branching.',
     [S + 'Interfaces/BonTNLP2FPNLP.cpp', S + 'Interfaces/BonTNLP2FPNLP.hpp', S + 'Interfaces/BonOsiTMINLPInterface.cpp'], [dict(name='auxiliary problem', where='BonTNLP2FPNLP.cpp/.hpp'), dict(name='entry points', where='BonOsiTMINLPInterface.cpp: solveFeasibilityProblem, switchToFeasibilityProblem, switchToOriginalProblem')],
     '3 variables, 2 constraints, dense; 4 subsets of the variables in the distance; data in [-8,8]',
     [C('fp.cpp', 'direct', lin=0, thorough=dict(lin=1)), C('fp.cpp', 'solution', lin=0), C('fp.cpp', 'iface', lin=0, subsets=3, thorough=dict(subsets=4))])

prop('P09', 'Quadratic and linear cuts added to the NLP are the rows the solver sees',
     'After any sequence of adding quadratic and linear cuts to the node problem (whatever the storage of the quadratic form), removing some and copying the problem, the NLP solver sees the user\'s problem followed by exactly the remaining cuts in order: bounds, constant, linear and quadratic terms, values, gradients, Jacobian and Hessian structure and values and linearity are those of the cuts, inside the arrays. '
     'A substituted linear objective replaces the user\'s until it is reset. The violation of a quadratic cut at a point is the amount by which the point misses its bounds.',
     ['inputs', 'histories'], 'for all cut coefficients, storage types, points, multipliers and sequences of additions, removals and copies',
     ONE + 'it adds no cut to the NLP.',
     [S + 'Algorithms/QuadCuts/BonTMINLP2Quad.cpp', S + 'Algorithms/QuadCuts/BonQuadRow.cpp', S + 'Algorithms/QuadCuts/BonTMatrix.cpp', S + 'Algorithms/QuadCuts/BonQuadCut.cpp', S + 'Algorithms/QuadCuts/BonTMINLP2Quad.hpp'], [dict(name='cut rows', where='BonTMINLP2Quad.cpp: addCuts, removeCuts, eval_*'), dict(name='quadratic forms', where='BonQuadRow.cpp, BonTMatrix.cpp, BonQuadCut.cpp')],
     '3 variables, 2 user constraints, 3 Hessian structures, 5 patterns of quadratic term; histories of 1-2 operations (thorough: 3); data in [-8,8]',
     [C('quad.cpp', 'violated', pats=5), C('quad.cpp', 'model', steps=1, pats=5), C('quad.cpp', 'model', steps=2, pats=3, ls=1), C('quad.cpp', 'model', steps=3, pats=1, ls=1, tier='thorough')],
     ['the user Hessian has no duplicate entries', 'CoinPackedMatrix, CoinPackedVector and OsiRowCut are replaced by encoded stand-ins'])

prop('P10', 'Reformulation with a linear objective is equivalent to the user problem',
     'The problem with a linear objective has one more variable eta (last, free, continuous) and one more constraint f(x)-eta<=0 (first); everything else (types, bounds, constraints, Jacobian, Hessian, start point, scaling, evaluation errors, final solution) is the user\'s, shifted accordingly.',
     ['inputs', 'configurations'], 'for all problem data, points, multipliers, index styles and evaluation errors',
     ONE + 'it does not use this reformulation.',
     [S + 'Algorithms/QuadCuts/BonTMINLPLinObj.cpp', S + 'Algorithms/QuadCuts/BonTMINLPLinObj.hpp'], [dict(name='reformulation', where='BonTMINLPLinObj.cpp/.hpp')],
     '3 variables, 2 constraints, dense; data in [-8,8]', [C('linobj.cpp', 'linobj')])

prop('P11', 'The Ipopt adapter reports what Ipopt concluded',
     'Every way Ipopt can end is translated to the matching outcome (success, infeasible, unbounded, limits, errors), with Ipopt\'s point and multipliers, and the first call to Ipopt is never a re-optimisation. A problem with all variables fixed is decided without Ipopt: optimal with the user\'s objective and constraint values at the fixed point when all constraints hold there, infeasible when one is violated by more than the tolerance. '
     'A warm start taken after a solve holds that solution, is not changed by later solves, survives copying and differencing, and when set becomes the start point and the initial multipliers of the next solve.',
     ['inputs', 'fault_sequences', 'histories'], 'for all return codes of Ipopt, bounds, constraint values and solutions, over sequences of solves',
     ONE + 'Ipopt always succeeds there, and no node has all its variables fixed with a violated constraint.',
     [S + 'Interfaces/Ipopt/BonIpoptSolver.cpp', S + 'Interfaces/Ipopt/BonIpoptWarmStart.cpp', S + 'Interfaces/BonTNLPSolver.cpp'], [dict(name='outcome mapping', where='BonIpoptSolver.cpp: OptimizeTNLP, ReOptimizeTNLP, solverReturnStatus'), dict(name='fixed problems', where='BonTNLPSolver.cpp: zeroDimension'), dict(name='warm starts', where='BonIpoptSolver.cpp, BonIpoptWarmStart.cpp: getWarmStart, setWarmStart, getUsedWarmStart, generateDiff, applyDiff')],
     '2 variables, 1-3 constraints; one solve with all 19 return codes, two solves with 2 return codes (thorough: 3); data in [-8,8], including bounds that differ by less than the tolerance',
     [C('ipopt.cpp', 'outcome', steps=1), C('ipopt.cpp', 'outcome', steps=2, nst=2, m=1, nw=2, ninf=1, thorough=dict(nst=3, nw=3), tbudget=2400), C('ipopt.cpp', 'warm')],
     ['Ipopt itself is a stand-in with symbolic return code and solution', 'lower bounds do not exceed upper bounds', 'the user\'s functions can be evaluated at the fixed point'])

prop('P12', 'The result reported at the end is the outcome of the search',
     'When branch-and-bound ends, the user is told exactly once: success with the best solution and its objective only if the tree search finished with one, infeasible only if it finished without any, unbounded when the relaxation is, limit or interrupt with the incumbent if there is one, error otherwise; the status, solution, objective, bound and counts kept by the driver agree with it. '
     'A problem without discrete variables is decided by its relaxation. An error raised by the NLP solver is passed on after telling the user, and nothing is then claimed.',
     ['inputs', 'fault_sequences'], 'for all ways the tree search and the root solve can end, all solutions and clock readings',
     ONE + 'the search always finishes there with an optimal solution.',
     [S + 'CbcBonmin/BonCbc.cpp', S + 'CbcBonmin/BonCbc.hpp', S + 'Interfaces/BonAuxInfos.cpp', S + 'CbcBonmin/BonBabInfos.cpp'], [dict(name='result reporting', where='BonCbc.cpp: Bab::branchAndBound'), dict(name='solutions found by heuristics', where='BonAuxInfos.cpp')],
     '2 variables (one discrete, or none); algorithms B-BB and B-OA; all end codes of Cbc; up to 4 clock readings',
     [C('bab.cpp', 'report'), C('bab.cpp', 'report', aux=1, nst=2), C('bab.cpp', 'report', aux=1, oa=1, nst=1), C('bab.cpp', 'report', time=1, nst=1), C('bab.cpp', 'continuous', nst=13), C('bab.cpp', 'continuous', cbc=1)],
     ['the tree search of Cbc is a stand-in that ends in any way Cbc documents', 'Cbc gives no solution together with an unbounded relaxation'])

prop('P13', 'Limits, tolerances, priorities and sets reach the tree search unchanged',
     'The tree search runs with the node, solution, iteration and time limits, integer tolerance, gaps, cutoff (at most 1e-6 above the given one), cutoff decrement, strong-branching limits and cut passes the user set. '
     'It branches on exactly the discrete variables and the special ordered sets of the problem, with the user\'s priorities, directions, pseudo-costs, members, weights and types, also when the set description was copied.',
     ['inputs', 'configurations'], 'for all option values, variable types, priorities, directions and sets, with Bonmin\'s and Cbc\'s branching rules',
     ONE + 'it uses default options, no priority and no set.',
     [S + 'CbcBonmin/BonCbc.cpp', S + 'Algorithms/BonBabSetupBase.cpp', S + 'Algorithms/BonBonminSetup.cpp', S + 'Interfaces/BonTMINLP.cpp'], [dict(name='parameters', where='BonBabSetupBase.cpp: gatherParametersValues; BonCbc.cpp: Bab::branchAndBound'), dict(name='objects', where='BonBabSetupBase.cpp: setPriorities, addSos; BonCbc.cpp; BonTMINLP.cpp: SosInfo')],
     '3 variables in 4 type combinations, up to 2 sets of 2-3 members; integer options in [0,100000], real ones in [1,8] or [-1e6,1e6]',
     [C('bab.cpp', 'params'), C('bab.cpp', 'params', cbc=1), C('bab.cpp', 'params', oa=1), C('bab.cpp', 'objects'), C('bab.cpp', 'objects', cbc=1), C('bab.cpp', 'objects', oa=1)],
     ['the tree search of Cbc is a stand-in which records what it is given', 'weights of sets are fixed numbers'])

prop('P14', 'The node trees lose no open node and give none twice',
     'With every tree search strategy Bonmin offers beyond Cbc\'s own (dive, probed-dive, dfs-dive, dfs-dive-dynamic, with any dive limit), every open node is given to the search exactly once unless it was pruned, only nodes whose value is not below the cutoff are pruned, '
     'the tree is empty exactly when no node is open, and the bound it reports is the smallest value among the open nodes.',
     ['histories', 'configurations'], 'for all sequences of branching, infeasible children, new solutions and changes of strategy, and all node values and estimates within the bounds',
     ONE + 'it uses the default tree of Cbc.',
     [S + 'CbcBonmin/BonDiver.cpp'], [dict(name='trees', where='BonDiver.cpp: CbcDiver, CbcProbedDiver, CbcDfsDiver, DiverCompare')],
     '3-5 steps of the search (take a node, branch, put back, child or none; new solution; switch of comparison), then all nodes are taken out; node values in [-8,100), two-way branching; limits on backtracks 0-5, dive depth 1 or none',
     [C('tree.cpp', 'drive', kind=0, steps=4), C('tree.cpp', 'drive', kind=0, stop=1, steps=4), C('tree.cpp', 'drive', kind=1, steps=4), C('tree.cpp', 'drive', kind=1, stop=1, cmp=1, steps=4), C('tree.cpp', 'drive', kind=2, back=0), C('tree.cpp', 'drive', kind=2, back=2, steps=4),
      C('tree.cpp', 'drive', kind=2, back=1, depth=1, steps=4), C('tree.cpp', 'drive', kind=3, steps=4), C('tree.cpp', 'drive', 60, 300, tier='thorough', kind=3, cmp=1, depth=1, back=1, steps=5), C('tree.cpp', 'drive', 60, 300, tier='thorough', kind=1, stop=1, steps=5)],
     ['the heap of Cbc is a stand-in (a list from which the first or last node is taken)', 'the order in which Cbc takes, puts back and adds nodes is that of CbcModel::doOneNode'])

prop('P15', 'Branching decisions: candidates, forced branches, bounds and pseudo-costs',
     'The object chosen to branch on is one that the point violates, and of the best (smallest) priority among those. A node is declared infeasible, or a variable\'s bound changed, only if strong branching proved the branches that are given up infeasible or not better than the cutoff; failed or unfinished solves prove nothing. '
     'Strong branching tries each candidate once in each direction from the node\'s own bounds, tries no more than the limits allow, and leaves the bounds as they were unless it fixes a variable. Pseudo-costs change exactly by what the branches showed.',
     ['inputs', 'configurations'], 'for all violations, priorities, bounds, branching values, outcomes and objective values of the branches, cutoffs and branching histories within the bounds',
     ONE + 'its branching never depends on priorities, look-ahead or failed solves.',
     [S + 'Algorithms/Branching/BonChooseVariable.cpp'], [dict(name='list', where='BonChooseVariable.cpp: setupList, computeUsefulness'), dict(name='choice', where='BonChooseVariable.cpp: chooseVariable, doStrongBranching, HotInfo::updateInformation, updateInformation')],
     '2-4 objects, satisfied, violated or impossible to satisfy, 2 priorities; strong branching on 0-2 of them, reliability 0 or 2 and look-ahead 0 or 1; each branch optimal, infeasible, at the iteration limit or failed, objective in [1,16]; cutoff in (1,8] or none',
     [C('choose.cpp', 'choose', n=2, strong=2), C('choose.cpp', 'choose', n=3, strong=0), C('choose.cpp', 'choose', n=3, strong=1), C('choose.cpp', 'choose', n=2, strong=2, sts=1, prio=0), C('choose.cpp', 'choose', n=2, strong=2, fix=1, cut=0), C('choose.cpp', 'choose', n=2, strong=2, sts=1, prio=0, fix=1),
      C('choose.cpp', 'choose', n=3, strong=1, root=2, depth=0, prio=0), C('choose.cpp', 'choose', n=2, strong=2, rel=2, hist=2, prio=0), C('choose.cpp', 'choose', n=2, strong=2, look=1, prio=0), C('choose.cpp', 'choose', n=3, strong=2, prio=0, inf=1, frac=100, trust=0),
      C('choose.cpp', 'choose', n=3, strong=2, list=1, tl=1, est=1), C('choose.cpp', 'choose', n=4, strong=2, list=1, tl=1, est=1, prio=0), C('choose.cpp', 'choose', n=2, strong=1, list=1, tl=1, hist=1, prio=0), C('choose.cpp', 'update'), C('choose.cpp', 'update', copy=1),
      C('choose.cpp', 'choose', 60, 600, tier='thorough', n=3, strong=2, pref=1, prio=0), C('choose.cpp', 'choose', 60, 600, tier='thorough', n=3, strong=2, prio=1, fix=1), C('choose.cpp', 'choose', 60, 600, tier='thorough', n=3, strong=1, list=1, tl=1, hist=1, prio=0)],
     ['the objects (integer variables, sets) and the solver of the branches are stand-ins; Osi\'s note of one branch (OsiHotInfo) is encoded by a stand-in', 'time limits are not reached', 'pseudo-costs after a failed solve are not judged (Osi counts it as infeasible)'])

prop('P16', 'Outer-approximation cut generators: what they solve, report and cut at a node',
     'An LP point with a fractional integer variable is left alone by the feasibility checker. For an integral point the NLP is solved with the integer variables fixed at the rounded values and the continuous bounds of the problem kept; every NLP solution that is optimal and better than the cutoff, and no other point, is told to the tree search with its own value, and linearisation stops only when the LP is cut off or would return the same integers. '
     'The hybrid NLP solve is made once per node within its depth limit and its result told only if optimal and integral. The cutting-plane rounds give a cut exactly when a nonlinear constraint is violated beyond the tolerance. All leave the bounds of the NLP and LP, the rows of the LP and its cutoff as they found them.',
     ['inputs', 'configurations', 'histories'], 'for all LP points, bounds, cutoffs, NLP outcomes and values and sequences of LP re-solves within the bounds',
     ONE + 'few of its LP points are integral, and none with a failed NLP or LP.',
     [S + 'Algorithms/OaGenerators/BonOaFeasChecker.cpp', S + 'Algorithms/OaGenerators/BonOaDecBase.cpp', S + 'Algorithms/BonSolverHelp.cpp', S + 'Algorithms/OaGenerators/BonOaNlpOptim.cpp', S + 'Algorithms/OaGenerators/BonEcpCuts.cpp'],
     [dict(name='feasibility checker', where='BonOaDecBase.cpp: generateCuts, solverManip, OaFeasChecker::performOa; BonSolverHelp.cpp: integerFeasible, fixIntegers'), dict(name='NLP at nodes', where='BonOaNlpOptim.cpp: generateCuts'), dict(name='ECP', where='BonEcpCuts.cpp: generateCuts')],
     'one integer and one continuous variable, one constraint of fixed slope, linear objective; 0-2 cut passes, 0-3 ECP rounds; LP solutions at each re-solve anywhere in the bounds, or LP infeasible',
     [C('oadec.cpp', 'feas'), C('oadec.cpp', 'feas', ben=1), C('oadec.cpp', 'feas', pol=1, copy=1), C('oadec.cpp', 'feas', passes=0, viol=1), C('oadec.cpp', 'nlpopt'), C('oadec.cpp', 'nlpopt', level=11), C('oadec.cpp', 'nlpopt', copy=1, viol=1),
      C('oadec.cpp', 'ecp', rounds=2), C('oadec.cpp', 'ecp', rounds=0), C('oadec.cpp', 'ecp'), C('oadec.cpp', 'ecp', rounds=3, copy=1, viol=1), C('oadec.cpp', 'ecp', gk=0), C('oadec.cpp', 'feas', 60, 600, tier='thorough', passes=2)],
     ['the LP solver and the NLP (one linear constraint with its own evaluation point recorded) are stand-ins; OsiBabSolver\'s record of solutions is a stand-in', 'the validity of the cuts themselves is P04'])

prop('P17', 'Primal heuristics give the tree search only feasible, integral, better solutions and disturb nothing',
     'Whatever a primal heuristic (dives, feasibility pump, MILP rounding, RINS, local branching, fix-and-solve, pumps) hands to the tree search lies within the bounds of the node, satisfies the constraints, is integral, is strictly better than the incumbent and comes with the true value of the objective; otherwise point and value stay as they were. '
     'A dive or sub-solve that ends in a better integral solution reports it. The problem solved inside is the one meant: the MILP has exactly the constraints it stands for, integer variables are fixed where they should be, the rest is free. The node\'s own bounds, problem and branching objects stay untouched, and the heuristics run only at the nodes they are asked to.',
     ['inputs', 'configurations', 'histories'], 'for all node bounds, constraint sides, NLP and MILP outcomes at every step, incumbents and random draws within the bounds',
     ONE + 'no heuristic is switched on in it.',
     [S + 'CbcBonmin/Heuristics/BonHeuristicDive.cpp', S + 'CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp', S + 'CbcBonmin/Heuristics/BonHeuristicFPump.cpp', S + 'CbcBonmin/Heuristics/BonMilpRounding.cpp', S + 'CbcBonmin/Heuristics/BonLocalSolverBasedHeuristic.cpp', S + 'CbcBonmin/Heuristics/BonHeuristicRINS.cpp', S + 'CbcBonmin/Heuristics/BonHeuristicLocalBranching.cpp', S + 'CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp', S + 'CbcBonmin/Heuristics/BonDummyPump.cpp', S + 'CbcBonmin/Heuristics/BonPumpForMinlp.cpp'],
     [dict(name='dives', where='BonHeuristicDive*.cpp: solution, selectVariableToBranch'), dict(name='pump', where='BonHeuristicFPump.cpp: solution, RoundingFPump'), dict(name='MILP rounding', where='BonMilpRounding.cpp: solution'), dict(name='local searches', where='BonLocalSolverBasedHeuristic.cpp: doLocalSearch; RINS, LocalBranching, FixAndSolve, DummyPump, PumpForMinlp: solution')],
     'two integer variables in 0..1 (some cases 0..2) and one continuous variable, one linear and one nonlinear constraint with fixed slopes and symbolic sides, linear objective; up to 6 NLP solves in a dive, 3 in a pump',
     [C('heur.cpp', 'dive', 40, 300, max=6), C('heur.cpp', 'dive', kind=1, max=6), C('heur.cpp', 'dive', kind=1, max=6, alg=1, pct=50), C('heur.cpp', 'dive', 40, 300, kind=1, hi=2, pct=0), C('heur.cpp', 'dive', nodes=7), C('heur.cpp', 'dive', kind=1, nodes=6, often=3, copy=1), C('heur.cpp', 'dive', **{'pass': 2}),
      C('heur.cpp', 'divemip'), C('heur.cpp', 'divemip', kind=1, alg=1), C('heur.cpp', 'divemip', hi=2, eps=1, order=1, fort=1), C('heur.cpp', 'divemip', copy=1), C('heur.cpp', 'divemip', nodes=1), C('heur.cpp', 'milpround'), C('heur.cpp', 'milpround', order=1), C('heur.cpp', 'milpround', depth=3, nodes=5, copy=1), C('heur.cpp', 'milpround', eps=1, hi=2, fort=1), C('heur.cpp', 'milpround', **{'pass': 2}),
      C('heur.cpp', 'fpump', max=3, one=1), C('heur.cpp', 'fpump', max=2, one=1, alg=1), C('heur.cpp', 'fpump', max=2, one=1, norm=2, opt=0, copy=1), C('heur.cpp', 'fpump', max=2, one=1, sols=1, adv=1), C('heur.cpp', 'fpump', sols=1), C('heur.cpp', 'fpump', nodes=1),
      C('heur.cpp', 'local', kind=0), C('heur.cpp', 'local', kind=0, alg=1, copy=1, nodes=10), C('heur.cpp', 'local', kind=0, nodes=5), C('heur.cpp', 'local', kind=0, sols=0), C('heur.cpp', 'local', kind=1), C('heur.cpp', 'local', kind=1, sols=0), C('heur.cpp', 'local', kind=2), C('heur.cpp', 'local', kind=2, alg=1), C('heur.cpp', 'local', kind=2, sols=1), C('heur.cpp', 'local', kind=3), C('heur.cpp', 'local', kind=3, nodes=1), C('heur.cpp', 'local', kind=4), C('heur.cpp', 'local', kind=4, **{'pass': 2}),
      C('heur.cpp', 'dive', 60, 600, tier='thorough', hi=2, pct=50), C('heur.cpp', 'dive', 60, 600, tier='thorough', nodes=6, often=3, copy=1, max=6), C('heur.cpp', 'fpump', 60, 600, tier='thorough', max=3), C('heur.cpp', 'fpump', 60, 600, tier='thorough', max=4, one=1), C('heur.cpp', 'fpump', 60, 600, tier='thorough', max=3, one=1, sols=1, adv=1), C('heur.cpp', 'fpump', 60, 600, tier='thorough', max=3, one=1, hi=2)],
     ['the MILP solver (SubMipSolver::optimize) and, for RINS, local branching, fix-and-solve and the pumps, the inner run of the whole solver (Bab, BonminSetup\'s copy for another problem) are stand-ins: no solution, or any point feasible for the problem given', 'an NLP reported optimal satisfies its bounds and constraints', 'random numbers are symbolic'])

prop('P18', 'Nodes whose NLP failed or is infeasible are branched on, dropped or stop the search as the options say',
     'In nonlinear branch-and-bound a node whose NLP could not be solved is never taken for a decided one: it is branched on while the run of failed nodes above it, itself included, is at most max_consecutive_failures and an integer variable is still free; otherwise the search stops with an error (nlp_failure_behavior stop), or drops the node and records that a failure was passed over (fathom). '
     'A node found infeasible is branched on exactly while the run of infeasible nodes is shorter than max_consecutive_infeasible and an integer variable is free. A node to be branched on is given a fractional in-bounds value of a free integer variable and an objective that is not cut off; all other nodes keep status, point and objective. A success ends a run. Nothing carries over from one solve to the next. '
     'The estimate of the best solution below a node is its bound plus, per object, the cheaper pseudo-cost estimate, and NLP solutions passed between the parts of the search arrive unchanged.',
     ['inputs', 'configurations', 'fault_sequences', 'histories'], 'for all sequences of outcomes down a path of the tree, option values, node bounds, solutions and pseudo-cost histories within the bounds',
     ONE + 'no NLP fails or is infeasible in it.',
     [S + 'CbcBonmin/BonCbcNlpStrategy.cpp', S + 'CbcBonmin/BonCbcNode.cpp', S + 'Interfaces/BonOsiTMINLPInterface.cpp', S + 'Interfaces/BonTMINLP2TNLP.cpp', S + 'CbcBonmin/BonGuessHeuristic.cpp', S + 'Interfaces/BonAuxInfos.cpp'],
     [dict(name='fate of a node', where='BonCbcNlpStrategy.cpp: status, fullNodeInfo, partialNodeInfo'), dict(name='runs', where='BonCbcNode.cpp: BonCbcPartialNodeInfo'), dict(name='forcing', where='BonOsiTMINLPInterface.hpp: forceBranchable, forceInfeasible; BonTMINLP2TNLP.cpp: force_fractionnal_sol'), dict(name='estimate', where='BonGuessHeuristic.cpp: solution'), dict(name='hand-over', where='BonAuxInfos.cpp: setNlpSolution, copies')],
     'paths of 1-3 nodes below the root, 2 integer variables (or one continuous) of 0-2 free values; max_consecutive_failures 0-2, max_consecutive_infeasible 0-3; every outcome of a node: optimal, infeasible, iteration limit, no convergence, exceptions; 2 objects with 0-2 branchings each; 3 hand-overs of 1-3 values',
     [C('strategy.cpp', 'chain', levels=1), C('strategy.cpp', 'chain', levels=1, fathom=1), C('strategy.cpp', 'chain', levels=1, cont=1), C('strategy.cpp', 'chain', levels=2), C('strategy.cpp', 'chain', levels=2, fathom=1), C('strategy.cpp', 'chain', levels=3, ends=3, fathom=1), C('strategy.cpp', 'chain', levels=3, ends=3, copy=1, fk=1),
      C('strategy.cpp', 'chain', levels=2, retry=1, fathom=1, ends=3), C('strategy.cpp', 'chain', levels=2, init=1, ends=3), C('strategy.cpp', 'foreign'), C('strategy.cpp', 'guess'), C('strategy.cpp', 'guess', copy=1), C('strategy.cpp', 'info'), C('strategy.cpp', 'chain', 60, 600, tier='thorough', levels=3), C('strategy.cpp', 'info', 60, 600, tier='thorough', steps=4)],
     ['Cbc\'s own node records and its handling of the answer are outside (Cbc is a library); that a path is explored as Cbc does was confirmed by runs of the whole program'])

prop('P19', 'Outer-approximation decomposition and the feasibility pump: the bound and the solutions they pass on are right',
     'The decomposition alternates between a MILP made of outer-approximation cuts and NLPs with the integer variables fixed. Whatever the MILP, LP and NLP solvers answer within their contracts, the NLP is solved with the integer variables fixed where the MILP put them and the continuous bounds of the node; each NLP solution better than the best known, and no other, is told to the tree search with its true value; every later MILP looks for something better than that by the configured cutoff decrement and contains all cuts found. '
     'The node is declared finished only when no better solution is left in it (up to the allowable gap); any other bound passed on is a valid lower bound for the integer points not tried yet. No integer point is tried twice, a limit on solutions, on the MILP or on the number of searches never counts as a proof, and the feasibility pump finishes a node only when asked to and when its MILP is proven infeasible. The bounds of the NLP and the rows, columns, bounds, objective and cutoff of the node\'s LP are left as they were. The MILP wrapper passes cutoff, gap, limits and integer variables to the MILP solver and its bound, status and solution back unchanged.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'], 'for all values of the NLP at each integer point, cutoffs, MILP answers (solution, bound, stopped or solved) and LP re-solves within the bounds',
     ONE + 'it uses neither method.',
     [S + 'Algorithms/OaGenerators/BonOACutGenerator2.cpp', S + 'Algorithms/OaGenerators/BonFpForMinlp.cpp', S + 'Algorithms/OaGenerators/BonOaDecBase.cpp', S + 'Algorithms/BonSubMipSolver.cpp', S + 'Algorithms/BonSolverHelp.cpp', S + 'Algorithms/BonCbcLpStrategy.cpp'],
     [dict(name='decomposition', where='BonOACutGenerator2.cpp: performOa'), dict(name='feasibility pump', where='BonFpForMinlp.cpp: performOa, set_fp_objective'), dict(name='shared', where='BonOaDecBase.cpp: generateCuts, post_nlp_solve, solverManip; BonSolverHelp.cpp'), dict(name='MILP wrapper', where='BonSubMipSolver.cpp: setLpSolver, optimize, find_good_sol; BonCbcLpStrategy.cpp: setup')],
     'one integer variable of 2 values (3 in the thorough tier) and one continuous variable, values of the NLPs in -16..16 or infeasible, one constraint of fixed slope, linear objective; MILP solves: at most one per integer value and one more; the wrapper: two solves in a row, 0-2 solutions',
     [C('oadecomp.cpp', 'oa', 60), C('oadecomp.cpp', 'oa', 60, viol=1, cut=0), C('oadecomp.cpp', 'oa', 60, sols=1, frac=1), C('oadecomp.cpp', 'oa', 60, gap=8), C('oadecomp.cpp', 'oa', 60, limit=1, cut=0), C('oadecomp.cpp', 'oa', 60, good=1, cut=0, sols=1), C('oadecomp.cpp', 'oa', 60, again=1, cut=0),
      C('oadecomp.cpp', 'pump', 60), C('oadecomp.cpp', 'pump', 60, nopass=1, cut=0), C('oadecomp.cpp', 'pump', 60, sols=1, frac=1), C('oadecomp.cpp', 'pump', 60, limit=1, cut=0), C('oadecomp.cpp', 'pump', 60, good=1, cut=0, sols=1),
      C('submip.cpp', 'mip'), C('submip.cpp', 'mip', good=1), C('submip.cpp', 'mip', copy=1), C('submip.cpp', 'mip', cuts=1), C('submip.cpp', 'mip', cuts=1, copy=1, good=1),
      C('oadecomp.cpp', 'oa', 60, 900, tier='thorough', k=3), C('oadecomp.cpp', 'oa', 60, 900, tier='thorough', limit=1), C('oadecomp.cpp', 'oa', 60, 900, tier='thorough', again=1), C('oadecomp.cpp', 'pump', 60, 900, tier='thorough', k=3), C('oadecomp.cpp', 'pump', 60, 900, tier='thorough', limit=1)],
     ['the LP, MILP and NLP solvers are stand-ins bound to what valid cuts imply: a value at an untried integer point is never below what MILP or LP report, a tried infeasible point does not come back, a tried feasible one costs at least its NLP value', 'the validity of the cuts is P04', 'the time limit is not reached; CPLEX is not compiled here'])

NOT_APPLICABLE = {}
