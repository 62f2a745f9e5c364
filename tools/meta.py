"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand: python3 tools/meta.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, tests, files, mech, technique, note, level='exploration', observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech,
                  technique=technique, note=note, level=level, observe=observe, state=state))


S = 'sqpdfo/'
E2E = ['the arguments of every call of the objective and constraint functions', 'the returned point, multipliers and info record']
SAMPLED = ' Exploration: sampled inputs, shrunk on failure; silence is evidence, not proof.'

prop('C01', 'The returned point satisfies the bounds on the variables',
     'For every problem with lower bounds below upper bounds, the point returned by the optimiser lies within the bounds, whatever the model type, the starting point, the limits and the way the run ended '
     '(success, exhausted budget, stall, failing evaluation). With bounds only the violation is at rounding level (1e-10 relative); with general constraints it stays within the documented bound tolerance.',
     ['inputs', 'configurations', 'fault_sequences'], 'all problems (1 to 7 variables), all bound patterns (two-sided, tight, one-sided, mixed, absent), all option combinations, evaluation failures at any call',
     'The repository tests run a dozen fixed problems and compare final values; bounds are mostly inactive there and starting points feasible.',
     [S + 'sqpdfo_main.py', S + 'sqpdfo_solve_TR_bc.py', S + 'bcdfo_solve_TR_MS_bc.py', S + 'sqpdfo_prelim.py', S + 'bcdfo_projgrad.py', S + 'bcdfo_repair_Y.py'],
     [('starting point moved inside the bounds', S + 'sqpdfo_prelim.py'), ('trial steps bounded by lb-x and ub-x', S + 'sqpdfo_solve_TR_bc.py'), ('bounded subproblem solver', S + 'bcdfo_solve_TR_MS_bc.py')],
     'property-based testing of whole runs against the bound invariant', 'Decides the returned point on generated problems and runs with injected failures.' + SAMPLED, observe=E2E)
prop('C02', 'Returned objective and constraint values belong to the returned point',
     'The objective value and the constraint values in the returned record are the values of the user functions at the returned point (and the constraint part the signed violation of it), however the run ends, '
     'including runs interrupted by failing evaluations after a complete initial set of values existed.',
     ['inputs', 'configurations', 'fault_sequences'], 'all problems and option combinations; failures of either function at any evaluation',
     'Tests compare final values on fixed problems that end in success; runs that end on a rejected trial point or on a failure are not looked at.',
     [S + 'sqpdfo_main.py', S + 'sqpdfo_finish.py', S + 'sqpdfo_augmX_evalf.py', S + 'sqpdfo.py'],
     [('best point and its values are carried along together', S + 'sqpdfo_main.py'), ('returned record is assembled at the end of the run', S + 'sqpdfo_finish.py')],
     'differential: re-evaluation of the user functions at the returned point', 'The generated functions are closed-form, so the oracle recomputes them exactly.' + SAMPLED, observe=E2E)
prop('C03', 'Success means feasible and first-order stationary',
     'When the optimiser reports success, the returned point is feasible up to a fixed multiple of the feasibility tolerance, and for problems with bounds and equality constraints it is first-order stationary: '
     'the gradient of the Lagrangian projected on the bounds, with exact derivatives and best multipliers, is below a bound made of the optimality tolerance and the interpolation accuracy.',
     ['inputs', 'configurations'], 'smooth problems with bounds, equality and inequality constraints, all model types whose interpolation sets determine a gradient, tolerances 1e-1 to 1e-7',
     'Tests check proximity to known solutions of a few problems from one starting point each; they cannot show that no run reports success elsewhere.',
     [S + 'sqpdfo_main.py', S + 'sqpdfo_optimality.py', S + 'sqpdfo_compute_multiplier.py', S + 'bcdfo_repair_Y.py'],
     [('success only after the set has been improved and the test repeated', S + 'sqpdfo_main.py'), ('least-squares multipliers and optimality residual', S + 'sqpdfo_optimality.py')],
     'property-based testing of whole runs against an independent KKT certificate', 'An independent KKT residual with exact derivatives; four documented weaknesses are listed as known findings.' + SAMPLED, observe=E2E)
prop('C04', 'Budgets are kept, counters are truthful and every run ends with a status',
     'Every run returns with one of the documented status values; the reported numbers of evaluations and iterations equal what happened, objective and constraints are evaluated at the same points in step, '
     'and the limits on evaluations and iterations are exceeded by no more than one iteration of work. "Limit reached" is reported only if it is true.',
     ['inputs', 'configurations'], 'all problems including constant, badly scaled and non-smooth ones, all limits from 1 upwards',
     'Tests use limits that are never reached or a single value; counters are not compared with observed calls.',
     [S + 'sqpdfo_main.py', S + 'sqpdfo_prelim.py', S + 'sqpdfo_evalfgh.py', S + 'sqpdfo_values.py'],
     [('loop limits and final status', S + 'sqpdfo_main.py'), ('evaluation counter', S + 'sqpdfo_evalfgh.py')],
     'property-based testing with a call-recording stub (model of the counters)', 'Counts real calls of the user functions and compares with the report.' + SAMPLED, observe=E2E)
prop('C05', 'Runs are isolated, repeatable and leave the caller\'s arguments alone',
     'The outcome of a run (points evaluated, result, status) depends only on its own arguments, never on runs made earlier in the same process, started by its own objective or constraint functions, or made at the same time in another thread, and repeating a run reproduces it bit for bit. '
     'The run does not modify the option object, starting point or bounds given by the caller.',
     ['histories', 'schedules', 'inputs'], 'sequences of runs of different kinds (with and without inequalities, failing, rejected, verbose) before the observed run; runs started at any evaluation of another run; two runs in two threads with every pattern of switches at evaluations',
     'Tests run one problem per process state and never compare with a fresh interpreter; leaks through module-level state need a specific order of runs.',
     [S + 'sqpdfo.py', S + 'sqpdfo_global_variables.py', S + 'sqpdfo_main.py', S + 'sqpdfo_init_prob.py', S + 'sqpdfo_options.py'],
     [('module-level state is reset at the start of a run', S + 'sqpdfo_global_variables.py'), ('arguments are copied', S + 'sqpdfo.py')],
     'stateful: random histories, nestings and schedules of runs, differential against a fresh process', 'Compares bit for bit with the same run in a fresh interpreter.' + SAMPLED, observe=E2E)
prop('C06', 'A failing evaluation ends the run cleanly',
     'When the objective or a constraint raises an exception or returns NaN (or the objective an infinity) at any evaluation, the optimiser returns normally with the evaluation-failure status and makes no further evaluations. '
     'Infinite constraint values never make a run crash, are never taken for a value of the other sign, and a point violating a constraint infinitely is never reported as success.',
     ['fault_sequences', 'crash_points', 'inputs'], 'every kind of failure at every evaluation index of a run, single or permanent, objective or constraint, every model type',
     'No repository test makes an evaluation fail in the middle of a run.',
     [S + 'sqpdfo_evalfgh.py', S + 'sqpdfo_augmX_evalf.py', S + 'sqpdfo_prelim.py', S + 'sqpdfo_main.py', S + 'bcdfo_repair_Y.py', S + 'sqpdfo_values.py'],
     [('evaluation results are tested after every call', S + 'sqpdfo_evalfgh.py'), ('status is handed up to the end of the run', S + 'sqpdfo_main.py')],
     'fault injection at generated evaluation indices', 'The planned failure is injected by the user function itself; the rule counts those reached.' + SAMPLED, level='fault_enumeration', observe=E2E)
prop('C07', 'Unusable arguments and options are rejected before any evaluation',
     'A missing starting point, objective or constraint function, an object that is not callable in the place of a function, inconsistent bounds, no free variable, a starting point that is not a vector, or an option outside its documented range or list of names makes the optimiser return '
     'the error status for bad arguments or bad problems, without exception and without evaluating the user functions, at any level of output. Combinations of such defects are rejected as well.',
     ['inputs', 'configurations'], 'every documented defect and combinations of two or three with otherwise valid problems, output levels 0 to 6',
     'Tests check four or five single defects with a fixed problem.',
     [S + 'sqpdfo.py', S + 'sqpdfo_options.py', S + 'sqpdfo_init_prob.py', S + 'sqpdfo_prelim.py', S + 'sqpdfo_finish.py'],
     [('option checks', S + 'sqpdfo_options.py'), ('argument checks', S + 'sqpdfo.py'), ('bound checks', S + 'sqpdfo_prelim.py')],
     'property-based testing over generated defects', 'One known finding (some variables fixed).' + SAMPLED, observe=E2E)
prop('C08', 'Strictly convex quadratic problems are solved',
     'A strictly convex quadratic objective is minimised to a gap of 1e-4 in the objective: without bounds for every model type, with bounds around an interior solution and with linear equality constraints for full quadratic models.',
     ['inputs', 'configurations'], 'random well-conditioned quadratics up to 4 variables, random starting points inside and outside the bounds, every model type and degree in the stated domains',
     'Tests solve a handful of fixed problems; a change that makes steps poor from other starts or in other model types passes them.',
     [S + 'sqpdfo_main.py', S + 'sqpdfo_solve_TR_bc.py', S + 'bcdfo_computeP.py', S + 'sqpdfo_computeHessian.py'],
     [('quadratic models become exact and the step is the minimiser', S + 'sqpdfo_main.py')],
     'property-based testing against the exact minimiser', 'The oracle solves the KKT system or the box problem exactly.' + SAMPLED, observe=E2E)
prop('C09', 'Without general constraints a run never loses ground',
     'On problems with at most bounds, the objective at the returned point is not above its value at the starting point (moved inside the bounds). A run with a larger iteration limit makes the same evaluations as '
     'the run with the smaller limit as far as that went, and does not return a worse point.',
     ['inputs', 'histories', 'configurations'], 'all objectives including non-smooth, oscillating and badly scaled ones; all pairs of iteration limits',
     'Tests only look at the final value of runs that converge.',
     [S + 'sqpdfo_main.py', S + 'sqpdfo_find_smallf.py', S + 'sqpdfo_prelim.py', S + 'sqpdfo_finish.py'],
     [('trial points are accepted on decrease only', S + 'sqpdfo_main.py'), ('best point of the set becomes the centre', S + 'sqpdfo_find_smallf.py')],
     'metamorphic (prefix runs) and monotonicity invariant on whole runs', 'Recorded evaluations are compared between runs.' + SAMPLED, observe=E2E)
prop('C10', 'The form in which the same problem is given does not change the result',
     'Row, column, flat, list, tuple, nested-list, integer or read-only starting points, bounds given as rows, columns, flat arrays, (nested) lists, tuples or left out versus infinite, functions, methods and callable objects as objective and constraints, option names in any spelling of case and blanks, default options given explicitly, the container and number type returned by the '
     'objective and constraint functions (the same array at every call included), functions that use the vector they are given as work space and the level of output all lead to the same evaluations, result and status; this includes runs ended by a failing evaluation.',
     ['inputs', 'configurations'], 'all problems, all combinations of input forms and output levels',
     'Tests use one form per problem and level of output 0 or 1.',
     [S + 'sqpdfo.py', S + 'sqpdfo_prelim.py', S + 'sqpdfo_options.py', S + 'sqpdfo_evalfgh.py', S + 'sqpdfo_iter_printout.py', S + 'sqpdfo_main.py'],
     [('normalisation of shapes', S + 'sqpdfo_prelim.py'), ('normalisation of option names', S + 'sqpdfo_options.py'), ('output code is separate from decisions', S + 'sqpdfo_iter_printout.py')],
     'metamorphic: equivalent inputs, same run', 'Every form is compared with a reference form.' + SAMPLED, observe=E2E)
prop('C11', 'Interpolation models reproduce the data and are the right family member',
     'For every well-conditioned interpolation set the model built from values equals them at the points (or is their least-squares fit for regression), and among all interpolating quadratics it is the one its kind promises: '
     'sub-basis, minimum Frobenius norm of the Hessian, or minimum norm of the coefficients. Data coming from a quadratic are reproduced everywhere when the set is complete.',
     ['inputs'], 'sets of n+1 to (n+1)(n+2)/2 or more points in 1 to 4 dimensions, shifted and unshifted, scales 1e-4 to 1e3, all four model kinds',
     'Tests use two or three fixed sets; minimum Frobenius norm models were unusable without any test failing.',
     [S + 'bcdfo_build_QR_of_Y.py', S + 'bcdfo_computeP.py', S + 'bcdfo_evalZ.py', S + 'bcdfo_evalP.py'],
     [('factorisation of the (shifted, scaled) interpolation matrix', S + 'bcdfo_build_QR_of_Y.py'), ('solution for the coefficients', S + 'bcdfo_computeP.py')],
     'property-based testing against a dense reference model', 'The oracle assembles the interpolation system independently.' + SAMPLED)
prop('C12', 'Gradient and Hessian of a model are the exact derivatives of its values',
     'For every coefficient vector of a linear, partial or full quadratic model, at every point and with any centre and scale, the gradient and Hessian returned for the model are the exact first and second derivatives of the values it returns.',
     ['inputs'], 'coefficient vectors of any length between n+1 and full, 1 to 6 variables, shifted and unshifted',
     'Tests compare fixed numbers in two dimensions.',
     [S + 'bcdfo_evalP.py', S + 'bcdfo_gradP.py', S + 'bcdfo_hessP.py', S + 'bcdfo_evalZ.py'],
     [('monomial order shared by values and derivatives', S + 'bcdfo_evalZ.py')],
     'metamorphic: exact finite differences of quadratics', 'Exact identities for quadratics, no approximation error.' + SAMPLED)
prop('C13', 'Lagrange polynomials of an interpolation set',
     'The Lagrange polynomials of a well-conditioned set are one at their own point and zero at the others (where interpolation is unique), sum to one, reproduce the model as the combination of data values, and their values evaluated directly agree with the polynomials.',
     ['inputs'], 'the sets of C11, any evaluation point, any subset of points',
     'Tests compare fixed numbers on one or two sets.',
     [S + 'bcdfo_computeLj.py', S + 'bcdfo_evalL.py', S + 'bcdfo_build_QR_of_Y.py'],
     [('solves with the factorisation of the set', S + 'bcdfo_computeLj.py')],
     'property-based testing: algebraic identities against a dense reference', 'Independent interpolation matrix.' + SAMPLED)
prop('C14', 'Histories of interpolation-set updates stay consistent',
     'After any sequence of adding, replacing, exchanging and including points and of choosing the best point as centre, the set contains exactly the points put into it, the values stay attached to their points, and the factorisation, centre and scale '
     'are those of the present set. The best point is one with the smallest merit value among the points inside the bounds and becomes the first point. The arguments of the operations are left as they were.',
     ['histories', 'inputs'], 'random operation sequences on random sets, all model kinds, with and without bounds and constraints',
     'Tests apply one operation to one fixed set.',
     [S + 'bcdfo_augment_Y.py', S + 'bcdfo_replace_in_Y.py', S + 'bcdfo_include_in_Y.py', S + 'sqpdfo_swap_in_Y.py', S + 'sqpdfo_find_smallf.py'],
     [('every update refactorises the set', S + 'bcdfo_replace_in_Y.py'), ('exchange of points and values together', S + 'sqpdfo_swap_in_Y.py')],
     'stateful model-based testing of operation sequences', 'A plain list model of the set is the oracle.' + SAMPLED,
     state=[{'name': 'interpolation set', 'meaning': 'points, values, factorisation, centre, scale', 'where': S + 'sqpdfo_main.py'}])
prop('C15', 'Geometry improvement keeps the centre and the region and improves the set',
     'A new point proposed for position j lies within the given distance and its reported value is the size of the j-th Lagrange polynomial there, at least as large as at sampled points of the region; repairing a set keeps its centre and the replaced points '
     'within the radius, reports which were replaced and the true distances, and the reported poisedness is the true one.',
     ['inputs'], 'random sets, bounds, radii and thresholds for every model kind',
     'Tests repair one fixed set and compare numbers.',
     [S + 'bcdfo_find_new_yj.py', S + 'bcdfo_repair_Y.py', S + 'bcdfo_poisedness_Y.py'],
     [('maximisation of Lagrange polynomials in the region', S + 'bcdfo_find_new_yj.py'), ('replacement loop', S + 'bcdfo_repair_Y.py')],
     'property-based testing: invariants and sampled maximisation', 'Maxima are compared with sampled points and Cauchy-type lower bounds.' + SAMPLED)
prop('C16', 'Trust-region subproblem without bounds is solved globally',
     'For every gradient, symmetric Hessian (indefinite, singular, degenerate "hard case") and radius, the step lies in the ball and reaches the global minimum of the model in the ball up to the requested relative accuracy.',
     ['inputs'], 'random spectra including repeated and zero eigenvalues, gradients with zero components in the eigenbasis, radii and scales over many orders of magnitude',
     'Tests use a few fixed matrices; the hard case crashed for several of them.',
     [S + 'bcdfo_solve_TR_MS.py'], [('secular equation and hard case', S + 'bcdfo_solve_TR_MS.py')],
     'differential against an eigenvalue-based exact solver', 'Exact solver from the spectral decomposition.' + SAMPLED)
prop('C17', 'Trust-region subproblem with bounds gives feasible decreasing steps',
     'The step respects bounds and radius, never increases the model, and the reported value is consistent with it; for convex models it gives at least a fixed fraction of the decrease of the projected gradient step, and where bounds cannot interfere it reaches the global minimum in the ball.',
     ['inputs'], 'random gradients, Hessians, radii and bounds (inactive, active, one-sided, degenerate)',
     'Tests use a few fixed two- and three-dimensional instances.',
     [S + 'bcdfo_solve_TR_MS_bc.py', S + 'bcdfo_solve_TR_MS.py'], [('active-set loop over violated bounds', S + 'bcdfo_solve_TR_MS_bc.py')],
     'property-based testing with Cauchy-step and global-minimum oracles', 'One known finding (iteration limit).' + SAMPLED)
prop('C18', 'Truncated conjugate gradients in a ball',
     'The step stays in the ball, its status says truthfully how it ended (tolerance reached, boundary, negative curvature, iteration limit), it decreases the quadratic at least as much as the first gradient step, and it takes no more iterations than allowed.',
     ['inputs'], 'symmetric matrices of any inertia, radii and tolerances over many orders of magnitude, any iteration limit',
     'Tests use three fixed systems.',
     [S + 'sqpdfo_truncated_cg.py'], [('truncated conjugate gradient loop', S + 'sqpdfo_truncated_cg.py')],
     'property-based testing against defining properties of the step', 'Status semantics are recomputed from the step.' + SAMPLED)
prop('C19', 'Bound-constrained least squares',
     'The solution is within the bounds, the reported residual is the true one, and when the solver reports success it is a global minimiser of the residual over the bounds; well-conditioned square systems are always solved with success.',
     ['inputs'], 'matrices up to 5 by 5 of any rank, any bounds including infinite ones',
     'Tests use a few fixed systems; a stop at a wrong vertex passed them.',
     [S + 'blls.py'], [('projected active-set iteration', S + 'blls.py')],
     'differential against exhaustive enumeration of active sets', 'All 3^n active sets are enumerated.' + SAMPLED)

exec(open(os.path.join(HERE, 'tools', 'meta_more.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            a = {'files': p['files'], 'mechanism': [{'name': m, 'where': w} for m, w in p['mech']], 'hook_needed': None}
            if p['observe']:
                a['observe_at'] = p['observe']
            if p['state']:
                a['state'] = p['state']
            for x in p['files']:
                assert os.path.exists('/repo/' + x), x
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['tests'], 'anchors': a}) + '\n')
    checks, na = [], []
    for p in P:
        if p['technique'] is None:
            na.append({'property': p['id'], 'reason': p['note']})
            continue
        checks.append({'property': p['id'], 'quick_cmd': 'bash check.sh %s --tier quick' % p['id'],
                       'thorough_cmd': 'bash check.sh %s --tier thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks: every check drives the public interface or the functions the repository tests pin. Known findings and repairs: known_findings.txt; design: DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)


main()
