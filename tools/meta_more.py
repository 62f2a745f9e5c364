prop('C20', 'Multiplier estimates obey sign rules and certify stationary points',
     'The multiplier estimates have one entry per bound and constraint, are zero for variables away from both bounds and have the sign belonging to the bound the variable is at; without active bounds they are the least-squares multipliers; '
     'at a first-order stationary point (with independent active gradients) they reproduce multipliers whose Lagrangian gradient vanishes. Gradient and Jacobian are not modified.',
     ['inputs'], 'random gradients, Jacobians with independent rows, activity patterns, slack variables and exactly stationary points built from generated multipliers',
     'Tests use one fixed problem.',
     [S + 'sqpdfo_compute_multiplier.py', S + 'blls.py'], [('least squares with sign bounds on the multipliers', S + 'sqpdfo_compute_multiplier.py')],
     'property-based testing: sign invariants, least-squares differential, constructed KKT certificates', 'Constructed stationary points make the exact answer known.' + SAMPLED)
prop('C21', 'Quasi-Newton updates keep the Hessian approximation positive definite',
     'Every accepted update of the BFGS approximation is symmetric, positive definite, satisfies the secant equation for the damped gradient change with the documented damping (Powell factor 0.2) and changes the matrix only in the plane of the step; '
     'a zero step or a matrix without positive curvature is refused with an error status and leaves the matrix unchanged. This holds along any sequence of updates.',
     ['inputs', 'histories'], 'sequences of up to six updates from random positive definite matrices, with curvature of either sign, first-update scaling, null steps and indefinite matrices',
     'Tests perform one fixed update.',
     [S + 'sqpdfo_bfgs_update.py'], [('Powell damping and BFGS formula', S + 'sqpdfo_bfgs_update.py')],
     'stateful property-based testing against the defining equations', 'The equations determine the update uniquely.' + SAMPLED, state=[{'name': 'Hessian approximation', 'meaning': 'symmetric positive definite matrix', 'where': S + 'sqpdfo_main.py'}])
prop('C22', 'Repair of non-convex and ill-conditioned matrices is minimal',
     'The convexity repair leaves positive definite matrices untouched, replaces exactly the negative eigenvalues by the small positive one and keeps the eigenvectors; the conditioning repair leaves matrices below the threshold untouched, '
     'reports the others and changes them by no more than the documented amount, and always returns finite matrices.',
     ['inputs'], 'random spectra including zero, tiny and repeated eigenvalues, all scales, thresholds, NaN entries',
     'Tests use one fixed matrix each.',
     [S + 'sqpdfo_check_convex.py', S + 'sqpdfo_check_cond.py'], [('eigenvalue floor', S + 'sqpdfo_check_convex.py'), ('singular value floor', S + 'sqpdfo_check_cond.py')],
     'differential against the spectral decomposition', 'Matrices are built from known spectra.' + SAMPLED)
prop('C23', 'The first evaluations form a coordinate cross inside the bounds',
     'The run starts at the given starting point when it is far enough inside the bounds and otherwise at a point at most one unit away from its projection; the first n+1 evaluations are this point and one step of common length along each variable '
     '(length one or half of the narrowest interval), all of them inside the bounds.',
     ['inputs', 'configurations'], 'all problems, bound patterns and options',
     'Tests never look at the sequence of evaluations.',
     [S + 'sqpdfo.py', S + 'sqpdfo_prelim.py'],
     [('start moved inside the bounds, initial set built', S + 'sqpdfo_prelim.py')],
     'property-based testing: invariant on the recorded call sequence', 'Exact invariants of the recorded calls.' + SAMPLED, observe=E2E)
prop('C24', 'Printed report and convergence history agree with the run',
     'The iteration table, the history file and the final block agree with each other and with the run: consecutive iteration numbers, evaluation counts that never decrease and match the calls, objective values (and, for equalities, infeasibilities) '
     'that belong to an evaluated point and never increase without constraints, final value, counters, exit code and its explanation. With output switched off no iteration is reported.',
     ['inputs', 'configurations'], 'all problems and option combinations at output levels 0 to 3',
     'No test reads what is printed or written.',
     [S + 'sqpdfo_iter_printout.py', S + 'sqpdfo_finish.py', S + 'sqpdfo_main.py'], [('iteration table and history file', S + 'sqpdfo_iter_printout.py'), ('final report', S + 'sqpdfo_finish.py')],
     'property-based testing: the parsed report against the recorded calls', 'The report is parsed and compared with recorded calls.' + SAMPLED, observe=E2E + ['standard output and convhist.m'])
prop('C25', 'Second derivatives used by a run are those of the Lagrangian',
     'With model Hessians, the Hessian approximation is the Hessian of the interpolation model of the Lagrangian (objective plus multipliers times constraints, slack variables included) built from the stored values, in the variables of the problem, for every kind '
     'of model; quadratic data on a complete set give the exact Hessian. With quasi-Newton Hessians the update uses the change of the gradient of the Lagrangian along the step and scales the very first approximation; it restarts from the identity exactly at the requested evaluation counts. '
     'Derivatives of the new point are stored, nothing changes after a null step and no argument is modified.',
     ['inputs'], 'random interpolation sets and data, multipliers, slack variables, steps, positive definite matrices and restart periods; all model kinds',
     'Tests use one fixed model of each form.',
     [S + 'sqpdfo_computeHessian.py', S + 'sqpdfo_bfgs_update.py', S + 'bcdfo_hessP.py'],
     [('model of the Lagrangian or change of its gradient', S + 'sqpdfo_computeHessian.py')],
     'differential against a reference model and the defining quasi-Newton equations', 'The reference Hessian is computed independently.' + SAMPLED)
prop('C26', 'The trial step stays in the region and makes the promised progress',
     'The trial step of an iteration has length at most the radius without general constraints and at most twice the radius with them (slack variables included, which stay non-negative), and leaves the bounds only by rounding. Its restoration part minimises the linearised infeasibility in the region '
     '(reaching zero when that is possible inside), the predicted reduction is the one the step achieves and never negative, and the tangential part keeps the linearised constraints and decreases the model at least as much as the steepest descent direction, reaching a '
     'stationary point of the reduced model when it stays inside. Where bounds are in the way and the model is convex, the step is at least as good as the part of the exact tangential step which fits inside them. Variables at a bound towards which the gradient of the Lagrangian pushes them are held by the restoration where it is determined uniquely. Without general constraints the model does not increase. Bounds out of reach do not influence the step; no argument is modified.',
     ['inputs'], 'random gradients, Hessians of any curvature, Jacobians with independent rows, slack variables, radii over seven orders, bounds near and far',
     'Tests use one fixed problem.',
     [S + 'sqpdfo_solve_TR_bc.py', S + 'bcdfo_solve_TR_MS_bc.py', S + 'sqpdfo_truncated_cg.py', S + 'runtime.py'],
     [('restoration and tangential step, active bounds', S + 'sqpdfo_solve_TR_bc.py')],
     'property-based testing: invariants, comparison with the global minimum of the restoration problem and with the Cauchy decrease, metamorphic for far bounds', 'Optimal values come from an independent solution.' + SAMPLED)
prop('C27', 'Residuals used for the stopping test are the first-order residuals',
     'The gradient of the Lagrangian is the gradient plus the multipliers of the active bounds plus the transposed Jacobian times the constraint multipliers; the infeasibility is the vector of constraint values minus the squared slack variables; '
     'the projected gradient is the step from the point to the projection of the gradient step onto the bounds, with its largest component as norm. Arguments are not modified.',
     ['inputs'], 'random points, gradients over twelve orders, bounds at many distances, Jacobians, multipliers and slack variables',
     'Tests use one fixed point.',
     [S + 'sqpdfo_optimality.py', S + 'bcdfo_projgrad.py'], [('residual of the stopping test', S + 'sqpdfo_optimality.py'), ('projected gradient', S + 'bcdfo_projgrad.py')],
     'differential against the definitions', 'The definitions are evaluated independently.' + SAMPLED)
prop('C28', 'Every evaluation is stored once, with its values, counters and status',
     'Storing an evaluation calls the function once at the given point, appends the point, its values (objective limited above by the given maximum, constraint values limited to 1e25 in size) and its status flags, leaves all earlier entries as they were and counts the call. '
     'A failed evaluation (error message, value that is not finite, constraint value that is not a number, constraint values of the wrong form) sets the failure status, is counted as a call but not as a success, and stores no values.',
     ['histories', 'inputs'], 'random sequences of evaluations with huge, infinite and undefined values and failures, with constraints of both kinds and scaled variables',
     'Tests store one point.',
     [S + 'sqpdfo_augmX_evalf.py'], [('store of evaluated points', S + 'sqpdfo_augmX_evalf.py')],
     'stateful model-based testing', 'A plain list is the oracle.' + SAMPLED, state=[{'name': 'evaluation store', 'meaning': 'points, values, status flags, counters', 'where': S + 'sqpdfo_augmX_evalf.py'}])
prop('C29', 'The array helpers follow their documented conventions',
     'Search, extreme values (ignoring undefined entries, first position), sizes, stacking (leaving empty parts out), set difference, constant arrays, norms, condition number, null space, pseudo-inverse, inverse and the orthogonal and triangular factorizations '
     'return what their descriptions say for vectors in every orientation and matrices of any shape and rank, and leave their arguments alone.',
     ['inputs'], 'flat, row, column, matrix and empty arrays with infinite and undefined entries; matrices of known singular values over twelve orders',
     'No test addresses the helpers.',
     [S + 'runtime.py'], [('helper functions', S + 'runtime.py')],
     'differential against definitions, constructed matrices of known decomposition', 'Results are known by construction.' + SAMPLED)
prop('C30', 'Steps are computed from models of evaluated points and their true values',
     'Whenever a run recomputes its models or starts a trial step, every point of the interpolation set was evaluated, the stored objective and constraint values are the ones returned at these points, the first point is the iterate, '
     'the models reproduce the values at all points of the set (where the interpolation problem is well conditioned), the gradients used are the gradients of these models at the iterate, and the objective and constraint values from which the step starts are those at the iterate. '
     'The set never loses points and never has more of them than the final degree has coefficients (twice as many for regression models).',
     ['histories', 'inputs'], 'whole runs on random problems with bounds, equalities and inequalities, all model kinds and options, stopped early and late',
     'Tests look at the final point only; a wrong value in the set slows a run down or sends it elsewhere without failing.',
     [S + 'sqpdfo_main.py', S + 'sqpdfo_swap_in_Y.py', S + 'sqpdfo_find_smallf.py', S + 'bcdfo_computeP.py', S + 'bcdfo_gradP.py'],
     [('interpolation set, values and models of the main loop', S + 'sqpdfo_main.py')],
     'property-based testing of whole runs: invariants over the recorded calls to the building blocks', 'The record of evaluations is the oracle.' + SAMPLED)
prop('C31', 'Steps are accepted, and the radius changed, by the merit function',
     'The iterate moves to a trial point only if the merit function (objective plus penalty parameter times the norm of the constraint violation, slack variables included) decreases by at least the fraction 1e-4 of the predicted decrease, relative to its value at the present iterate; '
     'a step with such a decrease is refused only when its point cannot enter the interpolation set. An improvement of the set never moves to a point with a larger merit function. The penalty parameter never decreases and is raised only when, and as far as, '
     'needed for the predicted decrease to be a fraction of the predicted gain in feasibility. The radius never shrinks after an accepted step, grows after a very successful step at its limit, and never grows after a refused one; slack variables start at the roots of the (positive) constraint values and change only with an accepted step.',
     ['histories', 'inputs'], 'whole runs on random smooth and non-smooth problems with bounds, equalities and inequalities, all model kinds and options',
     'Tests look at the final point only; a wrong acceptance still ends near the solution of easy problems.',
     [S + 'sqpdfo_main.py', S + 'sqpdfo_find_smallf.py'],
     [('step validation and radius', S + 'sqpdfo_main.py')],
     'property-based testing of whole runs: invariants over the recorded history', 'The merit function is recomputed from the record of evaluations.' + SAMPLED)
prop('C32', 'The returned multipliers belong to the returned point',
     'The returned vector holds one finite multiplier per variable and per constraint. Multipliers of variables away from their bounds are zero, those at a lower bound are not positive and those at an upper bound not negative, however the run ends. '
     'When success is reported, objective gradient plus bound multipliers plus constraint gradients weighted with their multipliers is zero to the accuracy of the tolerances and the local curvature, and the multiplier of an inactive inequality is zero to the same accuracy.',
     ['histories', 'inputs'], 'smooth problems of one to four variables with bounds, equalities and inequalities; all options',
     'Tests compare final points and values, the multipliers of a handful of problems at most.',
     [S + 'sqpdfo_compute_multiplier.py', S + 'sqpdfo_main.py', S + 'sqpdfo.py', S + 'sqpdfo_optimality.py'],
     [('multipliers of the main loop', S + 'sqpdfo_main.py'), ('multiplier estimate', S + 'sqpdfo_compute_multiplier.py')],
     'property-based testing of whole runs against exact derivatives', 'The derivatives of the generated problems are known in closed form.' + SAMPLED)
