"""Writes properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
F = ["mpopt/mpopt.py"]
P = []


def prop(id, title, statement, over, text, why, mech, observe=None, state=None):
    d = {
        "id": id,
        "title": title,
        "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": F,
            "mechanism": [{"name": n, "where": "mpopt/mpopt.py: " + w} for n, w in mech],
            "hook_needed": None,
        },
    }
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)


prop("C01", "Collocation grids are the nodes the selected scheme prescribes",
     """For every supported scheme (LGR, LGL, CGL), every polynomial degree p >= 1 and every normalized interval, the collocation
     grid has exactly p+1 strictly increasing nodes whose first and last are the end points of the interval. Mapped to [-1, 1], the
     LGL nodes are the end points and the roots of P_p', the CGL nodes are the Chebyshev extrema cos(pi j/p), and the LGR nodes
     are -1 together with the p right-aligned Radau points (which include +1). The grid depends on nothing but scheme, degree and interval.""",
     ["inputs", "configurations"], "all schemes x degrees x intervals [tau0, tau1]",
     "The tests look only at the nodes of degree 1 and at the end points of degree 3; a wrong interior node still gives a solvable NLP.",
     [("node generators per scheme", "CollocationRoots.roots_legendre_gauss_radau / _lobatto / roots_chebyshev_gauss_lobatto"),
      ("scheme dispatch", "CollocationRoots.get_collocation_points")])

prop("C02", "Differentiation matrices are exact for polynomials of the segment degree",
     """For every scheme, every list of segment degrees and every order of derivative supported (1 and 2), the differentiation
     matrices applied to the node values of a piecewise polynomial of at most the segment degrees give its derivative with respect to
     the normalized segment coordinate: at the collocation nodes (a node shared by two segments takes the derivative of the earlier
     segment) and at arbitrary evaluation points, per segment and composite, with one row per evaluation point in segment order.""",
     ["inputs", "configurations"], "all schemes, degree lists, intervals, polynomials up to the degree, evaluation points (also none in a segment)",
     "Tests compare degree-1 matrices with constants (one-sided, without abs) and one degree-3 case between engines; multi-segment composition is never checked.",
     [("differentiation matrix", "Collocation.get_diff_matrix"),
      ("composition over segments", "Collocation.get_composite_differentiation_matrix, get_composite_interpolation_Dmatrix_at")])

prop("C03", "Interpolation matrices reproduce piecewise polynomials anywhere",
     """For every scheme and list of segment degrees, the interpolation matrices applied to the node values of a continuous piecewise
     polynomial of at most the segment degrees give its value at every requested point of every segment, one row per point in
     segment order, also if a segment has no points and also at the nodes themselves (identity).""",
     ["inputs", "configurations"], "all schemes, degree lists, intervals, polynomials up to the degree, ragged lists of evaluation points",
     "The tests only compare array lengths after interpolation.",
     [("interpolation matrix", "Collocation.get_interpolation_matrix, get_interpolation_matrices"),
      ("composition over segments", "Collocation.get_composite_interpolation_matrix"),
      ("basis polynomials", "Collocation.get_lagrange_polynomials")])

prop("C04", "Quadrature weights integrate every polynomial of the segment degree",
     """For every scheme and degree, the quadrature weights integrate every polynomial of at most that degree exactly over the
     normalized interval and over any sub-interval that is asked for, also on user-supplied nodes. The composite weights of a
     multi-segment grid integrate every continuous piecewise polynomial exactly, so a node shared by two segments carries the weights of both.""",
     ["inputs", "configurations"], "all schemes, degree lists, intervals, sub-intervals, polynomials up to the degree, custom node sets",
     "The tests compare two engines on one single-segment grid of degree 3; neither sub-intervals nor several segments are tested.",
     [("quadrature weights", "Collocation.get_quadrature_weights, get_quad_weight_matrices"),
      ("composition over segments", "Collocation.get_composite_quadrature_weights"),
      ("custom nodes", "Collocation.init_polynomials_with_customized_roots")])

prop("C05", "Symbolic and numerical basis evaluation give the same matrices",
     """Differentiation (order 1 and 2), interpolation and quadrature matrices do not depend on whether the basis is evaluated
     symbolically or numerically, up to the precision of the respective method. The symbolic evaluation stays accurate for high
     degrees (30 and more), and an approximation object keeps giving the same matrices when asked again in any order.""",
     ["inputs", "configurations", "histories"], "both evaluation methods x schemes x degree lists x requests in any order",
     "One degree-3 LGR grid is compared, for two of the six kinds of matrices.",
     [("engine switch", "Collocation.D_MATRIX_METHOD in get_lagrange_polynomials, get_diff_matrix, get_quadrature_weights, get_interpolation_matrix")])

prop("C06", "Dynamics constraints are the collocated ODE of every segment of every phase",
     """The nonlinear program contains, for every phase, segment and state, exactly one equality constraint per collocation node (a node
     shared by two segments belongs to the earlier one), and its value at any point is the derivative of the (scaled) state polynomial with respect to the
     normalized segment coordinate minus scale_x times the dynamics evaluated at the unscaled state, control, time and parameters of that node times the
     duration of that segment per unit of the coordinate. Hence any trajectory that is a polynomial of the segment degrees and satisfies the ODE satisfies all of them.""",
     ["inputs", "programs", "configurations"], "all problem definitions (states, controls, parameters, phases, smooth dynamics), grids, segment widths, scalings and NLP points",
     "The tests check the number of constraints for two problems and that the solver returns; no constraint value is ever compared.",
     [("discretization", "mpopt.get_discretized_dynamics_constraints_and_cost_matrices"),
      ("dynamics constraints", "mpopt.get_nlp_constraints_for_dynamics"), ("assembly", "mpopt.discretize_phase, mpopt.create_nlp")],
     ["create_nlp()"])

prop("C07", "The NLP objective is the Bolza cost of the discretized trajectory",
     """At any point of the nonlinear program the objective equals the sum over all phases of the terminal cost, evaluated at the unscaled
     end and start states, times and parameters of that phase, plus the running cost integrated with the interpolatory quadrature
     rule of every segment and weighted with the duration of the segment. It does not depend on anything else and is exact
     when the running cost along the trajectory is a polynomial of at most the segment degree.""",
     ["inputs", "programs", "configurations"], "all problem definitions, grids, segment widths, scalings and NLP points",
     "The tests assert only that the objective is a scalar; the multi-segment quadrature error was invisible to them.",
     [("running cost per node", "mpopt.get_discretized_dynamics_constraints_and_cost_matrices"),
      ("Mayer term", "mpopt.get_nlp_constraints_for_terminal_contraints"), ("sum", "mpopt.discretize_phase, mpopt.create_nlp")],
     ["create_nlp()"])

prop("C08", "Path and terminal constraints are imposed completely and with their bounds",
     """Every component of the path constraints of a phase appears in the nonlinear program at every collocation node, evaluated at the
     unscaled state, control, time and parameters of the node, with the problem's path bounds; every component of the terminal constraints appears once,
     evaluated at the end and start states, times and parameters of the phase, with the terminal bounds. Phases without such constraints contribute none, and nothing else is added.""",
     ["inputs", "programs", "configurations"], "all problem definitions with any subset of phases constrained, grids, scalings and NLP points",
     "Only constraint counts of one fixture are tested.",
     [("path constraints", "mpopt.get_nlp_constraints_for_path_contraints"),
      ("terminal constraints", "mpopt.get_nlp_constraints_for_terminal_contraints"),
      ("presence test", "OCP.has_path_constraints, OCP.has_terminal_constraints")], ["create_nlp()"])

prop("C09", "Variable bounds and the initial condition are imposed in scaled variables",
     """Every state, control, parameter and initial/final time variable of the nonlinear program is bounded by the user's bound of that phase and component times its
     scale, at every collocation node. The only exception is the first node of the first phase, where every state is fixed to the given
     initial state; later phases' start nodes keep their bounds.""",
     ["inputs", "configurations"], "all bound arrays (also infinite or equal), scalings, grids and phases, for fixed-width and adaptive-width optimizers",
     "The tests check vector lengths of the variables only.",
     [("variables and bounds", "mpopt.get_nlp_variables, mpopt_adaptive.get_nlp_variables")], ["create_nlp()"])

prop("C10", "Linked phases are joined in state, control and time, within the allowed jump",
     """For each pair in the problem's list of phase links, the nonlinear program requires start state of the later phase minus end state of the
     earlier phase to lie in that link's jump bounds (per state, in unscaled units), the controls to be equal and the start time of the later phase to equal the end time of the
     earlier one. A single-phase problem and unlinked phases get no such constraints.""",
     ["inputs", "configurations"], "all numbers of phases, link lists, jump bounds, scalings and NLP points",
     "The tests check the number of link constraints of a two-phase problem; values, signs and scales are unchecked.",
     [("phase linking", "mpopt.get_event_constraints")], ["create_nlp()"])

prop("C11", "Optional control constraints act on the control polynomial of each segment",
     """Where mid-point constraints are enabled and a control bound is finite, the control polynomial is bounded by the control bounds at the mid
     point of every pair of neighbouring nodes. Where the slope bound is enabled, the time derivative of every unscaled
     control at every node lies in the slope bounds, and where slope continuity is enabled, the time derivatives on both sides
     of every segment boundary are equal, also for unequal segment widths. Switched off, they add nothing.""",
     ["inputs", "configurations"], "all combinations of the three switches per phase, bounds, grids, widths, scalings, NLP points",
     "One solve with the switches on asserts that a result exists.",
     [("mid-point bounds", "mpopt.get_nlp_constrains_for_control_input_at_mid_colloc_points"),
      ("slope bounds", "mpopt.get_nlp_constraints_for_control_input_slope"),
      ("slope continuity", "mpopt.get_nlp_constrains_for_control_slope_continuity_across_segments")], ["create_nlp()"])

prop("C12", "The default initial guess is the straight line between the given end guesses",
     """Without a warm start, the point handed to the solver is, per phase, linear from the scaled initial guess to the scaled final guess for
     every state and control (all of them at the same fractions from the first to the last node), and it contains the scaled guesses of start time, end time and
     parameters and, for adaptive widths, equal segment widths.""",
     ["inputs", "configurations"], "all guesses, scalings, numbers of states, controls, parameters, phases, grids; all optimizers",
     "The tests check the length of the vector; the scrambled guess for several controls was invisible to them.",
     [("initial guess", "mpopt.init_solution_per_phase, mpopt.initialize_solution, mpopt_adaptive.init_solution_per_phase")])

prop("C13", "Scaling factors change conditioning only, never the problem",
     """For any positive scale factors of states, controls, parameters and time, the scaled problem at the correspondingly scaled variables
     has the same objective, the same retrieved trajectories, and constraint values and bounds that are those of the unscaled problem up to positive factors,
     so feasibility, optimality and the retrieved solution are the same.""",
     ["inputs", "configurations"], "all positive scale vectors x problem definitions x grids x NLP points",
     "All tested problems but one use unit scales; none compares two scalings.",
     [("scaling of variables", "mpopt.create_variables, get_nlp_variables, get_discretized_dynamics_constraints_and_cost_matrices"),
      ("unscaling of results", "post_process.get_trajectories")])

prop("C14", "Retrieved trajectories are the solution on its own time grid, in user units",
     """For any solution vector, the retrieved states, controls and parameters of a phase are those in the vector divided by their scales (or the scaled
     values where scaling is requested), and the retrieved times start at the phase's start time, end at its end time and place
     every node at its segment start plus the segment's duration times the node's normalized position, with segment durations in proportion to the segment widths. Several phases are
     returned in the order asked for, one block after the other.""",
     ["inputs", "configurations"], "all solution vectors, grids, widths, scalings, phase lists, optimizers",
     "The tests compare only the lengths of x, u and t.",
     [("trajectory functions", "mpopt.init_trajectories, mpopt_adaptive.init_trajectories"),
      ("retrieval", "post_process.get_trajectories, get_original_data, get_data")], ["process_results(), get_data()"])

prop("C15", "Interpolated results lie on the solution polynomial at the right times",
     """Interpolated states and controls equal, at each returned time, the value of the segment's interpolating polynomial through the collocated
     values, for the default and for user-given evaluation points; the returned times cover the phase from start to end in non-decreasing order. Several phases are
     returned in the order asked for, and states, controls and times have the same number of rows.""",
     ["inputs", "configurations"], "all solution vectors, grids, widths, scalings, phase lists and evaluation points",
     "The tests compare only the lengths of the interpolated arrays.",
     [("interpolation", "post_process.get_interpolated_data, get_interpolation_taus, get_interpolated_time_grid, get_non_uniform_interpolation_grid")],
     ["get_data(interpolate=True)"])

prop("C16", "Dynamics residuals are the ODE defect of the returned solution",
     """At every requested point, the dynamics residual is the derivative of the interpolated scaled state with respect to the normalized segment coordinate
     minus the scaled dynamics times the segment's duration per unit of the coordinate, and the returned time is the time of that point. It vanishes at the collocation nodes of a feasible
     solution and everywhere for a polynomial solution of the ODE; the relative form divides by the largest dynamics term of the phase.""",
     ["inputs", "programs", "configurations"], "all problems, solution vectors, grids, widths, scalings, residual grids (fixed, mid-points, spectral, own points)",
     "The tests assert loose upper bounds (1e-1 ... 4) on two problems.",
     [("residuals", "mpopt.get_dynamics_residuals, get_dynamics_residuals_single_phase, interpolate_single_phase")])

prop("C17", "State residuals compare the solution with its integrated dynamics",
     """At every requested point of a segment, the integrated state is the segment's start state plus the integral of the dynamics along the interpolated
     solution from the segment start to that point, and the state residual is the interpolated state minus that. It is exact whenever the dynamics
     along the solution is a polynomial the points resolve, so it vanishes for a polynomial solution of the ODE.""",
     ["inputs", "programs", "configurations"], "all problems, solution vectors, grids, widths, scalings, residual grids",
     "The tests assert residual < 0.1 for one problem.",
     [("integrated states", "mpopt.compute_states_from_solution_dynamics, get_states_residuals")])

prop("C18", "Reported second derivatives are those of the solution polynomials",
     """For every phase and segment, the reported second derivatives of states and controls are those of the interpolating polynomials with
     respect to the normalized segment coordinate at the requested points (own points or the requested grid type), and the reported times are the times of those points.""",
     ["inputs", "configurations"], "all solution vectors, grids, widths, schemes, evaluation points",
     "One single-segment quadratic is tested.",
     [("second derivatives", "mpopt.get_state_second_derivative, get_state_second_derivative_single_phase")])

prop("C19", "Residual grids cover the phase and map to the right segment positions",
     """Any increasing set of points on a phase maps to one list per segment so that every point after the phase start, including the phase end, appears exactly once, at
     the position in the segment (by width) where it lies. The fixed grid is equally spaced in the phase without its end points, the mid-point grid
     is the mid points of neighbouring nodes of each segment, and the spectral grid the interior nodes of a finer collocation grid of the scheme in each segment.""",
     ["inputs", "configurations"], "all point sets, segment widths (also very unequal ones), intervals, degree lists, grid sizes",
     "Tests use one and two equal segments; the lost end point with ten segments was invisible to them.",
     [("residual grids", "mpopt.get_residual_grid_taus"),
      ("mapping", "mpopt.compute_interpolation_taus_corresponding_to_original_grid")])

prop("C20", "Mesh refinement always yields a valid mesh",
     """From any residuals or control slopes and any current widths, each mesh refinement method returns the same number of segment widths per phase, all non-negative (positive for
     residual-based ones), summing to one. Equal-area refinement puts the boundaries at equal shares of the residual
     area and blends them with the old widths, merge/split merges runs of segments within tolerance, divides the others evenly and preserves their
     outer boundaries, and a phase within its tolerance keeps its widths.""",
     ["inputs", "configurations"], "all residual sequences (with zeros, plateaus, spikes), widths, numbers of segments and phases, methods and tolerances",
     "The adaptive solves in the tests reach a handful of residual patterns and assert only that a solution exists.",
     [("equal area", "mpopt_h_adaptive.get_roots_wrt_equal_area, refine_segment_widths_based_on_residuals"),
      ("merge/split", "mpopt_h_adaptive.merge_split_segments_based_on_residuals"),
      ("control slope", "mpopt_h_adaptive.compute_segment_widths_at_times, compute_time_at_max_values")])

prop("C21", "The h-adaptive solve returns a solution of the mesh it reports",
     """After an h-adaptive solve, the returned solution is a solution of the problem on the segment widths the optimizer
     reports afterwards, so retrieval and residuals are consistent with it. At most the allowed number of NLPs is solved, the
     iteration record matches the iterations made, and with one segment or one iteration the result is that of the fixed equal-width optimizer.""",
     ["inputs", "configurations", "histories"], "all problems, grids, methods, iteration limits, tolerances",
     "The tests assert that keys x and f exist.",
     [("refinement loop", "mpopt_h_adaptive.solve, get_segment_width_parameters"),
      ("refined widths", "mpopt_h_adaptive.compute_seg_width_based_on_residuals, compute_seg_width_based_on_input_slope")])

prop("C22", "Optimized segment widths are a constrained part of the adaptive NLP",
     """In the adaptive-width optimizer the segment widths are variables within the width bounds that sum to one in each phase, all other terms are
     those of the fixed-width problem on these widths, and controls, states (where bounded) and, if enabled, dynamics residuals weighted with the width are
     bounded at the mid points of neighbouring nodes. After a solve the reported widths are those of the solution.""",
     ["inputs", "programs", "configurations"], "all problems, grids, width bounds, tolerances, phases, NLP points",
     "Three solves assert that keys exist.",
     [("width constraints", "mpopt_adaptive.get_nlp_constrains_for_segment_widths"),
      ("variables", "mpopt_adaptive.get_nlp_variables, solve")], ["create_nlp()"])

prop("C23", "Solving returns the optimum of the continuous problem",
     """For problems whose optimal trajectory is known and resolvable by the grid, every optimizer, scheme, grid, scaling and phase structure returns (within solver
     tolerance) that cost and that trajectory at the returned times, and a feasible point of the transcription; with an analytic
     optimum the error decreases with the degree.""",
     ["inputs", "programs", "configurations"], "families of problems with closed-form optima x optimizers x schemes x grids x scalings",
     "One problem is compared with its analytic solution, on one grid.",
     [("whole pipeline", "OCP, mpopt.solve, mpopt_h_adaptive.solve, mpopt_adaptive.solve, process_results")])

prop("C24", "Cutting a problem into linked phases changes nothing",
     """A single-phase problem and the same problem cut into several linked phases (same dynamics and running cost, terminal cost at the end, no jump) on
     corresponding grids agree: any trajectory has the same objective and equivalent feasibility in both, and the optima coincide.""",
     ["inputs", "programs", "configurations"], "all problems, cut times, grids with segments distributed over phases",
     "No test relates a multi-phase problem to a single-phase one.",
     [("phases", "mpopt.create_nlp, get_event_constraints, get_nlp_variables")])

prop("C25", "Repeated solves depend only on problem, grid and arguments",
     """Whatever solves, evaluations and reinitializations were made before with an optimizer, solving with given arguments gives the same
     result as a fresh optimizer, a warm start from a returned solution is used as the starting point and stays at
     that optimum, and changes to the problem take effect after reinitialization. Solver name and options reach the solver.""",
     ["histories", "inputs"], "all sequences of solve / warm start / reinitialize / post-process calls and option sets",
     "Each test makes at most two solves and compares nothing.",
     [("solver cache and warm start", "mpopt.solve, create_solver, get_solver_warm_start_input_parameters")])

prop("C26", "Problem validation accepts well-formed problems and rejects malformed ones",
     """Validation of a problem raises an error whenever the number of phase functions, the length of the dynamics, the shape of any guess, bound or scale array
     is inconsistent with the declared numbers of phases, states, controls and parameters, or any lower bound exceeds its upper bound, and it
     accepts every consistent problem. It changes nothing.""",
     ["inputs"], "all problem sizes x all single corruptions of any array, function or bound",
     "The tests call it on valid problems only.",
     [("validation", "OCP.validate")])

prop("C27", "Optimizers are isolated from the user's objects and from each other",
     """Constructing, solving and post-processing leave the user's problem, initial solutions, option dictionaries and default arguments
     unchanged, later changes to the problem object do not affect an optimizer built from it, and several optimizers used
     alternately give the results each gives alone.""",
     ["histories", "inputs"], "all interleavings of operations on several problems and optimizers",
     "No test compares any object before and after a call.",
     [("deep copy of the problem", "mpopt.__init__"), ("default and option dictionaries", "solve of all optimizers"),
      ("class-level settings", "Collocation, CollocationRoots, mpopt class attributes")])

prop("C28", "Plots show the data of the solution",
     """Plotting states, controls, phases and residuals works for every number of phases, segments, states and controls, returns the figure and axes,
     and the plotted curves are exactly the retrieved (original and interpolated) data of the requested phases and components; residual plots show the residual norm of the requested phases against their times.""",
     ["inputs", "configurations"], "all solutions, phase lists, component selections, interpolation switches, residual kinds and ragged residual grids",
     "The tests call three plot functions for one problem and check nothing.",
     [("plots", "post_process.plot_phases, plot_phase, plot_x, plot_u, plot_single_variable, plot_residuals, sort_residual_data")])

prop("C29", "The one-call solve equals the manual pipeline",
     """The one-call interface gives the optimizer, solution and post-processor that constructing an optimizer with the given grid
     and scheme, solving with the given solver arguments and processing with the given residual switches give.""",
     ["inputs", "configurations"], "all problems, grids, schemes, solver arguments and residual switches",
     "The tests use it once, as a fixture.",
     [("wrapper", "solve, mpopt.process_results")])

prop("C30", "The p/h refinement ends with a solution of the mesh it reports",
     """For single-phase problems the p/h refinement ends after at most the allowed number of iterations with a solution of the problem on the number of segments,
     polynomial degrees and widths it reports afterwards, where degrees only grow up to the maximum, segment widths sum to one and a solution
     within the residual tolerance is returned unrefined.""",
     ["inputs", "configurations", "histories"], "all single-phase problems, starting grids, tolerances, degree limits, iteration limits",
     "No test touches this optimizer.",
     [("refinement loop", "mpopt_ph_adaptive.solve_ph, get_abs_max_residual")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
