#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

pc = "parallel_control/"

prop("C01", "Associative scan returns every prefix (or suffix) combination",
 "For any associative operator, commutative or not, and any list of at least one element, the simulated parallel scan returns a list of the same length whose k-th entry is the combination, in order, of elements 0..k (or k..last when run in reverse). The caller's list and its elements are left unmodified, the operator is only ever applied to combinations of adjacent runs in the right order, and repeated calls give the same answer.",
 ["inputs", "schedules"], "every list length >= 1, both directions, every associative operator and element type",
 "Tests use one or two lengths with a few concrete operators; padding to a power of two makes each length a different combination tree, and only enumeration over lengths covers the trees.",
 [pc+"my_assoc_scan.py"], [("up/down sweep with None padding and final extra pass", pc+"my_assoc_scan.py:my_assoc_scan")],
 ["my_assoc_scan return value"])

prop("C02", "Finite-state control: policies and value functions are optimal",
 "For a finite-state control problem (tabulated transitions, stage costs and terminal cost, possibly time-varying), both the sequential and the parallel backward pass return, at every time and state, the true minimum cost-to-go, and a policy that attains it. The exhaustive batch solver returns a minimum-cost trajectory and its cost, and the trajectory cost function returns the sum of stage costs plus terminal cost. Number types (integer or floating) of the cost tables do not change the result.",
 ["inputs"], "all transition tables, cost tables (including ties, negative, unreachable states, large costs, integer tables), horizons, numbers of states and controls",
 "Tests run a few random or game problems; ties, unreachable states, one-state/one-control problems, integer tables and every tiny table are not sampled.",
 [pc+"fsc_np.py"], [("dynamic programming backward pass", pc+"fsc_np.py:FSC.seqBackwardPass"), ("min-plus scan backward pass", pc+"fsc_np.py:FSC.parBackwardPass"), ("exhaustive batch solution", pc+"fsc_np.py:FSC.batch_solution"), ("cost", pc+"fsc_np.py:FSC.cost")],
 ["return values of backward passes, batch solution and cost"])

prop("C03", "Finite-state control: every forward method recovers optimal trajectories",
 "Given the result of a backward pass and an initial state, the sequential forward pass, simulation and the function-composition parallel forward pass return exactly the trajectory that the policy generates from the initial state; the two min-plus forward-backward passes return, at each time, a state lying on some optimal trajectory, and exactly the optimal trajectory whenever it is unique. Controls returned are the policy's controls at the returned states, and lists cover times 0..T for states and 0..T-1 for controls.",
 ["inputs", "schedules"], "all problems, initial states, horizons >= 1 and arbitrary (also non-optimal) policies for the policy-driven passes",
 "Tests compare a handful of random problems in which the optimum is unique; ties, T=1 and every initial state are not covered.",
 [pc+"fsc_np.py"], [("sequential forward", pc+"fsc_np.py:FSC.seqForwardPass"), ("simulation", pc+"fsc_np.py:FSC.seqSimulation"), ("function composition scan", pc+"fsc_np.py:FSC.parForwardPass"), ("value-function forward-backward scans", pc+"fsc_np.py:FSC.parFwdBwdPass, parFwdBwdPass2")],
 ["return values of forward passes"])

prop("C04", "TensorFlow finite-state control agrees with exact dynamic programming",
 "For every finite-state problem converted to tensors, the TensorFlow sequential and parallel backward passes return the true cost-to-go for times 0..T and minimising controls, and the three TensorFlow forward passes return the optimal states and controls for every initial state, in the documented order. The result does not depend on the parallelism limit as long as it is at least the horizon (a horizon of one included), nor on single or double precision beyond rounding.",
 ["inputs", "schedules", "configurations"], "all problems, horizons >= 1, initial states, parallelism limits >= horizon, both float types",
 "Tests run a few long random problems with the default limit; each horizon and limit gives another scan tree, and ties, short horizons and single precision are not exercised.",
 [pc+"fsc_tf.py", pc+"finite_speedtest.py"], [("tf.scan backward/forward", pc+"fsc_tf.py:fsc_seq_backwardpass, fsc_seq_forwardpass"), ("associative scans", pc+"fsc_tf.py:fsc_par_backwardpass, fsc_par_forwardpass, fsc_par_fwdbwdpass"), ("conversion", pc+"fsc_tf.py:fsc_np_to_tf"), ("pipelines", pc+"finite_speedtest.py:fsc_seq_bw, fsc_par_bw, fsc_seq_bwfw, fsc_par_bwfw_1, fsc_par_bwfw_2")],
 ["return values of the passes"])

prop("C05", "Viterbi (NumPy): every variant returns a most probable state sequence",
 "For any discrete hidden Markov model and any observation sequence with positive probability, each Viterbi variant returns a state sequence that maximises the joint probability of states and observations when the maximiser is unique, and the path-following variants return a maximiser even under ties. The value functions returned equal the best (negative log) probability of any state path ending in each state at each time, and all variants agree with each other.",
 ["inputs"], "all models (including zero probabilities, ties, one state, one symbol) and all observation sequences of length >= 1",
 "Tests use one Gilbert-Elliott model and one long observation record, so no ties, zeros, short sequences, non-symmetric or non-square emission tables.",
 [pc+"viterbi_np.py", pc+"fsc_np.py"], [("reference Viterbi, log and control-compatible forms", pc+"viterbi_np.py:Viterbi_np.ref_viterbi, ref_viterbi_log, ref_viterbi_log_v2"), ("reduction to optimal control", pc+"viterbi_np.py:Viterbi_np.getFSC"), ("sequential and parallel solutions", pc+"viterbi_np.py:Viterbi_np.seqViterbi, parBwdFwdViterbi, parBwdFwdBwdViterbi")],
 ["returned state sequence and value functions"])

prop("C06", "Viterbi (TensorFlow): every variant returns a most probable state sequence",
 "For any discrete hidden Markov model and observation sequence of positive probability, each TensorFlow Viterbi routine (via optimal control and direct, sequential and parallel) returns the unique maximum a posteriori state sequence, and value functions equal to the best negative log probability of a path ending in each state at each time. This holds for every sequence length from one upward.",
 ["inputs", "schedules"], "all models and observation sequences, all lengths >= 1",
 "Tests use one model and length-100 data; each length gives a different combination tree and short lengths are never run.",
 [pc+"viterbi_tf.py", pc+"fsc_tf.py"], [("control-based variants", pc+"viterbi_tf.py:viterbi_fsc_seq_bwfw, viterbi_fsc_par_bwfw, viterbi_fsc_par_bwfwbw"), ("direct variants", pc+"viterbi_tf.py:viterbi_seq_fwbw, viterbi_par_fwbw, viterbi_seqpar_fwbw, viterbi_par_fwbwfw"), ("construction", pc+"viterbi_tf.py:make_viterbi_fsc")],
 ["returned state sequence and value functions"])

prop("C07", "LQT (NumPy): value functions and control laws are optimal",
 "For any linear-quadratic tracking problem with the general quadratic cost (outputs, references, cross terms, input offsets and input scaling, time-varying data, output dimension differing between steps), the sequential and the parallel backward pass return the gradient and curvature of the true optimal cost-to-go at every time and the affine control law that minimises it. The variant that first eliminates the cross terms returns the same when inputs are unscaled.",
 ["inputs", "configurations", "schedules"], "all horizons >= 1, state/input/output dimensions, time-varying or constant data, every combination of optional cost terms present or absent",
 "Tests use fixed tracking models with a few feature combinations and horizons; interactions of cross terms, offsets, scaling and dimensions per horizon are not enumerated.",
 [pc+"lqt_np.py"], [("Riccati recursion", pc+"lqt_np.py:LQT.seqBackwardPass"), ("conditional value function scan", pc+"lqt_np.py:LQT.parBackwardPass, combine_abcej"), ("transformed pass", pc+"lqt_np.py:LQT.seqTransformedBackwardPass")],
 ["returned gains, offsets and value function parameters"])

prop("C08", "LQT (NumPy): every way of computing the trajectory gives the optimum",
 "For any linear-quadratic tracking problem and initial state, the sequential forward pass, the function-composition parallel pass and both forward-backward passes return the same state and control trajectory, it satisfies the dynamics, and it is the unique minimiser of the cost, as is the batch solution. Simulation reproduces the dynamics for arbitrary controls, and the cost function returns the exact value of the documented cost for arbitrary trajectories.",
 ["inputs", "configurations", "schedules"], "all problems, horizons >= 1, initial states, trajectories passed to simulation and cost",
 "Tests compare methods on two or three models; one-step horizons, each horizon's scan tree, cross terms with offsets and arbitrary trajectories are not enumerated.",
 [pc+"lqt_np.py"], [("forward passes", pc+"lqt_np.py:LQT.seqForwardPass, parForwardPass, parFwdBwdPass, parFwdBwdPass2"), ("batch solution", pc+"lqt_np.py:LQT.batchSolution"), ("simulation and cost", pc+"lqt_np.py:LQT.seqSimulation, cost")],
 ["returned trajectories and cost"])

prop("C09", "LQR (NumPy): finite-horizon and stationary solvers agree",
 "For any linear-quadratic regulator with positive definite input cost, the sequential and parallel finite-horizon passes return the optimal cost matrices, gains and trajectories for every horizon, n Riccati iterations from the state cost equal an (n+1)-stage problem, n doublings equal a problem of 2^n stages, and both converge to the stationary algebraic Riccati solution with its gain.",
 ["inputs", "schedules"], "all regulator problems (stabilizable/detectable for the stationary limit), horizons, iteration counts",
 "Tests check one double integrator; the exact iteration-count relation and other dimensions are not covered.",
 [pc+"lqt_np.py"], [("finite horizon passes", pc+"lqt_np.py:LQR.seqBackwardPass, parBackwardPass, seqForwardPass, parForwardPass"), ("stationary solvers", pc+"lqt_np.py:LQR.lqrDare, lqrIter, lqrDouble")],
 ["returned gains, matrices and trajectories"])

prop("C10", "LQT (TensorFlow): sequential and parallel solvers are optimal",
 "For any linear-quadratic tracking problem without cross terms converted to tensors, the TensorFlow sequential and parallel backward passes return the exact optimal value functions and control laws, the three forward passes return the optimal state and control trajectory in the documented order, and the tensor cost function returns the cost of any trajectory. The result does not depend on the parallelism limit as long as it is at least the horizon, and the composed benchmark pipelines return the same solution.",
 ["inputs", "configurations", "schedules"], "all horizons >= 1, dimensions, time-varying data, limits >= horizon",
 "Tests run long problems for fixed models with the default limit; each horizon/limit is another combination tree.",
 [pc+"lqt_tf.py", pc+"linear_speedtest.py"], [("sequential", pc+"lqt_tf.py:lqt_seq_backwardpass, lqt_seq_forwardpass"), ("parallel", pc+"lqt_tf.py:lqt_par_backwardpass, lqt_par_forwardpass, lqt_par_fwdbwdpass"), ("cost", pc+"lqt_tf.py:lqt_cost"), ("pipelines", pc+"linear_speedtest.py:lqt_sequential_bwfw, lqt_parallel_bwfw_1, lqt_parallel_bwfw_2")],
 ["returned tensors"])

prop("C11", "LQT (TensorFlow): general costs convert to canonical form and back exactly",
 "For any tracking problem with cross terms and input offsets, converting to canonical form, solving with any TensorFlow backward pass and converting the control law back gives the optimal control law and value function of the original problem, up to a constant. Conversion of a problem object to tensors preserves every matrix and vector of the problem.",
 ["inputs", "configurations"], "all problems with unscaled inputs, any cross terms and offsets, all horizons and dimensions",
 "Tests use one randomly perturbed tracking model.",
 [pc+"lqt_tf.py"], [("conversions", pc+"lqt_tf.py:lqt_gen_to_canon, lqt_canon_to_gen"), ("tensor conversion", pc+"lqt_tf.py:lqt_np_to_tf, lqt_np_to_tf_gen")],
 ["returned tensors and resulting control law"])

prop("C12", "Problem construction validates shapes and replicates constants faithfully",
 "Creating a tracking or finite-state problem from any mixture of constant and per-step data either yields a problem whose per-step data equal what was given (constants replicated, documented defaults filled in) over the inferred horizon, or is rejected with an exception. Any array whose shape, or list whose length, is inconsistent with the others is rejected; no consistent set of arguments is rejected.",
 ["inputs", "configurations"], "all subsets of arguments given as constants, lists or omitted, and every single shape or length inconsistency",
 "Tests check a few hand-picked mistakes; the product of which argument is a list, omitted or wrong is not covered.",
 [pc+"lqt_np.py", pc+"fsc_np.py"], [("validation", pc+"lqt_np.py:LQT.checkAndExpand"), ("validation", pc+"fsc_np.py:FSC.checkAndExpand")],
 ["constructed object attributes or exception"])

prop("C13", "Partial condensing (NumPy) preserves the optimum for every block length",
 "For any tracking problem without cross terms and any block length, including ones that do not divide or that exceed the horizon, solving the condensed problem by any backward/forward pass and expanding it returns exactly the optimal state and control trajectory of the original problem. The original problem is not modified, the condensed horizon is the number of blocks, and the condenser can be reused for other problems.",
 ["inputs", "configurations", "histories"], "all horizons, block lengths >= 1, dimensions, time-varying data, outputs of lower dimension than the state or of changing dimension",
 "Tests use three block lengths on one model; the product of horizon and block length with partial last blocks is not covered.",
 [pc+"condensing_np.py"], [("condensing and padding", pc+"condensing_np.py:LQTCondenser.condense"), ("expansion", pc+"condensing_np.py:LQTCondenser.convertUX")],
 ["expanded trajectory"], [("condenser object", "per-block expansion matrices of the last condensed problem", pc+"condensing_np.py:LQTCondenser")])

prop("C14", "Partial condensing (TensorFlow) preserves the optimum for every block length",
 "For any tracking problem without cross terms and any block length, including ones that do not divide or that exceed the horizon, condensing, converting to canonical form, solving sequentially or in parallel, converting back and expanding returns the optimal state and control trajectory of the original problem, and the benchmark pipelines built from these steps do as well.",
 ["inputs", "configurations", "schedules"], "all horizons, block lengths >= 1, dimensions, time-varying data, outputs of lower dimension than the state",
 "Tests use a few block lengths on one model.",
 [pc+"condensing_tf.py", pc+"linear_speedtest.py", pc+"lqt_tf.py"], [("condensing", pc+"condensing_tf.py:condense"), ("expansion", pc+"condensing_tf.py:convertUX"), ("pipelines", pc+"linear_speedtest.py:lqt_sequential_cond_bwfw, lqt_parallel_cond_bwfw_1, lqt_parallel_cond_bwfw_2")],
 ["expanded trajectory"])

prop("C15", "Continuous LQR/LQT (NumPy): backward passes solve the Riccati equations",
 "For continuous-time linear-quadratic regulation and tracking with time-varying data, the sequential and the block-parallel backward passes (forward- or backward-integrated blocks) return value functions and control laws on the whole time grid that agree with the true solution up to the fourth-order discretisation error, for any split of the horizon into blocks and steps, any initial time and any terminal condition supplied. The exact regulator method reproduces the true solution for any step length.",
 ["inputs", "configurations", "schedules"], "all block/step splits, time-varying or constant data, start times, dimensions, integration directions",
 "Tests use one model and one or two splits; a data function evaluated at a slightly wrong time passes on constant data.",
 [pc+"clqt_np.py", pc+"diffeq_np.py"], [("sequential", pc+"clqt_np.py:CLQR.seqBackwardPass, CLQT.seqBackwardPass"), ("parallel", pc+"clqt_np.py:CLQR.parBackwardPass, CLQT.parBackwardPass")],
 ["returned value functions and gains"])

prop("C16", "Continuous LQR/LQT (NumPy): every forward method gives the optimal path",
 "For continuous-time regulation and tracking, the sequential forward pass, the block-parallel forward pass and the sequential and block-parallel forward-backward passes return states and controls on the whole grid that agree with the true optimal trajectory up to the discretisation error of the method, for any split into blocks and steps, any start time and both hold modes; states start at the given initial state and controls follow the returned control law.",
 ["inputs", "configurations", "schedules"], "all block/step splits, start times, hold modes, integration directions, time-varying data",
 "Tests use one model and a couple of splits with loose tolerances.",
 [pc+"clqt_np.py"], [("forward passes", pc+"clqt_np.py:CLQR.seqForwardPass, parForwardPass; CLQT.seqForwardPass, parForwardPass"), ("forward-backward passes", pc+"clqt_np.py:seqFwdBwdPass, combineForwardBackward, parFwdBwdPass")],
 ["returned trajectories"])

prop("C17", "Continuous LQT (TensorFlow) solves the same problem as the reference",
 "For continuous-time tracking problems with time-varying data, the TensorFlow sequential and block-parallel backward, forward and forward-backward passes return value functions, control laws and trajectories on the full time grid agreeing with the true solution up to discretisation error and with the NumPy reference to rounding where the method is the same, for every split into blocks and steps, batch of start times, integration direction and parallelism limit at least the number of blocks.",
 ["inputs", "configurations", "schedules"], "all block/step splits, directions, start times, limits, dimensions",
 "Tests use one model and one split per function.",
 [pc+"clqt_tf.py", pc+"contlin_speedtest.py"], [("sequential", pc+"clqt_tf.py:clqt_seq_backwardpass, clqt_seq_forwardpass, clqt_seq_fwdbwdpass, clqt_combine_fwdbwd"), ("parallel", pc+"clqt_tf.py:clqt_par_backwardpass, clqt_par_forwardpass, clqt_par_fwdbwdpass"), ("pipelines", pc+"contlin_speedtest.py")],
 ["returned tensors"])

prop("C18", "Parareal (NumPy) becomes exact after as many iterations as blocks",
 "After k iterations the parareal backward solution equals the sequential fine-grid solution on the last k blocks and the forward solutions equal it on the first k blocks; with at least as many iterations as blocks every value function, control law, state and control equals the sequential solution on the whole grid, for any number of blocks and steps and start from the given terminal and initial conditions. With one step per block any iteration count gives the sequential solution.",
 ["inputs", "configurations", "histories"], "all block, step and iteration counts, time-varying data",
 "Tests check closeness for one split and iteration count; the finite-termination invariant per iteration is not tested.",
 [pc+"parareal_clqt_np.py"], [("parareal passes", pc+"parareal_clqt_np.py:Parareal_CLQT_np.backwardPass, forwardPass, fwdBwdPass")],
 ["returned value functions and trajectories"])

prop("C19", "Parareal (TensorFlow) becomes exact after as many iterations as blocks",
 "After k iterations the TensorFlow parareal backward solution equals the sequential fine-grid solution on the last k blocks and the forward solutions equal it on the first k blocks; with at least as many iterations as blocks every value function, control law, state and control equals the sequential fine solution on the whole grid, for any number of blocks and steps. Composite passes return the same as running their parts.",
 ["inputs", "configurations", "histories"], "all block, step and iteration counts >= 1, time-varying data",
 "Tests check closeness for one split and iteration count.",
 [pc+"parareal_clqt_tf.py", pc+"contlin_speedtest.py"], [("parareal passes", pc+"parareal_clqt_tf.py:pclqt_backwardpass, pclqt_forwardpass, pclqt_fwdbwdpass, pclqt_backwardforwardpass, pclqt_backwardbwdfwdpass")],
 ["returned tensors"])

prop("C20", "Runge-Kutta step and discretisation routines are exact to their order",
 "The Runge-Kutta step integrates any right-hand side that is a polynomial in time of degree at most three exactly, reproduces the fourth-order Taylor step on linear systems and is fourth-order accurate otherwise, passing the right time and parameter to the right-hand side in every calling form, in NumPy and TensorFlow alike, for positive and negative steps. The linear discretisation returns the exact transition matrix, noise covariance and input matrix of the continuous model, so that discretising two successive intervals composes to the discretisation of their sum.",
 ["inputs", "configurations"], "all step lengths including zero and negative, calling forms, dimensions, batch shapes, default and explicit noise matrices",
 "Tests integrate a couple of fixed ODEs and discretise one model.",
 [pc+"diffeq_np.py", pc+"diffeq_tf.py", pc+"disc.py"], [("RK4", pc+"diffeq_np.py:rk4; diffeq_tf.py:rk4"), ("matrix exponential / matrix fraction", pc+"disc.py:lti_disc, lti_disc_u")],
 ["return values"])

prop("C21", "HJB grid solver (NumPy/JAX): value combination and backward passes",
 "On a one-dimensional grid the combination of two conditional value functions is the exact minimum over the intermediate grid point, and the interpolated combination is the parabola-refined minimum, always finite for finite inputs and equal to the plain one where the neighbours are symmetric or the costs are flat. The sequential and parallel block passes return the terminal cost at the end and agree with each other for every number of blocks whenever the combination is exact, and the finite-difference passes perform the documented (central or upwind) update at every grid point.",
 ["inputs", "schedules", "configurations"], "all small conditional value matrices, grid sizes, block counts and step counts",
 "Tests use two smooth models on one grid with loose tolerances; ties, flat costs, edges and block counts are not enumerated.",
 [pc+"hjb_grid_1d_np.py"], [("combination", pc+"hjb_grid_1d_np.py:combine_V, combine_V2, combine_V_interp, combine_V_interp2"), ("passes", pc+"hjb_grid_1d_np.py:HJB_Grid_1d.seqBackwardPass_assoc, parBackwardPass, seqBackwardPass_symfd, seqBackwardPass_upwind")],
 ["returned value functions"])

prop("C22", "HJB grid solver (TensorFlow): value combination and backward passes",
 "On a one-dimensional grid the TensorFlow combination of batches of conditional value functions is the exact minimum over the intermediate grid point, and the interpolated combination is the parabola-refined minimum, always finite for finite inputs and equal to the plain one where the costs are flat or symmetric. The sequential and parallel block passes agree with each other for every number of blocks and every admissible parallelism limit whenever the combination is exact, and the finite-difference passes perform the documented (central or upwind) update at every grid point.",
 ["inputs", "schedules", "configurations"], "all small conditional value matrices, batch and grid sizes, block counts, step counts, limits >= blocks",
 "The tests of this module need long runs on smooth models; ties, flat costs, edges, block counts and limits are not enumerated.",
 [pc+"hjb_grid_1d_tf.py", pc+"hjb_grid_1d_speedtest.py"], [("combination", pc+"hjb_grid_1d_tf.py:combine_V, combine_V2, combine_V_interp"), ("passes", pc+"hjb_grid_1d_tf.py:seq_bw_pass_symfd, seq_bw_pass_upwind, seq_bw_pass_assoc, par_bw_pass")],
 ["returned value functions"])

prop("C23", "Direct shooting evaluates the conditional cost it documents",
 "For any dynamics, running cost, horizon and number of steps, the shooting functions return the Runge-Kutta approximation of the cost and of the final state reached by the piecewise-linear (method 1) or continuous piecewise-linear (method 2) control described by the parameters, with exactly one integration step per parameter pair. On linear-quadratic problems the block value function on the grid equals the true optimal cost of moving between each pair of grid points up to discretisation, in NumPy/JAX and TensorFlow.",
 ["inputs", "configurations"], "all horizons, step counts, control parameters, endpoints and both methods",
 "Tests use one horizon and step count, where a time grid with the wrong number of points or times does not show.",
 [pc+"hjb_grid_1d_np.py", pc+"hjb_grid_1d_tf.py"], [("cost and constraint", pc+"hjb_grid_1d_np.py:fun_and_con_1, fun_and_con_2; hjb_grid_1d_tf.py:fun_and_con_1, fun_and_con_2"), ("value on grid", pc+"hjb_grid_1d_np.py:HJB_Grid_1d.directShootingValueFunction, V_eval_1, V_eval_2; hjb_grid_1d_tf.py:direct_shooting_block_V, V_eval_1, V_eval_2")],
 ["returned cost, constraint and value matrix"])

prop("C24", "Iterated nonlinear LQT solves the linearised problem at every iteration",
 "One iteration of the nonlinear tracker returns the optimal trajectory of the affine-quadratic problem obtained by linearising the model at the given nominal trajectory, identically for the sequential and both parallel methods in NumPy and TensorFlow and for every horizon; on a linear model one iteration from any nominal trajectory gives the optimum. The linearisation reproduces the nonlinear model's value and derivatives at each nominal point, simulation applies the nonlinear model, and the tensor models equal the NumPy models and their true derivatives.",
 ["inputs", "configurations", "schedules"], "all nominal trajectories, horizons, models and initial states, all three methods",
 "Tests run several iterations on one vehicle model and compare the converged result.",
 [pc+"nlqt_np.py", pc+"nlqt_tf.py", pc+"nonlinear_model_np.py", pc+"nonlinear_model_tf.py", pc+"nonlinear_speedtest.py"], [("iteration and linearisation", pc+"nlqt_np.py:NLQT; nlqt_tf.py"), ("model and Jacobians", pc+"nonlinear_model_np.py; nonlinear_model_tf.py")],
 ["returned trajectories and linearised matrices"])

prop("C25", "SQP solvers find constrained stationary points",
 "For equality-constrained problems the sequential quadratic programming routines return a point that satisfies the constraints and the stationarity conditions when iterated enough; on a quadratic objective with linear constraints one exact step reaches the minimiser from any start, each iteration is the exact Newton step on the optimality system, and the linear KKT solver returns the exact primal and dual solution. The quasi-Newton updates are symmetric, keep definiteness and satisfy the (damped) secant equation. NumPy/JAX and TensorFlow versions, with and without batching and parameters, agree.",
 ["inputs", "configurations"], "all strictly convex quadratic problems with full-rank linear constraints, mildly nonlinear constraints, start points, batch shapes, iteration counts",
 "Tests use a few fixed functions and start points.",
 [pc+"sqp_np.py", pc+"sqp_tf.py"], [("KKT solve", pc+"sqp_np.py:lqe_solve; sqp_tf.py:lqe_solve"), ("Newton/BFGS iterations", pc+"sqp_np.py:local_eq, local_eq_fast, bfgs_*; sqp_tf.py:local_eq, local_eq_fast, bfgs_*")],
 ["returned points, multipliers, criteria"])

prop("C26", "Problem models are well formed and equal across implementations",
 "The bundled models are well formed for every size and parameter: hidden Markov models have normalised rows and generate data of the requested length inside the alphabet, the game model's transitions stay inside the grid and its costs follow the scene, the mass and tracking models are exact discretisations over exactly the requested number of steps, and generated data are reproducible from the seed. The NumPy and TensorFlow versions of the linear and one-dimensional nonlinear models define the same functions, grids and conditional value functions, including for negative states.",
 ["inputs", "configurations"], "all sizes, seeds, step lengths, horizons, grids and states",
 "Tests compare at one point on positive grids and check one size per model.",
 [pc+"ge_model_np.py", pc+"finite_model_np.py", pc+"mass_model_np.py", pc+"linear_model_np.py", pc+"linear_model_tf.py", pc+"cnonlin_models_np.py", pc+"cnonlin_models_tf.py"], [("model builders", pc+"ge_model_np.py:GEModel; finite_model_np.py:FiniteModel; mass_model_np.py:MassModel; linear_model_np.py:LinearModel; linear_model_tf.py; cnonlin_models_np.py; cnonlin_models_tf.py")],
 ["model tables, functions and generated data"])

prop("C27", "Text model: encoding, transition statistics and emissions are faithful",
 "The text model maps the characters of its alphabet to indices and back losslessly, builds first- and higher-order priors and transition tables whose rows are normalised smoothed relative frequencies of the character runs of the training text (higher-order transitions only lead to runs shifted by one character), and emission tables that are normalised and put the error probability evenly on all characters. Noisy text has the length of the original, stays inside the alphabet and equals the original at zero error probability. Decoding error-free observations with the resulting model returns the original text.",
 ["inputs"], "all training texts, observed texts, orders and error probabilities",
 "Tests check one book excerpt.",
 [pc+"text_model.py"], [("model construction", pc+"text_model.py")],
 ["model tables and generated data"])

prop("C28", "Solvers never modify their inputs and do not depend on call history",
 "Calling any solver method on a problem object, in any order and any number of times, leaves the problem data and every argument unchanged and returns the same values as on a freshly built object, also when several objects are used in turn or problem arrays are shared. Results of earlier calls are not changed by later calls. (The iterated tracker relinearises its own working problem at every iteration by design; its results depend on the arguments only.)",
 ["histories"], "all sequences of method calls on one problem object, for every solver class",
 "Tests build a fresh object for every scenario and call each method once, so aliasing between results, arguments and stored data never shows.",
 [pc+"fsc_np.py", pc+"lqt_np.py", pc+"viterbi_np.py", pc+"condensing_np.py", pc+"clqt_np.py", pc+"parareal_clqt_np.py", pc+"nlqt_np.py"], [("methods are pure functions of the object", pc+"fsc_np.py; lqt_np.py; viterbi_np.py; clqt_np.py; parareal_clqt_np.py; nlqt_np.py"), ("condenser state replaced per call", pc+"condensing_np.py")],
 ["return values and object attributes before and after"])

prop("C29", "Results depend on the values of the data, not on how they are stored",
 "Giving a solver the same problem in another representation returns the same results: integer-valued data as integer arrays instead of floating-point ones (all of it, any single item, or some steps only), arrays in Fortran order, as reversed or strided views of other arrays, or marked read-only, in every solver class, model conversion and combination function. For finite-state problems and hidden Markov models this includes tables and observations in narrow integer or Boolean types, also when costs add up beyond the range of their type or there are more states than the type can count.",
 ["inputs"], "all storage forms of every data item and argument, for every method of every solver class",
 "Tests build all data as contiguous double-precision arrays in one way.",
 [pc+"fsc_np.py", pc+"lqt_np.py", pc+"viterbi_np.py", pc+"condensing_np.py", pc+"clqt_np.py", pc+"parareal_clqt_np.py", pc+"nlqt_np.py", pc+"disc.py", pc+"hjb_grid_1d_np.py", pc+"sqp_np.py"], [("result arrays created with a type of their own", pc+"fsc_np.py; viterbi_np.py; disc.py; hjb_grid_1d_np.py"), ("conversion to tensors", pc+"fsc_tf.py; lqt_tf.py; viterbi_tf.py")],
 ["return values of all methods"])

prop("C30", "A speed test measures what it says it measures",
 "Every speed-test runner of the package (finite-state, discrete-time linear with and without condensing, nonlinear, continuous-time, parareal, HJB and Viterbi) executes the method it is named after, with exactly the passes of that method (sequential or parallel), on the requested device: an unmeasured warm-up run and then n_iter measured runs, and reports the mean wall-clock time of the measured runs only, without problem generation, warm-up or reference solution. Runners over several problems report one row per problem, in order, with its horizon and its dimension. Runners that report an error report the largest absolute deviation of the result from the reference solution over the whole result (for the HJB runners also over the middle third of the grid), and for the real methods it is that of the methods.",
 ["inputs", "histories"], "all runners, numbers of iterations, sequences of problems, durations of the individual calls and positions of a deviation in the result",
 "Tests never look at the reported times, and with correct methods the reported error is zero wherever it is computed.",
 [pc+"finite_speedtest.py", pc+"linear_speedtest.py", pc+"nonlinear_speedtest.py", pc+"contlin_speedtest.py", pc+"hjb_grid_1d_speedtest.py", pc+"viterbi_tf.py"], [("runners", pc+"*_speedtest.py; viterbi_tf.py:viterbi_*_speedtest")],
 ["reported rows, times and errors", "history of pass calls under a virtual clock"])

prop("C31", "Experiment scripts run what they are asked for and save it under its own name",
 "The scripts of experiments-bellman, experiments-hjb and experiments-viterbi accept, as key=value words in any order, exactly the options their usage line announces (the last value of an option counts) and refuse every other command line with the usage and a failing exit status, without running or writing anything; an unknown model is refused as well where the model selects a problem. An accepted command line runs exactly the benchmarks whose bits are set in the mask, each once, on fresh problems with the requested model, range, number, sizes and steps, on the requested device, ten repetitions each, and with single set restricts TensorFlow to one thread beforehand. Every selected benchmark leaves one file in res/, named after the model or experiment, the method, the sizes that distinguish it, the device and the core mode, with one row per problem holding size, dimension, time and errors of that problem's run; scripts that save configurations save next to every result file, under the same name with _config, the configuration the result was made with. Results of other configurations in the directory stay unchanged and stale results of the same one are replaced. Every command in the shipped .sh recipes is a valid command line of its script. The text experiments decode the noisy version of the requested part of the test text with the model trained on the training text and report the share of wrong letters.",
 ["inputs", "histories"], "all masks, options, combinations and orders of options, invalid command lines, sequences of invocations in one directory, and the shipped recipes",
 "No test runs the scripts, and a benchmark saved under the wrong name or configuration looks like a good result.",
 ["experiments-bellman/run_linear_experiments.py", "experiments-bellman/run_finite_experiments.py", "experiments-bellman/run_nonlinear_experiments.py", "experiments-hjb/run_contlin_experiments.py", "experiments-hjb/run_nonlin_experiments.py", "experiments-viterbi/run_viterbi_experiments.py", "experiments-viterbi/run_text_experiments.py", "experiments-viterbi/run_text_experiments_2.py"], [("scripts", "experiments-*/run_*_experiments*.py:main,write_to_file"), ("recipes", "experiments-*/*.sh")],
 ["exit status and usage", "calls of runners and generators", "files in res/"])

prop("C32", "TensorFlow routines compute in the precision of their data",
 "Every TensorFlow routine of the package takes all its floating-point data in single or in double precision and works in that precision: it accepts the data, its floating-point results have the type of the data, and a single-precision result equals the double-precision one up to single-precision rounding. This covers finite-state control, Viterbi decoding, discrete and continuous linear-quadratic tracking, partial condensing, parareal, iterated nonlinear tracking, the grid HJB solver with its value combinations, direct shooting, sequential quadratic programming, the Runge-Kutta step, and the conversions and bundled models that take the data type as an argument. Results do not depend on whether TensorFlow compiles the functions or runs them eagerly.",
 ["inputs", "schedules"], "all sizes, both precisions, compiled and eager execution",
 "Existing tests run double precision and compiled graphs; a constant of fixed type makes a routine fail or lose its precision for every other caller.",
 ["parallel_control/fsc_tf.py", "parallel_control/viterbi_tf.py", "parallel_control/lqt_tf.py", "parallel_control/condensing_tf.py", "parallel_control/clqt_tf.py", "parallel_control/parareal_clqt_tf.py", "parallel_control/nlqt_tf.py", "parallel_control/hjb_grid_1d_tf.py", "parallel_control/sqp_tf.py", "parallel_control/cnonlin_models_tf.py"], [("direct shooting", "hjb_grid_1d_tf.py:V_eval_1,V_eval_2"), ("conversions", "lqt_tf.py:lqt_np_to_tf, fsc_tf.py:fsc_np_to_tf, viterbi_tf.py:make_viterbi_fsc"), ("models", "cnonlin_models_tf.py, linear_model_tf.py")],
 ["result values and data types in each precision and mode"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
