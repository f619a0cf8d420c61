#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md (between the markers) from the check modules and the texts below."""
import ast, json, os, re, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# id: (what is explored and compared, why that reaches what the tests cannot)
T = {
"C01": ("State space: the combination tree the scan builds is a function of the list length and direction only. Every length is run over the *free semigroup* (elements are tuples, the operator concatenates and refuses operands that are not adjacent runs), so one run per length decides the property for every associative operator. Small concrete semigroups (all self-maps of a 2- and 3-element set, min-plus scalars, left/right zero) with every sequence, and elements that are falsy, arrays or tuples, cover element handling. Oracle: the left fold.",
        "Each length is another tree (padding to powers of two); tests use one or two."),
"C02": ("Every tiny decision problem is a case. Oracle: dynamic programming in exact arithmetic (`mc/refs.py`), itself compared with enumeration of all control sequences (`brute`). Compared: cost-to-go at every time and state, optimality of the returned control at every state (any minimiser on ties), batch solution and its cost, the cost function.",
        "Ties, unreachable states, integer tables and one-state/one-control problems are enumerated, not sampled."),
"C03": ("Every initial state and every policy of tiny problems, every horizon, pushed through each forward method. Oracle: the trajectory generated by the policy; for the min-plus passes the set of states on optimal trajectories at each time (computed from cost-to-go plus cost-to-come).",
        "Under ties the tests' equality oracle does not apply; the set-valued oracle does."),
"C04": ("The TensorFlow passes on every horizon x parallelism limit x float type x table family and on every tiny problem, against the same oracle as C02/C03, plus the pipelines of the benchmark module.",
        "Horizon and limit choose the scan tree and its padding; tests use the default limit and long horizons."),
"C05": ("Hidden Markov models over a row alphabet with every observation sequence; every length for generic, uniform, sparse, extreme and near-tie models. Oracle: log-domain dynamic programming with the set of states on most probable sequences; compared with enumeration of all state sequences (`brute`). Compared: optimality of the returned sequence (exact sequence where unique), all six variants.",
        "Zero probabilities, ties, length one, and underflow are enumerated."),
"C06": ("As C05 for the tensor implementations, every length, both float types.", "As C05; in addition every length is another scan tree."),
"C07": ("Every combination of the optional cost terms x horizon x dimensions, with data at generic witnesses; tiny integer alphabets where weights vanish; every subset of time-varying fields; several units of cost, state and input (scale equivariance). Oracle: Riccati dynamic programming from the definition (one big completion of squares per step), itself compared with the solution of the full KKT system. Compared: value function S, v at every time and gains and offsets of three backward passes.",
        "A dropped or transposed term only shows when two options meet; tests use a few fixed models."),
"C08": ("The same problems pushed through every forward method, batch solution, simulation and cost. Oracle: the KKT solution and direct evaluation of the cost.", "As C07."),
"C09": ("Regulators: every horizon, iteration and doubling count; stable, unstable, rank-deficient and slowly convergent problems. Oracle: the Riccati recursion; 3000 steps of it for the stationary solvers; residual of the algebraic Riccati equation.", "Tests run one model; the count of doublings and the terminal weight interact."),
"C10": ("As C07/C08 for the tensor implementations, with parallelism limits, both float types and the benchmark pipelines.", "Limits, horizons and optional terms choose different graphs and scan trees."),
"C11": ("Every combination of cross term, input offset and other features converted to canonical form, solved there and converted back. Oracle: the direct solution of the original problem.", "Conversion errors cancel unless cross term, input offset and time variation are combined."),
"C12": ("The space of *calling conventions*: each of the arguments constant, per-step or omitted; then every single inconsistency on top. Oracle: a table-driven expansion written from the documentation; a malformed call must raise.", "93312 conventions; tests use three."),
"C13": ("Every (horizon, block length) pair with every feature; histories of condense calls on one condenser. Oracle: the uncondensed KKT solution; cost of the condensed trajectory.", "The last, shorter block, outputs narrower than the state and reuse of the condenser are only met by enumeration."),
"C14": ("As C13 for tensors, with sequential and parallel solution of the condensed problem.", "As C13."),
"C15": ("Every split into blocks and steps x direction x calling form x feature set. Oracle: the Riccati differential equation integrated by an adaptive high-order solver through the Hamiltonian (linear) form (`mc/ct.py`); differences must stay below the fourth-order bound, and sequential and parallel results must agree. Units of cost, state and time: equivariance.", "A wrong evaluation time of a time-varying parameter is a first-order error that loose test tolerances or constant models hide."),
"C16": ("As C15 for the forward methods with optimal and arbitrary control laws and both hold modes.", "As C15."),
"C17": ("As C15/C16 for tensors, batches, limits and the composed passes; each result is compared with the differential equation and with the NumPy implementation.", "Graph mode and batches of start times; tests use one split."),
"C18": ("Every number of blocks and every iteration count; after k iterations the first k block boundaries are exact (finite termination of parareal). Oracle: the sequential pass on the fine grid.", "Tests only look at the converged result, where an error in an iterate is repaired by the next."),
"C19": ("As C18 for tensors.", "As C18."),
"C20": ("Runge-Kutta: monomials in time and linear systems for which one step is known exactly, every calling form; the order on nonlinear problems from halved steps. Discretisation: small-integer systems, long steps and integrator chains. Oracle: extended-precision exponential, quadrature, the Lyapunov identity, closed forms.", "Stage times only matter for non-autonomous right-hand sides; long steps and integer types are not tested."),
"C21": ("Every pair of rows over small alphabets for the combination; every small block cost for the passes; finite differences for every grid. Oracle: definition of min-plus product and of the parabola; brute-force shortest paths; re-implementation of the documented update. Where the interpolated combination is not associative the parallel pass must equal one of all bracketings.", "Ties, flat costs, grid edges, block counts and cost units are enumerated."),
"C22": ("As C21 for tensors and batches, plus the wrappers of the speed test around a stand-in for the shooting solver.", "As C21; parallelism limits."),
"C23": ("Cost and constraint functions for every control vector over {-1,0,1}; values on grids for a family of linear-quadratic problems. Oracle: Runge-Kutta and trapezoid evaluated directly; the exact minimum of the discretised problem (KKT), the true minimum within the order of the discretisation; SLSQP for two nonlinear problems.", "The tests compare one grid with a loose tolerance."),
"C24": ("Models x horizons x nominal trajectories x features x methods. Oracle: linearisation with exact derivatives, then the KKT solution of the linearised problem about that nominal; the true cost gradient at fixed points.", "Tests run one vehicle model to convergence, where an error in an iteration is repaired by the next."),
"C25": ("KKT systems over {-1,0,1}; Newton-KKT iterates compared one by one with exact steps, including problems where the iteration converges only linearly; BFGS updates for every pair of small integer vectors. Oracle: linear algebra on exact derivatives; secant/symmetry/definiteness conditions.", "Converged results hide errors of single iterations; tests look at converged results."),
"C26": ("Random generators are explored as transition systems: a scheduler (`mc/draws.py`) answers every random draw with every outcome, so the exact distribution of the generated data is obtained and compared with the model. Deterministic models: full parameter grids against their defining equations, and NumPy against TensorFlow.", "A draw that tests do not hit (boundary reflections, rare symbols) is always visited."),
"C27": ("Every training text up to a length over small alphabets, every random draw of the noisy channel. Oracle: counting.", "Orders of three and more and unseen characters are not tested."),
"C28": ("Explicit-state exploration: states are the object and all data reachable from it, transitions are method calls; every call sequence to the depth, on one object and on pairs of objects. Oracle: nothing reachable changes; each result equals that of the same call made as the first one in a new process; results returned earlier stay as they were.", "Histories are the quantifier; tests build a fresh object every time."),
"C29": ("Every storage form of every data item and argument (number type, memory layout, views, write protection; alone, together, on some steps only) through every method of every solver class. Oracle: the same call on contiguous double-precision data (whose correctness the other properties decide); for sums beyond the range of a type, the same tables as floats.", "Tests build their data in one way, so types inferred from the data never differ."),
"C30": ("Every runner under a virtual clock: stand-ins for the passes, the problem generator and the data simulation write a history and let time pass, each event by an amount of its own, so that the reported time tells which events were measured. All histories for n_iter and problem sequences up to the bound; a deviation put at every position of the result. Oracle: the protocol (warm-up, n_iter runs of exactly the named passes, mean). The Viterbi runners also on their real passes (those of the other modules run in C04, C10, C14, C17, C19, C22, C24).", "Tests ignore the reported times, and a reported error of zero looks the same wherever it is computed."),
"C31": ("The scripts run as programs in a scratch directory, with stand-ins for runners, generators and decoders which record their arguments (bound to the real signatures) and return numbers of their own; the calls and the complete contents of the result directory are compared with a model of the option table. All masks, options, pairs of options, refused command lines and histories of two invocations in one directory; the shell recipes are run with a recording interpreter and each command goes through the same comparison; four scripts also run for real on their smallest sizes.", "No test runs a script; a wrong bit, name or configuration produces plausible files."),
"C32": ("Every TensorFlow routine is executed in each combination of single/double precision and compiled/eager execution over a grid of sizes; values are compared with the compiled double-precision run (itself decided by the other properties) and the type of every result is checked. Direct shooting runs eagerly only, because its graph takes minutes to build.", "The tests use one precision and one mode."),
}
def const(path, name):
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name:
            return ast.literal_eval(n.value)
def wrap(s, ind="  "):
    return textwrap.fill(s, 118, subsequent_indent=ind, break_long_words=False, break_on_hyphens=False)
props = {p["id"]: p for p in map(json.loads, open(os.path.join(V, "properties.jsonl")))}
out = ["## Properties: how each one is decided", "",
       "Generated by tools/gen_design.py from the check modules; the bounds are those of the quick tier, with the thorough tier in",
       "parentheses. Every property is decided by exhaustive exploration of the real code; none is not applicable.", ""]
for k in sorted(T):
    f = os.path.join(V, "mc", k.lower() + ".py")
    ev = os.path.join(V, "tools", "cost.json")
    cost = json.load(open(ev)).get(k, "") if os.path.exists(ev) else ""
    out += [f"### {k} {props[k]['title']}", "", wrap("* *Explored and compared.* " + T[k][0]), wrap("* *Bounds.* " + const(f, "BOUNDS") + "."),
            wrap("* *Assumed.* " + "; ".join(const(f, "ASSUMPTIONS")) + "."), wrap("* *Beyond the tests.* " + T[k][1])]
    if cost:
        out.append(wrap("* *Cost.* " + cost))
    out.append("")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- properties -->\n", "<!-- end of properties -->\n"
s = s[:s.index(a) + len(a)] + "\n".join(out) + "\n" + s[s.index(b):]
open(p, "w").write(s)
