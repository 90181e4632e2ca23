#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vlib"))
P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, state=state, observe=observe))

prop("C01", "Directed rounding of the raw floating-point numbers",
 "An arithmetic operation, elementary function, conversion or decimal printing of a double- or multiple-precision number with an explicit rounding direction never returns a value on the wrong side of the exact real result; add, sub, mul, div, fma, sqr, rec, hlf and conversions are correctly rounded, elementary functions are within a few units in the last place. Comparisons of raw numbers with each other and with exact numbers are exact. Such a call always terminates and leaves the processor's rounding mode as it found it.",
 ["inputs","histories"], "all representable arguments of both formats, every precision, every rounding direction, every processor rounding mode in force at the call",
 "the tests evaluate a few dozen fixed arguments; rounding errors show up only at specific bit patterns, exponents, signs, or with a particular rounding mode in force",
 ["source/numeric/floatdp.cpp","source/numeric/floatmp.cpp","source/numeric/double.cpp","source/numeric/rounding.hpp","source/numeric/floatdp.hpp","source/numeric/floatmp.hpp","source/numeric/dyadic.cpp","source/numeric/rational.cpp"],
 [("explicit rounding-mode switching around each operation","source/numeric/floatdp.hpp"),("MPFR rounding arguments","source/numeric/floatmp.cpp")],
 "TLA+ specification of a p-bit rounded machine with a mode register; TLC validates traces of the real code with exact rational arithmetic",
 "Every recorded call is decided exactly (rational arithmetic, 160-bit brackets for transcendental functions); arguments are generated from a seed, so bounded by the number of calls.",
 [{"name":"mode","meaning":"processor rounding mode","where":"source/numeric/rounding.hpp"}])
prop("C02", "Interval (bounds) arithmetic contains every exact result",
 "For validated numbers given by a lower and an upper bound, the result of every arithmetic operation and elementary function, including mixed operations with exact numbers, contains the exact real result for every choice of reals from the arguments, with lower bound at most upper bound and no NaN on the domain of the function. It is also no wider than the exact image by more than a few units in the last place, and refinement and intersection operations never lose a common point.",
 ["inputs"], "all pairs of intervals in double and multiple precision, in particular intervals straddling zero, touching extrema, degenerate or unbounded",
 "containment is a statement about all reals in all intervals; the tests evaluate a fixed list of intervals",
 ["source/numeric/float_bounds.hpp","source/numeric/float_bounds.inl.hpp","source/numeric/float_bounds.tpl.hpp","source/numeric/float_bounds.cpp"],
 [("sign case distinction of multiplication and division","source/numeric/float_bounds.tpl.hpp"),("range reduction for sin and cos","source/numeric/float_bounds.tpl.hpp")],
 "TLA+ model of interval arithmetic over a toy float format checked exhaustively by TLC; traces of the real code validated by TLC against exact images",
 "TLC explores every pair of toy-format intervals; the code's own results are judged exactly on generated intervals of many shapes.")
prop("C03", "Ball, one-sided, error and approximate numbers keep their guarantee",
 "Operations on ball (value and error) numbers, lower bounds, upper bounds, positive bounds and error bounds return information that is true of the exact result for every choice of reals compatible with the arguments, and conversions between the kinds of number never strengthen the information. Approximations agree with the exact result to within a few units in the last place.",
 ["inputs"], "all arguments of each kind in double, multiple and mixed precision",
 "rounding in the wrong direction or a dropped error term changes results by an ulp, which example-based tests do not notice",
 ["source/numeric/float_ball.hpp","source/numeric/float_ball.tpl.hpp","source/numeric/float_lower_bound.hpp","source/numeric/float_upper_bound.hpp","source/numeric/float_error.hpp","source/numeric/float_approximation.hpp","source/numeric/positive.hpp"],
 [("directed rounding of the error terms","source/numeric/float_ball.hpp")],
 "TLA+ specification of number kinds as sets of reals; TLC validates traces of the real code",
 "Exact decision per recorded call; bounded by the number of generated calls.")
prop("C04", "Exact numbers compute exactly",
 "Integer, dyadic, decimal and rational arithmetic, integer division and rounding functions, comparisons, construction from literals and text, conversions to wider classes, and signed infinities and NaN follow exact mathematical arithmetic. A number printed and read back has the same value, and a conversion that cannot be exact is refused.",
 ["inputs"], "all exact numbers including negative, huge and tiny ones, zero and the infinities",
 "the tests fix small numbers; sign, carry, normalisation and infinity cases are not enumerated",
 ["source/numeric/integer.cpp","source/numeric/dyadic.cpp","source/numeric/decimal.cpp","source/numeric/rational.cpp","source/numeric/int.cpp","source/numeric/twoexp.hpp","source/numeric/extended.hpp"],
 [("GMP integers with explicit infinity encoding","source/numeric/rational.cpp")],
 "TLA+ specification of exact arithmetic on the extended rationals; TLC validates traces of the real code",
 "Exact decision per recorded call; bounded by the number of generated calls.")
prop("C05", "Effective reals deliver the requested accuracy",
 "Evaluating a real number built from any combination of constants, arithmetic, elementary functions, limits and case selection, with any accuracy or precision, gives bounds that contain the exact value, with error within the requested accuracy, and the results of different requests are consistent. Comparisons with bounded effort never decide wrongly, and a question that is decidable is decided with sufficient effort.",
 ["inputs","programs"], "all real expressions and all accuracy, precision and effort requests",
 "tests evaluate single operations of constants at one precision",
 ["source/numeric/real.cpp","source/numeric/real.hpp","source/numeric/sequence.hpp","source/numeric/accuracy.hpp","source/numeric/lower_real.hpp","source/numeric/upper_real.hpp"],
 [("precision iteration until the error is small","source/numeric/real.cpp")],
 "TLA+ specification of effective reals as nested enclosures; TLC validates traces of the real code",
 "Exact brackets for randomly built expressions; bounded depth and number.")
prop("C06", "Three-valued logic and validated comparisons never lie",
 "A comparison of any two numbers of the library that answers definitely true (false) is true (false) for all reals compatible with the arguments, and it does decide when the available information separates the arguments. Conjunction, disjunction, exclusive or, negation, conversions and the definitely, possibly and decide queries of logical values form Kleene logic at every information level, and more effort never reverses a decision.",
 ["inputs","configurations"], "all truth values, efforts, logical types, comparison operators, and all pairs of numbers of the classes",
 "tests sample a few entries of the tables and a few number pairs",
 ["source/numeric/logical.cpp","source/numeric/logical.hpp","source/numeric/float_bounds.hpp","source/numeric/float_ball.hpp","source/numeric/number.hpp","source/utility/tribool.hpp"],
 [("five-valued logic tables","source/numeric/logical.cpp")],
 "TLA+ model of Kleene logic with effort, exhaustively checked; code tables compared completely and comparison traces validated",
 "Logic tables are covered completely; comparisons on generated pairs.")
prop("C07", "Multi-indices, expansions and polynomials form the polynomial ring",
 "Multi-indices enumerate exactly the monomials in graded or lexicographic order; expansions keep their terms sorted and unique under any sequence of insertions, appends, updates and cleanups, so that a lookup returns the last written coefficient. Polynomial arithmetic, powers, differentiation, composition, embedding, truncation and evaluation agree with exact polynomial algebra.",
 ["inputs","histories"], "all polynomials and all sequences of editing operations",
 "tests use a handful of fixed polynomials of low degree",
 ["source/algebra/multi_index.cpp","source/algebra/multi_index.inl.hpp","source/algebra/expansion.tpl.hpp","source/algebra/expansion.inl.hpp","source/function/polynomial.tpl.hpp","source/function/polynomial.hpp","source/algebra/evaluate.tpl.hpp","source/function/chebyshev_polynomial.tpl.hpp"],
 [("sorted array of index-coefficient pairs","source/algebra/expansion.tpl.hpp")],
 "TLA+ state machine of an expansion (finite map with order), model-checked, and its behaviours replayed in the code; algebra traces validated against exact polynomial algebra in TLA+",
 "Exact comparison; sizes bounded.")
prop("C08", "Automatic differentiation and power series give the true derivatives",
 "Arithmetic, elementary functions, composition and flow of differentials of any degree and number of variables, univariate and multivariate, dense, sparse and fixed, and the derived power series, return the Taylor coefficients of the exact function; validated coefficient types contain them.",
 ["inputs","programs"], "all expansion points, seeds, degrees and operation combinations",
 "tests cover fixed points with degree two or three and compare with tolerance",
 ["source/algebra/differential.tpl.hpp","source/algebra/differential.hpp","source/algebra/univariate_differential.tpl.hpp","source/algebra/fixed_differential.hpp","source/algebra/fixed_univariate_differential.hpp","source/algebra/series.hpp","source/algebra/graded.hpp","source/function/taylor_series.hpp"],
 [("recurrences of the elementary functions","source/algebra/series.hpp")],
 "TLA+ specification of truncated power-series algebra with exact coefficients; TLC validates traces of the real code",
 "Exact decision for rational operations; bracketed for elementary functions; degrees bounded.")
prop("C09", "Validated linear algebra encloses the exact solution",
 "Vector and matrix arithmetic, norms, projections, views and slices compute the mathematical result (exactly for exact scalars, as containment for interval scalars). A validated inverse, solution of a linear system, determinant-free decomposition or inverse enclosure contains the exact result for every matrix and right-hand side in the argument, or is refused as singular.",
 ["inputs"], "all matrices and vectors, including singular, ill-conditioned and rectangular ones",
 "tests use one or two well-conditioned matrices and approximate comparison",
 ["source/algebra/matrix.hpp","source/algebra/matrix.tpl.hpp","source/algebra/vector.hpp","source/algebra/covector.hpp","source/algebra/diagonal_matrix.hpp","source/algebra/symmetric_matrix.hpp"],
 [("interval Gauss-Seidel and LU solution","source/algebra/matrix.tpl.hpp")],
 "TLA+ specification of exact linear algebra over the rationals; TLC validates traces of the real code",
 "Exact decision with rational matrices chosen from the interval matrices; sizes bounded.")
prop("C10", "Taylor models enclose the exact function",
 "The result of every operation on Taylor models (arithmetic, elementary functions, sweeping, composition, evaluation, restriction, splitting, antiderivative, rescaling, refinement, norm and range) encloses the exact result of the same operation for every function enclosed by the arguments, at every point of the domain. The number of terms and degree obey the sweeper, and discarded terms go into the error.",
 ["inputs","programs"], "all Taylor models, sweepers, operation sequences, functions within the error bounds and points of the unit box",
 "the tests compare with a tolerance on a few polynomials; a missing rounding error or dropped term is smaller than the tolerance",
 ["source/function/taylor_model.tpl.hpp","source/function/taylor_model.hpp","source/algebra/sweeper.hpp","source/function/affine_model.tpl.hpp"],
 [("accumulation of rounding errors in the error term","source/function/taylor_model.tpl.hpp")],
 "TLA+ specification of a Taylor model as a set of functions; TLC validates traces of the real code at exact rational points and coefficients",
 "Containment decided exactly at rational points and, for polynomial operations, for the whole domain through the exact remainder polynomial.")
prop("C11", "Function patches on boxes enclose the function on their whole domain",
 "Taylor function patches on arbitrary box domains keep enclosing the represented function through construction, arithmetic, elementary functions, composition, restriction, extension, partial evaluation, join, combine, embedding, derivative and antiderivative, and their evaluation and range contain the exact values. Operations with incompatible domains are refused, not silently computed.",
 ["inputs","programs"], "all box domains (also degenerate and far from the origin), functions and operation sequences",
 "tests use the unit box or a few fixed boxes",
 ["source/function/scaled_function_patch.tpl.hpp","source/function/scaled_function_patch.hpp","source/function/taylor_function.cpp","source/function/function_patch.hpp","source/function/scaling.hpp"],
 [("scaling of the domain to the unit box","source/function/scaling.hpp")],
 "TLA+ specification of function enclosures over boxes; TLC validates traces of the real code",
 "Containment decided exactly at rational points.")
prop("C12", "Symbolic expressions keep their meaning",
 "Simplification, substitution, common-subexpression elimination, differentiation, conversion of expressions to formulae, functions and procedures and structural queries (constant, affine, polynomial, additive in given variables, arguments) of any expression preserve or describe the denoted real function. Equality of expressions and variable names, assignments and valuations are consistent with it.",
 ["programs","inputs"], "all expression trees over the supported operators and all valuations",
 "tests use a few short expressions",
 ["source/symbolic/expression.tpl.hpp","source/symbolic/expression.cpp","source/symbolic/templates.tpl.hpp","source/function/formula.tpl.hpp","source/function/formula.cpp","source/function/procedure.tpl.hpp","source/symbolic/space.cpp","source/symbolic/valuation.hpp"],
 [("rewriting rules","source/symbolic/expression.tpl.hpp")],
 "TLA+ denotational semantics of expression trees; TLC-enumerated and random trees are run through the code and TLC validates the rewritten trees",
 "Small trees exhaustively, larger ones at random; meaning compared exactly at rational points.")
prop("C13", "Functions evaluate, compose and differentiate consistently",
 "Evaluating a function built by arithmetic, composition, joining, projection, embedding, derivative or from a symbolic expression, polynomial or affine form gives on every number type the value (or an enclosure of it) of the mathematically defined function; derivatives, gradients and Jacobians likewise. Intervals arguments give enclosures of the image.",
 ["programs","inputs"], "all combinations of function constructors, arguments and number classes",
 "tests evaluate a few functions at one point",
 ["source/function/function.cpp","source/function/function.hpp","source/function/symbolic_function.hpp","source/function/affine.hpp","source/function/affine_model.tpl.hpp","source/function/function_mixin.tpl.hpp"],
 [("generic function interface with per-type evaluation","source/function/function_mixin.tpl.hpp")],
 "TLA+ denotational semantics of functions; TLC validates traces of the real code",
 "Exact at rational points; random function trees.")
prop("C14", "Intervals and boxes answer set questions correctly",
 "Membership, subset, disjointness, overlap, separation, covering, inclusion, intersection, hull, product, splitting, widening and midpoint and radius of intervals and boxes agree with the sets of points they denote; a definite answer is always right, rounded results err on the documented side, and empty and degenerate sets are handled as sets.",
 ["inputs"], "all intervals and boxes with exact, upper, lower and approximate endpoints, including empty, degenerate and unbounded ones",
 "tests check a few configurations in two dimensions",
 ["source/geometry/interval.hpp","source/geometry/interval.inl.hpp","source/geometry/interval.cpp","source/geometry/box.hpp","source/geometry/box.tpl.hpp","source/geometry/box.cpp","source/geometry/union_of_intervals.hpp","source/geometry/measurable_set.hpp"],
 [("endpoint comparisons with strict and weak inequality chosen per predicate","source/geometry/interval.inl.hpp")],
 "TLA+ set semantics of intervals and boxes; TLC enumerates all small configurations (closed sets of integer endpoints) and the code's answers are validated",
 "All relative positions of small integer intervals are covered; random boxes beyond.")
prop("C15", "Grid pavings represent sets of cells exactly",
 "A grid paving under any sequence of adjoining cells, boxes, inner, outer and lower approximations, union, intersection, difference, restriction, refinement (mince), recombination and copying denotes exactly the set of cells of that history; outer approximations cover the set, inner ones are contained in it, and subset, overlap, emptiness, measure and iteration agree with the denoted set.",
 ["histories","inputs"], "all sequences of operations, grids, depths, extents and dimensions",
 "no test of pavings runs in the baseline; histories of tree operations with different extents and depths are not enumerable by examples",
 ["source/geometry/grid_paving.cpp","source/geometry/grid_paving.hpp","source/geometry/grid_cell.hpp","source/geometry/grid.cpp","source/geometry/binary_tree.cpp","source/utility/binary_word.hpp"],
 [("binary tree of marked cells with extent (height)","source/geometry/binary_tree.cpp")],
 "TLA+ state machine of pavings as finite sets of unit cells; TLC-generated behaviours are replayed in the code and the recorded histories validated",
 "Exhaustive behaviours to a depth on tiny grids, long random histories beyond.")
prop("C16", "Constrained image sets answer geometric questions correctly",
 "For sets defined as images of boxes under functions with constraints, definite answers to emptiness, inside, separated and contains are right, bounding boxes and outer approximations contain every point of the set, splitting covers the set, and affine and polyhedral over-approximations contain it.",
 ["inputs"], "all domains, functions, constraints and test boxes", "tests use a few sets and check only that the calls succeed or draw pictures",
 ["source/geometry/function_set.cpp","source/geometry/affine_set.cpp","source/geometry/paver.cpp","source/symbolic/expression_set.cpp","source/dynamics/enclosure.cpp"],
 [("constraint propagation on the parameter domain","source/geometry/function_set.cpp")],
 "TLA+ semantics of constrained image sets; TLC validates recorded answers against witness points computed exactly", "Witness points decide refutation of definite answers; no false alarms, sampling-bounded.")
prop("C17", "Constraint solving never discards a solution",
 "Reducing a box by constraints keeps every point of the box that satisfies the constraints, definite infeasibility is only reported when no point satisfies them, and a reported feasible point satisfies the constraints; this holds for hull, shaving, monotonicity and back-propagation through procedures.",
 ["inputs","programs"], "all boxes, constraint functions and bounds", "tests contain a few constraints of known solution",
 ["source/solvers/constraint_solver.cpp","source/function/procedure.tpl.hpp","source/function/procedure.hpp","source/solvers/nonlinear_programming.cpp"],
 [("backward interval propagation","source/function/procedure.tpl.hpp")],
 "TLA+ specification of contraction; TLC validates recorded reductions against exact witness points", "Witnesses are exact rational points; sampling-bounded.")
prop("C18", "Linear programming certificates are right",
 "A feasible point returned by the simplex solver satisfies the constraints, a certificate of infeasibility proves infeasibility, definite answers agree with exact rational arithmetic, and an optimum is optimal within the stated tolerance.",
 ["inputs"], "all linear programs of bounded size, including degenerate and infeasible ones", "tests contain a few programs",
 ["source/solvers/simplex_algorithm.cpp","source/solvers/linear_programming.cpp"], [("validated check of basis and certificate","source/solvers/simplex_algorithm.cpp")],
 "TLA+ specification of LP feasibility by exact vertex enumeration; TLC validates recorded answers", "Exact decision; sizes bounded.")
prop("C19", "Equation solvers find true, unique solutions",
 "A box returned as solution of nonlinear equations contains a zero, the implicit function returned satisfies the equation on its whole parameter domain, and a report of no solution is right.",
 ["inputs","programs"], "all functions and search boxes", "tests contain three or four equations",
 ["source/solvers/solver.cpp","source/solvers/solver.hpp"], [("interval Newton and Krawczyk contraction","source/solvers/solver.cpp")],
 "TLA+ specification of zeros of polynomial systems with known exact roots; TLC validates recorded answers", "Systems constructed from known roots, exact decision.")
prop("C20", "Flows of differential equations are enclosed",
 "The flow bounds and the time-step flow computed by the integrators contain the exact solution of the differential equation for every initial state, parameter and time of their domain, for every configuration and step size.",
 ["inputs","configurations"], "all vector fields, initial boxes, step sizes and integrator configurations", "tests compare a few flows approximately",
 ["source/solvers/integrator.cpp","source/solvers/bounder.cpp","source/solvers/runge_kutta_integrator.cpp"], [("Picard contraction of a bounding box","source/solvers/bounder.cpp")],
 "TLA+ specification of flows with closed-form solutions; TLC validates recorded flow enclosures at exact points", "Systems with known solutions; exact brackets.")
prop("C21", "Reachable sets of continuous systems contain every trajectory, whatever the schedule",
 "The evolution of a vector field or iterated map returns reach and final sets that contain every exact trajectory from the initial set up to the given time, for every order in which the working sets are processed, for every configuration of step, subdivision and reconditioning; the order does not change the result.",
 ["schedules","inputs","configurations"], "all systems, initial sets, times, evolver configurations and processing schedules", "tests run one schedule of a few systems",
 ["source/dynamics/vector_field_evolver.cpp","source/dynamics/iterated_map_evolver.cpp","source/dynamics/enclosure.cpp","source/dynamics/orbit.cpp"], [("work list of timed enclosures","source/dynamics/vector_field_evolver.cpp")],
 "TLA+ model of the work-list algorithm checked over all schedules; recorded evolutions under enumerated schedules validated against exact trajectories", "Schedules through a controlled work list; systems with known solutions.")
prop("C22", "Reachability and safety verification is sound",
 "Outer reachable sets computed on a grid contain every reachable point, lower reachable sets only cells close to reachable points, and a definite safety answer is right.",
 ["inputs","histories"], "all finite-state abstractions, systems, grids and bounds", "tests check a few systems",
 ["source/dynamics/reachability_analyser.tpl.hpp","source/dynamics/reachability_analyser.cpp"], [("fixed-point iteration on pavings","source/dynamics/reachability_analyser.tpl.hpp")],
 "TLA+ model of the fixed-point iteration; recorded analyses validated against exact trajectories", "Systems with known trajectories.")
prop("C23", "Composition of hybrid automata is synchronous composition",
 "The modes, events, event kinds, guards, invariants, resets, dynamics, targets and reachable locations of a composition of hybrid automata are those of the synchronous product of the components, and ill-formed compositions are reported.",
 ["programs","histories"], "all finite compositions of automata", "tests compose two or three fixed automata",
 ["source/hybrid/hybrid_automaton-composite.cpp","source/hybrid/hybrid_automaton.cpp","source/hybrid/discrete_location.cpp"], [("component-wise delegation by event and location","source/hybrid/hybrid_automaton-composite.cpp")],
 "TLA+ specification of synchronous composition; TLC enumerates automata, the code is asked every query on them and the answers are validated", "All automata of small size.")
prop("C24", "Hybrid evolution contains every hybrid trajectory",
 "The reachable and final sets computed by the hybrid evolver contain every exact trajectory of the automaton with its urgent, permissive and invariant events within the time and event bounds, whatever the crossing kinds encountered and configuration; no trajectory is continued beyond an invariant or urgent event.",
 ["inputs","programs","configurations"], "all automata with known trajectories, initial sets, termination criteria and configurations", "tests check a few automata",
 ["source/hybrid/hybrid_evolver.cpp","source/hybrid/hybrid_enclosure.cpp"], [("crossing classification","source/hybrid/hybrid_evolver.cpp")],
 "TLA+ specification of hybrid trajectories of rectangular automata with exact rational time; recorded evolutions validated", "Automata with exactly computable trajectories.")
prop("C25", "Simulation follows the semantics of the system",
 "A simulated trajectory starts in the initial state, follows the flow of the current mode to integration accuracy, switches only where a guard holds with the automaton's reset, and stops by the termination criterion.",
 ["inputs","programs"], "all systems and initial points", "tests run one simulation and draw it",
 ["source/hybrid/hybrid_simulator.cpp","source/dynamics/vector_field_simulator.cpp"], [("Runge-Kutta steps with guard checks","source/hybrid/hybrid_simulator.cpp")],
 "TLA+ trace specification of trajectories; recorded simulations validated", "Systems with known solutions.")
prop("C26", "Caches and containers behave as their abstract data types",
 "The least-recently-used cache holds exactly the most recently used entries up to its capacity with consistent ages under any history of operations; lists, sets, maps, arrays, binary words and trees behave as the corresponding mathematical objects, and copies are independent of the original.",
 ["histories"], "all histories of operations", "tests run one short history each",
 ["source/utility/lru_cache.hpp","source/utility/container.hpp","source/utility/array.hpp","source/utility/binary_word.hpp","source/utility/uniform_array.hpp","source/geometry/binary_tree.cpp"], [("ages of cache entries","source/utility/lru_cache.hpp")],
 "TLA+ state machine of the cache, model-checked; every behaviour to a depth replayed in the code, and recorded histories of the containers validated", "All histories to a depth over a small key set, random beyond.")
prop("C27", "Command line configuration does what was asked",
 "Parsing a command line sets exactly the logging, drawing, concurrency, graphics and verbosity settings that were given, in any order, and an invalid, duplicated or incomplete option is reported without changing other settings.",
 ["inputs"], "all sequences of arguments", "tests check each option once, and do not run in the baseline",
 ["source/io/command_line_interface.cpp","source/io/command_line_interface.hpp"], [("argument parsers consuming a stream","source/io/command_line_interface.cpp")],
 "TLA+ state machine of argument consumption; TLC-generated command lines replayed in the code", "All command lines to a length over the option alphabet.")
prop("C28", "Differential inclusions are over-approximated for all inputs",
 "The evolution of a differential inclusion contains every solution for every measurable input within the noise bounds, and the transformation of a system with inputs keeps the dynamics and detects non-affine or missing inputs.",
 ["inputs","programs"], "all systems, input bounds and configurations", "tests compare bounding radii",
 ["source/solvers/inclusion_integrator.cpp","source/dynamics/differential_inclusion_evolver.cpp","source/dynamics/differential_inclusion.cpp"], [("error bounds of input approximations","source/solvers/inclusion_integrator.cpp")],
 "TLA+ specification with exactly solvable inclusions; recorded evolutions validated", "Piecewise-constant inputs with exact solutions.")
prop("C29", "Generic numbers and conversions agree with their concrete classes",
 "Generic numbers of any information level, complex numbers and mixed-class operations give the same information as the corresponding concrete operation: exact data stay exact, validated results contain the exact result, and a concrete value extracted with a precision contains the generic number. Operations on mixed classes degrade information as documented and never fail for supported classes.",
 ["inputs","programs"], "all pairs of number classes and operations", "tests check a few pairs",
 ["source/numeric/number.cpp","source/numeric/number.hpp","source/numeric/number_wrapper.hpp","source/numeric/complex.hpp","source/utility/dispatching.hpp"], [("double dispatch over wrapped numbers","source/numeric/number_wrapper.hpp")],
 "TLA+ specification of number kinds; TLC validates traces over all pairs of classes", "All class pairs covered; values generated.")

def main():
    import props
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
              "why_tests_cant": p["why"], "anchors": {"files": p["files"], "state": list(p["state"]), "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
              "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": [],
         "notes": "Every check is bin/check <id>: it mirrors /repo/source, rebuilds what changed, runs TLC on the design models and validates recorded behaviour of the code with TLC. No hooks in /repo are needed."}
    for p in P:
        if p["id"] in props.PROPS:
            m["checks"].append({"property": p["id"], "quick_cmd": "bin/check %s quick" % p["id"], "thorough_cmd": "bin/check %s thorough" % p["id"],
                "technique": p["tech"], "level": "model_checking", "level_note": p["note"] + " Trusted: TLC, the rational arithmetic class (self-tested), GMP/MPFR, the compiler, the stubs of the absent submodules."})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": "no check built yet"})
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
