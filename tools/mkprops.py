#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))

SOL="Stable tests do not build the solver at all, and the repository's own constraint tests draw random domains; neither covers every small domain, constant, alias and view combination."
prop("P01","Arithmetic constraints: solve reports exactly the satisfying assignments",
 "For a problem built from arithmetic constraints (linear equality, disequality and inequality, plain or reified, plus, minus, multiply, divide, modulus, power, absolute value, minimum, maximum, difference systems, knapsack sums), solving for all solutions reports every assignment satisfying the documented meaning of the constraints exactly once and nothing else, and terminates. This holds whatever mixture of plain variables, offset or negated views, constants and repeated variables is passed, and whichever consistency level is requested.",
 ["inputs","configurations"],"All argument domains, parameters, view/constant/alias shapes and consistency levels within the stated size bounds.",SOL,
 ["gcs/constraints/linear","gcs/constraints/plus_minus","gcs/constraints/multiply","gcs/constraints/divide_modulus","gcs/constraints/power","gcs/constraints/abs","gcs/constraints/min_max","gcs/constraints/difference","gcs/constraints/knapsack","gcs/constraints/innards/product_bounds.hh"],
 [("propagators","gcs/constraints/**"),("search loop","gcs/solve.cc")],["gcs::solve / solve_with solution callback"])
prop("P02","Comparison, logical, reified, lexicographic and ordering constraints are exact",
 "For comparisons and equalities (plain, if, iff), and/or/parity over variables or literals, lexicographic orderings (strict and non-strict, reified, unequal lengths, smart-table form), increasing/decreasing chains, all-equal, and membership (In), solving for all solutions reports every assignment satisfying the documented meaning exactly once and nothing else. A half-reified constraint constrains nothing when its condition is false, and an iff ties the condition in both directions.",
 ["inputs","configurations"],"All argument domains, reification conditions and view/constant/alias shapes within the stated size bounds.",SOL,
 ["gcs/constraints/comparison","gcs/constraints/equals","gcs/constraints/logical","gcs/constraints/parity","gcs/constraints/lex","gcs/constraints/increasing","gcs/constraints/all_equal","gcs/constraints/in","gcs/reification.hh"],
 [("propagators","gcs/constraints/**"),("reification dispatch","gcs/constraints/innards/reified_dispatcher.hh")],["solution callback"])
prop("P03","Counting, matching and graph constraints are exact",
 "For all-different (every variant and consistency level), symmetric all-different, inverse, count, among, at-most-one, number-of-values, global cardinality (open, closed, both levels), circuit (every algorithm and option), minimum distance, sort and argsort, solving for all solutions reports every assignment satisfying the documented meaning exactly once and nothing else.",
 ["inputs","configurations"],"All argument domains, parameters, options and view/constant/alias shapes within the stated size bounds.",SOL,
 ["gcs/constraints/all_different","gcs/constraints/inverse","gcs/constraints/count","gcs/constraints/among","gcs/constraints/at_most_one","gcs/constraints/n_value","gcs/constraints/global_cardinality","gcs/constraints/circuit","gcs/constraints/min_distance","gcs/constraints/sort"],
 [("propagators","gcs/constraints/**")],["solution callback"])
prop("P04","Table, automaton, element and precedence constraints are exact",
 "For positive, negative, wildcard and smart tables, element over constant and variable arrays in one and two dimensions with any index base, regular (deterministic, nondeterministic, regular expression), MDD, value precedence chains and nogood sets, solving for all solutions reports every assignment satisfying the documented meaning exactly once and nothing else.",
 ["inputs","configurations"],"All argument domains, tuple sets, automata, options and view/constant/alias shapes within the stated size bounds.",SOL,
 ["gcs/constraints/table","gcs/constraints/smart_table","gcs/constraints/extensional_utils.cc","gcs/constraints/element","gcs/constraints/regular","gcs/constraints/mdd","gcs/constraints/value_precede","gcs/constraints/seq_precede_chain","gcs/constraints/nogoods"],
 [("propagators","gcs/constraints/**")],["solution callback"])
prop("P05","Scheduling and packing constraints are exact under every rule selection",
 "For cumulative and disjunctive (mandatory and optional tasks, constant or variable lengths, heights and capacity, strict or not), two-dimensional non-overlap, bin packing (loads or capacities) and knapsack, solving for all solutions reports every assignment satisfying the documented meaning exactly once and nothing else. Turning any propagation rule, consistency level or proof strategy on or off never changes the set of solutions.",
 ["inputs","configurations"],"All task data, rule selections and options within the stated size bounds.",SOL,
 ["gcs/constraints/cumulative","gcs/constraints/disjunctive","gcs/constraints/disjunctive_2d","gcs/constraints/bin_packing","gcs/constraints/knapsack"],
 [("propagators","gcs/constraints/**"),("rule sets","gcs/constraints/cumulative/cumulative.hh, disjunctive.hh")],["solution callback"])
prop("P06","Constraints compose: solutions are the intersection over all posted",
 "Posting several constraints over shared variables, in any order, makes solve report exactly the assignments satisfying all of them, each once. Unsatisfiable combinations report no solution, and reposting a constraint changes nothing.",
 ["programs"],"All pairs (and, thorough, triples) drawn from a palette of small constraints of every family over shared variables, in both posting orders.",
 "Unit tests exercise constraints alone; interplay through the shared propagation queue, wake-up triggers and learned state needs combinations.",
 ["gcs/problem.cc","gcs/innards/propagators.cc","gcs/innards/state.cc","gcs/solve.cc"],[("propagation queue and triggers","gcs/innards/propagators.cc")],["solution callback"])
prop("P07","Optimisation finds and certifies the true optimum",
 "When an objective is minimised or maximised over a variable, view or constant, each reported solution strictly improves on the previous one, and if the search completes the last one reported is optimal; a problem with no solution reports none. The result does not depend on the branching strategy or restart schedule.",
 ["programs","configurations"],"Every palette problem and constraint pair, every objective variable or view, both directions, several branchers and restart cutoffs.",
 "No stable test runs an optimisation; bound handling interacts with every propagator and with restarts.",
 ["gcs/solve.cc","gcs/problem.cc","gcs/innards/state.cc"],[("branch and bound","gcs/solve.cc")],["solution callback, Stats"])
prop("P08","The search strategy never changes which solutions exist",
 "Whatever branching heuristic, value order, random seed, user-supplied branching generator or (for a single solution or optimisation) restart schedule with learned nogoods is used, the set of solutions reported over a complete search is the same, with no duplicates.",
 ["programs","configurations","schedules"],"All library variable-order times value-order heuristics, exhaustive user-chosen decision sequences up to a depth, all Luby scales in a range.",
 "Tests pick one heuristic per model; the guarantee quantifies over every sequence of decisions and restarts.",
 ["gcs/search_heuristics.cc","gcs/solve.cc","gcs/restarts.cc","gcs/constraints/nogoods","gcs/innards/variable_weighting.cc"],[("branch callbacks","gcs/search_heuristics.cc"),("restart loop and nogood extraction","gcs/solve.cc")],["solution callback"])
prop("P09","Stopping a search is prompt, clean and honestly reported",
 "A search stopped by its solution callback, its trace callback or its abort flag at any point reports only genuine distinct solutions found so far, reports completion exactly when the search space was exhausted, and calls back no further after being told to stop. Statistics agree with the callbacks actually made.",
 ["schedules","programs"],"Every callback index at which the search can be stopped, through every stopping mechanism, for each palette problem.",
 "The stopping point is a schedule dimension; tests only stop at fixed places, if at all.",
 ["gcs/solve.cc","gcs/solve.hh","gcs/stats.cc"],[("callback protocol","gcs/solve.cc")],["SolveCallbacks, Stats"])
prop("P10","Propagation loses no solution, meets its consistency and backtracks exactly",
 "From any sequence of decisions, propagation never removes a value that belongs to a solution consistent with those decisions, never reports failure when one exists, never accepts a complete assignment that violates the constraint, and on undoing a decision every domain is exactly what it was before. Where a constraint documents domain (GAC) consistency, every value left after propagation belongs to some solution of that constraint.",
 ["histories"],"Every decision sequence (assign, exclude, both bound cuts) up to a depth for every small constraint instance.",
 "Reachable domain states are produced by decision histories; tests follow the one history the default search takes.",
 ["gcs/innards/propagators.cc","gcs/innards/state.cc","gcs/innards/inference_tracker.hh","gcs/constraints"],[("propagators","gcs/constraints/**"),("trail","gcs/innards/state.cc")],["domains after propagate; State epochs"])
prop("P11","The domain store behaves as a set of integers with exact undo",
 "Under any sequence of inferences (equal, not equal, bound, range), guesses, new epochs and backtracks, on plain variables, offset and negated views and constants, the store reports exactly the domain (membership, bounds, size, iteration in both directions, holes, fixed value) and the change classification a set of integers would have, and backtracking restores earlier epochs exactly, including constraint state.",
 ["histories"],"All operation sequences up to a depth over variables with small domains.",
 "No stable test builds the store; correctness is over operation histories.",
 ["gcs/innards/state.cc","gcs/innards/state.hh","gcs/interval_set.hh"],[("domain mutation","gcs/innards/state.cc"),("epochs","gcs/innards/state.cc")],["gcs::innards::State and CurrentState API"])
prop("P12","Every proof log written is a valid proof of the reported result",
 "When proof logging is requested, the written model and proof are accepted step by step by an independent checker of the proof format, contain no unjustified assertion, and conclude with exactly the result the solver returned: unsatisfiable, the number of enumerated solutions, or the optimal value. Every logged solution satisfies the written model.",
 ["programs","configurations"],"Every small constraint instance, palette problem and objective, under enumeration and optimisation, with every proof strategy and proof-relevant option.",
 "The repository checks proofs with an external verifier that is not available here; no stable test runs a proof.",
 ["gcs/innards/proofs","gcs/constraints","gcs/solve.cc"],[("proof emission","gcs/innards/proofs/proof_logger.cc"),("model emission","gcs/innards/proofs/proof_model.cc")],["<name>.opb and <name>.pbp files"])
prop("P13","The written pseudo-Boolean model is equivalent to the problem",
 "The pseudo-Boolean model written for proof logging has, projected to the problem's integer variables, exactly the problem's solutions, and its objective equals the requested objective up to the documented sense. The model text does not depend on consistency levels, propagation rules or proof strategies.",
 ["programs","configurations"],"Every small constraint instance; the set of satisfying 0/1 assignments is enumerated exhaustively.",
 "A wrong encoding makes every proof vacuous, and an accepted proof does not reveal it.",
 ["gcs/innards/proofs/proof_model.cc","gcs/innards/proofs/names_and_ids_tracker.cc","gcs/innards/proofs/bits_encoding.cc","gcs/constraints"],[("define_proof_model of each constraint","gcs/constraints/**"),("bit and order encodings","gcs/innards/proofs/names_and_ids_tracker.cc")],["<name>.opb"])
prop("P14","Presolvers never change the solutions or the optimum",
 "Adding any combination of presolvers (table inference, difference logic, cumulative strengthening, inferred cumulative, inferred disjunctive), in any order, changes neither the set of solutions nor the optimal value of a problem, nor the validity of its proof.",
 ["programs","configurations"],"Every palette problem and scheduling-shaped problem within bounds, with every presolver subset and order.",
 "Presolvers trigger on particular combinations of posted constraints, which no stable test builds.",
 ["gcs/presolvers"],[("presolvers","gcs/presolvers/**")],["solution callback, proof files"])
prop("P15","The textual problem form round-trips",
 "The S-expression problem file written alongside a proof reads back to an equivalent problem: reading it and solving gives the same solutions over the same named variables, and writing it again gives the same text. Malformed or unknown input is rejected with an error rather than misread.",
 ["inputs","programs"],"Every small constraint instance and objective; every single-token deletion, duplication and replacement of a palette of files.",
 "The reader has a case per constraint; stable tests only cover the S-expression layer.",
 ["gcs/scp_reader.cc","gcs/innards/proofs/scp_writer.cc","scp/glasgow_scp_solver.cc","gcs/constraints"],[("s_exprify of each constraint","gcs/constraints/**"),("reader dispatch","gcs/scp_reader.cc")],["<name>.scp, read_scp"])
prop("P16","Solving is repeatable and unaffected by proof logging",
 "Solving the same problem twice gives the same solutions in the same order with the same search statistics, and switching proof logging on, choosing verbose names or another proof strategy, or adding observers does not change them; the proof files of two identical runs are identical.",
 ["programs","configurations"],"Every small constraint instance and palette problem, repeated under every logging configuration.",
 "Unit tests run one configuration once.",
 ["gcs/solve.cc","gcs/innards/propagators.cc","gcs/innards/proofs"],[("inference with and without logger","gcs/innards/inference_tracker.hh")],["solution callback, Stats, proof files"])
prop("P17","A proof that cannot be written completely is never reported as success",
 "If writing the model or proof fails part-way (file not creatable, or the device accepts only some prefix of the bytes), the solver reports an error to the caller instead of returning as if a complete proof existed.",
 ["fault_sequences","crash_points"],"Every byte offset (quick: every block boundary and a dense prefix) at which the output device stops accepting data, for each output file.",
 "Needs I/O faults, which no test injects.",
 ["gcs/innards/proofs/proof_logger.cc","gcs/innards/proofs/proof_model.cc","gcs/innards/proofs/scp_writer.cc"],[("stream state checks","gcs/innards/proofs/proof_logger.cc")],["exceptions from solve_with; file contents"])
prop("P18","Malformed problem definitions are rejected, and well-formed ones accepted",
 "Creating a variable with an empty domain, reusing a variable or constraint name, naming things with unusable names, or posting a constraint with inconsistent array lengths or out-of-contract parameters raises a problem-definition error naming the problem; well-formed definitions, including automatic names that collide with user names, are accepted and distinct.",
 ["inputs","histories"],"All short sequences of definition operations over a small set of names and domains; every documented contract violation of each constraint.",
 "The stable tests do not build Problem.",
 ["gcs/problem.cc","gcs/constraint.cc","gcs/constraint_id.hh","gcs/exception.cc"],[("name bookkeeping","gcs/problem.cc")],["exceptions from Problem and solve"])
prop("P19","FlatZinc models give their FlatZinc meaning",
 "Given a JSON FlatZinc model, the FlatZinc executable prints exactly the model's solutions (or an improving sequence ending in an optimum) in the specified output format with the right status marker, or reports that a construct is unsupported; it never prints a wrong value.",
 ["inputs","programs"],"Every supported FlatZinc builtin with all small argument shapes (variable, constant, array reference), satisfy, minimise and maximise.",
 "The MiniZinc front end is not built by the stable tests.",
 ["minizinc/fzn_glasgow.cc"],[("constraint translation","minizinc/fzn_glasgow.cc")],["stdout of fzn_glasgow"])
prop("P20","Integer arithmetic is exact or refuses",
 "Every arithmetic operation on the solver's integers (addition, subtraction, multiplication, division, remainder, negation, absolute value, increment, decrement, powers) returns the mathematically exact result or raises an overflow error, for all operands including the extremes, and never wraps or leaves its operand changed after raising. Overflow predicates agree with the mathematics for every integer width they are used with.",
 ["inputs"],"All pairs from a boundary-closed operand set (every value around 0, powers of two, square roots of the limits and the limits), and all 8-bit pairs for the width-generic predicates.",
 "Tests sample a few operand pairs.",
 ["gcs/integer.hh","gcs/innards/integer_overflow.hh","gcs/innards/power.cc"],[("overflow predicates","gcs/innards/integer_overflow.hh"),("checked_integer_power, power2","gcs/innards/power.cc")],["return values and exceptions"])
prop("P21","Interval containers equal the sets they stand for",
 "After any sequence of operations on values within the integer range, an interval set answers every query (membership, bounds, size, holes, gaps, intersection tests, ordered iteration both ways, set difference) as the mathematical set of integers would, in normalised form; and an interval tree reports exactly the stored intervals containing, or contained in, a query interval, each once and independently of insertion order.",
 ["histories"],"All operation sequences up to a depth over a small universe; all insertion orders of all small interval families.",
 "The stable test for the tree is randomised, and the interval set has none.",
 ["gcs/interval_set.hh","gcs/innards/interval_tree.hh"],[("interval mutation","gcs/interval_set.hh"),("treap augmentation","gcs/innards/interval_tree.hh")],["container queries"])
prop("P22","The difference-logic engine is sound, complete and history-independent",
 "Root simplification of a system of difference constraints keeps exactly the implied consequences (same solutions, same shortest paths, redundant edges only dropped when implied by the rest, conditions fixed only when they would close a negative cycle), and incremental bound propagation after any sequence of bound changes, condition activations and backtracks yields exactly the bounds and conflicts that recomputing from scratch would, each with a valid explanation.",
 ["histories","inputs"],"All weighted digraphs on few nodes with few weights and conditional edges; all update and undo sequences up to a depth.",
 "No stable test covers the difference code; the incremental state is never trailed, so only histories expose errors.",
 ["gcs/constraints/difference/difference_simplify.cc","gcs/constraints/difference/difference_incremental.cc","gcs/constraints/difference/difference_simplify.hh","gcs/constraints/difference/difference_incremental.hh"],[("Johnson simplification","gcs/constraints/difference/difference_simplify.cc"),("potential function repair and Dijkstra","gcs/constraints/difference/difference_incremental.cc")],["engine outputs; solutions with DifferenceConstraints"])
prop("P23","Regular expressions denote their language",
 "Compiling a regular expression over a given integer alphabet yields an automaton accepting exactly the words the documented syntax denotes (concatenation, union, star, plus, optional, counted repetition, groups, classes, ranges, negation, wildcard, multi-digit integers, whitespace), whatever integers the alphabet holds, and every string outside the syntax, or naming an integer too large to represent, is rejected with an error.",
 ["inputs"],"All pattern strings up to a length over the syntax characters, and all syntax trees up to a size; all words up to a length.",
 "Tests check a few patterns and words.",
 ["gcs/constraints/regular/regex.cc","gcs/constraints/regular/regex.hh"],[("parser and NFA construction","gcs/constraints/regular/regex.cc")],["automaton returned by the compiler"])
prop("P24","S-expression text and trees are inverse",
 "Printing any S-expression tree and parsing it back gives the same tree; parsing any text either raises an error or gives trees whose canonical print parses to the same trees; text is accepted exactly when its brackets balance, and layout never changes what is read.",
 ["inputs"],"All trees up to a size and all strings up to a length over the significant characters.",
 "Tests check a handful of forms.",
 ["gcs/innards/s_expr.cc","gcs/innards/s_expr.hh"],[("tokeniser and parser","gcs/innards/s_expr.cc"),("formatter","gcs/innards/s_expr.hh")],["parse and print functions"])
prop("P25","Bit encodings represent exactly what a domain needs",
 "For every pair of bounds, the bit encoding chosen for a variable can represent every value between the bounds, each in exactly one way, uses no more bits than that requires under the documented width rule, and is declared unrepresentable exactly when some needed power of two would not fit the solver's integers.",
 ["inputs"],"All bound pairs in a range around zero and all pairs from a boundary-closed operand set up to the integer limits.",
 "Tests check listed bounds.",
 ["gcs/innards/proofs/bits_encoding.cc"],[("get_bits_encoding_coeffs, bits_encoding_fits","gcs/innards/proofs/bits_encoding.cc")],["returned coefficients"])
prop("P26","Product, square, quotient and root bounds are safe and as tight as documented",
 "Bounds computed for products, squares, square roots, and quotients from the bounds of the other operands never exclude a pair of values satisfying the relation (an operand too extreme to represent is refused with an overflow error, never given a wrong bound), are exact where documented as exact, report emptiness only when truly empty, and rounding division rounds in the stated direction for every sign combination.",
 ["inputs"],"All boxes within a range, and boundary-closed operands up to the integer limits.",
 "The existing test checks a smaller box and only some functions.",
 ["gcs/constraints/innards/product_bounds.hh","gcs/constraints/innards/arithmetic_utils.hh"],[("bounds functions","gcs/constraints/innards/product_bounds.hh")],["returned bounds"])
prop("P27","Views, conditions and expressions mean what their operators say",
 "Adding to, subtracting from and negating variables, comparing them with values to form conditions, negating conditions, testing conditions, and combining terms into weighted sums and linear (in)equalities all preserve arithmetic meaning under every assignment, including repeated variables, constants, nested views and zero coefficients; variable and condition ordering and equality are consistent, and distinct conditions stay distinct.",
 ["inputs","programs"],"All operator expressions up to a depth over small operands, evaluated under all assignments.",
 "Not covered by stable tests; every model passes through this layer.",
 ["gcs/variable_id.hh","gcs/variable_id.cc","gcs/variable_condition.hh","gcs/variable_condition.cc","gcs/expression.hh","gcs/innards/variable_id_utils.cc","gcs/constraints/linear/utils.hh","gcs/reification.hh"],[("operators","gcs/expression.hh, gcs/variable_condition.hh, gcs/variable_id.hh")],["values of the built objects"])
prop("P28","The restart schedule is the Luby sequence at any scale",
 "For every positive scale, the k-th cutoff of the Luby restart schedule is the k-th term of the Luby sequence times the scale, reading the current cutoff never changes it, advancing moves exactly one term, and copies advance independently; cutoffs eventually exceed any bound, so a restarting search terminates.",
 ["inputs","histories"],"All positions up to a bound, all scales in a range, all interleavings of read, copy and advance up to a depth.",
 "Tests check a prefix at a few scales.",
 ["gcs/restarts.cc","gcs/restarts.hh"],[("luby_term","gcs/restarts.cc")],["current_cutoff"])
prop("P29","Array parameters keep their data alive under any ownership history",
 "An array handle built by moving data in, from an initialiser list, from a shared pointer or by borrowing gives the same contents for as long as any copy of it lives, through any sequence of copies, moves, assignments and destructions; shared construction never copies the data, borrowing never takes ownership, and owned data is destroyed exactly once when the last handle goes.",
 ["histories"],"All sequences of handle operations up to a depth over a few handles.",
 "Tests check single fixed scenarios.",
 ["gcs/array_param.hh"],[("shared_ptr aliasing","gcs/array_param.hh")],["handle dereference, instrumented payload lifetimes"])
prop("P30","Data-file readers accept exactly their format and read it exactly",
 "The example programs' data readers return precisely the integers, booleans, arrays, matrices and sets written in a data file, independent of whitespace, comments and layout, and refuse anything outside the supported fragment rather than dropping or inventing values; solution checkers agree with the definition of the problem they check.",
 ["inputs"],"All short strings over the significant characters for each reader entry point, and all generated small data files.",
 "Tests check a few files.",
 ["examples/dzn.hh","examples/rcpsp/rcpsp_instance.hh","examples/table_layout/table_layout_instance.hh","examples/p_dispersion/p_dispersion_instance.hh"],[("tokenisers","examples/dzn.hh")],["returned data and exceptions"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
