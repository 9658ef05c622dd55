"""What each check runs, and how its measured counters are reported."""

ENUM = {'states': ['assignments_judged'], 'transitions': ['search_nodes'], 'traces': ['instances'],
        'meaning': 'states: complete assignments of an instance each judged by the independent definition of the constraint; '
                   'transitions: search nodes the real solver visited while enumerating; '
                   'traces: instances whose whole solution list from the real solver was compared with the judged assignments'}


def enum(mode, what):
    return {'level': 'model_checking', 'technique': 'bounded exhaustive enumeration of small problem instances, real solver compared with brute-force definition',
            'parts': [{'target': 'd_enum', 'args': ['--mode', mode]}], 'evidence': ENUM,
            'bounds': {'quick': 'every instance of the %s families at size 1 (domains of up to 3-4 values, 2-4 variables, every argument shape)' % what,
                       'thorough': 'every instance of the %s families at size 2' % what},
            'note': 'Every instance inside the bound is solved by the real library and its complete solution list compared with a brute-force evaluation of the '
                    'constraint definition written independently here. Trusts the definitions in harness/fam_*.cc and the compiler.'}


def unit(driver, technique, states, transitions, traces, meaning, bounds):
    return {'level': 'model_checking', 'technique': technique, 'parts': [{'target': 'd_' + driver}],
            'evidence': {'states': states, 'transitions': transitions, 'traces': traces, 'meaning': meaning}, 'bounds': bounds,
            'note': 'The real code is driven through every case inside the bound and each answer compared with an independent oracle in harness/d_%s.cc. Nothing is sampled.' % driver}


CHECKS = {
    'P01': enum('arith', 'arithmetic'),
    'P02': enum('comp', 'comparison, logical and ordering'),
    'P03': enum('count', 'counting, matching and graph'),
    'P04': enum('table', 'table, automaton, element and precedence'),
    'P05': enum('sched', 'scheduling and packing'),
    'P06': {
        'level': 'model_checking', 'technique': 'exhaustive enumeration of constraint combinations over palettes, real solver compared with intersected truth sets',
        'parts': [{'target': 'd_compose'}],
        'evidence': {'states': ['assignments_judged'], 'transitions': ['search_nodes'], 'traces': ['problems'],
                     'meaning': 'states: complete assignments judged; transitions: real search nodes; traces: combined problems solved and compared'},
        'bounds': {'quick': 'all single, pair and triple combinations of four palettes of constraints over shared variables, in several posting orders, plus repeats',
                   'thorough': 'the same with all quadruples'},
        'note': 'Each palette entry has an independently written truth table; the solver must report exactly the intersection, each assignment once.'},
    'P07': {
        'level': 'model_checking', 'technique': 'exhaustive enumeration of objectives, strategies and restart schedules over small problems',
        'parts': [{'target': 'd_opt'}],
        'evidence': {'states': ['search_nodes'], 'transitions': ['improving_solutions'], 'traces': ['optimisations'],
                     'meaning': 'states: search nodes of the real solver; transitions: strictly improving steps checked; traces: whole optimisation runs compared with the true optimum'},
        'bounds': 'objectives over every variable, sums, views and constants; both senses; branching strategies rotated over all single constraints and pairs; restarts with nogood learning',
        'note': 'The optimum is computed by brute force from the truth tables of the palette constraints.'},
    'P08': {
        'level': 'model_checking', 'technique': 'exhaustive enumeration of branching choices (heuristics and scripted branch decisions) on the real search',
        'parts': [{'target': 'd_search'}],
        'evidence': {'states': ['search_nodes'], 'transitions': ['solutions'], 'traces': ['searches'],
                     'meaning': 'states: search nodes of the real solver; transitions: solution reports checked; traces: complete searches compared with brute force'},
        'bounds': 'every variable-order x value-order strategy and all two-step scripted branchings on every single palette constraint; rotating strategies on all pairs and triples',
        'note': 'Every search must report exactly the brute-force solution set, each once; with restarts the first solution must be genuine.'},
    'P09': {
        'level': 'model_checking', 'technique': 'exhaustive enumeration of stop points (every callback, branch and propagation event) in real searches',
        'parts': [{'target': 'd_stop'}],
        'evidence': {'states': ['search_nodes'], 'transitions': ['stop_points'], 'traces': ['searches'],
                     'meaning': 'states: search nodes of the real solver; transitions: interrupted runs, one per stop point of a search; traces: distinct searches all of whose stop points were tried'},
        'bounds': 'every stop point of seven kinds in every listed search over palette problems',
        'note': 'The interrupted run is compared with the uninterrupted one: prefix of solutions, no later callback, honest completion, consistent statistics.'},
    'P10': {
        'level': 'model_checking',
        'technique': 'exhaustive exploration of every decision history of small instances through the real search, every propagated state judged',
        'parts': [{'target': 'd_prop', 'args': ['--mode', m]} for m in ('deep', 'claims', 'wide', 'multi')],
        'evidence': {'states': ['nodes'], 'transitions': ['decisions'], 'traces': ['instances'],
                     'meaning': 'states: propagated search states judged against the surviving solutions; transitions: decisions taken, each later undone and its restoration checked; '
                                'traces: problem instances whose whole decision tree was explored'},
        'bounds': {'quick': 'every decision history (each value, bound and negated value at each node) over small instances; consistency claims over every sub-domain of small boxes; all plain-shape size 1 family instances; palette combinations',
                   'thorough': 'the same on larger boxes and every argument shape'},
        'note': 'Removed values are compared with the brute-force solutions below the node, fixed points with the consistency level claimed, and restored states with the state before.'},
    'P11': {
        'level': 'model_checking', 'technique': 'explicit-state exploration of the real store: every operation from every small domain, and every history of inferences, guesses, epochs, constraint-state writes, clones and backtracks to a depth, against plain sets',
        'parts': [{'target': 'd_state', 'args': ['--mode', m]} for m in ('reach', 'pairs', 'history', 'wide')],
        'evidence': {'states': ['states'], 'transitions': ['transitions', 'queries'], 'traces': ['trees', 'states'],
                     'meaning': 'states: store states judged in full against a set of integers; transitions: inferences applied and queries answered; traces: histories (one per state, each replayed from the start) '
                                'and prefixes whose whole continuation tree was explored'},
        'bounds': {'quick': 'every subset of up to 7 values at several bases, built four ways, seen through 18 handles, under every operation with operands to two beyond the domain; every history of 18 steps to depth 6; all interval lists over boundary-closed far-apart ends',
                   'thorough': 'every subset of up to 9 values and every history to depth 7'},
        'note': 'The reference is a std::set per variable and a stack of copies; the classification of each change is recomputed from the sets before and after.'},
    'P22': {
        'level': 'model_checking',
        'technique': 'explicit-state exploration of difference systems and of every bound-tightening history on the real engine, against shortest paths',
        'parts': [{'target': 'd_diff', 'args': ['--mode', m]} for m in ('simplify', 'engine', 'whole')],
        'evidence': {'states': ['graphs', 'states', 'nodes'], 'transitions': ['transitions', 'decisions'], 'traces': ['systems', 'consistent_graphs', 'posted_systems'],
                     'meaning': 'states: graphs simplified, engine states and search nodes judged; transitions: bound changes and edge activations applied; traces: systems whose whole history space was explored'},
        'bounds': 'all edge sets over three nodes with small weights for simplification; all histories to a depth over small systems for the incremental engine; every decision history for posted systems',
        'note': 'Oracle: Bellman-Ford over the small graphs, written independently.'},
    'P12': {
        'level': 'model_checking',
        'technique': 'exhaustive enumeration of solver runs over small problems, each proof log replayed step by step by an independent explicit checker, whose models are enumerated to judge every redundancy and enumeration step',
        'parts': [{'target': 'd_proof', 'args': ['--mode', m]} for m in ('single', 'compose', 'opt')],
        'evidence': {'states': ['steps'], 'transitions': ['propagations', 'goals'], 'traces': ['proofs'],
                     'meaning': 'states: proof lines replayed, each in the exact constraint database it was logged against; transitions: unit propagations and redundancy goals by which they were justified; traces: whole proofs (each one run of the real solver) accepted and their conclusion compared with the result returned'},
        'bounds': {'quick': 'every size 0 family instance, every plain-shape size 1 instance, a fixed sixteenth of the other size 1 instances, palette singles, pairs and triples, objectives over variables, views and constants, over branching strategies and proof options',
                   'thorough': 'every size 1 instance and a fixed stride of size 2'},
        'note': 'The checker (harness/pb.cc) is written from the documented proof format: it justifies each line by cutting-planes arithmetic, unit propagation or an explicit redundancy check, and compares the conclusion with brute force. '
                'No external proof verifier is available here.'},
    'P13': {
        'level': 'model_checking',
        'technique': 'exhaustive enumeration of small problems and of every assignment of the written pseudo-Boolean model, compared with the brute-force definition',
        'parts': [{'target': 'd_opb', 'args': ['--mode', m]} for m in ('single', 'opt', 'rules')],
        'evidence': {'states': ['patterns', 'nodes'], 'transitions': ['atom_tests', 'objective_tests', 'models_compared'], 'traces': ['models'],
                     'meaning': 'states: bit patterns of the problem variables judged for extendability and search nodes spent deciding it; transitions: order and equality atoms, objective values and pairs of model texts compared; traces: models written by the real library and projected'},
        'bounds': {'quick': 'every size 0 family instance and a fixed twenty-fourth of size 1; objectives; every propagation rule set and consistency level of the scheduling and global families',
                   'thorough': 'every size 1 instance'},
        'note': 'Each bit pattern of the user variables is extended to a full model by exhaustive search with propagation in harness/pb.cc.'},
    'P14': {
        'level': 'model_checking',
        'technique': 'exhaustive enumeration of small problems under every schedule of presolvers on the real solver, compared with brute force and with each other, their proofs checked step by step',
        'parts': [{'target': 'd_presolve', 'args': ['--mode', m]} for m in ('table', 'mixed', 'diff', 'sched')],
        'evidence': {'states': ['search_nodes', 'solutions'], 'transitions': ['runs', 'steps'], 'traces': ['proofs'], 'nontrivial': ['proofs'],
                     'meaning': 'states: search nodes and solutions; transitions: runs of the real solver under one schedule of presolvers, proof steps checked; traces: complete proofs checked against the model as written; the counters named did:... give how often each presolver reported having done each of its things'},
        'bounds': {'quick': 'palette problems under table inference over every subset of variables, all pairs of difference constraints over three variables with a stride, scheduling problems of two and three tasks under every subset and order of presolvers with a stride, mixed problems under pairs; satisfaction and optimisation, with and without proofs, verbose names on and off',
                   'thorough': 'denser strides throughout'},
        'note': 'Every schedule of presolvers must report exactly the brute-force solutions or optimum, and its proof must verify against the model.'},
    'P15': {
        'level': 'model_checking',
        'technique': 'exhaustive enumeration of small problems and of every token mutation of their written files, run through the real writer, reader and solver',
        'parts': [{'target': 'd_scp', 'args': ['--mode', m]} for m in ('single', 'opt', 'mutate')],
        'evidence': {'states': ['search_nodes', 'mutants'], 'transitions': ['files', 'mutants_accepted'], 'traces': ['read_back', 'files_mutated'],
                     'meaning': 'states: search nodes of the problems read back and mutated texts given to the reader; transitions: files written and mutants accepted, each written again and compared; traces: files whose read-back problem was solved and compared, and files all of whose mutants were tried'},
        'bounds': {'quick': 'every size 0 family instance, a fixed fortieth of size 1, objectives over palette problems; every deletion, duplication, swap, truncation and 29 replacements of every token of one file per constraint shape',
                   'thorough': 'every size 1 instance and three files per shape'},
        'note': 'A file read back must give the same solutions and the same text. An accepted mutant must be written back as the same text up to the listed equivalent spellings. View operands and non-deterministic automata are documented as refused by the reader.'},
    'P16': {
        'level': 'model_checking',
        'technique': 'exhaustive enumeration of small problems under every logging configuration, complete event traces of the real search compared with each other',
        'parts': [{'target': 'd_transp', 'args': ['--mode', m]} for m in ('single', 'compose', 'opt')],
        'evidence': {'states': ['search_nodes'], 'transitions': ['runs'], 'traces': ['cases'],
                     'meaning': 'states: search nodes of the real solver; transitions: runs under one logging configuration, each compared event by event with the plain run; traces: problems'},
        'bounds': {'quick': 'every size 0 instance, a fixed subset of size 1, palette singles and a fixed quarter of the pairs, and objectives, each under every logging configuration and repeated',
                   'thorough': 'every instance of size 0 and a denser stride of size 1'},
        'note': 'Two identical runs must write identical proof bytes, and every configuration must visit the same nodes, report the same solutions in the same order and count the same statistics.'},
    'P17': {
        'level': 'fault_enumeration',
        'technique': 'exhaustive enumeration of device faults: every byte offset and every write call of every output file, injected at the write system call under the real solver',
        'parts': [{'target': 'd_iofault', 'args': ['--mode', m]} for m in ('bytes', 'calls', 'long')],
        'evidence': {'states': ['search_nodes'], 'transitions': ['harmless', 'uncreatable', 'complete'], 'traces': ['faults'], 'nontrivial': ['reported'],
                     'meaning': 'a case is one run of the real solver under one fault plan: an output file, an offset and a kind of fault; non-trivial when bytes were refused and the error reached the caller'},
        'bounds': {'quick': 'every byte offset of the .opb, .pbp, .varmap and .scp files of a handful of problems under the proof options; first, second, middle and last byte of every write call for all families at size 0, every palette entry, and pigeonhole proofs of several megabytes; device full for good, refusing once, input/output error, partial and interrupted writes, files that cannot be created',
                   'thorough': 'six times as many problems for every byte offset, three times as many per family'},
        'note': 'A fault that loses a byte must reach the caller as an exception, what is left must be a prefix, and partial or interrupted writes must lose nothing.'},
    'P18': {
        'level': 'model_checking',
        'technique': 'exhaustive enumeration of constraint definitions across their contracts, of names, and of histories of definition operations on the real Problem, against an independent statement of the contracts',
        'parts': [{'target': 'd_reject', 'args': ['--mode', m]} for m in ('contracts', 'names', 'histories')],
        'evidence': {'states': ['definitions', 'histories', 'search_nodes'], 'transitions': ['operations', 'assignments_judged', 'rejected'], 'traces': ['accepted', 'names'],
                     'meaning': 'states: constraint definitions posted and solved, histories of definition operations, search nodes of accepted definitions; transitions: definition operations, refusals with the right error, assignments judged for accepted definitions; traces: accepted definitions whose solution set was compared, names classified'},
        'bounds': {'quick': 'every combination of array lengths 0 to 3 and boundary parameters per constraint, every name to length 5 over eleven significant characters, every history of four operations over 26',
                   'thorough': 'names to length 6, histories of five operations'},
        'note': 'A definition outside the documented contract must raise a problem-definition error and never be solved; one inside must be accepted with exactly its solutions.'},
    'P19': {
        'level': 'model_checking',
        'technique': 'exhaustive enumeration of FlatZinc models over every builtin and argument form and of ways of asking, run through the real front end and compared with brute force',
        'parts': [{'target': 'd_fzn', 'args': ['--mode', m]} for m in ('single', 'pairs', 'reject')],
        'evidence': {'states': ['solutions'], 'transitions': ['runs', 'steps'], 'traces': ['runs'], 'nontrivial': ['proofs', 'refused', 'rejected', 'interrupted'],
                     'meaning': 'states: solutions printed and judged; transitions: runs of the front end on one model under one set of options, proof steps checked; non-trivial: proofs checked, refusals and malformed models judged, runs interrupted by a signal'},
        'bounds': {'quick': 'every builtin with every combination of array lengths (up to 3), variables, constants, repeated variables, inline and named arrays, under twenty ways of asking in rotation (all, some, optimise, annotations, restarts, presolver, proofs, signals after the k-th solution); all ordered pairs of builtins over shared variables; malformed models (every prefix of a file, every argument missing, unknown or null, every inconsistent size) and command lines',
                   'thorough': 'every combination of arguments under eight ways of asking, sixty variants of every pair'},
        'note': 'Output must be exactly the FlatZinc solutions in the required format with a truthful verdict; whatever is not understood must fail with a message. The MiniZinc library redefinitions are not executed (no MiniZinc here).'},
    'P20': unit('integer', 'exhaustive enumeration of operand pairs over a boundary-closed set, against wide arithmetic',
                ['operations'], ['predicate_evaluations'], ['operands'],
                'states: operations on one operand pair compared with the exact result; transitions: overflow predicates evaluated; traces: operands whose whole row was enumerated',
                'all pairs of a boundary-closed operand set (0, powers of two, square roots of the limits, the limits, each with neighbours); all pairs for 8-bit predicates'),
    'P21': unit('intervals', 'explicit-state exploration of the real containers: every operation from every reachable set, compared with a bit mask',
                ['states', 'tree_states'], ['transitions', 'tree_queries'], ['pairs_checked'],
                'states: sets reached and trees built; transitions: operations applied and tree queries judged; traces: ordered pairs of sets compared under every binary operation',
                'all sets over universes of 8 to 11 values (thorough 13) at several bases, all interval-tree insertion sequences to depth 5-6 (thorough 6-8)'),
    'P23': unit('regex', 'exhaustive enumeration of expressions and words, the real automaton compared with a denotational semantics',
                ['automaton_states'], ['words_judged'], ['expressions'],
                'states: automaton states stepped; transitions: words judged; traces: expressions compiled or rejected',
                'every string to a length over the syntax alphabets and every syntax tree to a size; every word to a length'),
    'P24': unit('sexpr', 'exhaustive enumeration of texts and trees, the real parser and printer compared with an independent reader',
                ['texts'], ['accepted'], ['trees', 'tree_pairs'],
                'states: texts parsed; transitions: accepted texts printed and read back; traces: trees and pairs of trees printed and compared',
                'every text to length 9 over the significant characters and every tree to a size'),
    'P25': unit('bits', 'exhaustive enumeration of bound pairs and bit patterns',
                ['bit_patterns'], ['bound_pairs'], ['bound_pairs'],
                'states: bit patterns evaluated; transitions and traces: bound pairs whose encoding was judged',
                'every pair of bounds around zero and every pair of a boundary-closed set'),
    'P26': unit('bounds', 'exhaustive enumeration of operand boxes, the real bounds compared with enumerated or wide-integer results',
                ['boxes'], ['scalar_cases'], ['boxes'],
                'states and traces: boxes whose bounds were compared with the enumerated relation; transitions: scalar operand cases',
                'every box within a range, and boundary-closed operands at the integer limits'),
    'P27': unit('views', 'exhaustive enumeration of operator chains and expression programs, evaluated under all assignments',
                ['states'], ['transitions', 'evaluations'], ['pairs'],
                'states: objects built; transitions: operators applied and evaluations compared; traces: ordered pairs compared for order and equality',
                'every operator chain to a depth over small operands under every assignment'),
    'P28': unit('luby', 'exhaustive enumeration of positions, scales and read/copy/advance histories',
                ['terms'], ['histories'], ['histories'],
                'states: terms compared; transitions and traces: histories of reads, advances and copies',
                'the first 262143 terms at each scale, and every history to a depth'),
    'P29': unit('array', 'explicit enumeration of ownership histories on the real handles with instrumented payloads',
                ['histories'], ['transitions'], ['histories'],
                'states and traces: operation histories; transitions: operations applied, each followed by a full comparison with the model',
                'every history of construct/copy/move/assign/destroy operations over three handles to depth 5 (thorough 6)'),
}
