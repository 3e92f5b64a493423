"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe or [], 'hook_needed': None}})


p('C01', 'QF_LRA answers are correct',
  'For every well-formed QF_LRA script, check-sat terminates normally and prints sat if and only if the conjunction of the assertions made so far has a model over the Booleans and the reals, and unsat otherwise. It never aborts, and never answers wrongly, whatever the shape of the formula (nested ite, let, defined functions, n-ary operators) and the size of the rational constants.',
  ['inputs'], 'all well-formed QF_LRA scripts (over Bool and Real constants, linear arithmetic, every Boolean connective, let, define-fun)',
  'The test suite parses a few dozen fixed formulas; a wrong answer needs a particular combination of conflicts, restarts, constants or operators which no fixed list contains.',
  ['src/Solver.cpp', 'src/lra/Linear_arithmetic.cpp', 'src/lra/Lra_conflict_analysis.cpp', 'src/lra/Bounds.cpp', 'src/bool/Bool_theory.cpp', 'src/Conflict_analysis.cpp', 'src/parser/Solver_wrapper.cpp', 'src/terms/Term_manager.cpp'],
  [('search loop', 'src/Solver.cpp Solver::check'), ('LRA propagation, bounds and conflicts', 'src/lra/Linear_arithmetic.cpp'), ('translation of terms to clauses', 'src/parser/Solver_wrapper.cpp Internalizer_config::visit')],
  ['stdout of the smt executable'])
p('C02', 'Printed QF_LRA models satisfy every assertion',
  'After a sat answer in QF_LRA, get-model prints a well-formed SMT-LIB model: each declared constant at most once, with its declared sort and a Boolean or exact rational literal of that sort, readable back under the name it was declared with. Every assertion made so far evaluates to true, in exact arithmetic, under the printed values, constants which are not printed being free.',
  ['inputs'], 'all satisfiable QF_LRA scripts followed by get-model',
  'Tests evaluate a handful of models, mostly through internal interfaces; model correctness is a claim about every satisfiable formula and every value the search may choose.',
  ['src/parser/Smt2_parser.cpp', 'src/parser/Solver_wrapper.cpp', 'src/lra/Linear_arithmetic.cpp', 'src/lra/Long_fraction.cpp'],
  [('model printing', 'src/parser/Smt2_parser.cpp Print_model'), ('values of variables', 'src/lra/Linear_arithmetic.cpp decide / find_integer'), ('mapping from terms to values', 'src/parser/Solver_wrapper.cpp model')],
  ['stdout of the smt executable'])
p('C03', 'Options and build type never change an answer',
  'For every script, the sequence of sat/unsat answers is the same under every combination of the solver options (deciding forced rational variables first, bound deduction, phase selection, statistics) and in builds with and without internal assertions. Every such run terminates normally, and every model printed in any of these configurations satisfies the assertions.',
  ['inputs', 'configurations'], 'all scripts x 2 (prop-rational) x 2 (deduce-bounds) x 3 (phase) x 2 (print-stats) x assertion setting',
  'The tests run with default options almost exclusively and in one build type; optional propagation is exercised by a few component tests only.',
  ['src/smt_solver.cpp', 'src/Yaga.cpp', 'src/lra/Linear_arithmetic.cpp', 'src/lra/Bounds.cpp', 'src/variable_order/Generalized_vsids.cpp', 'src/bool/Bool_theory.cpp'],
  [('options are passed to the theories', 'src/Yaga.cpp Qf_lra::setup'), ('bound deduction', 'src/lra/Bounds.cpp deduce'), ('effectively decided variables', 'src/variable_order/Generalized_vsids.cpp pick_effectively_decided')])
p('C04', 'QF_UFLRA answers are correct',
  'For every well-formed QF_UFLRA script, check-sat terminates normally and prints sat if and only if the assertions made so far are satisfiable in linear real arithmetic combined with uninterpreted functions, whose arguments and results may be Real or Bool, nested and mixed with arithmetic.',
  ['inputs'], 'all well-formed QF_UFLRA scripts',
  'Five tests cover uninterpreted functions; functional consistency conflicts interact with backtracking, Boolean arguments and arithmetic in ways no fixed list reaches.',
  ['src/uf/Uninterpreted_functions.cpp', 'src/parser/Solver_wrapper.cpp', 'src/utils/Linear_polynomial.cpp', 'src/Solver.cpp'],
  [('function table and congruence conflicts', 'src/uf/Uninterpreted_functions.cpp add_function_value / assert_equality'), ('table maintenance on backtracking', 'src/uf/Uninterpreted_functions.cpp on_before_backtrack')],
  ['stdout of the smt executable'])
p('C05', 'Printed QF_UFLRA models are functions that satisfy every assertion',
  'After a sat answer in QF_UFLRA, get-model prints total, well-sorted definitions with the declared signature for functions, and values for constants. Every assertion made so far evaluates to true under the printed definitions, symbols which are not printed being free.',
  ['inputs'], 'all satisfiable QF_UFLRA scripts followed by get-model',
  'One test looks at a function model; whether the final function table agrees with every application in the formula depends on the whole search history.',
  ['src/uf/Uninterpreted_functions.cpp', 'src/parser/Smt2_parser.cpp', 'src/parser/Solver_wrapper.cpp'],
  [('function model extraction', 'src/uf/Uninterpreted_functions.cpp get_model'), ('printing of function definitions', 'src/parser/Smt2_parser.cpp Print_model::visit_fnc')])
p('C06', 'DIMACS front end: answer and exit code match the formula',
  'For every well-formed DIMACS CNF file, the sat executable terminates, prints SAT and exits with 1 if the formula is satisfiable, and prints UNSAT and exits with 0 otherwise, never printing ERROR. This holds for clauses spanning lines, comments anywhere between lines, unit, duplicate-literal and tautological clauses, empty clauses and empty formulas; malformed files (missing or duplicate header, clause before header, out-of-range literal, missing clauses) are reported on standard error with exit code 255 and no answer.',
  ['inputs'], 'all DIMACS files',
  'The executable has no tests at all; the SAT core is tested on two fixed formulas.',
  ['src/sat_solver.cpp', 'src/bool/Bool_theory.cpp', 'src/variable_order/Evsids.cpp', 'src/Solver.cpp'],
  [('DIMACS reader and exit codes', 'src/sat_solver.cpp main'), ('unit propagation', 'src/bool/Bool_theory.cpp'), ('decision order', 'src/variable_order/Evsids.cpp')])
p('C07', 'Term construction preserves meaning',
  'For every operator and every well-sorted argument list, the term built by the term interface (including all simplification, flattening and normalisation of Boolean and linear arithmetic terms) evaluates, under every assignment of its variables, to the value of the operator applied to the values of the arguments. The sort of the built term is the sort of the operator\'s result. A simultaneous substitution of variables yields a term with the value of the original one under the values of the substituted terms.',
  ['inputs', 'programs'], 'all sequences of term constructions over Bool and Real variables, all assignments',
  'Tests compare the result of a few constructions with the expected internal shape; that simplification is semantics-preserving is a statement about all terms and all assignments.',
  ['src/terms/Term_manager.cpp', 'src/terms/Terms.cpp', 'src/terms/Arithmetic_polynomial.h', 'src/terms/Term_rewriter.h'],
  [('simplifying constructors', 'src/terms/Term_manager.cpp mk_*'), ('polynomial normalisation', 'src/terms/Arithmetic_polynomial.h')])
p('C08', 'let and define-fun mean simultaneous, capture-free substitution',
  'A let binds its variables in parallel and only within its body, shadowing outer bindings and global symbols; an application of a defined function means its body with the actual arguments substituted for the formal parameters, for any nesting, repetition and shadowing. Consequently a script and the same script with all lets and defined functions expanded have the same answer, and a model printed for either satisfies both.',
  ['inputs', 'programs'], 'all scripts using let and define-fun',
  'A few tests parse one let or one define-fun; scoping errors appear only with shadowing, parallel bindings, nested definitions or repeated calls.',
  ['src/parser/Parser_context.cpp', 'src/parser/Parser_context.h', 'src/parser/Smt2_term_parser.cpp', 'src/terms/Term_rewriter.h'],
  [('binding scopes', 'src/parser/Parser_context.h Let_records'), ('parallel let', 'src/parser/Smt2_term_parser.cpp'), ('instantiation of function templates', 'src/parser/Parser_context.cpp resolve_defined_function; src/terms/Term_rewriter.h')])
p('C09', 'Terms are unique: same construction, same term; negation is an involution',
  'Within one term manager, repeating a construction with the same arguments yields the identical term, at any later time and however many terms were created in between; commuting the arguments of and, or, +, and of = between Boolean terms or between real variables and constants makes no difference. Negating twice gives back the original term, a term never equals its negation, each declared symbol has its own term, and every term keeps its kind, sort and arguments forever.',
  ['inputs', 'histories'], 'all sequences of term constructions, including hash table growth and collisions',
  'Tests build small terms in a fresh manager; table growth, collisions and late repetitions are never reached.',
  ['src/terms/Term_hash_table.cpp', 'src/terms/Term_hash_table.h', 'src/terms/Term_manager.cpp', 'src/terms/Terms.cpp'],
  [('hash consing', 'src/terms/Term_hash_table.cpp'), ('term storage', 'src/terms/Terms.cpp')])
p('C10', 'Rational arithmetic is exact',
  'Every rational operation used by the solver (construction, parsing, +, -, *, /, negation, inverse, absolute value, floor, ceiling, comparisons, hashing of equal values, conversion, printing) gives the exact mathematical result in lowest terms with a positive denominator, for operands of any magnitude and any mixture of small and arbitrary-precision representations. This includes compound assignment and operands that alias each other, copies and moves.',
  ['inputs', 'histories'], 'all sequences of operations on all rationals, in particular those around the limits of machine words',
  'Tests check a few dozen values; overflow defects sit at specific boundary pairs of the word-sized fast path.',
  ['src/lra/Long_fraction.h', 'src/lra/Long_fraction.cpp', 'src/lra/Rational.h'],
  [('word-sized fast path with overflow detection', 'src/lra/Long_fraction.h'), ('arbitrary-precision fallback', 'src/lra/Long_fraction.cpp')])
p('C11', 'Conflicts and learned clauses follow from the assertions',
  'Every clause the solver learns, and every conflict a theory reports, is a logical consequence of the asserted clauses together with the theory meaning of the atoms (linear real arithmetic and functional consistency), in every run and configuration. No search step, restart or clause simplification ever adds a constraint which excludes a model of the assertions.',
  ['inputs', 'histories', 'configurations'], 'every conflict and learned clause of every run',
  'Tests check a few conflict clauses built by hand; a clause that is not implied shows up as a wrong answer only when it happens to remove the last model.',
  ['src/Conflict_analysis.cpp', 'src/Conflict_analysis.h', 'src/lra/Lra_conflict_analysis.cpp', 'src/lra/Lra_conflict_analysis.h', 'src/uf/Uninterpreted_functions.cpp', 'src/Subsumption.cpp', 'src/lra/Bounds.cpp'],
  [('resolution of conflicts', 'src/Conflict_analysis.h analyze'), ('Fourier-Motzkin explanations', 'src/lra/Lra_conflict_analysis.cpp'), ('clause minimisation', 'src/Subsumption.cpp minimize')])
p('C12', 'The partial assignment is consistent at every step and survives backtracking',
  'At every step of the search, a variable has a value if and only if it is on the assignment stack, at a decision level not above the current one; each level above zero starts with its decision; a variable propagated by a clause has that clause satisfied by it alone, all its other literals being false and assigned no later. Backtracking to a level keeps exactly the assignments of that and lower levels unchanged and removes all later ones, and a restart removes them all.',
  ['histories', 'inputs'], 'every state of every search',
  'Tests drive the trail through short fixed sequences; corruption needs out-of-order propagation at lower levels combined with backtracking and restarts.',
  ['src/Trail.h', 'src/Trail.cpp', 'src/Model.h', 'src/Solver.cpp', 'src/bool/Bool_theory.cpp'],
  [('assignment stack', 'src/Trail.h decide / propagate / backtrack / clear'), ('backjump and restart', 'src/Solver.cpp backtrack_with / restart')])
p('C13', 'Propagation without conflict leaves nothing unit, falsified or inconsistent',
  'Whenever propagation finishes without a conflict, no clause in the database is falsified or unit (counting occurrences of literals) with its last literal unassigned, every arithmetic atom whose variables all have values has the truth value they imply, every real variable without a value still has an allowed value, and applications of one function to equal argument values have equal result values. In particular a decision is made only in such a state, and sat is answered only in such a state with every variable assigned.',
  ['histories', 'inputs'], 'every propagation fixpoint of every search',
  'Tests run propagation on a few hand-built trails; missed watches need particular orders of assignment, backtracking and clause learning.',
  ['src/bool/Bool_theory.cpp', 'src/lra/Linear_arithmetic.cpp', 'src/uf/Uninterpreted_functions.cpp', 'src/Theory_combination.cpp'],
  [('watched literals', 'src/bool/Bool_theory.cpp falsified'), ('watched arithmetic variables', 'src/lra/Linear_arithmetic.cpp replace_watch'), ('combined fixpoint', 'src/Theory_combination.cpp propagate')])
p('C14', 'Tracked bounds are exactly what the assignment implies',
  'At every propagation fixpoint, the bounds and forbidden values tracked for a real variable without a value are implied by the arithmetic atoms and values currently assigned, and are at least as tight as every bound implied by an assigned atom in which it is the only variable left. Bounds never outlive the assignments they were derived from, and a value chosen for a variable satisfies all of them.',
  ['histories', 'inputs', 'configurations'], 'every propagation fixpoint of every search, with and without bound deduction',
  'Tests check bounds after a few fixed steps; stale or missing bounds need backtracking and reassignment in particular orders.',
  ['src/lra/Bounds.cpp', 'src/lra/Bounds.h', 'src/lra/Variable_bounds.h', 'src/lra/Linear_arithmetic.cpp'],
  [('lazy removal of obsolete bounds', 'src/lra/Variable_bounds.h is_obsolete'), ('bound computation', 'src/lra/Bounds.cpp update / deduce'), ('choice of values', 'src/lra/Linear_arithmetic.cpp decide')])
p('C15', 'Linear constraints are normalised and shared without changing their meaning',
  'A linear constraint created from any distinct variables, coefficients (including zero), predicate and right-hand side denotes the same set of points as its definition, and its negation denotes the complement. Two constraints which are positive multiples of each other, or complements of each other, share one Boolean variable with the appropriate polarity, and constraints with different solution sets never do.',
  ['inputs', 'histories'], 'all sequences of constraint creations',
  'Tests compare a dozen fixed constraints; sign handling, strictness and hashing interact for all inputs.',
  ['src/lra/Linear_constraints.h', 'src/lra/Linear_constraint.h'],
  [('normalisation', 'src/lra/Linear_constraints.h make / normalize'), ('deduplication', 'src/lra/Linear_constraints.h')])
p('C16', 'Clause simplification removes only redundancy',
  'Removing learned clauses discards a clause only if a clause that is kept is a subset of it, changes no other clause, and leaves no learned clause that is a proper superset of another. Minimising a new clause only drops literals, never the asserting one, and the smaller clause still follows from it and the reasons of the assignment.',
  ['inputs', 'histories'], 'all clause databases and assignments, all sequences of learning and restarts',
  'Two tests look at one database each; signatures, occurrence lists and the old/new boundary matter only for other sizes and histories.',
  ['src/Subsumption.cpp', 'src/Subsumption.h', 'src/Literal_map.h'],
  [('subsumption by occurrence lists', 'src/Subsumption.cpp remove_subsumed'), ('self-subsuming resolution', 'src/Subsumption.cpp minimize')])
p('C17', 'Decision heuristics: no variable is lost, the best one is picked',
  'A decision heuristic returns an unassigned variable as long as there is one and nothing only when all are assigned, across any history of resizing, scoring, backtracking and restarts. The variable has the highest score among the unassigned ones (after forced rational variables, when there are any), the priority queue always yields its elements in score order, and rescaling scores never changes their order. A combination of heuristics picks what its first part with a variable to offer picks, each part seeing the same events as on its own.',
  ['histories'], 'all sequences of heuristic events',
  'Tests push a few variables through the queue; a lost or misplaced variable needs particular interleavings of updates, removals and rescaling.',
  ['src/variable_order/Generalized_vsids.cpp', 'src/variable_order/Evsids.cpp', 'src/variable_order/First_unassigned.cpp', 'src/variable_order/Variable_priority_queue.cpp', 'src/variable_order/Variable_priority_queue.h', 'src/variable_order/Combined_order.h'],
  [('priority queue', 'src/variable_order/Variable_priority_queue.cpp'), ('scores', 'src/variable_order/Generalized_vsids.h bump / decay')])
p('C18', 'Restart policies follow their definitions',
  'The geometric-window policy asks for a restart exactly when at least the minimum number of clauses was learned since the last restart and the fast average of the numbers of distinct decision levels per learned clause reaches the threshold times the slow average. The Luby policy asks for its i-th restart exactly after the i-th term of the Luby sequence times its multiplier clauses since the previous one, and the policy without restarts never does.',
  ['histories'], 'all sequences of learned clauses and restarts',
  'Tests check 15 terms of the sequence and three short histories.',
  ['src/Restart.h'], [('Luby sequence', 'src/Restart.h Luby_restart'), ('LBD averages', 'src/Restart.h Glucose_restart')])
p('C19', 'No input makes the executables read or write out of bounds, or crash',
  'For every input file, well-formed or not, in SMT-LIB or DIMACS format and under every option combination, the executables never access memory out of bounds or after it is freed, never execute undefined behaviour, never violate an internal assertion, and never die from a signal or an uncaught exception.',
  ['inputs', 'configurations'], 'all byte sequences as input',
  'Tests feed well-formed inputs without sanitizers.',
  ['src/parser/Smt2_parser.cpp', 'src/parser/Smt2_term_parser.cpp', 'src/parser/smt2_lexer.ll', 'src/sat_solver.cpp', 'src/terms/Term_manager.cpp', 'src/lra/Lra_conflict_analysis.cpp'],
  [('parser error handling', 'src/parser/Smt2_parser.cpp'), ('clause storage with stable addresses', 'src/Database.h')])
p('C20', 'The output depends only on the input and the options',
  'Running the same script with the same options always prints exactly the same bytes: in another process, with other memory addresses and heap contents, with another environment, and after any other scripts were solved in the same process by other solver instances.',
  ['inputs', 'histories', 'configurations'], 'all scripts, all process environments, all preceding activity in the process',
  'Each test runs once in one process; dependence on addresses, uninitialised memory or state shared between instances cannot show.',
  ['src/terms/Term_hash_table.cpp', 'src/Conflict_analysis.cpp', 'src/lra/Linear_constraints.h', 'src/parser/Solver_wrapper.cpp'],
  [('iteration order of hash maps', 'src/parser/Solver_wrapper.cpp'), ('canonical order of conflict literals', 'src/Conflict_analysis.cpp finish')])
p('C21', 'Erroneous commands are reported and have no effect on later answers',
  'An erroneous assertion (unknown or misapplied symbol, wrong number or sort of arguments, nonlinear term, non-Boolean assertion) prints one error response and is otherwise ignored: all later commands are answered as if that command were absent. Any other erroneous command (redeclaration, unknown sort, ill-typed definition, unsupported command or logic) prints an error and neither an answer nor a model, and every answer printed after it is the same as without it; get-model without a preceding sat answer prints an error.',
  ['inputs', 'histories'], 'all scripts with erroneous commands inserted at any position',
  'No test gives the parser an erroneous script.',
  ['src/parser/Smt2_parser.cpp', 'src/parser/Smt2_term_parser.cpp', 'src/parser/Parser_context.cpp', 'src/terms/Term_manager.cpp'],
  [('error recovery', 'src/parser/Smt2_parser.cpp parse_command'), ('sort and arity checks', 'src/terms/Term_manager.cpp mk_term; src/parser/Parser_context.cpp check_args')])
p('C22', 'Statistics count exactly what happened in the check',
  'The numbers of conflicts, conflict clauses, learned clauses, decisions and restarts printed for a check-sat that enters the search equal the numbers of those events during that check, starting from zero for each check, and printing statistics changes nothing else in the output.',
  ['inputs', 'histories'], 'all runs',
  'No test reads the counters.',
  ['src/Solver.cpp', 'src/Solver.h', 'src/parser/Solver_wrapper.cpp'],
  [('counters', 'src/Solver.cpp check / learn / restart / init')])
p('C23', 'The phase option decides the value of every Boolean decision',
  'Every Boolean decision takes the value true under the positive phase (the default), false under the negative phase, and under the cached phase the last value the variable had before it lost it (true if it never had one). Literals chosen to split a conflict are the only exception.',
  ['histories', 'configurations'], 'every Boolean decision of every run under every phase option',
  'Tests only ever decide with the default phase.',
  ['src/bool/Bool_theory.cpp', 'src/bool/Bool_theory.h', 'src/smt_solver.cpp', 'src/Yaga.cpp'],
  [('phase selection', 'src/bool/Bool_theory.cpp decide / on_before_backtrack')])
p('C24', 'Repeated check-sat commands answer for the assertions at that point',
  'In a script with several check-sat commands, each answer and each model is correct for the conjunction of exactly the assertions before it, whatever checks, models, declarations and assertions came in between. The answers equal those of a fresh script with the same declarations and assertions and only that check; once unsat, later checks stay unsat.',
  ['histories', 'inputs'], 'all interleavings of declarations, definitions, assertions, check-sat and get-model',
  'Every test performs a single check per solver.',
  ['src/parser/Solver_wrapper.cpp', 'src/Solver.cpp', 'src/Yaga.cpp', 'src/Subsumption.cpp'],
  [('state reset between checks', 'src/parser/Solver_wrapper.cpp check; src/Yaga.cpp init; src/Solver.cpp init')])
p('C25', 'Every conflict makes progress',
  'Each learned clause is false under the assignment at the time of the conflict, and the following backjump removes at least one decision and, unless it is a restart, makes one of its literals true: the implied one, or, if several share the highest level, one of those as a decision replacing a decision on a real variable. The search therefore never repeats a conflict in the same context and answers small formulas within a bounded number of conflicts.',
  ['histories', 'inputs'], 'every conflict of every run; formulas with up to 40 variables for the bound',
  'Tests observe single conflicts; non-termination and lost progress need long searches.',
  ['src/Solver.cpp', 'src/Conflict_analysis.cpp', 'src/Conflict_analysis.h'],
  [('backjump level', 'src/Conflict_analysis.cpp finish'), ('backtracking with learned clauses', 'src/Solver.cpp backtrack_with')])
p('C26', 'The programmatic interface solves what was asserted',
  'For every sequence of variable creations, linear constraints and clauses through the C++ facade, in every logic it offers and with every restart policy and decision heuristic it provides, the check returns sat if and only if the clauses and constraints are satisfiable. After sat, the values of all variables in the solver satisfy every clause and agree with every constraint; misuse (a constraint in a logic without arithmetic, an unknown variable) throws and leaves the solver usable.',
  ['programs', 'configurations'], 'all programs over the facade x restart policies x decision heuristics',
  'Tests use the facade for a handful of fixed formulas with one heuristic each.',
  ['src/Yaga.h', 'src/Yaga.cpp', 'src/Solver.h', 'src/Solver.cpp', 'src/Restart.h', 'src/variable_order/Combined_order.h'],
  [('facade', 'src/Yaga.h linear_constraint / assert_clause / make'), ('exchangeable heuristics', 'src/Solver.h set_restart_policy / set_variable_order')])
p('C27', 'Concrete syntax does not matter',
  'Comments, white space, line endings, quoting of symbols, and declare-const versus declare-fun never change any output of a script. Renaming symbols changes nothing but the names in printed models. The spelling of a rational constant (integer, decimal, fraction, reduced or not, sign inside or outside) never changes an answer, and models stay correct.',
  ['inputs'], 'all scripts, all respellings',
  'Parser tests use one spelling each.',
  ['src/parser/smt2_lexer.ll', 'src/parser/Flex_lexer.cpp', 'src/parser/Smt2_parser.cpp', 'src/parser/Smt2_term_parser.cpp', 'src/lra/Long_fraction.cpp'],
  [('lexer', 'src/parser/smt2_lexer.ll'), ('numerals and decimals', 'src/terms/Term_manager.cpp mk_integer_constant / mk_rational_constant')])
p('C28', 'The solver terminates on every input',
  'Every check-sat on a finite formula ends with an answer after finitely many steps.',
  ['inputs'], 'all scripts', 'Termination on every input is an unbounded liveness claim.',
  ['src/Solver.cpp'], [('termination argument of the search', 'src/Solver.cpp backtrack_with')])

p('C29', 'Components are told every event exactly once, and the search obeys them',
  'Every theory, decision heuristic and restart policy installed in a solver is told each event (initialization, change of the number of variables, backtracking, learned clause, resolution, restart) exactly once and in the same order as the others, from its installation until it is replaced, also if it is a member of a combination and also if the solver is moved. Events come when documented: initialization before the search starts, backtracking before the trail changes, learned clauses once they are in the database, resolutions with the clause that is the reason, restarts with an empty trail. Theories are asked to propagate until nothing new is assigned and are given every assignment by assigned(), a decision is made for the variable that was picked and only then, a restart happens exactly when the policy wants one, and the counters of the solver equal what the components observed.',
  ['histories', 'configurations'], 'all sequences of installations, replacements, moves, growth and checks x combinations of components; every event of every check',
  'Tests install components once and do not look at what they are told.',
  ['src/Event_dispatcher.h', 'src/Event_listener.h', 'src/Solver.h', 'src/Solver.cpp', 'src/Theory.cpp', 'src/Theory_combination.cpp', 'src/Theory_combination.h', 'src/variable_order/Combined_order.h', 'src/Trail.cpp'],
  [('delivery', 'src/Event_dispatcher.h; src/Theory_combination.cpp; src/variable_order/Combined_order.h'), ('exchange of components', 'src/Solver.h set_theory / set_variable_order / set_restart_policy'), ('the search loop', 'src/Solver.cpp check')])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
