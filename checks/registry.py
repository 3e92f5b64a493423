import e2e
import e2e2
import mon
import unit

Z3 = 'z3 is right about unsatisfiability of the generated formulas'
EVAL = "the exact evaluator in lib/smtast.py (rational arithmetic, SMT-LIB semantics)"

CHECKS = {
    'C01': (e2e.c01, 'seeded random scripts of 13 QF_LRA profiles; non-trivial: at least one assertion, distinct text', [Z3, EVAL]),
    'C02': (e2e.c02, 'as C01, biased to satisfiable ones; every printed model is evaluated exactly', [EVAL]),
    'C04': (e2e.c04, 'seeded random scripts of 5 QF_UFLRA profiles', [Z3, EVAL]),
    'C05': (e2e.c05, 'as C04; every printed model is evaluated exactly', [EVAL]),
    'C03': (e2e2.c03, 'each seeded random script under several option combinations and both builds; distinct (script, build, options)', [EVAL]),
    'C06': (e2e2.c06, 'seeded random DIMACS files; non-trivial: at least one clause', ['truth tables (up to 12 variables), otherwise z3']),
    'C08': (e2e2.c08, 'seeded random scripts with lets and defined functions, each paired with its expansion, or with all constants pinned', [EVAL]),
    'C19': (e2e2.c19, 'seeded random well-formed, mutated, erroneous and deeply nested inputs and command lines', ['AddressSanitizer, UBSan, libstdc++ assertions, valgrind memcheck and the assertions of the code are the oracle']),
    'C20': (e2e2.c20, 'seeded random scripts, each run in 4 environments; distinct (script, options)', []),
    'C21': (e2e2.c21, 'seeded random scripts with erroneous commands inserted; non-trivial: at least one', [EVAL]),
    'C24': (e2e2.c24, 'seeded random interleavings of declarations, assertions, checks and models', [EVAL]),
    'C07': (unit.c07, 'seeded random histories of term constructions, each built term compared with the reference value under several assignments; distinct histories', ['the reference semantics in harness/u_terms.cpp (GMP)']),
    'C09': (unit.c09, 'seeded random histories of term constructions, repeated and permuted at once and later; distinct histories', ['the shadow record in harness/u_terms.cpp']),
    'C10': (unit.c10, 'seeded random histories of rational operations and pairs of operands at the limits of machine words; distinct histories and pairs', ['GMP']),
    'C15': (unit.c15, 'seeded random histories of constraints (fresh, multiples, complements, permutations, near misses) in one repository; distinct histories', ['canonical forms and the evaluator in harness/u_lincons.cpp (GMP)']),
    'C16': (unit.c16, 'seeded random clause databases over several reductions, and random implication graphs with clauses to minimise; distinct databases and clauses', ['truth tables for minimised clauses']),
    'C17': (unit.c17, 'seeded random histories of queue operations and of search events; distinct histories', ['the reference model in harness/u_order.cpp']),
    'C18': (unit.c18, 'seeded random sequences of learned clauses and restarts; distinct histories', ['the reference model in harness/u_restart.cpp']),
    'C11': (mon.c11, 'seeded random scripts under random options, decision orders and restart schedules; distinct sets of asserted clauses', [Z3]),
    'C12': (mon.c12, 'as C11', ['the shadow record in harness/monitor.cpp', Z3]),
    'C13': (mon.c13, 'as C11', ['the evaluator in harness/monitor.cpp (GMP)']),
    'C14': (mon.c14, 'as C11', ['the recomputation in harness/monitor.cpp (GMP)', Z3]),
    'C22': (mon.c22, 'as C11', []),
    'C23': (mon.c23, 'as C11', []),
    'C25': (mon.c25, 'as C11', []),
    'C26': (unit.c26, 'seeded random programs of variables, constraints, functions, clauses, checks and misuse in all logics, with all restart policies and heuristics; distinct programs', [Z3, 'the exact evaluator in harness/u_facade.cpp (GMP)']),
    'C27': (e2e2.c27, 'seeded random scripts, each respelled twice and renamed once', []),
    'C29': (unit.c29, 'seeded random programs of installed, replaced and added components, moved and growing solvers and checks, and of listeners added to and removed from a dispatcher; distinct programs at each check', ['the protocol automaton in harness/u_events.cpp']),
}
