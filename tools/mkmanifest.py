"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(V, 'lib'))
sys.path.insert(0, os.path.join(V, 'checks'))
import registry

TECH = {
    'C01': 'runtime monitoring: real solver (asserts, sanitizers) on generated scripts, offline oracle (exact evaluation of models, z3 for unsat)',
    'C02': 'runtime monitoring: offline exact evaluation of every printed model',
    'C03': 'runtime monitoring: differential oracle over options and builds',
    'C04': 'runtime monitoring: real solver on generated UF scripts, offline oracle (exact evaluation, z3)',
    'C05': 'runtime monitoring: offline exact evaluation of every printed model with function interpretations',
    'C06': 'runtime monitoring: real sat executable, exhaustive truth-table / z3 oracle and exit code',
    'C08': 'runtime monitoring: metamorphic oracle (script vs its expansion; pinned inputs vs exact evaluator)',
    'C19': 'AddressSanitizer, UBSan, libstdc++ assertions, internal assertions and valgrind memcheck under hostile inputs',
    'C20': 'runtime monitoring: byte comparison of outputs over perturbed processes and histories',
    'C21': 'runtime monitoring: online response checker, paired run without the erroneous commands',
    'C24': 'runtime monitoring: per-check oracle over recorded command histories',
    'C27': 'runtime monitoring: metamorphic oracle over respelled scripts',
}
MON = 'runtime monitoring: online monitor attached to the real search (theory/order/restart/initializer interfaces), '
TECH.update({
    'C11': MON + 'z3 decides implication of every sampled learned clause and conflict',
    'C12': MON + 'shadow trail compared at every event',
    'C13': MON + 'independent fixpoint checker at every decision and answer',
    'C14': MON + 'independently recomputed bounds at every fixpoint',
    'C22': MON + 'event counts compared with the printed statistics',
    'C23': MON + 'own record of last values compared with every Boolean decision',
    'C25': MON + 'progress checker over conflicts and backjumps',
    'C07': 'runtime monitoring: random programs against the term interface, executable reference semantics',
    'C09': 'runtime monitoring: random construction histories, shadow record of every term',
    'C10': 'runtime monitoring: random operation histories, GMP as the reference model, sanitizers',
    'C15': 'runtime monitoring: random constraints against canonical forms, and a monitor in the real search',
    'C16': 'runtime monitoring: shadow copy of the clause database around every reduction, and random databases',
    'C17': 'runtime monitoring: reference model of the queue and heuristics under random histories, and a monitor in the real search',
    'C18': 'runtime monitoring: reference model of the policies under random histories, and a monitor in the real search',
    'C26': 'runtime monitoring: random programs against the facade, exact evaluation of models, z3',
    'C29': 'runtime monitoring: recording components in the real solver, protocol automaton over their event logs, sanitizers',
})
NOTE = {}
DEFAULT_NOTE = 'Held on the executions explored (counts in the evidence file); nothing is claimed about executions not driven.'
NA = {'C28': 'Unbounded termination is a liveness property which no finite execution can refute or confirm; its bounded part (progress at every conflict, a cap on conflicts of small formulas) is C25.'}

checks = []
for pid in sorted(registry.CHECKS):
    checks.append({
        'property': pid,
        'quick_cmd': 'python3-vt checks/run.py %s' % pid,
        'thorough_cmd': 'VERIF_TIER=thorough python3-vt checks/run.py %s' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': TECH[pid],
        'level': 'exploration',
        'level_note': NOTE.get(pid, DEFAULT_NOTE) + ' Trusted: ' + ('; '.join(registry.CHECKS[pid][2]) or 'the comparison itself') + '.',
    })
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
na = [{'property': p, 'reason': NA.get(p, 'check under construction')} for p in props if p not in registry.CHECKS]
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks rebuild from /repo into /verif/.build (content-addressed object cache). No hooks are needed in /repo: the monitors attach through the public extension interfaces of the solver.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
