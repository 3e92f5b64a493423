"""rewrites the table of seeded bugs at the end of DESIGN.md"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TEXT = """Each was written from the text of a property and the code, builds, passes the tests, and has a demonstration; the check of
the property it names (column 1) catches it (quick tier, seed 1). Where a check first missed one, the workload or the
oracle was extended (wider sums and functions, lets that hide functions, near misses of subsumption, scripts with several
checks, components installed between checks, quoted symbols and carriage returns, degenerate constants, storms).

"""
EQUIV = """
Changes which looked like bugs but break no property (kept out of `seeded`): other orders of equal-score variables or of
conflicts; a watch list scanned twice; bounds recomputed later than necessary but before they are read; a stale entry which
the next lookup replaces; deduced bounds that are not found (best effort); removal of exact duplicates of learned clauses;
statistics of the final conflict at level 0 (by design not counted); a late assignment which is missing from intermediate
levels of the trail (its own level has it; C29 reports it as not handed out).
"""
rows = {}
for m in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d['needs'], d['what_it_breaks']))
t = '| property | change | needs | breaks |\n|---|---|---|---|\n'
for p in sorted(rows):
    for i, n, b in rows[p]:
        t += '| %s | `%s` | %s | %s |\n' % (p, i, n, b)
path = HERE + '/DESIGN.md'
s = open(path).read()
k = s.find('## Seeded bugs')
s = (s[:k] if k >= 0 else s.rstrip() + '\n\n') + '## Seeded bugs\n\n' + TEXT + t + EQUIV
open(path, 'w').write(s)
