#!/usr/bin/env python3-vt
"""checks/run.py <property> [--only stage:case]   (VERIF_SEED, VERIF_TIER from the environment)"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'lib'))
sys.path.insert(0, HERE)
sys.setrecursionlimit(10000)

import build
import check
import registry


def main():
    pid = sys.argv[1]
    only = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == '--only' else None
    fn, rule, assumptions = registry.CHECKS[pid]
    chk = check.Check(pid, rule)
    chk.assumptions = assumptions
    try:
        fn(chk)
    except build.BuildError as e:
        sys.stderr.write('build failed: %s\n' % e)
        return 2
    return chk.run(only)


if __name__ == '__main__':
    sys.exit(main())
