#!/usr/bin/env python3
"""check.py <property id>... : decides properties of /repo's current source by static analysis."""
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from jomcheck.extract import AnalysisError
from jomcheck import prog as progmod, report
from jomcheck.rules import registry


def main():
    ids = sys.argv[1:]
    if ids == ['all']:
        ids = sorted(registry.CHECKS)
    worst = 0
    prog = None
    for pid in ids:
        t0 = time.time()
        rep = report.Report(pid)
        try:
            if prog is None:
                prog = progmod.Program()
            registry.run(pid, prog, rep)
            rc = report.finish(rep, t0, prog)
        except AnalysisError as e:
            # violations that were established before the analysis lost its footing count
            if rep.viol and report.finish(rep, t0, prog) == 1:
                rc = 1
            else:
                print('%s: analysis error: %s' % (pid, e))
                rc = 2
        except Exception:
            traceback.print_exc()
            print('%s: analysis error' % pid)
            rc = 2
        if os.environ.get('JOM_TIMES'):
            print('  %s %.1fs' % (pid, time.time() - t0))
        worst = max(worst, rc)
    return worst


if __name__ == '__main__':
    sys.exit(main())
