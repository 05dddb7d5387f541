"""Reproduce a violation: python sim/replay.py FILE [--trace]"""

import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import check, run                                      # noqa: E402


def main():
    with open(sys.argv[1]) as f:
        r = json.load(f)
    import sim.cases                                            # noqa: F401
    case = run.REGISTRY[r['case']]
    out = run.evaluate(case, r['params'], r['config'], r['deviations'], True)
    if '--trace' in sys.argv:
        for i, t in enumerate(out.env.traces or []):
            print('--- world %d' % i)
            for rank, label in t or []:
                print('%3d %s' % (rank, label))
    if out.violation is None:
        print('no violation%s' % (' (%s)' % out.harness if out.harness
            else ''))
        return 0
    same = out.violation.message == r['message'] \
        and out.digest() == r['digest']
    print('%s: %s' % (out.violation.kind, out.violation.message))
    print('identical execution' if same else 'execution differs from record')
    return 1


if __name__ == '__main__':
    sys.exit(main())
