#!/usr/bin/env python3
"""Re-execute a replay file exactly: exit 1 if the violation is reproduced."""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('DST_REPO', '/repo'))

if __name__ == '__main__':
    from dst import runner
    ok, rep, res = runner.run_replay(sys.argv[1])
    if '--quiet' not in sys.argv:
        for line in res.get('lines', []):
            print(line)
        print(res['kind'], res['msg'])
    if ok:
        print('VIOLATION property=%s replay=%s' % (rep['property'], sys.argv[1]))
        sys.exit(1)
    print('not reproduced: %s %s %s (log %s, expected %s)' % (
        res['status'], res['kind'], (res['msg'] or '')[-800:], res['hash'], rep['log_hash']))
    sys.exit(0)
