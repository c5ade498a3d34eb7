#!/opt/venv/bin/python
"""Determinism self-test: the same seeds, in fresh interpreters, with other
hash seeds and worker counts, must give the same event logs.

    tools/determinism.py [--runs N] [C01 C02 ...]
"""
import argparse
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ONE = '''
import sys, json
sys.path[:0] = [%r, %r]
from dst import runner
pid, seed, runs, workers = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
mod = runner.load_prop(pid)
mod.setup()
t = runner.batch(mod, pid, 'quick', seed, runs, workers, keep_going=True,
                 known=runner.known_findings(pid))
json.dump({str(k): v for k, v in t.hashes.items()}, sys.stdout)
''' % (HERE, os.environ.get("DST_REPO", "/repo"))


def logs(pid, seed, runs, workers, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-c', ONE, pid, str(seed), str(runs), str(workers)],
                       env=env, stdout=subprocess.PIPE, check=True)
    return json.loads(p.stdout.decode().splitlines()[-1])


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('--runs', type=int, default=400)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('properties', nargs='*')
    a = ap.parse_args()
    bad = 0
    for pid in a.properties or ['C%02d' % i for i in range(1, 17)]:
        base = logs(pid, a.seed, a.runs, 8, 0)
        for workers, hs in ((3, 1), (8, 77), (5, 4242)):
            other = logs(pid, a.seed, a.runs, workers, hs)
            diff = sorted((int(k) for k in base if base[k] != other.get(k)))
            if diff or len(base) != len(other):
                bad += 1
                print('%s: %d workers, hash seed %d: %d of %d logs differ: %s' % (
                    pid, workers, hs, len(diff), len(base), diff[:10]))
        print(pid, len(base), 'runs compared four times')
    sys.exit(1 if bad else 0)
