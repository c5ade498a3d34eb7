#!/usr/bin/env python3
"""Decide one property:  check.py C04 [--tier quick|thorough] [--runs N]."""
import argparse
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('DST_REPO', '/repo'))

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    from dst import runner
    sys.exit(runner.check(a.property, a.tier, a.seed, a.runs, a.workers,
                          not a.no_evidence))
