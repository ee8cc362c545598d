#!/usr/bin/env python3-vt
"""Entry point: run.py C01 [--tier quick|thorough] | run.py --replay FILE"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--case')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args()
    from sx import driver
    if a.replay:
        sys.exit(driver.do_replay(a.replay))
    budget = a.budget or (420 if a.tier == 'quick' else 840)
    sys.exit(driver.main(a.prop, a.tier, a.seed, budget, a.case, a.v, a.jobs))
