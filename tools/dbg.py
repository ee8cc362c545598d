#!/usr/bin/env python3
"""dbg.py REPLAYFILE: re-run a counterexample on the real code, printing manifests and replies."""
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, 'checks')]
from sx import driver, harness

harness.install()
d = json.load(open(sys.argv[1]))
pm = driver.plain_module(os.path.join(ROOT, d['check']))
C = pm.C
MP = getattr(pm, 'MP', pm.C)
o1, o2, o3 = C.get_media, getattr(MP, 'get', None), harness.Base.attempt


def gm(h, url, now, chunk=False):
    r = o1(h, url, now, chunk)
    print('GET', url, 'at', now, '->', r if isinstance(r, dict) else len(r), file=sys.__stderr__)
    return r


def mg(h, c, url, now, prov=None):
    r = o2(h, c, url, now, prov)
    print('MPD', url, 'at', now, file=sys.__stderr__)
    print(r, file=sys.__stderr__)
    return r


def at(self, fn, *a, **k):
    r = o3(self, fn, *a, **k)
    if r[0] != 'ok':
        print('RAISED', r, file=sys.__stderr__)
    return r


C.get_media, MP.get, harness.Base.attempt = gm, mg, at
print(driver.run_concrete(pm.run, d['case'], d['inputs'], d['tier'], world=harness.ImportWorld(), limit=60)[:2])
