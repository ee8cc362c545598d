#!/usr/bin/env python3
"""Mutation round: apply each mutant of a spec to a scratch copy, run the listed checks on the copy.

usage: mut.py SPEC.py [-j N] [id ...]    SPEC defines M = [(id, 'C01 C05', file, old, new)]"""
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(m):
    name, checks, file, old, new = m
    d = '/tmp/muts/w_' + name
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.environ.get('BASE', '/repo'), d, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    try:
        p = os.path.join(d, 'dashlivesim', file)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            return '%-28s TEXT %d times' % (name, n)
        open(p, 'w').write(s.replace(old, new))
        t = subprocess.run('mkdir -p dashlivesim/tests/out_test; PYTHONDONTWRITEBYTECODE=1 PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 TZ=UTC '
                           '/opt/venv/bin/python -m pytest dashlivesim/tests -q -p no:cacheprovider', shell=True, cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout.strip().splitlines()[-1]
        tests = 'tests-ok  ' if '107 passed' in t and 'failed' not in t else 'tests-FAIL'
        out = []
        for c in checks.split():
            r = subprocess.run(['python3-vt', 'run.py', c, '-v'], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, env=dict(os.environ, SX_REPO=d, SX_EVIDENCE=d + '/ev'))
            open('/tmp/muts/%s.%s.log' % (name, c), 'w').write(r.stdout)
            v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
            out.append('%s:%s' % (c, 'caught' if r.returncode == 1 and v else 'SURVIVED' if r.returncode == 0 else 'rc%d' % r.returncode))
            if v:
                break
        return '%-28s %s %s' % (name, tests, ' '.join(out))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    ns = {}
    exec(open(a.pop(0)).read(), ns)
    j = 2
    if '-j' in a:
        i = a.index('-j')
        j = int(a[i + 1])
        del a[i:i + 2]
    ms = [m for m in ns['M'] if not a or m[0] in a]
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(one, ms):
            print(r, flush=True)


main()
