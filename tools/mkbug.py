#!/usr/bin/env python3
"""Make planted bugs from a spec file and confirm each in a scratch copy.

usage: mkbug.py SPEC.py [id ...]    SPEC defines BUGS = [dict(id, property, file, old, new, demo, needs, breaks)]
(edits=[(file, old, new), ...] for several sites)"""
import json
import os
import shutil
import subprocess
import sys

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')


def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def make(b, lib):
    wt = '/tmp/bugwt'
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree('/repo', wt, symlinks=True)
    d = os.path.join(SEEDED, b['id'])
    os.makedirs(d, exist_ok=True)
    try:
        open(d + '/demo.py', 'w').write('from simlib import *  # noqa\n' + b['demo'])
        shutil.copy(lib, d + '/simlib.py')
        open(d + '/demo.sh', 'w').write('#!/bin/sh\nPYTHONPATH="$(dirname "$0")" PYTHONDONTWRITEBYTECODE=1 '
                                        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        rc, out = sh('sh %s/demo.sh' % d, cwd=wt)
        if rc != 0:
            return 'demo fails on the unchanged tree:\n' + out
        for f, old, new in b.get('edits') or [(b['file'], b['old'], b['new'])]:
            p = os.path.join(wt, 'dashlivesim', f)
            s = open(p).read()
            if s.count(old) != 1:
                return 'text occurs %d times in %s: %r' % (s.count(old), f, old)
            open(p, 'w').write(s.replace(old, new))
        rc, out = sh('git diff', cwd=wt)
        open(d + '/patch.diff', 'w').write(out)
        rc, out = sh('sh %s/demo.sh' % d, cwd=wt)
        if rc == 0:
            return 'demo passes with the bug'
        last = out.strip().splitlines()[-1] if out.strip() else ''
        rc, t = sh('mkdir -p dashlivesim/tests/out_test; PYTHONDONTWRITEBYTECODE=1 PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 TZ=UTC /opt/venv/bin/python -m pytest dashlivesim/tests -q -p no:cacheprovider', cwd=wt)
        line = t.strip().splitlines()[-1]
        if '107 passed' not in line or 'failed' in line:
            return 'tests: ' + line + ' ' + ' '.join(x for x in t.splitlines() if x.startswith('FAILED'))
        return 'ok   (' + last[:100] + ')'
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    lib = os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])), 'simlib.py')
    for b in ns['BUGS']:
        if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
            continue
        r = make(b, lib)
        print(b['id'], r, flush=True)
        if not r.startswith('ok'):
            shutil.rmtree(os.path.join(SEEDED, b['id']), ignore_errors=True)


main()
