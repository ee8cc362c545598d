#!/usr/bin/env python3
"""Automatic mutation sweep: random one-place mutants of functions that checks encode, on scratch copies.

usage: automut.py SEED COUNT [-t SECONDS_PER_MUTANT] [-m module substring] > log
Needs evidence of a quick run of every check (evidence directory or SX_EVIDENCE) to know which checks encode a function."""
import ast
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get('BASE', '/repo')
EV = os.environ.get('EV', VERIF + '/evidence')


def coverage():
    cov, cost = {}, {}
    for f in sorted(glob.glob(EV + '/C??.json')):
        d = json.load(open(f))
        for x in d['coverage']['functions_encoded']:
            cov.setdefault(x, set()).add(d['property'])
        cost[d['property']] = d.get('wall_s', 60)
    return cov, cost


CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '=='}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*', ast.Mod: '//', ast.BitAnd: '|', ast.Div: '*'}


def mutants(path, modname, cov):
    src = open(path).read()
    import warnings
    warnings.simplefilter('ignore')
    tree = ast.parse(src)
    lines = src.split('\n')
    out = []

    def seg(n):
        return ast.get_source_segment(src, n)

    def rep(n, new, what, fn):
        out.append((path, fn, n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, new, what))

    def walk(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                walk(c, q + [c.name])
                continue
            fn = '.'.join([modname] + q)
            if q and fn in cov:
                if isinstance(c, ast.Compare) and len(c.ops) == 1 and type(c.ops[0]) in CMP:
                    rep(c, '%s %s %s' % (seg(c.left), CMP[type(c.ops[0])], seg(c.comparators[0])), 'cmp', fn)
                elif isinstance(c, ast.BinOp) and type(c.op) in BIN and not isinstance(c.left, ast.Constant) or \
                        isinstance(c, ast.BinOp) and isinstance(c.left, ast.Constant) and not isinstance(c.left.value, str):
                    if type(c.op) in BIN:
                        rep(c, '(%s) %s (%s)' % (seg(c.left), BIN[type(c.op)], seg(c.right)), 'op', fn)
                elif isinstance(c, ast.BoolOp):
                    op = ' or ' if isinstance(c.op, ast.And) else ' and '
                    rep(c, '(' + op.join('(%s)' % seg(v) for v in c.values) + ')', 'bool', fn)
                    rep(c, seg(c.values[0]), 'dropterm', fn)
                elif isinstance(c, ast.Constant) and type(c.value) is int and c.value < 100000:
                    rep(c, str(c.value + 1), 'const+1', fn)
                    if c.value:
                        rep(c, str(c.value - 1), 'const-1', fn)
                elif isinstance(c, ast.Constant) and isinstance(c.value, bool):
                    rep(c, str(not c.value), 'flip', fn)
                elif isinstance(c, (ast.Assign, ast.AugAssign)) or isinstance(c, ast.Expr) and isinstance(c.value, ast.Call):
                    t = seg(c)
                    if not t.startswith('print') and not (isinstance(c, ast.Expr) and 'print' in t):
                        rep(c, 'pass', 'drop', fn)
                elif isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
                    rep(c, seg(c.operand), 'unnot', fn)
                if isinstance(c, ast.If):
                    rep(c.test, 'not (%s)' % seg(c.test), 'negate', fn)
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'print':
                continue
            if isinstance(c, ast.Raise):
                continue
            walk(c, q)
    walk(tree, [])
    return out, lines


def apply(m, dest):
    path, fn, l0, c0, l1, c1, new, what = m
    raw = open(path, 'rb').read().split(b'\n')
    pre = b'\n'.join(raw[:l0 - 1] + [raw[l0 - 1][:c0]])
    post = b'\n'.join([raw[l1 - 1][c1:]] + raw[l1:])
    rel = os.path.relpath(path, BASE)
    open(os.path.join(dest, rel), 'wb').write(pre + new.encode() + post)


def run_mutant(m, cov, cost, budget):
    d = '/tmp/muts/auto'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(BASE, d, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    apply(m, d)
    try:
        p = subprocess.run('mkdir -p dashlivesim/tests/out_test; PYTHONDONTWRITEBYTECODE=1 PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 TZ=UTC timeout 60 '
                           '/opt/venv/bin/python -m pytest dashlivesim/tests -q -x -p no:cacheprovider', shell=True, cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        last = p.stdout.strip().splitlines()[-1]
        if '107 passed' not in last or 'failed' in last:
            return 'tests', ''
        t0 = time.time()
        done = []
        for c in sorted(cov[m[1]], key=lambda c: cost[c]):
            if time.time() - t0 + cost[c] > budget and done:
                continue
            r = subprocess.run(['timeout', '600', 'python3-vt', 'run.py', c], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, env=dict(os.environ, SX_REPO=d, SX_EVIDENCE='/tmp/muts/auto_ev'))
            if r.returncode == 1 and 'VIOLATION property=' in r.stdout:
                return 'caught', c
            done.append(c)
        return 'SURVIVED', ' '.join(done) + ' | not run: ' + ' '.join(sorted(set(cov[m[1]]) - {x[:3] for x in done}))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    budget, only = 150, ''
    if '-t' in a:
        i = a.index('-t')
        budget = int(a[i + 1])
        del a[i:i + 2]
    if '-m' in a:
        i = a.index('-m')
        only = a[i + 1]
        del a[i:i + 2]
    cov, cost = coverage()
    ms = []
    for p in subprocess.check_output(['git', '-C', BASE, 'ls-files'], text=True).split():
        if p.startswith('dashlivesim/') and p.endswith('.py') and '/tests/' not in p and only in p:
            ms += mutants(os.path.join(BASE, p), p[:-3].replace('/', '.'), cov)[0]
    print(len(ms), 'mutants', flush=True)
    random.Random(int(a[0])).shuffle(ms)
    n = 0
    for m in ms:
        if n >= int(a[1]):
            break
        t = time.time()
        res, info = run_mutant(m, cov, cost, budget)
        if res == 'tests':
            continue
        n += 1
        old = open(m[0]).read().split('\n')[m[2] - 1].strip()
        print('%-8s %-4s %s:%d %s [%s] => %s   %s  %ds' % (res, info if res == 'caught' else '', os.path.relpath(m[0], BASE), m[2], m[7], old,
                                                           m[6][:80].replace('\n', ' '), '' if res == 'caught' else info, time.time() - t), flush=True)


main()
