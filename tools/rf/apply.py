#!/usr/bin/env python3
"""Make a copy of /repo with behaviour-preserving rewrites and run the tests there.

usage: apply.py VARIANT.py DEST      VARIANT lines: '#@ file qualname' followed by the new source of that function,
'#@ file +imports' (lines put in front of the first function/class), '#@ file +before qualname' (code before it)"""
import ast
import os
import re
import shutil
import subprocess
import sys


def find(tree, qual):
    node = tree
    for part in qual.split('.'):
        for ch in node.body:
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)) and ch.name == part:
                node = ch
                break
        else:
            raise SystemExit('no ' + qual)
    return node


def first_line(n):
    return min([n.lineno] + [d.lineno for d in n.decorator_list])


def main(variant, dest):
    shutil.rmtree(dest, ignore_errors=True)
    shutil.copytree(os.environ.get('BASE', '/repo'), dest, symlinks=True)
    parts = re.split(r'^#@ (.*)\n', open(variant).read(), flags=re.M)
    for head, body in zip(parts[1::2], parts[2::2]):
        f, _, qual = head.partition(' ')
        p = os.path.join(dest, 'dashlivesim', f)
        src = open(p).read()
        tree = ast.parse(src)
        lines = src.splitlines(True)
        body = body.strip('\n') + '\n'
        if qual == '+imports':
            n = next(x for x in tree.body if isinstance(x, (ast.FunctionDef, ast.ClassDef)))
            k = first_line(n) - 1
            lines[k:k] = [body, '\n\n']
        elif qual.startswith('+before '):
            n = find(tree, qual[8:])
            k = first_line(n) - 1
            ind = ' ' * n.col_offset
            lines[k:k] = [''.join((ind + l if l.strip() else l) for l in body.splitlines(True)), '\n']
        else:
            n = find(tree, qual)
            ind = ' ' * n.col_offset
            lines[first_line(n) - 1:n.end_lineno] = [''.join((ind + l if l.strip() else l) for l in body.splitlines(True))]
        open(p, 'w').write(''.join(lines))
        ast.parse(''.join(lines), p)
    r = subprocess.run('mkdir -p dashlivesim/tests/out_test; PYTHONDONTWRITEBYTECODE=1 PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 TZ=UTC '
                       '/opt/venv/bin/python -m pytest dashlivesim/tests -q -p no:cacheprovider', shell=True, cwd=dest,
                       capture_output=True, text=True)
    print('\n'.join(x for x in r.stdout.splitlines() if x.startswith(('FAILED', 'ERROR'))))
    print(r.stdout.strip().splitlines()[-1])


main(*sys.argv[1:3])
