#!/opt/venv/bin/python
"""strength measurement: mutates a source file of a scratch copy and reports which mutants a check does not notice

mutate.py PROP FILE [--func REGEX] [--max N] [--jobs J]
"""

import argparse
import ast
import concurrent.futures as cf
import os
import random
import re
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seg(src, n):
    return ast.get_source_segment(src, n)


def offsets(src):
    out, p = [0], 0
    for l in src.splitlines(keepends = True):
        p += len(l.encode())
        out.append(p)
    return out


def mutants(src, func):
    tree = ast.parse(src)
    off = offsets(src)
    b = src.encode()
    out = []

    def rng(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def add(n, text, what):
        s, e = rng(n)
        out.append((n.lineno, what, (b[:s] + text.encode() + b[e:]).decode()))

    cmpop = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['==']}
    binop = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.FloorDiv: ['*'], ast.Mod: ['//']}

    def visit(n, inside):
        if isinstance(n, ast.FunctionDef):
            inside = inside or bool(re.search(func, n.name))
            body = n.body
            if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            for ch in body:
                visit(ch, inside)
            return
        if isinstance(n, (ast.Assert, ast.Raise)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and 'log' in (seg(src, n) or '')[:6]:
            return
        if inside:
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in cmpop:
                l, r = seg(src, n.left), seg(src, n.comparators[0])
                for o in cmpop[type(n.ops[0])]:
                    add(n, f'({l}) {o} ({r})', f'{seg(src, n)[:50]} -> {o}')
            elif isinstance(n, ast.BinOp) and type(n.op) in binop:
                l, r = seg(src, n.left), seg(src, n.right)
                for o in binop[type(n.op)]:
                    add(n, f'(({l}) {o} ({r}))', f'{seg(src, n)[:60]} -> {o}')
            elif isinstance(n, ast.Constant) and type(n.value) is int and n.value < 10:
                add(n, f'{n.value + 1}', f'const {n.value} -> {n.value + 1} col {n.col_offset}')
                if n.value:
                    add(n, f'{n.value - 1}', f'const {n.value} -> {n.value - 1} col {n.col_offset}')
            elif isinstance(n, ast.Constant) and type(n.value) is float:
                add(n, f'{n.value + 1.0}', f'const {n.value} -> {n.value + 1.0} col {n.col_offset}')
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                add(n, f'{not n.value}', f'const {n.value} -> {not n.value}')
            elif isinstance(n, ast.BoolOp):
                o = ' or ' if isinstance(n.op, ast.And) else ' and '
                add(n, '(' + o.join(f'({seg(src, v)})' for v in n.values) + ')', f'{seg(src, n)[:50]} -> {o}')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                add(n, f'({seg(src, n.operand)})', f'{seg(src, n)[:50]} unary dropped')
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                add(n, 'pass', f'{seg(src, n)[:50]!r} deleted')
        for ch in ast.iter_child_nodes(n):
            visit(ch, inside)

    visit(tree, False)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('file')
    ap.add_argument('--func', default = '.')
    ap.add_argument('--max', type = int, default = 60)
    ap.add_argument('--jobs', type = int, default = 4)
    ap.add_argument('--seed', type = int, default = 1)
    ap.add_argument('--only', nargs = '*', default = [])
    a = ap.parse_args()
    with open(os.path.join('/repo', a.file)) as fp:
        src = fp.read()
    ms = mutants(src, a.func)
    good = []
    for m in ms:
        try:
            compile(m[2], 'x', 'exec')
            good.append(m)
        except SyntaxError:
            pass
    random.Random(a.seed).shuffle(good)
    good = good[:a.max]

    def one(m):
        d = tempfile.mkdtemp(prefix = 'mut_')
        try:
            shutil.copytree('/repo/resqpy', os.path.join(d, 'resqpy'), ignore = shutil.ignore_patterns('__pycache__'))
            with open(os.path.join(d, a.file), 'w') as fp:
                fp.write(m[2])
            env = dict(os.environ, VERIF_REPO = d, VERIF_JOBS = '2', VERIF_SCRATCH = d)
            p = subprocess.run([os.path.join(ROOT, 'check.py'), '--property', a.prop] + (['--only'] + a.only if a.only else []),
                               capture_output = True, text = True, env = env)
            v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
            st = 'caught' if v and any('no-failing' not in l for l in v) else 'caught-noinput' if v else 'survived' if p.returncode == 0 else f'exit{p.returncode}'
            return m, st, p.stdout[-600:]
        finally:
            shutil.rmtree(d, ignore_errors = True)

    tot = {}
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for m, st, txt in ex.map(one, good):
            tot[st] = tot.get(st, 0) + 1
            if st != 'caught':
                print(f'{st}: line {m[0]}: {m[1]}')
                if st.startswith('exit') or st == 'caught-noinput':
                    print('      ', txt[-500:].replace('\n', '\n       '))
    print(tot)


if __name__ == '__main__':
    main()
