"""Mutation probe: how sensitive is a check?

usage: mutate.py CNN module[:Class.prefix] [--n 30] [--seed 1] [--scale 1]

Copies /repo's pyslet to a scratch directory, applies one random AST mutation
at a time to the module (restricted to functions whose qualified name starts
with the prefix) and runs the check against the copy.  Survivors are printed
for review (many are equivalent mutants or outside the property)."""
import ast
import copy
import os
import random
import shutil
import subprocess
import sys
import tempfile
import argparse

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv,
       ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.Div: ast.Mult}


def is_log(st):
    return (isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and
            'log' in ast.unparse(st.value.func))


class Sites(ast.NodeVisitor):
    def __init__(self, prefix):
        self.prefix = prefix
        self.stack = []
        self.sites = []
        self.msg = 0

    def inside(self):
        q = '.'.join(self.stack)
        return any(q.startswith(p) for p in self.prefix) and self.fn > 0

    fn = 0

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()

    def visit_FunctionDef(self, n):
        if n.name in ('__repr__', '__str__', '__unicode__'):
            return
        self.stack.append(n.name)
        self.fn += 1
        self.generic_visit(n)
        self.fn -= 1
        self.stack.pop()

    def visit_Raise(self, n):
        if self.inside():
            self.sites.append((n, 'delstmt', None))

    def generic_visit(self, n):
        if self.inside():
            if isinstance(n, ast.Compare):
                for i, o in enumerate(n.ops):
                    if type(o) in CMP:
                        self.sites.append((n, 'cmp', i))
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not \
                    isinstance(n.left, (ast.Constant, ast.JoinedStr)):
                self.sites.append((n, 'bin', None))
            elif isinstance(n, ast.BoolOp):
                self.sites.append((n, 'bool', None))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                self.sites.append((n, 'not', None))
            elif isinstance(n, ast.Constant) and isinstance(
                    n.value, int) and not isinstance(n.value, bool):
                self.sites.append((n, 'const', None))
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                self.sites.append((n, 'flip', None))
            elif isinstance(n, (ast.Assign, ast.AugAssign)) or (
                    isinstance(n, ast.Expr) and not isinstance(
                        n.value, ast.Constant) and not is_log(n)):
                self.sites.append((n, 'delstmt', None))
            elif isinstance(n, (ast.If, ast.While)):
                self.sites.append((n, 'iff', None))
        if is_log(n):
            return
        ast.NodeVisitor.generic_visit(self, n)


def apply(src, tree, site):
    """Textual replacement so the rest of the file keeps its lines"""
    n, kind, arg = site
    m = copy.deepcopy(n)
    if kind == 'cmp':
        m.ops[arg] = CMP[type(m.ops[arg])]()
    elif kind == 'bin':
        m.op = BIN[type(m.op)]()
    elif kind == 'bool':
        m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
    elif kind == 'not':
        m = m.operand
    elif kind == 'const':
        m.value = m.value + 1
    elif kind == 'flip':
        m.value = not m.value
    elif kind == 'delstmt':
        m = ast.Pass()
    elif kind == 'iff':
        t = m.test
        n = n.test
        m = ast.UnaryOp(ast.Not(), t)
    new = ast.unparse(m)
    if isinstance(m, ast.expr):
        new = '(' + new + ')'
    lines = src.split('\n')
    enc = [l.encode() for l in lines]
    a, b = n.lineno - 1, n.end_lineno - 1
    head = enc[a][:n.col_offset]
    tail = enc[b][n.end_col_offset:]
    old = '\n'.join(lines[a:b + 1])
    enc[a:b + 1] = [head + new.encode() + tail]
    return b'\n'.join(enc), "%d %s: %s  ->  %s" % (
        n.lineno, kind, ' '.join(old.split())[:150], new[:150])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('check')
    ap.add_argument('targets', nargs='+')
    ap.add_argument('--n', type=int, default=30)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--scale', default='1')
    ap.add_argument('--timeout', type=int, default=300)
    ap.add_argument('--skip', default='')
    a = ap.parse_args()
    rng = random.Random(a.seed)
    sites = []
    for t in a.targets:
        path, _, pre = t.partition(':')
        src = open(os.path.join(os.environ.get('MUT_REPO', '/repo'), path), encoding='utf-8').read()
        tree = ast.parse(src)
        s = Sites(pre.split(',') if pre else [''])
        s.visit(tree)
        skip = set(a.skip.split(',')) if a.skip else ()
        sites.extend((path, src, tree, x) for x in s.sites
                     if x[1] not in skip)
    print(len(sites), 'sites')
    rng.shuffle(sites)
    d = tempfile.mkdtemp(prefix='mut-')
    shutil.copytree(os.environ.get('MUT_REPO', '/repo') + '/pyslet', d + '/pyslet', ignore=
                    shutil.ignore_patterns('__pycache__'))
    killed = survived = err = 0
    env = dict(os.environ, VERIF_REPO=d)
    try:
        for path, src, tree, site in sites[:a.n]:
            try:
                new, desc = apply(src, tree, site)
                compile(new, path, 'exec')
            except Exception as e:
                continue
            with open(os.path.join(d, path), 'wb') as f:
                f.write(new)
            try:
                r = subprocess.run(
                    [V + '/run', a.check, '--scale', a.scale], env=env,
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    timeout=a.timeout)
                rc, out = r.returncode, r.stdout.decode('utf-8', 'replace')
            except subprocess.TimeoutExpired:
                rc, out = 'timeout', ''
                subprocess.run(['pkill', '-f', 'harness.py ' + a.check])
            with open(os.path.join(d, path), 'w', encoding='utf-8') as f:
                f.write(src)
            if rc == 1 and 'VIOLATION property=' in out:
                killed += 1
            elif rc == 0:
                survived += 1
                print('SURVIVED', desc, flush=True)
            else:
                err += 1
                print('RC', rc, desc, '|', out[-300:].replace('\n', ' / '),
                      flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    print('killed', killed, 'survived', survived, 'other', err)


main()
