"""Mutation campaign (development only): mutate.py OUT.jsonl COUNT SEED FILE... -- CHECK...

Random single-site mutants of the given source files; those that pass the
stable tests are run against the checks (quick tier) until one catches them.
Survivors are listed for review: equivalent mutant, outside the properties, or
a hole in a check.
"""
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys

REPO = '/repo'
VERIF = os.environ.get('MUT_VERIF', '/verif')
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&', ast.FloorDiv: '*', ast.Mod: '//'}


def sites(source):
    tree = ast.parse(source)
    lines = source.split('\n')
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()) + 1)
    raw = source.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                out.append((*span(n), '(%s %s %s)' % (text(n.left), op, text(n.comparators[0])), n.lineno))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant):
            out.append((*span(n), '(%s %s %s)' % (text(n.left), BIN[type(n.op)], text(n.right)), n.lineno))
        elif isinstance(n, ast.BoolOp):
            j = ' or ' if isinstance(n.op, ast.And) else ' and '
            out.append((*span(n), '(' + j.join('(%s)' % text(v) for v in n.values) + ')', n.lineno))
            for v in n.values:
                out.append((*span(n), '(%s)' % text(v), n.lineno))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((*span(n), '(%s)' % text(n.operand), n.lineno))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            for v in (n.value + 1, n.value - 1):
                out.append((*span(n), str(v) if v >= 0 else '(%d)' % v, n.lineno))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((*span(n), str(not n.value), n.lineno))
        elif isinstance(n, (ast.If, ast.While)):
            for v in ('True', 'False') if isinstance(n, ast.If) else ('False',):
                out.append((*span(n.test), v, n.lineno))
        elif isinstance(n, ast.IfExp):
            out.append((*span(n), '(%s)' % text(n.body), n.lineno))
            out.append((*span(n), '(%s)' % text(n.orelse), n.lineno))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break)) and n.col_offset:
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                out.append((*span(n), 'pass', n.lineno))
        elif isinstance(n, ast.Return) and n.value is not None:
            out.append((*span(n), 'return None', n.lineno))
        elif isinstance(n, ast.Call) and len(n.keywords) > 0:
            k = n.keywords[-1]
            if k.arg and len(n.args) + len(n.keywords) > 1:
                a = span(k)[0]
                prev = [span(x)[1] for x in n.args + [y.value for y in n.keywords[:-1]]]
                out.append((max(prev), span(k.value)[1], '', n.lineno))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('upper', 'lower', 'strip', 'lstrip', 'rstrip') and not n.args:
            out.append((*span(n), text(n.func.value), n.lineno))
    return raw, out


def one(job):
    k, path, a, b, new, line, checks = job
    d = '/tmp/mut/w%d' % k
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    p = os.path.join(d, path)
    raw = open(p, 'rb').read()
    mut = raw[:a] + new.encode() + raw[b:]
    rec = {'file': path, 'line': line, 'old': raw[a:b].decode()[:120], 'new': new[:120], 'span': [a, b]}
    try:
        try:
            compile(mut, p, 'exec')
        except SyntaxError:
            rec['result'] = 'syntax'
            return rec
        open(p, 'wb').write(mut)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=d, VERIF_TIER='quick', VERIF_EVIDENCE=d)
        env.setdefault('VERIF_SEED', '1')
        r = subprocess.run(['timeout', '60', '/opt/venv/bin/python', '-m', 'pytest', '--timeout=10', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=d, env=dict(env, PYTHONPATH=d), capture_output=True, text=True)
        if r.returncode:
            rec['result'] = 'tests'
            return rec
        for c in checks:
            r = subprocess.run(['timeout', '600', 'python3-vt', os.path.join(VERIF, 'run.py'), c], cwd=VERIF, env=env, capture_output=True, text=True)
            if r.returncode == 1 and 'VIOLATION property=' + c in r.stdout:
                rec['result'] = c
                return rec
            if r.returncode:
                rec['result'] = 'rc %d %s' % (r.returncode, c)
                rec['out'] = (r.stdout + r.stderr)[-600:]
                return rec
        rec['result'] = 'SURVIVED'
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:sys.argv.index('--')]
    checks = sys.argv[sys.argv.index('--') + 1:]
    rnd = random.Random(seed)
    jobs = []
    for f in files:
        raw, s = sites(open(os.path.join(REPO, f)).read())
        jobs += [(f,) + x for x in s]
    rnd.shuffle(jobs)
    jobs = [(i,) + j + (checks,) for i, j in enumerate(jobs[:count])]
    done = {}
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('JOBS', '7'))) as pool, open(out, 'a') as o:
        for fut in concurrent.futures.as_completed([pool.submit(one, j) for j in jobs]):
            rec = fut.result()
            o.write(json.dumps(rec) + '\n')
            o.flush()
            done[rec['result'].split()[0]] = done.get(rec['result'].split()[0], 0) + 1
    print(done)


main()
