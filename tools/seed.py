#!/usr/bin/env python3
"""Build and vet planted bugs.  usage: seed.py SPEC.py [ID...]   (SPEC defines BUGS = [dict(id, property, edits, demo, needs, breaks)])
Each bug is applied in a scratch copy of /repo; kept in /verif/seeded/<id>/ when the patched tree imports, passes the
tests, and its demo passes without and fails with the change.  Then the property's check is run against the copy."""
import json, os, shutil, subprocess, sys, tempfile
V = '/verif'
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = set(sys.argv[2:])
HEAD = '''import os, sys, tempfile, io, contextlib
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
'''
def sh(cmd, cwd, **env):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **env))
root = sh('git log --reverse --format=%h', '/repo').stdout.split()
fixes = set(sh('git log --format=%H --grep=^fix:', '/repo').stdout.split())
for b in spec['BUGS']:
    if only and b['id'] not in only: continue
    wt = tempfile.mkdtemp(prefix='seedwt-')
    try:
        sh('cp -a /repo/. %s' % wt, '/')
        for path, old, new in b['edits']:
            p = os.path.join(wt, path)
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], path, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', wt).stdout
        d = os.path.join(V, 'seeded', b['id'])
        demo = 'set -e\nexport PYTHONDONTWRITEBYTECODE=1\npython3 "$(dirname "$0")/demo.py"\n'
        tmp = tempfile.mkdtemp(prefix='seeddemo-')
        open(tmp + '/demo.sh', 'w').write('#!/bin/bash\n' + demo)
        open(tmp + '/demo.py', 'w').write(HEAD + b['demo'].lstrip('\n'))
        t = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=10 tests 2>&1 | tail -3', wt)
        base = sh('bash %s/demo.sh' % tmp, '/repo')
        bad = sh('bash %s/demo.sh' % tmp, wt)
        # every removed line must be original
        orig = True
        for path in {e[0] for e in b['edits']}:
            bl = sh('git blame -s -l HEAD -- %s' % path, wt).stdout.split('\n')
            cur = None
            for line in sh('git diff -U0 -- %s' % path, wt).stdout.split('\n'):
                if line.startswith('@@'):
                    a = line.split()[1][1:].split(',')
                    st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    for k in range(st, st + n):
                        if bl[k - 1].lstrip('^').split()[0][:39] in {f[:39] for f in fixes}: orig = False
        passed = '251 passed' in t.stdout or ('passed' in t.stdout and 'failed' not in t.stdout)
        ok = passed and base.returncode == 0 and bad.returncode != 0
        c = sh('timeout 880 python3-vt run.py ' + b['property'], V, VERIF_REPO=wt, VERIF_SEED='1', VERIF_TIER='quick')
        caught = c.returncode == 1 and 'VIOLATION property=%s ' % b['property'] in c.stdout
        print(b['id'], b['property'], 'KEEP' if ok else 'REJECT', 'caught' if caught else 'MISSED rc=%d' % c.returncode, '' if orig else 'CHANGES FIX LINES', flush=True)
        if not passed: print('   tests:', t.stdout.strip()[-300:])
        if base.returncode: print('   demo fails on base:', base.stdout[-300:], base.stderr[-400:])
        if not bad.returncode: print('   demo passes with bug')
        if os.environ.get('SHOW'): print(c.stdout[-800:], c.stderr[-500:], bad.stderr[-200:])
        if ok:
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            shutil.copy(tmp + '/demo.sh', d); shutil.copy(tmp + '/demo.py', d)
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        shutil.rmtree(tmp)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
        for f in os.listdir(V + '/replays') if os.path.isdir(V + '/replays') else []:
            os.unlink(V + '/replays/' + f)
