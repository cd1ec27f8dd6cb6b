"""Run checks against the planted bugs (development only): planted.py OUT.jsonl [CHECK...|own] [-- BUG...]"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys

V = '/verif'
out, args = sys.argv[1], sys.argv[2:]
bugs = sorted(os.listdir(V + '/seeded'))
if '--' in args:
    i = args.index('--')
    args, bugs = args[:i], args[i + 1:]
done = set()
if os.path.exists(out):
    done = {(r['bug'], r['check']) for r in map(json.loads, open(out))}


def one(job):
    bug, check = job
    d = '/tmp/pl/%s-%s' % job
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d + '/repo', ignore=shutil.ignore_patterns('.git', '__pycache__'))
    subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + d + '/repo', '%s/seeded/%s/patch.diff' % (V, bug)], check=True, cwd='/')
    env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_EVIDENCE=d + '/ev', VERIF_SEED='1', VERIF_TIER='quick')
    p = subprocess.run(['python3-vt', V + '/run.py', check], env=env, capture_output=True, text=True, timeout=1500)
    hits = [l.split('replay=')[1] for l in p.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % check)]
    for h in hits:
        if os.path.exists(h):
            os.remove(h)
    shutil.rmtree(d)
    return {'bug': bug, 'check': check, 'rc': p.returncode, 'subs': sorted({os.path.basename(h).split('-')[1] for h in hits})}


jobs = []
for b in bugs:
    own = json.load(open('%s/seeded/%s/meta.json' % (V, b)))['property']
    for c in args or ['own']:
        j = (b, own if c == 'own' else c)
        if j not in done:
            jobs.append(j)
with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex, open(out, 'a') as f:
    for r in ex.map(one, jobs):
        f.write(json.dumps(r) + '\n')
        f.flush()
        print(r)
