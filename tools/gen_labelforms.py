#!/usr/bin/env python3-vt
"""harness/labelforms.json: cpu -> [[statement with {L} in place of a number, bits]]: the statements of harness/statements.json whose number may be a label.

Run on a tree known to be good.  `bits`: the widest all-ones number the statement accepts there."""
import json
import os
import re
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'), ROOT]
from harness import forms as F
from harness.lib import *
from multiprocessing import Pool

NUM = re.compile(r'(?<![A-Za-z0-9_.$%@])[-+]?(?:\$|0x|%|@)?[0-9][0-9A-Fa-f]*h?(?![A-Za-z0-9_])')


def image(c, text):
    r = run(cpu(c), text)
    return r.image if r.ok else None


def forms(job):
    c, t = job
    out = []
    for m in NUM.finditer(t):
        s, e = m.span()
        if t[s] in '+-':
            if c not in ('8086', 'x86_16', 'x86_32', 'x86_64', 'z80'):
                s += t[s] == '+'
            else:
                s += 1
                if t[s - 1] == '-':
                    t = t[:s - 1] + '+' + t[s:]
        tpl = t[:s] + '{L}' + t[e:]
        num = lambda v: image(c, '.org 256\n' + tpl.replace('{L}', str(v)))
        ok = [v for v in (4, 8, 20, 68) if num(v) is not None]
        if len(ok) < 2 or num(ok[0]) == num(ok[1]):
            continue
        if any(image(c, '.org %d\nlab:\n.org 256\n%s' % (v, tpl.replace('{L}', 'lab'))) != num(v) or
               image(c, '.org 256\n%s\n.org %d\nlab:' % (tpl.replace('{L}', 'lab'), v)) != num(v) for v in ok):
            continue
        bits = max(k for k in list(range(1, 33)) + [48, 64] for d in (0, 1, 3) if num((1 << k) - 1 - d) is not None)
        if [tpl, bits] not in out:
            out.append([tpl, bits])
    return c, out


def main():
    jobs = [(c, t) for c, ts in sorted(F.corpus().items()) if c != '6502' for t in ts if re.search(r'\d', t)]
    res = {}
    with Pool(8) as pool:
        for c, out in pool.imap(forms, jobs, 16):
            for x in out:
                if x not in res.setdefault(c, []):
                    res[c].append(x)
    # one of each spelling
    for c in res:
        seen, keep = set(), []
        for t, b in res[c]:
            k = re.sub(r'\s+', ' ', re.sub(r'\s*,\s*', ',', t.lower().replace('{l}', '{L}')))
            if k not in seen:
                seen.add(k)
                keep.append([t, b])
        res[c] = sorted(keep, key=lambda x: (x[1], x[0].lower()))
    with open(os.path.join(ROOT, 'harness', 'labelforms.json'), 'w') as f:
        json.dump(res, f, indent=0)
        f.write('\n')
    for c in sorted(res):
        print(c, len(res[c]), sorted({b for _, b in res[c]}))


main()
