#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the fix: commits of /repo (PROPS maps commits to properties)."""
import json, subprocess
PROPS = {'876e825':'C03','fba72ff':'C07','a964b3b':'C07','97d6375':'C07','475960b':'C10','a9342c3':'C03','22c578a':'C13','8f25382':'C30','5f449e0':'C02','dd3b86d':'C31','bbb4407':'C31',
'8cc1b7c':'C09','ca21cbc':'C09','49e5af6':'C16','2a95106':'C21','9aea628':'C21','e5a071b':'C21','0322938':'C21','a33b955':'C22','cd6bcdf':'C22','06f489b':'C22','d7ce922':'C22','4d8c438':'C11',
'9787794':'C11','a8bd8a0':'C11','9022aa1':'C23','c4e5d7e':'C23','3b48207':'C23','6e40a9f':'C05','3fde316':'C23','79c86b1':'C23','64bfeb6':'C25','68e4316':'C25','1202353':'C25','fe9042a':'C25','f7ed0ba':'C25',
'b4aa044':'C26','65c7bf4':'C26','b1852f0':'C26','694f5da':'C26','8c4d3a1':'C06','2192597':'C05','aacc174':'C27','a17db7c':'C27','8ae499c':'C27','2b6968c':'C27','1dfb66f':'C27','5b60ade':'C27','10482a2':'C27',
'308b120':'C27','31904e7':'C27','46304ab':'C27','9064bd5':'C27','43397aa':'C27','12d87d8':'C27','0fdef37':'C27'}
exec(open('/verif/tools/fixed_more.py').read()) if __import__('os').path.exists('/verif/tools/fixed_more.py') else None
out = []
for line in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--grep=^fix:', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines():
    h, msg = line.split(' ', 1)
    p = PROPS.get(h[:7])
    if not p:
        m = __import__('re').match(r'fix: \[(C\d\d)\]', msg)
        p = m.group(1) if m else None
    if not p:
        print('no property for', line); p = '?'
    out.append('fixed: property=%s %s %s' % (p, h[:7], msg[5:]))
f = '/verif/known_findings.json'
k = json.load(open(f)); k['fixed'] = out
json.dump(k, open(f, 'w'), indent=1)
print(len(out), 'fixed entries')
