#!/usr/bin/env python3
"""add/replace an entry of known_findings.json by hand: known.py property sub sig what case-json"""
import json, sys, os
P = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json')
d = json.load(open(P))
prop, sub, sig, what, case = sys.argv[1:6]
d['known'] = [k for k in d['known'] if not (k['property'] == prop and k['sig'] == sig)]
d['known'].append(dict(property=prop, sub=sub, sig=sig, case=json.loads(case), what=what))
json.dump(d, open(P, 'w'), indent=1)
