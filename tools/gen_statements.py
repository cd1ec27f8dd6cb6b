"""Collect one valid statement of every shape from the generators of the encoding checks -> harness/statements.json
(development only; python3-vt tools/gen_statements.py).  The file is input data: no expected result is taken from the code."""
import importlib, json, os, random, re, sys
sys.path[:0] = ['/repo', '/verif']
os.environ.setdefault('VERIF_TIER', 'quick')
import necroassembler.assembler as A
from harness.core import Violation
from hypothesis import HealthCheck, given, settings, seed
NUM = re.compile(r'(?<![\w$%@.])(-?[$%@][0-9a-fA-F]+|-?0[xby][0-9a-fA-F]+|-?[0-9][0-9a-fA-F]*[hH]?)(?![\w])')
REGNUM = re.compile(r'(?i)\b(\$?[a-z]{1,2})\d{1,2}\b')
BY = {'AssemblerMOS6502': '6502', 'AssemblerLR35902': 'lr35902', 'AssemblerZ80': 'z80', 'AssemblerIntel8086': '8086', 'AssemblerMC68000': '68000',
      'AssemblerMIPS32': 'mips32', 'AssemblerThumb': 'thumb', 'AssemblerPowerPC': 'ppc'}
seen = {}
orig = A.Assembler._assemble_statements


def key(cpu, t):
    t = NUM.sub('N', t.upper())
    if cpu in ('mips32', 'ppc', 'thumb', '68000'):
        t = REGNUM.sub(r'\1#', t)
        t = re.sub(r'\$(ZERO|GP|SP|FP|RA|AT|[A-Z]#)', '$R', t)
    if cpu in ('8086', 'x86_16', 'x86_32', 'x86_64'):
        t = re.sub(r'\b([ABCD]L|[ABCD]H|R\d+B|SIL|DIL|BPL|SPL)\b', 'R8', t)
        t = re.sub(r'\bR(\d+)\b|\bR([ABCD]X|[SD]I|[SB]P)\b', 'R64', t)
        t = re.sub(r'\bE([ABCD]X|[SD]I|[SB]P)\b|\bR\d+D\b', 'R32', t)
        if cpu != '8086' or '[' not in t:
            t = re.sub(r'\b([ABCD]X|[SD]I|[SB]P)\b|\bR\d+W\b', 'R16', t)
        t = re.sub(r'\b(DS|ES|SS|FS|GS)\b', 'SEG', t)
    return t


def record(self, code, context=None):
    n = len(self.assembled_bytes)
    bits = getattr(self, 'bits', None)
    orig(self, code, context)
    name = next((c.__name__ for c in type(self).__mro__ if c.__name__ in BY), None)
    cpu = BY.get(name) or ('x86_%s' % bits if 'X86' in type(self).__name__.upper() or 'x86' in type(self).__module__ else None)
    if cpu is None:
        names.add(type(self).__name__)
        return
    line = code.strip()
    if '\n' in line or line.startswith('.') or len(self.assembled_bytes) == n or ':' in line or '"' in line or self.labels_addresses:
        return
    seen.setdefault(cpu, {}).setdefault(key(cpu, line), []).append(line)


names = set()


def quiet(fn, case):
    try:
        fn(case)
    except Violation as v:
        assert v.sig, v     # a known finding


A.Assembler._assemble_statements = record
for n in range(20, 29):
    m = importlib.import_module('harness.checks.c%d' % n)
    for s in m.REG.subs:
        if s.cases is not None:
            for case in s.cases('quick'):
                quiet(s.fn, case)
        else:
            @seed(5)
            @settings(max_examples=s.quick, database=None, deadline=None, suppress_health_check=list(HealthCheck))
            @given(s.strategy)
            def body(case):
                quiet(s.fn, case)
            body()
    print(n, {k: len(v) for k, v in seen.items()}, names)
r = random.Random(1)
out = {}
for c, d in sorted(seen.items()):
    out[c] = [r.choice(sorted(set(v))) for _, v in sorted(d.items())]
json.dump(out, open('/verif/harness/statements.json', 'w'), indent=0)
print({c: len(v) for c, v in out.items()})
