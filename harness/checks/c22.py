import re
from hypothesis import strategies as st
from harness.core import Registry
from harness import linkcheck
from harness import labelforms
from harness.cpulib import *
from harness.ref import z80 as R

REG = Registry('C22', 'every documented instruction and the undocumented ones of the table (all seven opcode pages, 1136 encodings) x boundary and generated operand values and index displacements in '
               'every literal style and letter case, plus systematically built operand combinations the CPU lacks; the oracle is the opcode structure '
               'of the Z80. Non-trivial: every case (a full encoding is compared or a rejection required).',
               ['alternative spellings (SUB A,B; JP HL; RST $38; ...) may be accepted or rejected, but may not mean something else'])
KIND = re.compile(r'\{(\w+)\}')
ALL = dict(R.FORMS)
ALL.update(R.ALT)


def field(k, v, sty):
    """-> (hex encodings allowed or [] if it must be rejected, rejection allowed too)"""
    if k == 'nn':
        return ([le16(v)], False) if fits(v, 16, sty) else ([], True)
    if k == 'n':
        return ([bytes([v & 255])], False) if fits(v, 8, sty) else ([], True)
    if fits(v, 8, 'dec', True):
        return [bytes([v & 255])], False
    if k == 'e' and sty != 'dec' and 0 <= v <= 255:
        return [bytes([v])], True
    if k == 'd' and sty != 'dec' and 0 <= v <= 255:
        return [bytes([v])], True
    return [], True


def build(t, vals, sty, case):
    """vals: values for the operand fields in textual order"""
    code = ALL[t]
    text, i, env = t, 0, {}
    for m in KIND.finditer(t):
        k = m.group(1)
        v = vals[i]
        i += 1
        s = spell(v, sty)
        if k == 'd' and v >= 0:
            s = '+' + s
        env[k] = (v, sty if v >= 0 else 'dec')
        text = text.replace(m.group(0), s, 1)
    out, maybe = b'', t in R.ALT
    ok = True
    for c in code:
        if isinstance(c, int):
            out += bytes([c])
            continue
        encs, mb = field(c, *env[c])
        maybe |= mb
        if not encs:
            ok = False
            break
        out += encs[0]
    w = ([out.hex()] if ok else []) + (['!'] if maybe or not ok else [])
    return {'t': recase(text, case), 'w': w}


def all_cases(tier):
    n = 0
    extra = tier == 'thorough'
    for t in ALL:
        ks = KIND.findall(t)
        if not ks:
            for c in (0, 1, 2):
                yield build(t, [], 'dec', c)
            continue
        bits = 16 if 'nn' in ks else 8
        vals = interesting(bits) + (list(range(-129, 257)) if extra else [])
        if not extra and len(vals) > 14 and 'd' in ks:
            vals = [0, 1, 0x56, 127, 128, 129, 255, 256, -1, -128, -129, -5]
        for v in vals:
            n += 1
            yield build(t, [v] * len(ks) if len(ks) == 1 else [v, 7 + n % 50], STYLES['z80'][n % 4] if v >= 0 else 'dec', [0, 1, 2, 0, 99, 7][n % 6])
            if len(ks) == 2:
                yield build(t, [n % 60 - 30, v], STYLES['z80'][n % 4] if v >= 0 else 'dec', 0)


@REG.enum(lambda tier: chunks(all_cases(tier)))
def table(case):
    return judge_many('z80', case)


one = st.builds(build, st.one_of(st.sampled_from(sorted(ALL)), st.sampled_from(sorted(t for t in ALL if '{' in t))),
                st.tuples(st.one_of(ints(8), ints(16)), st.one_of(ints(8))), st.sampled_from(STYLES['z80']), CASES)


@REG.given(one, quick=1500)
def generated(case):
    return judge('z80', case)


valid = st.builds(build, st.sampled_from(sorted(R.FORMS)), st.tuples(st.integers(0, 127), st.integers(0, 127)), st.sampled_from(STYLES['z80']), CASES)


@REG.given(seq_strategy(valid), quick=300)
def sequences(case):
    return bool(case['t']) and judge('z80', case)


OPERANDS = ['A', 'F', 'B', 'C', 'H', 'L', 'I', 'R', 'IXH', 'IXL', 'IYL', 'AF', 'BC', 'DE', 'HL', 'SP', 'IX', 'IY', 'Z', 'NC', 'PO', 'PE', 'P', 'M', '(HL)', '(BC)', '(DE)',
            '(SP)', '(C)', '(A)', '(IX)', '(IX+3)', '(IY-4)', '(IX+200)', 'IX+3', '(H)', '(L)', '(I)', '0', '3', '8', '$12', '$1234', '(0)', '($12)', '($1234)', '8H', '9H', '40H', '-1', "AF'"]
MNEM = sorted({t.split(' ')[0] for t in ALL})
INDEX = {}
for _t in ALL:
    pat = re.escape(_t)
    for _m in KIND.finditer(_t):
        pat = pat.replace(re.escape(_m.group(0)), r'(?P<%s>%s)' % (_m.group(1), r'[-+][^,()]+' if _m.group(1) == 'd' else r'[-+]?[^,()]+'))
    INDEX.setdefault(_t.split(' ')[0], []).append((_t, re.compile(pat)))


def meaning(mn, text):
    outs, required = set(), text in R.FORMS
    for t, pat in INDEX.get(mn, ()):
        m = pat.fullmatch(text)
        if not m:
            continue
        out, ok = b'', True
        for c in ALL[t]:
            if isinstance(c, int):
                out += bytes([c])
                continue
            num = m.group(c).lstrip('+')
            try:
                v, sty = (int(num[1:], 16), '$') if num.startswith('$') else (int(num), 'dec')
            except ValueError:
                ok = False
                break
            encs, _ = field(c, v, sty)
            if not encs:
                ok = False
                break
            out += encs[0]
        if ok:
            outs.add(out.hex())
    # (IX) is commonly accepted as (IX+0)
    for r in ('IX', 'IY'):
        if '(%s)' % r in text:
            o2, _ = meaning(mn, text.replace('(%s)' % r, '(%s+0)' % r))
            outs |= o2
    return outs, required


def combo_statements(tier):
    for mn in MNEM:
        yield [mn]
        for a in OPERANDS:
            yield [mn, a]
    two = ['LD', 'ADD', 'ADC', 'SBC', 'EX', 'IN', 'OUT', 'BIT', 'JP', 'SUB'] if tier == 'quick' else MNEM
    for mn in two:
        for a in OPERANDS:
            for b in OPERANDS:
                yield [mn, a, b]


def combos(tier):
    for c in combo_statements(tier):
        mn, *ops = c
        text = (mn + ' ' + ','.join(ops)).strip()
        outs, required = meaning(mn, text)
        yield {'t': text, 'w': sorted(outs) + ([] if required else ['!'])}


@REG.enum(lambda tier: chunks(combos(tier)))
def operand_combinations(case):
    """an operand combination either has exactly its documented encoding or is rejected"""
    return judge_many('z80', case)


@REG.enum(labelforms.cases(['z80'], 1))
def label_operands(case):
    """statements of every shape with a label in place of a number"""
    return labelforms.check(case)


@REG.enum(linkcheck.slot_cases(['z80']))
def label_slots(batch):
    """every operand that may be a label, absolute or relative, at the limits of its field"""
    return linkcheck.slot_verdicts(batch)
