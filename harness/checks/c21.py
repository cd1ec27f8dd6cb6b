import itertools, re
from hypothesis import strategies as st
from harness.core import Registry
from harness import linkcheck
from harness import labelforms
from harness.cpulib import *
from harness.ref import sm83 as R

REG = Registry('C21', 'every documented instruction (500 encodings) x boundary and generated operand values in every literal style, letter case and bracket style, '
               'plus systematically and randomly built operand combinations the CPU lacks; the oracle is the opcode structure of the SM83. '
               'Non-trivial: every case (a full encoding is compared or a rejection required).',
               ['alternative published spellings (SUB A,B; JP HL; RST $38; ...) may be accepted or rejected, but may not mean something else'])
KIND = re.compile(r'\{(\w+\+?)\}')


def expect(t, code, v, sty, alt=False):
    k = KIND.search(t)
    if not k:
        return t, [code.hex()] + (['!'] if alt else [])
    k = k.group(1)
    s = spell(v, sty)
    if k == 'e8+':
        text = t.replace('{e8+}', ('+' + s) if v >= 0 else s)
        if -128 <= v <= 127:
            w = [H(code, v & 255)]
        elif sty != 'dec' and 0 <= v <= 255:
            w = [H(code, v), '!']
        else:
            w = ['!']
        return text, w
    text = t.replace('{%s}' % k, s)
    if k == 'n16':
        w = [H(code, le16(v))] if fits(v, 16, sty) else ['!']
    elif k == 'n8':
        w = [H(code, v & 255)] if fits(v, 8, sty) else ['!']
    elif k == 'a8':
        w = [H(code, v & 255)] if 0 <= v <= 255 else ['!']
        if -128 <= v < 0:
            w = [H(code, v & 255), '!']
        if 0xff00 <= v <= 0xffff:
            w.append(H(code, v & 255))
        if '$FF00+' in t:               # also a 16-bit address expression
            a = 0xff00 + v
            op = b'\xea' if t.endswith('A') else b'\xfa'
            if 0 <= a <= 0xffff:
                w.append(H(op, le16(a)))
    else:                               # rel, e8
        if fits(v, 8, 'dec', True):
            w = [H(code, v & 255)]
        elif sty != 'dec' and 0 <= v <= 255:
            w = [H(code, v), '!']
        else:
            w = ['!']
    return text, w + (['!'] if alt and '!' not in w else [])


def build(t, v, sty, case, square=False):
    code = R.FORMS.get(t)
    alt = code is None
    text, w = expect(t, R.ALT[t] if alt else code, v, sty, alt)
    if square:
        text = text.replace('(', '[').replace(')', ']')
        if '(' in t and '{' in t and False:
            pass
    # the documented spelling of the high page prefix is upper case hex: keep it
    return {'t': recase(text, case), 'w': w}


def values(t):
    return interesting(16) if 'n16' in t else interesting(8) + [0xff00, 0xff80, 0xffff]


def all_cases(tier):
    n = 0
    for t in list(R.FORMS) + list(R.ALT):
        for v in (values(t) if '{' in t else [0]):
            for rep in ((0,) if '{' in t else (0, 1, 2)):
                n += 1
                yield build(t, v, STYLES['lr35902'][n % 5] if v >= 0 else 'dec', [0, 1, 2, 0, 99, 7][n % 6], n % 7 == 0)
    if tier == 'thorough':
        for t in list(R.FORMS) + list(R.ALT):
            if '{' in t:
                for v in range(-140, 300):
                    yield build(t, v, STYLES['lr35902'][v % 5] if v >= 0 else 'dec', 0)


@REG.enum(lambda tier: chunks(all_cases(tier)))
def table(case):
    return judge_many('lr35902', case)


one = st.builds(build, st.one_of(st.sampled_from(sorted(R.FORMS)), st.sampled_from(sorted(t for t in list(R.FORMS) + list(R.ALT) if '{' in t))),
                st.one_of(ints(8), ints(16)), st.sampled_from(STYLES['lr35902']), CASES, st.booleans())


@REG.given(one, quick=1500)
def generated(case):
    return judge('lr35902', case)


valid = st.builds(build, st.sampled_from(sorted(R.FORMS)), st.integers(0, 127), st.sampled_from(STYLES['lr35902']), CASES, st.booleans())


@REG.given(seq_strategy(valid), quick=400)
def sequences(case):
    return bool(case['t']) and judge('lr35902', case)


OPERANDS = ['A', 'F', 'B', 'C', 'D', 'E', 'H', 'L', 'AF', 'BC', 'DE', 'HL', 'SP', 'Z', 'NZ', 'NC', '(HL)', '(BC)', '(DE)', '(HL+)', '(HL-)', '(SP)', '(AF)', '(C)',
            '(A)', '(B)', '(F)', '(H)', '(L)', '(Z)', '($FF00+C)', 'HL+', 'HL-', 'SP+1', '(SP+1)', '($FF00+B)', '0', '3', '7', '8', '9', '$12', '$1234', '(0)', '(1)', '($12)', '($1234)', '(7)',
            '08H', '09H', '40H', '-1', '08']
ARITY0 = sorted(t for t in R.FORMS if ' ' not in t)
MNEM = sorted({t.split(' ')[0] for t in R.FORMS})


INDEX = {}
for _t, _c in itertools.chain(R.FORMS.items(), R.ALT.items()):
    _k = KIND.search(_t)
    INDEX.setdefault(_t.split(' ')[0], []).append((_t, _c, _k, _k and re.compile(re.escape(_t).replace(re.escape(_k.group(0)), r'([-+]?[^,()]+)'))))


def meaning(mn, ops):
    """every documented reading of a statement -> encodings"""
    outs = set()
    text = (mn + ' ' + ','.join(ops)).strip()
    for t, code, k, pat in INDEX.get(mn, ()):
        if not k:
            if t == text:
                outs.add(code.hex())
            continue
        m = pat.fullmatch(text)
        if not m:
            continue
        num = m.group(1)
        sty = 'dec'
        try:
            if num.lstrip('+').startswith('$'):
                sty, v = '$', int(num.lstrip('+')[1:], 16)
            else:
                v = int(num)
        except ValueError:
            continue
        if k.group(1) == 'e8+' and num[0] not in '+-':
            continue
        _, w = expect(t, code, v, sty)
        outs |= set(x for x in w if x != '!')
    required = any(text == t for t in R.FORMS)
    return outs, required


def combo_statements(tier):
    for mn in MNEM:
        yield [mn]
        for a in OPERANDS:
            yield [mn, a]
    two = ['LD', 'LDH', 'ADD', 'ADC', 'SBC', 'BIT', 'SET', 'RES', 'JP', 'JR', 'CALL', 'SUB', 'OR', 'INC', 'PUSH', 'SWAP', 'RST', 'RET', 'CP', 'RL'] if tier == 'quick' else MNEM
    for mn in two:
        for a in OPERANDS:
            for b in OPERANDS:
                yield [mn, a, b]


def combos(tier):
    for c in combo_statements(tier):
        mn, *ops = c
        text = (mn + ' ' + ','.join(ops)).strip()
        outs, required = meaning(mn, ops)
        yield {'t': text, 'w': sorted(outs) + ([] if required else ['!'])}


@REG.enum(lambda tier: chunks(combos(tier)))
def operand_combinations(case):
    """an operand combination either has exactly its documented encoding or is rejected"""
    return judge_many('lr35902', case)


@REG.enum(labelforms.cases(['lr35902'], 1))
def label_operands(case):
    """statements of every shape with a label in place of a number"""
    return labelforms.check(case)


@REG.enum(linkcheck.slot_cases(['lr35902']))
def label_slots(batch):
    """every operand that may be a label, absolute or relative, at the limits of its field"""
    return linkcheck.slot_verdicts(batch)
