from hypothesis import strategies as st
from harness.core import Registry
from harness import linkcheck
from harness.cpulib import *
from harness.ref import m6502 as R

REG = Registry('C20', 'every mnemonic x every operand syntax x boundary and generated values in every literal style, letter cases, labels in and '
               'outside the zero page, and statement sequences; the oracle is the documented 16x16 opcode map. Non-trivial: every case (each one '
               'either compares a full encoding or requires a rejection).', ['implied accumulator (`ASL` without operand) may be accepted or rejected'])
SYN = ['', 'A', '#{}'] + list(R.SYNTAX)


def expect(mn, syn, v, sty):
    T = R.TABLE
    if syn == '':
        if (mn, 'imp') in T:
            return [H(T[mn, 'imp'])]
        return [H(T[mn, 'acc']), '!'] if (mn, 'acc') in T else ['!']
    if syn == 'A':
        return [H(T[mn, 'acc'])] if (mn, 'acc') in T else ['!']
    if (mn, 'imp') in T:
        return ['!']
    if syn == '#{}':
        if (mn, 'imm') in T and fits(v, 8, sty):
            return [H(T[mn, 'imm'], v & 255)]
        return ['!']
    if (mn, 'rel') in T:
        if syn != '{}':
            return None                 # extra tokens after a branch target: C11's business
        if -128 <= v <= 127:
            return [H(T[mn, 'rel'], v & 255)]
        if sty != 'dec' and 128 <= v <= 255:
            return [H(T[mn, 'rel'], v), '!']
        return ['!']
    zp, ab = R.SYNTAX[syn]
    zp, ab = T.get((mn, zp)), T.get((mn, ab))
    if not fits(v, 16, sty):
        return ['!']
    out = []
    if v < 0 and v >= -128 and zp is not None:
        out.append(H(zp, v & 255))
        if ab is None:
            out.append('!')
    elif zp is not None and v >= 0 and v <= 255:
        return [H(zp, v)]
    if ab is not None:
        out.append(H(ab, le16(v)))
    return out or ['!']


def build(mn, syn, v, sty, case):
    w = expect(mn, syn, v, sty)
    if w is None:
        return None
    text = mn + (' ' + syn.format(spell(v, sty)) if syn else '')
    return {'t': recase(text, case), 'w': w}


def all_cases(tier):
    vals = sorted(set(interesting(8)) | set(interesting(16)) | ({*range(256)} if tier == 'thorough' else set()))
    n = 0
    for mn in R.MNEMONICS:
        for syn in SYN:
            for v in (vals if '{' in syn else [0]):
                n += 1
                c = build(mn, syn, v, STYLES['6502'][n % 5] if v >= 0 else 'dec', [0, 1, 2, 0, 0, 99][n % 6])
                if c:
                    yield c


@REG.enum(lambda tier: chunks(all_cases(tier)))
def table(case):
    return judge_many('6502', case)


one = st.builds(build, st.sampled_from(R.MNEMONICS), st.sampled_from(SYN), st.one_of(ints(8), ints(16)), st.sampled_from(STYLES['6502']), CASES).filter(bool)


@REG.given(one, quick=1500)
def generated(case):
    return judge('6502', case)


valid = st.sampled_from(sorted(R.TABLE)).flatmap(lambda mk: st.builds(
    build, st.just(mk[0]), st.just({'imp': '', 'acc': 'A', 'imm': '#{}', 'rel': '{}', 'izx': '({},X)', 'izy': '({}),Y', 'ind': '({})', 'zp': '{}', 'abs': '{}',
                                    'zpx': '{},X', 'abx': '{},X', 'zpy': '{},Y', 'aby': '{},Y'}[mk[1]]),
    st.integers(0, 127) if mk[1] == 'rel' else st.integers(0, 255) if mk[1] in ('imm', 'izx', 'izy') else st.integers(0, 65535),
    st.sampled_from(STYLES['6502']), CASES).filter(bool))


@REG.given(seq_strategy(valid), quick=500)
def sequences(case):
    return bool(case['t']) and judge('6502', case)


@st.composite
def label_case(draw):
    """label operands: already defined, in any page, or forward"""
    mn, syn = draw(st.sampled_from([(m, s) for m in R.MNEMONICS for s in list(R.SYNTAX) + ['#{}'] if (m, 'imp') not in R.TABLE and (m, 'rel') not in R.TABLE]))
    addr = draw(st.one_of(st.sampled_from([0, 1, 0x7f, 0xfe, 0xff, 0x100, 0x101, 0xfffd, 0xffff]), st.integers(0, 0xffff), st.integers(0, 255)))
    pre = draw(st.sampled_from(['', '', '', '', '<', '>']))
    post = draw(st.sampled_from(['', '', '', '+1', '-1', '+$10', '*2', '&$ff']))
    T = R.TABLE
    known = draw(st.booleans())
    v = addr
    if pre == '<':
        v &= 255
    if pre == '>':
        v >>= 8
    v = {'': v, '+1': v + 1, '-1': v - 1, '+$10': v + 16, '*2': v * 2, '&$ff': v & 255}[post]
    ref = syn.format(pre + 'Spot' + post)
    base = 0x8000
    if syn == '#{}':
        w = [H(T[mn, 'imm'], v)] if (mn, 'imm') in T and 0 <= v <= 255 else ['!']
    else:
        zp, ab = R.SYNTAX[syn]
        zp, ab = T.get((mn, zp)), T.get((mn, ab))
        if not 0 <= v <= 65535:
            w = ['!']
        elif known and zp is not None and v <= 255:
            w = [H(zp, v)]
        elif ab is not None:
            w = [H(ab, le16(v))]
        else:
            w = ['!']
            if not known and zp is not None and v <= 255:
                w.append(H(zp, v))
    stm = mn + ' ' + ref
    if known:
        text = '.org %d\nSpot:\n.org %d\n%s\n' % (addr, base, stm)
    else:
        text = '.org %d\n%s\n.org %d\nSpot:\n' % (base, stm, addr)
    return {'t': text, 'w': w}


@REG.given(label_case(), quick=2500)
def labels(case):
    return judge('6502', case)


@REG.enum(linkcheck.slot_cases(['6502']))
def label_slots(batch):
    """every operand that may be a label, absolute or relative, at the limits of its field"""
    return linkcheck.slot_verdicts(batch)
