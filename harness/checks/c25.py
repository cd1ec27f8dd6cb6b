from hypothesis import strategies as st
from harness.core import Registry
from harness import linkcheck
from harness import labelforms
from harness.cpulib import *
from harness.ref import m68k as R

REG = Registry('C25', 'every mnemonic and size with every pair of effective address kinds (all registers, fixed displacements) enumerated, plus generated displacement, address and '
               'immediate values in every literal spelling; the image must equal an independent encoder written from the manual, illegal modes and values that do not fit must be rejected. '
               'Non-trivial: every case.',
               ['an absolute short address >= $8000, an odd numeric branch displacement and an explicit size suffix on the CCR/SR forms that is not theirs may be rejected or encoded',
                'a numeric PC-relative operand is the displacement itself (the convention of the unit tests)'])
MN = [('MOVE', ('', '.b', '.w', '.l')), ('MOVEA', ('', '.w', '.l')), ('JMP', ('',)), ('JSR', ('',)), ('LEA', ('', '.l'))] + [(m, ('', '.b', '.w', '.l')) for m in R.IMMOPS]
BR = [('B' + c, s) for c in R.CC for s in ('', '.b', '.w')] + [('DB' + c, s) for c in list(R.CC) + ['T', 'F', 'RA'] for s in ('', '.w')]


def mk(mn, size, ops, sty='dec', case=0, sep=','):
    return {'t': recase((mn + size + ' ' + sep.join(R.text(o, sty) for o in ops)).strip(), case), 'w': R.encode(mn, size, ops, sty)}


def pool():
    p = []
    for n in range(8):
        p += [['d', n], ['a', n], ['ind', n], ['post', n], ['pre', n], ['d16', 0x1234 + n, n], ['d8', 0x10 + n, n, 'da'[n & 1], 7 - n, ('', '.w', '.l')[n % 3]],
              ['pc8', -2 - n, 'da'[n & 1], n, ('', '.w', '.l')[n % 3]]]
    p += [['d16', -2, 3], ['d16', 32768, 1], ['d8', 128, 1, 'd', 2, ''], ['d8', -128, 6, 'a', 7, '.l'], ['pc16', 0x102], ['pc16', -32768], ['w', 0x1234, 0], ['w', 100, 1], ['w', 65536, 0],
          ['l', 0x123456, 0], ['l', 0x1234567, 1], ['l', 5, 2], ['l', 1 << 32, 0], ['imm', 1], ['imm', 0x7f], ['imm', 0x12], ['imm', -1], ['imm', 256], ['imm', 0x1234], ['imm', 65536],
          ['imm', 0x12345678], ['imm', 1 << 32], ['ccr'], ['sr']]
    return p


def cases(tier):
    P = pool()

    def gen():
        n = 0
        for mn in ('RTS', 'NOP'):
            for o in ([], [['d', 1]], [['imm', 1]]):
                for c in (0, 1, 2):
                    yield mk(mn, '', o, 'dec', c)
        for mn, sizes in MN:
            for s in sizes:
                yield mk(mn, s, [])
                for a in P:
                    n += 1
                    yield mk(mn, s, [a], ['dec', '$'][n & 1], n % 4)
                if mn in ('JMP', 'JSR'):
                    for a in P:
                        yield mk(mn, s, [a, ['d', 1]])
                    continue
                srcs = P if mn in ('MOVE', 'MOVEA', 'LEA') else [p for p in P if p[0] == 'imm'] + P[:8]
                for a in srcs:
                    for b in P:
                        n += 1
                        if tier == 'quick' and mn in ('MOVE', 'MOVEA', 'LEA') and n % 2:
                            continue
                        yield mk(mn, s, [a, b], ['dec', '$'][n & 1], n % 4, [',', ', ', ' , '][n % 3])
                    for c in P[::9]:
                        n += 1
                        yield mk(mn, s, [a, P[n % len(P)], c])
        for mn, s in BR:
            for o in P:
                n += 1
                yield mk(mn, s, [o], ['dec', '$'][n & 1], n % 4)
                if mn[0] == 'D':
                    for d in P[::5]:
                        yield mk(mn, s, [d, o], ['dec', '$'][n & 1], n % 4)
            for v in interesting(8) + interesting(16):
                for ops in ([['l', v, 0]], [['d', v & 7], ['l', v, 0]]):
                    yield mk(mn, s, ops)
    return chunks(gen())


@REG.enum(cases)
def operand_combinations(cs):
    """every mnemonic, size and pair of addressing modes"""
    return judge_many('68000', cs)


n8 = st.integers(0, 7)
x = st.tuples(st.sampled_from('da'), n8, st.sampled_from(['', '.w', '.l']))
eas = st.one_of(
    st.builds(lambda k, n: [k, n], st.sampled_from(['d', 'a', 'ind', 'post', 'pre']), n8),
    st.builds(lambda v, n: ['d16', v, n], ints(16), n8), st.builds(lambda v, n, i: ['d8', v, n, *i], ints(8), n8, x),
    st.builds(lambda v: ['pc16', v], ints(16)), st.builds(lambda v, i: ['pc8', v, *i], ints(8), x),
    st.builds(lambda v, s: ['w', v, s], ints(16), st.integers(0, 1)), st.builds(lambda v, s: ['l', v, s], ints(32), st.integers(0, 2)))
imm = st.builds(lambda v: ['imm', v], st.one_of(ints(8), ints(16), ints(32)))
sizes = st.sampled_from(['', '.b', '.w', '.l'])
sty = st.sampled_from(STYLES['68000'])
form = st.one_of(
    st.tuples(st.just('MOVE'), sizes, st.tuples(st.one_of(eas, imm), eas)),
    st.tuples(st.sampled_from(['MOVEA']), st.sampled_from(['', '.w', '.l']), st.tuples(st.one_of(eas, imm), st.builds(lambda n: ['a', n], n8))),
    st.tuples(st.sampled_from(sorted(R.IMMOPS)), sizes, st.tuples(imm, st.one_of(eas, eas, eas, st.sampled_from([['ccr'], ['sr']])))),
    st.tuples(st.sampled_from(['JMP', 'JSR']), st.just(''), st.tuples(eas)),
    st.tuples(st.just('LEA'), st.sampled_from(['', '.l']), st.tuples(eas, st.builds(lambda n: ['a', n], n8))),
    st.builds(lambda b, v, d: (b[0], b[1], (d, v) if b[0][0] == 'D' else (v,)), st.sampled_from(BR), st.builds(lambda v: ['l', v, 0], st.one_of(ints(8), ints(16))),
              st.builds(lambda n: ['d', n], n8)))
one = st.builds(lambda f, s, c, sep: mk(f[0], f[1], list(f[2]), s, c, sep), form, sty, CASES, st.sampled_from([',', ', ', ' ', '\t,']))


@REG.given(one, quick=2500)
def generated(case):
    """generated values and spellings"""
    return judge('68000', case)


@REG.given(seq_strategy(one), quick=250)
def sequences(case):
    """the image of a sequence is the concatenation of the images"""
    judge('68000', case)
    return '\n' in case['t']


@REG.enum(labelforms.cases(['68000'], 1))
def label_operands(case):
    """statements of every shape with a label in place of a number"""
    return labelforms.check(case)


@REG.enum(linkcheck.slot_cases(['68000']))
def label_slots(batch):
    """every operand that may be a label, absolute or relative, at the limits of its field"""
    return linkcheck.slot_verdicts(batch)
