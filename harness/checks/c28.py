from hypothesis import strategies as st
from harness.core import Registry
from harness import linkcheck
from harness import labelforms
from harness.cpulib import *
from harness.ref import ppc as R

REG = Registry('C28', 'all 537 forms (442 mnemonics) of general/floating register, number and branch operands: every register in every position, every value of the '
               'small fields, boundary values of the large ones, wrong operand kinds and counts, and generated operands and spellings; the word must equal '
               'the one built from an independent table. Non-trivial: every case.',
               ['a number given to a branch is a displacement (or address) in bytes, as for the other CPUs',
                'operand kinds the library does not implement (CR and SPR names, d(rA), vector registers, masks) are outside the property; mulwd and attn are not judged'])


def mk(name, ops, sty='dec', case=0, sep=','):
    txt = []
    for o in ops:
        txt.append(spell(o[1], sty) if o[0] == 'i' else ('r' if o[0] == 'g' else 'f') + str(o[1]))
    nums = [o for o in ops if o[0] == 'i']
    dec = sty == 'dec'
    w = set()
    # spell() writes negative numbers in decimal whatever the style
    if nums and not dec:
        ops2 = ops
        w = set(encode_mixed(name, ops2))
    else:
        w = set(R.encode(name, ops, True))
    t = (name + ' ' + sep.join(txt)).strip()
    return {'t': recase(t, case if dec else 0), 'w': sorted(w)}


def encode_mixed(name, ops):
    out = set()
    for base, shape in R.FORMS[name]:
        if len(shape) != len(ops):
            continue
        w = base
        for op, (lsb, width, kind) in zip(ops, shape):
            v = R.field(op, width, kind, op[0] == 'i' and op[1] < 0)
            if v is None:
                break
            w |= v << lsb
        else:
            out.add('%08x' % w)
    return out or {'!'}


def default(kind, i):
    return {'g': ['g', 3 + 5 * i], 'z': ['g', 3 + 5 * i], 'f': ['f', 3 + 5 * i], 'n': ['i', 1], 's': ['i', 100], 'u': ['i', 100], 'p': ['i', 16], 'b': ['i', 64]}[kind]


def values(width, kind):
    if kind in 'pb':
        return sorted({v + d for v in interesting(width + 2) for d in (-4, -3, -2, -1, 0, 1, 2, 3, 4)} | set(range(-8, 9)))
    if width <= 8:
        return range(-(1 << width) - 1, (2 << width) + 1)
    return interesting(width)


def cases(tier):
    def gen():
        n = 0
        for name in R.NAMES:
            for base, shape in R.FORMS[name]:
                d = [default(k, i) for i, (_, _, k) in enumerate(shape)]
                for mode in (0, 1, 2, 77):
                    yield mk(name, d, case=mode, sep=[',', ', ', ' ', '\t'][mode % 4])
                yield mk(name, d, '0x')
                yield mk(name, d + [['g', 1]])
                yield mk(name, d + [['i', 1]])
                if d:
                    yield mk(name, d[:-1])
                for i, (_, width, kind) in enumerate(shape):
                    put = lambda o: d[:i] + [o] + d[i + 1:]
                    if kind in 'gzf':
                        for r in range(32):
                            n += 1
                            yield mk(name, put(['f' if kind == 'f' else 'g', r]), case=n % 3)
                        yield mk(name, put(['g' if kind == 'f' else 'f', 4]))
                        yield mk(name, put(['g', 32]) if kind != 'f' else put(['f', 32])) if 0 else mk(name, put(['i', 0]))
                        yield mk(name, put(['i', 5]))
                        yield mk(name, put(['i', -1]))
                    else:
                        for v in values(width, kind):
                            n += 1
                            yield mk(name, put(['i', v]), 'dec' if v < 0 or n % 3 else '0x')
                        if kind != 'p':
                            yield mk(name, put(['g', 4]))
    return chunks(gen())


@REG.enum(cases)
def forms(cs):
    """every form, register, small value, boundary, wrong kind"""
    return judge_many('ppc', cs)


@st.composite
def stmt(draw):
    name = draw(st.sampled_from(R.NAMES))
    base, shape = draw(st.sampled_from(R.FORMS[name]))
    ops = []
    for _, width, kind in shape:
        if kind in 'gz':
            ops.append(['g', draw(st.integers(0, 31))])
        elif kind == 'f':
            ops.append(['f', draw(st.integers(0, 31))])
        elif kind in 'pb':
            ops.append(['i', draw(st.one_of(st.integers(-(1 << width - 1), (1 << width - 1) - 1).map(lambda v: v * 4), ints(width + 2)))])
        else:
            ops.append(['i', draw(st.one_of(st.integers(0, (1 << width) - 1), ints(width)))])
    return mk(name, ops, draw(st.sampled_from(STYLES['ppc'])), draw(CASES), draw(st.sampled_from([', ', ',', '  ', '\t'])))


@REG.given(stmt(), quick=3000)
def generated(c):
    """generated operands and spellings"""
    return judge('ppc', c)


@REG.given(seq_strategy(stmt()), quick=250)
def sequences(case):
    """the image of a sequence is the concatenation of the images"""
    judge('ppc', case)
    return '\n' in case['t']


@REG.enum(labelforms.cases(['ppc'], 1))
def label_operands(case):
    """statements of every shape with a label in place of a number"""
    return labelforms.check(case)


@REG.enum(linkcheck.slot_cases(['ppc']))
def label_slots(batch):
    """every operand that may be a label, absolute or relative, at the limits of its field"""
    return linkcheck.slot_verdicts(batch)
