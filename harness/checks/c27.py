from hypothesis import strategies as st
from harness.core import Registry
from harness import linkcheck
from harness.cpulib import *
from harness.ref import thumb as R

REG = Registry('C27', 'every mnemonic with every operand shape and every register (numeric names and aliases) in every position, all offsets and immediates of the small fields, and '
               'generated values and spellings; the image must equal an independent encoder from the ARM manual, high registers in low-register forms, misaligned offsets and values '
               'that do not fit must be rejected. Non-trivial: every case.',
               ['forms of the manual whose mnemonic form the library does not list (STR to SP, STRH immediate, two-operand ADD/SUB/MOV of low registers, SUB SP) may be rejected or encoded',
                'a negative 8-bit immediate may be rejected or taken as two\'s complement (the literal rule)'])


def mk(mn, ops, sty='dec', case=0, sep=', '):
    t = (mn + ' ' + sep.join(R.text(o, sty) for o in ops)).strip()
    c = {'t': recase(t, case if sty == 'dec' else 0), 'w': R.encode(mn, ops, sty)}
    p = R.pinned(mn, ops, sty)
    if p and p[1] not in c['w']:
        c['p'] = p
    return c


def verdict(c):
    r = run(cpu('thumb'), c['t'])
    got = r.image.hex() if r.ok else '!'
    if got in c['w']:
        return True
    sig = None
    if c.get('p') and got == c['p'][1]:
        sig = c['p'][0]
    fail('thumb %r: expected %s, got %r' % (c['t'], ' or '.join('rejection' if w == '!' else w for w in c['w']), r), sig)


def many(cs):
    asm = new(cpu('thumb'))
    for c in cs:
        before = len(asm.assembled_bytes)
        try:
            asm.assemble(c['t'])
            got = bytes(asm.assembled_bytes[before:]).hex()
        except Exception:
            got = '!'
        if got not in c['w']:
            verdict(c)
            if got == '!':
                asm = new(cpu('thumb'))
    return len(cs), len(cs)


REGS = [['r', i, 0] for i in range(16)] + [['r', i, 1] for i in range(11, 16)]
LOW = REGS[:8]


def cases(tier):
    def gen():
        n = 0
        few = [REGS[0], REGS[7], REGS[8], REGS[13], REGS[15], REGS[20], ['imm', 4], ['num', 8], ['ri', REGS[3], 4], ['ri', REGS[13], 8], ['ri', REGS[20], 12], ['rr', REGS[1], REGS[2]],
               ['rr', REGS[9], REGS[2]], ['rr', REGS[1], REGS[12]], ['list', [[0, 3]], 0], ['list', [], 1]]
        for mn in R.MNEM:
            yield mk(mn, [])
            for a in few:
                yield mk(mn, [a])
                for b in few:
                    yield mk(mn, [a, b])
                    for c in few:
                        yield mk(mn, [a, b, c])
                        if tier == 'thorough':
                            for d in few[::3]:
                                yield mk(mn, [a, b, c, d])
            for r in REGS:
                n += 1
                yield mk(mn, [r], case=n % 4)
                for q in REGS:
                    n += 1
                    yield mk(mn, [r, q], case=n % 4, sep=[', ', ',', ' '][n % 3])
            for r in LOW:
                for q in LOW:
                    for v in range(8):
                        n += 1
                        yield mk(mn, [r, q, LOW[v]], case=n % 4)
                        if mn in R.MEMR:
                            yield mk(mn, [r, ['rr', q, LOW[v]]], case=n % 4)
                    if mn in ('LSL', 'LSR', 'ASR', 'ADD', 'SUB'):
                        for v in (range(-2, 40) if r == q or tier == 'thorough' else (n % 9, n % 34)):
                            yield mk(mn, [r, q, ['imm', v]], STYLES['thumb'][n % 4 if v >= 0 else 0])
                    if mn in R.MEMI:
                        for v in (range(-4, 140) if r == q or tier == 'thorough' else (n % 33, n % 65 * 2)):
                            yield mk(mn, [r, ['ri', q, v]], STYLES['thumb'][n % 4 if v >= 0 else 0])
                for v in list(range(0, 1040, 1 if r[1] == 5 else 28)) + [-4, -1, -508, 1024]:
                    n += 1
                    for x in (REGS[13], REGS[15], REGS[18], REGS[20]):
                        if mn in ('LDR', 'STR', 'LDRB'):
                            yield mk(mn, [r, ['ri', x, v]])
                        if mn == 'ADD':
                            yield mk(mn, [r, x, ['imm', v]])
                if mn in ('ADD', 'SUB', 'MOV', 'CMP'):
                    for v in list(range(-1, 258)) + [-128, -129]:
                        yield mk(mn, [r, ['imm', v]])
            if mn in ('ADD', 'SUB'):
                for v in range(-520, 521):
                    yield mk(mn, [REGS[13 if v % 3 else 18], ['imm', v]])
            if mn in R.CC or mn in ('B', 'SWI', 'BL'):
                for v in sorted({x + d for b in (8, 9, 11, 12, 22, 23) for x in interesting(b) for d in (0, 1)} | set(range(-140, 300) if mn in ('BEQ', 'SWI') else ())):
                    yield mk(mn, [['num', v]], STYLES['thumb'][n % 4 if v >= 0 else 0])
        for m in range(256):
            runs, i = [], 0
            while i < 8:
                if m >> i & 1:
                    j = i
                    while j < 7 and m >> j + 1 & 1 and (j + m) % 3:
                        j += 1
                    # a single register may be written as a range too
                    runs.append([i, j] + [1] * (i == j and (i + m) % 2))
                    i = j + 1
                else:
                    i += 1
            for lr in (0, 1):
                yield mk('PUSH', [['list', runs, lr]], case=m % 4)
        for bad in ([[3, 1]], [[0, 8]], [[8, 8]], [[13, 13]], [[0, 0], [9, 9]]):
            yield mk('PUSH', [['list', bad, 0]])
    return chunks(gen())


@REG.enum(cases)
def forms(cs):
    """all operand shapes, registers and small fields"""
    return many(cs)


reg = st.sampled_from(REGS + LOW + LOW)
val = st.one_of(ints(8), ints(5), ints(7), ints(12), ints(23), st.integers(0, 255).map(lambda x: x * 4), st.integers(0, 63).map(lambda x: x * 2))
op = {'r': reg, 'imm': st.builds(lambda v: ['imm', v], val), 'num': st.builds(lambda v: ['num', v], val), 'ri': st.builds(lambda r, v: ['ri', r, v], reg, val),
      'rr': st.builds(lambda a, b: ['rr', a, b], reg, reg),
      'list': st.builds(lambda l, lr: ['list', l, lr], st.lists(st.tuples(st.integers(0, 8), st.integers(0, 7)).map(lambda t: [min(t), max(t)] + [1] * (t[0] == t[1] and t[0] % 2)), max_size=4), st.integers(0, 1))}


@st.composite
def stmt(draw):
    mn = draw(st.sampled_from(R.MNEM))
    if mn in R.MEMR: shape = draw(st.sampled_from(['r ri', 'r rr', 'r ri']))
    elif mn in R.CC or mn in ('B', 'BL', 'SWI'): shape = 'num'
    elif mn == 'PUSH': shape = 'list'
    elif mn == 'BX': shape = 'r'
    else: shape = draw(st.sampled_from(['r r imm', 'r imm', 'r r r', 'r r']))
    if draw(st.integers(0, 14)) == 0: shape = draw(st.sampled_from(['r', '', 'imm', 'r num', 'r r ri', 'r r r r']))
    return mk(mn, [draw(op[k]) for k in shape.split()], draw(st.sampled_from(STYLES['thumb'])), draw(CASES), draw(st.sampled_from([', ', ',', '  ', '\t'])))


@REG.given(stmt(), quick=3000)
def generated(c):
    """generated operands and spellings"""
    return verdict(c)


@REG.given(seq_strategy(stmt().filter(lambda c: 'p' not in c)), quick=250)
def sequences(case):
    """the image of a sequence is the concatenation of the images"""
    judge('thumb', case)
    return '\n' in case['t']


@REG.enum(linkcheck.slot_cases(['thumb']))
def label_slots(batch):
    """every operand that may be a label, absolute or relative, at the limits of its field"""
    return linkcheck.slot_verdicts(batch)
