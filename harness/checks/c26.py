from hypothesis import strategies as st
from harness.core import Registry
from harness import linkcheck
from harness import labelforms
from harness.cpulib import *
from harness.ref import mips as R

REG = Registry('C26', 'every mnemonic x every register in every position (numeric and conventional names), wrong operand shapes, and generated immediates, offsets and targets in every '
               'literal spelling, big endian and little endian (the PlayStation assembler); the word must equal an independent encoder. Non-trivial: every case.',
               ['lui/lhi take the 32-bit value and load its upper half, llo its lower half (the convention of the repository\'s own test source and tests)',
                'the operand of the non-standard trap is accepted as address or as code', 'addiu/sltiu may accept 32768..65535 (addiu pinned by a test)',
                'a j/jal number that is not a multiple of 4 may be rejected or truncated (truncation pinned by test_jump)'])


def mk(mn, ops, sty='dec', case=0, sep=',', cpu='be'):
    want = []
    for w in R.encode(mn, ops, sty):
        want.append(w if w == '!' else w.to_bytes(4, 'big' if cpu == 'be' else 'little').hex())
    return {'t': recase((mn + ' ' + sep.join(R.text(o, sty) for o in ops)).strip(), 0 if sty not in ('dec',) and case > 1 else case), 'w': want, 'e': cpu}


def regcase(text, mode):
    """register names are case insensitive"""
    return text if mode == 0 else re.sub(r'\$[a-z]+\d?', lambda m: m.group(0).upper() if mode % 2 else m.group(0), text)


def judge1(c):
    name = 'mips32' if c['e'] == 'be' else 'psx'
    return judge(name, c, prepare=(lambda a: a.change_org(0)) if name == 'psx' else None)


def many(cs):
    for e, name in (('be', 'mips32'), ('le', 'psx')):
        sub = [c for c in cs if c['e'] == e]
        asm = new(cpu(name))
        for c in sub:
            asm.change_org(0)
            before = len(asm.assembled_bytes)
            try:
                asm.assemble(c['t'])
                got = bytes(asm.assembled_bytes[before:]).hex()
            except Exception:
                got = '!'
            if got not in c['w']:
                judge1(c)
                if got == '!':
                    asm = new(cpu(name))
    return len(cs), len(cs)


def cases(tier):
    def gen():
        n = 0
        pool = [['r', 0, 0], ['r', 9, 1], ['r', 31, 1], ['i', 8], ['i', -4], ['m', 12, 5]]
        for mn, form in R.FORMS.items():
            # registers in every position
            slots = [i for i, k in enumerate(form) if k in 'rm']
            for s in slots or [0]:
                for r in range(32):
                    for alias in (0, 1):
                        n += 1
                        ops = []
                        for i, k in enumerate(form):
                            rr = r if i == s else (r * 7 + 3 * i + n) % 32
                            ops.append(['r', rr, alias] if k == 'r' else ['i', 8 + 4 * (n % 5)] if k == 'i' else ['m', n % 9 - 4, rr])
                        for e in ('be', 'le'):
                            c = mk(mn, ops, 'dec', n % 4, [',', ', ', ' '][n % 3], e)
                            if n % 5 == 0:
                                c['t'] = regcase(c['t'], 1)
                            yield c
            if form == 'rrr':
                for a in range(32):
                    for b in range(32):
                        yield mk(mn, [['r', a, n & 1], ['r', b, 1], ['r', (a * 5 + b) % 32, 0]])
            # wrong shapes
            for ops in [[], *[[a] for a in pool], *[[a, b] for a in pool for b in pool], *[[a, b, c] for a in pool for b in pool for c in pool],
                        *[[a, b, c, ['r', 1, 0]] for a in pool[:4] for b in pool[:4] for c in pool[3:]]]:
                yield mk(mn, ops)
            # immediates
            if form and form[-1] in 'im':
                bits = {'sll': [5], 'sra': [5], 'srl': [5]}.get(mn, [16, 18] if mn in ('beq', 'bne', 'bgtz', 'blez') else [16, 32, 28])
                for v in sorted({x + d for b in bits for x in interesting(b) for d in (0, 1, 2, 3)}):
                    for sty in STYLES['mips32']:
                        if v < 0 and sty != 'dec':
                            continue
                        n += 1
                        yield mk(mn, [['r', n % 32, 1]] * (len(form) - 1) + [['i', v] if form[-1] == 'i' else ['m', v, n % 32]], sty, 0, ',', ['be', 'le'][n & 1])
    return chunks(gen())


@REG.enum(cases)
def forms(cs):
    return many(cs)


r5 = st.builds(lambda n, a: ['r', n, a], st.integers(0, 31), st.integers(0, 1))
val = st.one_of(ints(16), ints(18), ints(5), ints(32), ints(28), st.integers(-32768, 65535), st.integers(0, 1 << 26).map(lambda x: x * 4))


@st.composite
def stmt(draw):
    mn = draw(st.sampled_from(sorted(R.FORMS)))
    form = R.FORMS[mn]
    if draw(st.integers(0, 11)) == 0:
        form = draw(st.text('rim', max_size=4))
    ops = [draw(r5) if k == 'r' else ['i', draw(val)] if k == 'i' else ['m', draw(val), draw(st.integers(0, 31))] for k in form]
    c = mk(mn, ops, draw(st.sampled_from(STYLES['mips32'])), draw(st.sampled_from([0, 1])), draw(st.sampled_from([',', ', ', ' ', '\t'])), draw(st.sampled_from(['be', 'le'])))
    return c


@REG.given(stmt(), quick=3000)
def generated(case):
    """generated operands and spellings"""
    return judge1(case)


@REG.given(st.lists(stmt(), min_size=2, max_size=10), quick=250)
def sequences(cs):
    """the image of a sequence is the concatenation of the images"""
    for e in ('be', 'le'):
        sub = [c for c in cs if c['e'] == e and len(c['w']) == 1 and c['w'] != ['!']]
        judge1({'t': '\n'.join(c['t'] for c in sub), 'w': [''.join(c['w'][0] for c in sub)], 'e': e})
    return True


EDGES = sorted({(k << 28) + d for k in (0, 1, 2, 7, 8, 15) for d in (-8, -4, 0, 4, 8, 0x1000, 0xffffff0) if 0 <= (k << 28) + d < 1 << 32})


@REG.enum(lambda tier: [[m, at, e] for m in ('j', 'jal') for at in EDGES if at + 16 < 1 << 32 for e in ('be', 'le')])
def jump_regions(case):
    """jumps to labels and numbers around the 256MB regions: the region is that of the delay slot"""
    m, at, e = case
    order = 'big' if e == 'be' else 'little'
    for v in EDGES:
        near = v >> 28 == at + 4 >> 28
        w = (R.J[m] << 26 | v >> 2 & 0x3ffffff).to_bytes(4, order)
        for fwd in (False, True):
            lab, use = '.org %d\nlab:\n' % v, '.org %d\n%s lab\n' % (at, m)
            res = run(cpu('mips32' if e == 'be' else 'psx'), use + lab if fwd else lab + use)
            if not near:
                expect_error(res, '%s at 0x%x to 0x%x' % (m, at, v))
            else:
                expect_image(res, w, '%s at 0x%x to 0x%x' % (m, at, v))
        for sty in ('dec', '0x'):
            want = [x if x == '!' else x.to_bytes(4, order).hex() for x in R.encode(m, [['i', v]], sty, at)]
            res = run(cpu('mips32' if e == 'be' else 'psx'), '.org %d\n%s %s\n' % (at, m, spell(v, sty)))
            if (res.image.hex() if res.ok else '!') not in want:
                fail('%s at 0x%x to the number 0x%x: %r, expected %s' % (m, at, v, res, '|'.join(want)))
    return len(EDGES) * 4, len(EDGES) * 4


@REG.enum(labelforms.cases(['mips32'], 1))
def label_operands(case):
    """statements of every shape with a label in place of a number"""
    return labelforms.check(case)


@REG.enum(linkcheck.slot_cases(['mips32', 'psx']))
def label_slots(batch):
    """every operand that may be a label, absolute or relative, at the limits of its field"""
    return linkcheck.slot_verdicts(batch)
