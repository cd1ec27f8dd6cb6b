from hypothesis import strategies as st
from harness.core import Registry
from harness import linkcheck
from harness import labelforms
from harness.cpulib import *
from harness.ref import x86 as R

REG = Registry('C24', 'in the 16, 32 and 64 bit modes: every mnemonic x operands from a pool of all general and control registers, all memory bases and indexes, '
               'displacements, immediates and branch distances, plus generated operands and spellings; the emitted bytes are decoded by an independent x86 '
               'decoder for the mode and must give back the operands written; forms of the supported list must be accepted, operands of different sizes, '
               'missing or additional operands, and values that do not fit rejected. Non-trivial: every case.',
               ['memory operands are written with separated tokens (`[EBX + ESI + 5]`), as in the library\'s tests',
                'any valid encoding of the operands is accepted (direction bit, displacement and immediate size, order of prefixes)',
                'instructions that do not exist in a mode, and the JMPE instruction of the Itanium, are not judged'])

CC = [n for names in R.CONDITIONS for n in names]
JUMPS = ['J' + n for n in CC] + ['JMP', 'CALL']
CMOVS = ['CMOV' + n for n in CC]
RM_R = R.ARITH + ['MOV', 'TEST', 'BT', 'BTS', 'BTR', 'BTC', 'CMPXCHG', 'XADD']
R_RM = R.ARITH + ['MOV', 'XCHG', 'IMUL', 'BSF', 'BSR', 'POPCNT'] + CMOVS
UNARY = ['NOT', 'NEG', 'MUL', 'IMUL', 'DIV', 'IDIV', 'INC', 'DEC']
TABLES = ['SGDT', 'SIDT', 'LGDT', 'LIDT']
MEMONLY = ['INVLPG', 'XSAVE', 'XRSTOR']
MNEM = sorted(set(RM_R + R_RM + UNARY + TABLES + MEMONLY + JUMPS + ['LEA', 'PUSH', 'POP', 'BSWAP']))
REPS = {'REP': 0xf3, 'REPE': 0xf3, 'REPZ': 0xf3, 'REPNE': 0xf2, 'REPNZ': 0xf2}
STRINGS = [a + b for a in ('CMPS', 'INS', 'LODS', 'MOVS', 'OUTS', 'SCAS', 'STOS') for b in 'BWDQ' if a + b in R.PLAIN]
# never have an operand
BARE = '''AAA AAS DAA DAS CLC CLD CLI CMC STC STD STI HLT LAHF SAHF LEAVE FWAIT PAUSE CPUID CLTS INVD WBINVD RDMSR WRMSR RDTSC RDPMC
          PUSHA POPA PUSHF POPF PUSHAD POPAD PUSHFD POPFD IRET CBW CWDE CDQE CWD CDQ CQO LFENCE MFENCE SFENCE FABS FCHS FINIT FNINIT
          FLD1 FLDZ FSIN FCOS FSQRT SYSENTER SYSEXIT UD2 EMMS CMPSB MOVSB STOSW LODSW SCASB INSB OUTSW'''.split()


def name_of(size, n):
    return R.R8[n] if size == 8 else R.REG[size][n]


def spelled(o, sty='dec'):
    k = o[0]
    if k == 'r':
        return name_of(o[1], o[2])
    if k == 'cr':
        return 'CR%d' % o[1]
    if k == 'i':
        return spell(o[1], sty)
    if k == 'd':
        return '[' + spell(o[1], sty) + ']'
    _, size, base, index, disp = o
    t = '[' + name_of(size, base)
    if index is not None:
        t += ' + ' + name_of(size, index)
    if disp is not None:
        t += (' + ' + spell(disp, sty)) if disp >= 0 else ' - %d' % -disp
    return t + ']'


def memory_ok(bits, o, sty):
    """a memory operand every instruction with one must accept"""
    if o[0] != 'm':
        return False
    _, size, base, index, disp = o
    if size == 16:
        if bits == 64 or (base, index) not in R.M16:
            return False
    elif size == 32:
        if base == 4 and index == 4:
            return False
    elif bits != 64 or (base == 4 and index == 4):
        return False
    return disp is None or fits(disp, min(size, 32), sty if disp >= 0 else 'dec', True)


def must(bits, mn, ops, sty):
    """must this be accepted?"""
    reg = lambda o: o[0] == 'r' and o[1] in (16, 32, 64) and (o[1] != 64 or bits == 64)
    mem = lambda o: memory_ok(bits, o, sty)
    imm = lambda o, size: o[0] == 'i' and fits(o[1], size, sty)
    n = len(ops)
    a, b = (list(ops) + [None, None])[:2]
    if n == 1:
        if mn in UNARY:
            return reg(a) or mem(a)
        if mn in ('PUSH', 'POP'):
            return reg(a) and a[1] in (16, 64)
        if mn == 'BSWAP':
            return reg(a) and a[1] != 16
        if mn in JUMPS:
            return a[0] == 'i' and fits(a[1], 16 if bits == 16 else 32, 'dec', True)
        if mn in TABLES:
            return a[0] == 'd' and fits(a[1], {16: 16, 32: 32, 64: 31}[bits], sty) and a[1] >= 0
        return mn in MEMONLY and mem(a)
    if n == 2:
        same = a[0] == b[0] == 'r' and a[1] == b[1] and reg(a)
        if mn in RM_R and (same or (mem(a) and reg(b))):
            return True
        if mn in R_RM and (same or (reg(a) and mem(b))):
            return True
        if mn in R.ARITH + ['TEST'] and reg(a):
            return a[1] != 64 and imm(b, a[1])
        if mn == 'MOV' and reg(a) and b[0] == 'i':
            return imm(b, a[1])
        if mn == 'MOV' and bits != 64 and {a[0], b[0]} == {'r', 'cr'}:
            return (a if a[0] == 'r' else b)[1] == 32
        return mn == 'LEA' and reg(a) and mem(b)
    if n == 3 and mn == 'IMUL':
        return reg(a) and a[1] != 64 and ((b[0] == 'r' and b[1] == a[1]) or mem(b)) and imm(ops[2], a[1])
    return False


def same(w, d, size, bits):
    """operand as written (w) against decoded (d)"""
    if w[0] == 'i':
        if d[0] == 't':
            # a distance from the end of the instruction
            width = 16 if bits == 16 else 32
            return -(1 << width) < w[1] < 1 << width and (d[1] - size - w[1]) % (1 << width) == 0
        return d[0] == 'i' and -(1 << d[1] - 1) <= w[1] < 1 << d[1] and w[1] % (1 << d[1]) == d[2]
    if w[0] == 'r':
        if bits == 64 and d[0] == 'r' and w[1:] == [32, d[2]] and d[1] == 64:
            return True         # judged by the size of the other operand; control registers are 64 bit wide here
        return tuple(w) == d
    if w[0] == 'cr':
        return tuple(w) == d
    if w[0] == 'd':
        return d[0] == 'm' and d[2:5] == (None, None, 1) and -(1 << d[1] - 1) <= w[1] and d[5] == w[1] % (1 << d[1])
    _, width, base, index, disp = w
    if d[0] != 'm' or d[1] != width or d[4] != 1:
        return False
    if (d[2], d[3]) != (base, index) and not (index == 4 and (d[2], d[3]) == (4, base)):
        return False
    disp = disp or 0
    if width == 64 and disp >= 1 << 31:
        disp -= 1 << 32             # the pattern of a 32 bit field
    return -(1 << 31) <= disp < 1 << min(width, 32) and disp % (1 << width) == d[5]


def matches(bits, mn, ops, image):
    try:
        got = R.normal(R.decode(bits, image))
    except R.Bad as exc:
        return False, str(exc)
    want = [list(o) for o in ops]
    cands = [want]
    if mn in R.COMMUTATIVE and len(want) == 2:
        cands.append(want[::-1])
    if mn == 'IMUL' and len(want) == 2 and want[1][0] == 'i':
        cands.append([want[0], want[0], want[1]])
    if mn == 'XCHG' and got == ('NOP',) and want[0] == want[1] and want[0] == ['r', 32, 0]:
        return False, 'NOP, which keeps the upper half'
    ok = got[0] == R.ALIAS.get(mn, mn) and any(
        len(c) == len(got) - 1 and all(same(w, d, len(image), bits) for w, d in zip(c, got[1:])) for c in cands)
    if ok and bits == 64 and not any(o[0] == 'cr' for o in ops):
        # the sizes of the registers have to be those written
        sizes = sorted(o[1] for o in ops if o[0] == 'r')
        ok = sizes == sorted(d[1] for d in got[1:] if d[0] == 'r')[:len(sizes)]
    return ok, got


def text_of(bits, mn, ops, sty='dec', case=0):
    return recase((mn + ' ' + ', '.join(spelled(o, sty) for o in ops)).strip(), case)


def attempt(asm, bits, text):
    if asm is None:
        res = run(cpu('x86'), '.bits %d\n%s\n' % (bits, text))
        return res
    before = len(asm.assembled_bytes)
    try:
        asm.assemble(text)
        return Res(True, bytes(asm.assembled_bytes[before:]))
    except Exception as exc:
        return Res(False, exc=exc)


def verdict(bits, mn, ops, sty='dec', case=0, asm=None):
    text = text_of(bits, mn, ops, sty, case)
    res = attempt(asm, bits, text)
    if not res.ok:
        if must(bits, mn, ops, sty):
            fail('x86 %d bit %r rejected: %r' % (bits, text, res))
        return
    ok, got = matches(bits, mn, ops, res.image)
    if not ok:
        fail('x86 %d bit %r assembled to %s which is %s' % (bits, text, hexs(res.image), got))


ASM = []


def judge_batch(case):
    bits, items = case
    if not ASM or len(ASM[0].assembled_bytes) > 20000:
        ASM[:] = [new(cpu('x86'))]
    shared = ASM[0]
    shared.assemble('.bits %d' % bits)
    for mn, ops, sty, cs in items:
        try:
            verdict(bits, mn, ops, sty, cs, shared)
        except Violation:
            try:
                verdict(bits, mn, ops, sty, cs)       # judge again alone and linked
            except Violation as v:
                v.member = [bits, [[mn, ops, sty, cs]]]
                raise
            ASM[:] = [new(cpu('x86'))]
            shared = ASM[0]
            shared.assemble('.bits %d' % bits)
    return len(items), len(items)


def pool(bits):
    regs = [['r', s, n] for s in (16, 32, 64) for n in range(8)]
    mems = [['m', 16, b, i, d] for b, i in R.M16 for d in (None, 5, -300)]
    for s in (32, 64):
        for b in range(8):
            mems += [['m', s, b, None, None], ['m', s, b, None, [7, -2, 0x12345678][b % 3]], ['m', s, b, (b * 3 + 1) % 8, [None, 100000][b % 2]]]
        mems += [['m', s, 4, 4, None], ['m', s, 3, 4, 8], ['m', s, 5, 5, None], ['m', s, 4, 5, 4], ['m', s, 0, None, 1 << 31], ['m', s, 1, None, -(1 << 31)],
                 ['m', s, 1, None, -(1 << 31) - 1], ['m', s, 6, None, 1 << 32]]
    imms = [['i', v] for v in (0, 1, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, (1 << 63) + 9, (1 << 64) - 1, 1 << 64,
                               -1, -128, -129, -0x8000, -0x8001, -0x80000000, -0x80000001, -(1 << 63))]
    other = [['cr', 0], ['cr', 3], ['cr', 4], ['r', 8, 0], ['r', 8, 5]] + [['d', v] for v in (0, 0x1234, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32)]
    return regs, mems, imms, other


def combos(tier):
    n = 0
    step = 1 if tier == 'thorough' else 61
    for bits in (16, 32, 64):
        regs, mems, imms, other = pool(bits)
        P = regs + mems + imms + other
        for mn in MNEM:
            items = [[mn, [], 'dec', 0]]
            for a in P:
                n += 1
                items.append([mn, [a], ['dec', '0x', 'h'][n % 3], [0, 1, 2][n % 3]])
            yield [bits, items]
            quick = step
            if tier != 'thorough' and mn in CMOVS + JUMPS:
                quick = 200
            items = []
            for a in P:
                n += 1
                part = [b for i, b in enumerate(P) if (i + n * 7) % quick == 0]
                items += [[mn, [a, b], ['dec', '0x', 'h'][(n + i) % 3], [0, 1, 2, 5][(n + i) % 4]] for i, b in enumerate(part)]
                if len(items) > 300 or a is P[-1]:
                    yield [bits, items]
                    items = []
        for mn in ('IMUL', 'MOV', 'ADD', 'LEA', 'SHLD'):
            for i, a in enumerate((regs + other)[::1 if tier == 'thorough' else 5]):
                yield [bits, [[mn, [a, b, c], 'dec', 0] for b in (regs + mems)[i % 5::5] for c in imms[i % 3::3] + regs[i % 7::7]]]


@REG.enum(combos)
def operand_combinations(case):
    """a statement is rejected or decodes back to exactly the operands written"""
    return judge_batch(case)


def matrix(tier):
    """every register pair, memory base and index of the supported forms, in every mode"""
    for bits in (16, 32, 64):
        for size in (16, 32, 64):
            for mn in sorted(set(RM_R + R_RM)):
                yield [bits, [[mn, [['r', size, a], ['r', size, b]], 'dec', (a + b) % 3] for a in range(8) for b in range(8)]]
        for size in (16, 32, 64):
            mems = [['m', 16, b, i, None] for b, i in R.M16] if size == 16 else [['m', size, b, i, None] for b in range(8) for i in [None] + list(range(8))]
            mems = [m[:4] + [d] for m in mems for d in (None, 0, 4, -4, 300)]
            for k, mn in enumerate(['MOV', 'LEA', 'ADD', 'CMOVNZ', 'IMUL', 'XADD']):
                yield [bits, [[mn, [['r', s, (i + k) % 8], m], 'dec', 0] for i, m in enumerate(mems) for s in (16, 32, 64)]]
                yield [bits, [[mn, [m, ['r', s, (i + k) % 8]], 'dec', 0] for i, m in enumerate(mems) for s in (16, 32, 64)]]
            for mn in UNARY + MEMONLY:
                yield [bits, [[mn, [m], 'dec', 0] for m in mems]]
        yield [bits, [['MOV', p, 'dec', 0] for c in range(8) for g in range(8) for p in ([['r', 32, g], ['cr', c]], [['cr', c], ['r', 32, g]])]]
        for mn in JUMPS:
            yield [bits, [[mn, [['i', v]], 'dec', i % 3] for i, v in enumerate(interesting(16) + interesting(32) + [3, -3, 100, -100])]]
        for mn in TABLES:
            yield [bits, [[mn, [['d', v]], s, 0] for v in interesting(16) + interesting(31) + interesting(32) for s in ('dec', '0x', 'h') if v >= 0 or s == 'dec']]
        for mn in ['MOV', 'TEST', 'IMUL'] + R.ARITH:
            for size in (16, 32, 64):
                yield [bits, [[mn, [['r', size, r]] * (2 if mn == 'IMUL' else 1) + [['i', v]], s, 0] for i, v in enumerate(interesting(16) + interesting(32) + interesting(64)) for r in (0, 1 + i % 7)
                              for s in ('dec', '0x') if v >= 0 or s == 'dec']]


@REG.enum(matrix)
def registers_and_memory(case):
    return judge_batch(case)


def plain_cases(tier):
    for bits in (16, 32, 64):
        items = []
        for mn in sorted(R.PLAIN):
            want = R.plain(bits, mn)
            if want is None:
                continue
            for mode in (0, 1, 2, 77):
                items.append([mn, want.hex(), mode])
            if mn in BARE:
                items += [[mn + x, '!', 0] for x in (' 1', ' AX', ' [BX]')]
            if mn in STRINGS:
                for rep, code in REPS.items():
                    items.append([rep + ' ' + mn, bytes([code]).hex() + want.hex(), 1])
        yield [bits, items]


def legacy_first(data):
    """the order of the prefixes does not matter"""
    i = 0
    while i < len(data) and data[i] in (0x66, 0x67, 0xf2, 0xf3):
        i += 1
    return bytes(sorted(data[:i])) + data[i:]


@REG.enum(plain_cases)
def without_operands(case):
    """instructions without operands (and their REP prefixes) are exactly their opcode"""
    bits, items = case
    shared = new(cpu('x86'))
    shared.assemble('.bits %d' % bits)
    for t, want, mode in items:
        res = attempt(shared, bits, recase(t, mode))
        if not res.ok and want != '!' or res.ok and legacy_first(res.image) != legacy_first(bytes.fromhex(want.strip('!'))):
            res = attempt(None, bits, recase(t, mode))      # judge again alone and linked
        if not res.ok:
            if want != '!':
                fail('x86 %d bit %r rejected: %r' % (bits, t, res))
        elif want == '!' or legacy_first(res.image) != legacy_first(bytes.fromhex(want)):
            fail('x86 %d bit %r: expected %s, got %s' % (bits, t, want, hexs(res.image)))
    return len(items), len(items)


size = st.sampled_from([16, 32, 64])
reg = st.builds(lambda s, n: ['r', s, n], size, st.integers(0, 7))
value = st.one_of(ints(16), ints(32), ints(64), st.integers(-200, 300))
m16 = st.builds(lambda p, d: ['m', 16, p[0], p[1], d], st.sampled_from(R.M16), st.one_of(st.none(), ints(16)))
m3264 = st.builds(lambda s, b, i, d: ['m', s, b, i, d], st.sampled_from([32, 64]), st.integers(0, 7), st.one_of(st.none(), st.integers(0, 7)), st.one_of(st.none(), ints(32), st.integers(-200, 200)))
mem = st.one_of(m16, m3264, m3264)
imm = st.builds(lambda v: ['i', v], value)
anyop = st.one_of(reg, mem, imm, reg, st.builds(lambda n: ['cr', n], st.integers(0, 7)), st.builds(lambda v: ['d', v], ints(32)), st.builds(lambda n: ['r', 8, n], st.integers(0, 7)))


@st.composite
def statement(draw):
    s = draw(size)
    r = st.builds(lambda n: ['r', s, n], st.integers(0, 7))
    im = st.builds(lambda v: ['i', v], ints(s))
    kind = draw(st.integers(0, 9))
    if kind == 0:
        return [draw(st.sampled_from(RM_R)), [draw(st.one_of(r, mem)), draw(r)]]
    if kind in (1, 2):
        return [draw(st.sampled_from(R_RM)), [draw(r), draw(st.one_of(r, mem))]]
    if kind == 3:
        return [draw(st.sampled_from(R.ARITH + ['TEST', 'MOV'])), [draw(st.one_of(r, r, mem)), draw(im)]]
    if kind == 4:
        return ['IMUL', [draw(r), draw(st.one_of(r, mem)), draw(im)]]
    if kind == 5:
        return [draw(st.sampled_from(UNARY + MEMONLY + ['PUSH', 'POP', 'BSWAP'])), [draw(st.one_of(r, mem))]]
    if kind == 6:
        return [draw(st.sampled_from(JUMPS)), [draw(imm)]]
    if kind == 7:
        return ['LEA', [draw(r), draw(mem)]]
    return [draw(st.sampled_from(MNEM)), draw(st.lists(anyop, max_size=3))]


STY = st.sampled_from(STYLES['x86'])
one = st.builds(lambda b, s, y, c: [b, s[0], s[1], y, c if y == 'dec' else 0], st.sampled_from([16, 32, 64]), statement(), STY, CASES)


@REG.given(st.lists(one, min_size=1, max_size=12), quick=700)
def generated(case):
    for bits, mn, ops, sty, cs in case:
        judge_batch([bits, [[mn, ops, sty, cs]]])
    return len(case), len(case)


# statements that neither emit nor select a mode ({n} is replaced by a number, and the file n.S has no statements)
BETWEEN = ['', '', '.section s{n} RX', '.section s{n} RW 0x{n}00', '.org 0x{n}000', 'lab{n}:', '.define d{n} 16', '.macro m{n}\nNOP\n.endmacro', '.ram {n}', '.log off', '.align 1', '.fill 0', '.include "n.S"', '.export e{n}',
           '.macro n{n}\n.endmacro\nn{n}', '.repeat 2\n.endrepeat', '; .bits 16', '.db ""']


# encoded differently in the three modes
PLAIN = ['MOV EAX, 1', 'MOV AX, 1', 'MOV EAX, EBX', 'ADD CX, DX', 'CWD', 'CDQ', 'STOSW', 'STOSD', 'REP MOVSW', 'MOV EAX, [ ESI ]', 'MOV AL, [ EDI + 5 ]', 'XCHG EBX, EAX', 'SHL ECX, 3', 'NOT DX', 'JZ 300', 'LODSD', 'CBW', 'MUL ESI', 'BSWAP EAX', 'FNOP', 'NOP']


@REG.given(st.tuples(st.lists(st.one_of(one, st.tuples(st.sampled_from([16, 32, 64]), st.sampled_from(PLAIN))), min_size=2, max_size=10), st.lists(st.sampled_from(BETWEEN), max_size=10), st.booleans()), quick=200)
def sequences(case):
    """the image of a sequence of instructions, with the mode changing between them, is the concatenation of the images"""
    texts, want = [], b''
    case, between, often = case
    mode = 64
    encoded = 0
    for i, (bits, *one_) in enumerate(case):
        # the mode stays selected until the next .bits
        head = ''
        if often or i % 3 == 0:
            mode, head = bits, '.bits %d\n' % bits
        b = between[i].replace('{n}', str(i + 1)) if i < len(between) else ''
        t = '.bits %d\n%s' % (mode, one_[0] if len(one_) == 1 else text_of(mode, *one_))
        r = run(cpu('x86'), t)
        texts.append(head + b)
        if r.ok:
            encoded += 1
            texts.append(t.split('\n', 1)[1])
            want += r.image
    with scratch():
        with open('n.S', 'w') as f:
            f.write('; nothing\n')
        got = run(cpu('x86'), '\n'.join(texts))
    expect_image(got, want, 'sequence %r' % texts)
    return encoded > 1


def bits_cases(tier):
    return [[v, v in (16, 32, 64)] for v in list(range(0, 130)) + [256 + 16, 256 + 32, 1 << 16, -16, -32, -64]]


@REG.enum(bits_cases)
def modes(case):
    """only the three modes of the processor can be selected"""
    v, ok = case
    r = run(cpu('x86'), '.bits %d\nMOV AX, BX\n' % v)
    if ok != r.ok:
        fail('.bits %d: %r' % (v, r))
    if ok:
        good, got = matches(v, 'MOV', [['r', 16, 0], ['r', 16, 3]], r.image)
        if not good:
            fail('.bits %d MOV AX, BX: %s is %s' % (v, hexs(r.image), got))
    return True


@REG.enum(labelforms.cases(['x86_16', 'x86_32', 'x86_64'], 1))
def label_operands(case):
    """statements of every shape with a label in place of a number"""
    return labelforms.check(case)


@REG.enum(linkcheck.slot_cases(['x86_16', 'x86_32', 'x86_64']))
def label_slots(batch):
    """every operand that may be a label, absolute or relative, at the limits of its field"""
    return linkcheck.slot_verdicts(batch)
