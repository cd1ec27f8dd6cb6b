from hypothesis import strategies as st
from harness.core import Registry
from harness import linkcheck
from harness import labelforms
from harness.cpulib import *
from harness.ref import i8086 as R

REG = Registry('C23', 'every mnemonic x every operand combination from a pool of all registers, segments, memory modes, immediates, ports, relative and far targets, plus '
               'generated displacement/immediate values; the emitted bytes are decoded by an independent 8086 decoder and must give back the operands written, '
               'forms of the supported list must be accepted, values that do not fit rejected. Non-trivial: every case.',
               ['memory operands are written with separated tokens (`[BX + SI + 5]`), the spelling the library documents by its tests',
                'any valid encoding of the operands is accepted (direction bit, displacement size)'])
SUP0 = sorted(set(R.SIMPLE.values()))


def spelled(o, sty='dec'):
    k = o[0]
    if k == 'r8': return R.R8[o[1]]
    if k == 'r16': return R.R16[o[1]]
    if k == 'seg': return R.SEG[o[1]]
    if k == 'imm' or k == 'rel': return spell(o[1], sty)
    if k == 'far': return spell(o[1], sty) + ':' + spell(o[2], sty)
    if k == 'mem':
        if o[1] is None:
            return '[' + spell(o[2], sty) + ']'
        t = '[' + o[1].replace('+', ' + ')
        if o[2] is not None:
            t += (' + ' + spell(o[2], sty)) if o[2] >= 0 else ' - %d' % -o[2]
        return t + ']'


def supported(mn, ops, sty):
    """must this be accepted?  (None: not a form of the supported list)"""
    ks = [o[0] for o in ops]
    ok = True
    based = lambda o: o[0] == 'mem' and o[1] is not None and (o[2] is None or fits(o[2], 16, sty if o[2] >= 0 else 'dec', True))
    direct = lambda o: o[0] == 'mem' and o[1] is None and fits(o[2], 16, sty)
    isacc = lambda o: o in (['r8', 0], ['r16', 0])
    immfit = lambda o, b: o[0] == 'imm' and fits(o[1], b, sty)
    n = len(ops)
    if n == 0:
        return mn in SUP0 or mn in ('AAM', 'AAD')
    a = ops[0]
    b = ops[1] if n > 1 else None
    if n == 1:
        if mn in ('INC', 'DEC', 'PUSH', 'POP') and a[0] == 'r16': return True
        if mn == 'PUSH' and a[0] == 'seg' or mn == 'POP' and a[0] == 'seg' and a[1] != 1: return True
        if mn == 'POP' and based(a): return True
        if mn in R.JCC or mn in R.LOOPS.values(): return a[0] == 'imm' and fits(a[1], 8, 'dec', True)
        if mn in ('CALL', 'JMP'):
            return a[0] == 'imm' and fits(a[1], 16, sty, True) or a[0] == 'far' and fits(a[1], 16, sty) and fits(a[2], 16, sty)
        if mn in ('RET', 'RETF'): return immfit(a, 16)
        if mn == 'INT' or mn in ('AAM', 'AAD'): return immfit(a, 8)
        if mn in ('MUL', 'DIV'): return a[0] == 'r16' or based(a)
        return False
    if n != 2:
        return False
    if mn in R.ALU:
        return (a[0] == b[0] and a[0] in ('r8', 'r16')) or (a[0] in ('r8', 'r16') and based(b)) or (based(a) and b[0] in ('r8', 'r16')) \
            or (a == ['r8', 0] and immfit(b, 8)) or (a == ['r16', 0] and immfit(b, 16))
    if mn == 'TEST':
        return (a[0] == b[0] and a[0] in ('r8', 'r16')) or (a[0] in ('r8', 'r16') and based(b)) or (a == ['r8', 0] and immfit(b, 8)) or (a == ['r16', 0] and immfit(b, 16))
    if mn == 'XCHG':
        return (a[0] == b[0] and a[0] in ('r8', 'r16')) or (a[0] in ('r8', 'r16') and based(b))
    if mn == 'MOV':
        if a[0] == 'seg' and a[1] == 1: return False
        return (a[0] == b[0] and a[0] in ('r8', 'r16')) or (a[0] in ('r8', 'r16', 'seg') and based(b)) or (based(a) and b[0] in ('r8', 'r16', 'seg')) \
            or (a[0] == 'r8' and immfit(b, 8)) or (a[0] == 'r16' and immfit(b, 16)) or (based(a) and immfit(b, 8)) \
            or (a[0] == 'r16' and b[0] == 'seg') or (a[0] == 'seg' and b[0] == 'r16') or (isacc(a) and direct(b)) or (direct(a) and isacc(b))
    if mn == 'LEA': return a[0] == 'r16' and based(b)
    if mn in ('LES', 'LDS'): return a[0] == 'r16' and direct(b)
    if mn == 'IN': return isacc(a) and (immfit(b, 8) or b == ['r16', 2])
    if mn == 'OUT': return isacc(b) and (immfit(a, 8) or a == ['r16', 2])
    if mn in ('SHL', 'SHR'): return (a[0] in ('r8', 'r16') or based(a)) and b[0] == 'imm' and b[1] == 1 and sty == 'dec'
    return False


def same(w, d):
    """operand as written (w) against decoded (d)"""
    if w[0] == 'mem':
        return d[0] == 'mem' and w[1] == d[1] and (w[2] or 0) & 0xffff == d[2] and (w[2] is None or -0x8000 <= w[2] <= 0xffff)
    if w[0] == 'imm':
        if d[0] == 'imm':
            return -(1 << d[2] - 1) <= w[1] < 1 << d[2] and w[1] & ((1 << d[2]) - 1) == d[1]
        if d[0] == 'rel':
            bits = 8 if d[2] == 2 else 16
            return w[1] == d[1] or (0 <= w[1] < 1 << bits and w[1] & ((1 << bits) - 1) == d[1] & ((1 << bits) - 1))
        return False
    if w[0] == 'far':
        return d[0] == 'far' and w[1] & 0xffff == d[1] and w[2] & 0xffff == d[2] and -0x8000 <= w[1] <= 0xffff and -0x8000 <= w[2] <= 0xffff
    return w == d


def verdict(mn, ops, sty, case=0, asm=None):
    text = recase((mn + ' ' + ','.join(spelled(o, sty) for o in ops)).strip(), case)
    if asm is None:
        res = run(cpu('8086'), text)
    else:
        before = len(asm.assembled_bytes)
        try:
            asm.assemble(text)
            res = Res(True, bytes(asm.assembled_bytes[before:]))
        except Exception as exc:
            res = Res(False, exc=exc)
    req = supported(mn, ops, sty)
    sig = 'aam-aad-without-base-byte' if mn in ('AAM', 'AAD') and (not ops or ops[0][:2] == ['imm', 10]) and res.image in (b'\xd4', b'\xd5') else None
    if not res.ok:
        if req:
            fail('8086 %r rejected: %r' % (text, res))
        return
    d = R.decode(res.image)
    if d is None:
        fail('8086 %r assembled to %s which is not one valid instruction' % (text, hexs(res.image)), sig)
    wops = [list(o) for o in ops]
    if mn in ('SHL', 'SHR') and len(wops) == 1:
        wops.append(['imm', 1])
    if mn in ('AAM', 'AAD') and wops and wops[0][1] == 10:
        wops = []
    cands = [wops]
    if mn in ('XCHG', 'TEST') and len(wops) == 2:
        cands.append(wops[::-1])
    if d[0] != mn or not any(len(c) == len(d[1]) and all(same(x, y) for x, y in zip(c, d[1])) for c in cands):
        fail('8086 %r assembled to %s which means %s %s' % (text, hexs(res.image), d[0], ', '.join(spelled([*o[:2], *o[2:]], 'dec') for o in d[1])), sig)


MNEM = sorted(set(SUP0 + R.ALU + R.JCC + list(R.LOOPS.values()) + ['INC', 'DEC', 'PUSH', 'POP', 'CALL', 'JMP', 'RET', 'RETF', 'INT', 'AAM', 'AAD', 'MUL', 'DIV', 'TEST',
                                                                   'XCHG', 'MOV', 'LEA', 'LES', 'LDS', 'IN', 'OUT', 'SHL', 'SHR']))


def pool(tier):
    p = [['r8', i] for i in range(8)] + [['r16', i] for i in range(8)] + [['seg', i] for i in range(4)]
    p += [['mem', b, d] for b in R.BASES for d in (None, 5, -2)] + [['mem', None, 0x17], ['mem', None, 0x1234], ['mem', 'BX', 0x1234], ['mem', 'SI', 40000], ['mem', 'BP+DI', -32768], ['mem', 'BX', -32769]]
    p += [['imm', v] for v in (0, 1, 3, 10, 127, 128, 255, 256, 0x1234, 65535, 65536, -1, -128, -129, -32768, -32769)] + [['far', 0x1234, 0x5678], ['far', 65536, 1]]
    return p


def combos(tier):
    P = pool(tier)
    n = 0
    for mn in MNEM:
        batch = [[mn, [], 'dec', 0]]
        for a in P:
            n += 1
            batch.append([mn, [a], ['dec', '0x', 'h'][n % 3], [0, 1, 2][n % 3]])
        yield batch
    for mn in (MNEM if tier == 'thorough' else ['MOV', 'ADD', 'CMP', 'XCHG', 'TEST', 'LEA', 'LES', 'LDS', 'IN', 'OUT', 'SHL', 'SHR', 'SUB', 'AND', 'OR', 'XOR', 'ADC', 'SBB']):
        for a in P:
            n += 1
            yield [[mn, [a, b], ['dec', '0x', 'h'][(n + i) % 3], [0, 1, 2, 5][(n + i) % 4]] for i, b in enumerate(P)]
    for mn in ('MOV', 'ADD', 'SHL', 'IN'):
        for a in P:
            yield [[mn, [a, b, c], 'dec', 0] for b in P[::6] for c in P[::11]]


@REG.enum(combos)
def operand_combinations(case):
    """a statement is rejected or decodes back to exactly the operands written"""
    shared = new(cpu('8086'))
    for mn, ops, sty, cs in case:
        try:
            verdict(mn, ops, sty, cs, shared)
        except Violation:
            verdict(mn, ops, sty, cs)       # judge again alone and linked
            shared = new(cpu('8086'))
    return len(case), len(case)


val16 = st.one_of(st.sampled_from(interesting(16) + interesting(8)), st.integers(-70000, 70000))
reg = st.one_of(st.builds(lambda n: ['r8', n], st.integers(0, 7)), st.builds(lambda n: ['r16', n], st.integers(0, 7)))
memop = st.builds(lambda b, d: ['mem', b, d], st.sampled_from(R.BASES), st.one_of(st.none(), val16))
dmem = st.builds(lambda d: ['mem', None, d], val16)
imm = st.builds(lambda v: ['imm', v], val16)
far = st.builds(lambda a, b: ['far', a, b], val16, val16)
anyop = st.one_of(reg, memop, imm, reg, memop, imm, dmem, far, st.builds(lambda n: ['seg', n], st.integers(0, 3)))
sty = st.sampled_from(['dec', '0x', 'h'])
accum = st.sampled_from([['r8', 0], ['r16', 0]])
stmt = st.one_of(
    st.tuples(st.sampled_from(R.ALU + ['MOV', 'TEST', 'XCHG']), st.one_of(st.tuples(reg, memop), st.tuples(memop, reg), st.tuples(accum, imm))),
    st.tuples(st.just('MOV'), st.one_of(st.tuples(reg, imm), st.tuples(memop, imm), st.tuples(accum, dmem), st.tuples(dmem, accum))),
    st.tuples(st.sampled_from(['LEA', 'LES', 'LDS']), st.tuples(reg, st.one_of(memop, dmem))),
    st.tuples(st.sampled_from(R.JCC + ['LOOP', 'JCXZ', 'CALL', 'JMP', 'INT', 'RET', 'RETF', 'AAM', 'AAD', 'PUSH']), st.tuples(imm)),
    st.tuples(st.sampled_from(['CALL', 'JMP']), st.tuples(far)),
    st.tuples(st.sampled_from(['MUL', 'DIV', 'POP', 'SHL', 'SHR', 'PUSH', 'INC']), st.tuples(memop)),
    st.tuples(st.sampled_from(['IN', 'OUT']), st.one_of(st.tuples(accum, imm), st.tuples(imm, accum))),
    st.tuples(st.sampled_from(MNEM), st.lists(anyop, max_size=2).map(tuple)))
one = st.builds(lambda s, y, c: [s[0], [list(o) for o in s[1]], y, c], stmt, sty, CASES)


@REG.given(one, quick=2500)
def generated(case):
    verdict(*case)
    return True


@REG.given(st.lists(one, min_size=2, max_size=10), quick=300)
def sequences(case):
    """the image of a sequence is the concatenation of the images"""
    texts, want = [], b''
    for mn, ops, y, c in case:
        t = recase((mn + ' ' + ','.join(spelled(o, y) for o in ops)).strip(), c)
        r = run(cpu('8086'), t)
        if r.ok:
            texts.append(t)
            want += r.image
    expect_image(run(cpu('8086'), '\n'.join(texts)), want, 'sequence %r' % texts)
    return len(texts) > 1


@REG.enum(labelforms.cases(['8086'], 1))
def label_operands(case):
    """statements of every shape with a label in place of a number"""
    return labelforms.check(case)


@REG.enum(linkcheck.slot_cases(['8086']))
def label_slots(batch):
    """every operand that may be a label, absolute or relative, at the limits of its field"""
    return linkcheck.slot_verdicts(batch)
