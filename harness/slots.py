"""Operand slots that can hold a label, per CPU, with the bytes a label of a given address must give.

A slot is a statement template with {L} for the label.  `outcomes(v, pc, known)` returns the accepted results
(hex or '!') for a label at address v, the statement being at pc; `known` tells whether the label is defined before
the statement (only the 6502 cares, for its zero page forms).
All encodings come from harness/ref/ (written from the CPU manuals), never from the code under test.
"""
import functools
from harness.cpulib import *
from harness.ref import m6502, sm83, z80, m68k, mips, ppc
from harness.ref import thumb as thumbref

SENT = 0x3a5c      # stands for the label while a template is being rendered


class Slot:
    __slots__ = ('t', 'rel', 'bits', 'align', 'fn', 'length', 'base')

    def __init__(self, t, fn, length, bits, rel=False, align=1, base=None):
        self.t, self.fn, self.length, self.bits, self.rel, self.align, self.base = t, fn, length, bits, rel, align, base

    def outcomes(self, v, pc, known):
        return self.fn(v, pc, known)

    def text(self, name):
        return self.t.replace('{L}', name)


def ufield(v, bits):
    return 0 <= v < 1 << bits


def uniq(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def both(enc, v):
    """outcomes of the literal v written in hexadecimal and in decimal; when only one spelling is accepted both are"""
    if v < 0:
        return ['!']
    return uniq(list(enc(v, 'hex')) + list(enc(v, 'dec')))


def absolute(t, build, bits, length, signed=False):
    def fn(v, pc, known):
        if not ufield(v, bits):
            return ['!']
        w = [build(v)]
        if signed and v >= 1 << bits - 1:
            w.append('!')
        return w
    return Slot(t, fn, length, bits)


def relative(t, build, bits, length, base, align=1, lo=None, hi=None, bad=()):
    """build(displacement) -> hex; base(pc) -> address the displacement counts from"""
    lo = -(1 << bits - 1) if lo is None else lo
    hi = (1 << bits - 1) - 1 if hi is None else hi

    def fn(v, pc, known):
        d = v - base(pc)
        if lo <= d <= hi and d % align == 0 and d not in bad:
            return [build(d)]
        return ['!']
    return Slot(t, fn, length, bits, True, align, base)


def s_6502():
    out = []
    for mn in m6502.MNEMONICS:
        for syn, (zp, ab) in m6502.SYNTAX.items():
            z, a = m6502.TABLE.get((mn, zp)), m6502.TABLE.get((mn, ab))
            if z is None and a is None:
                continue
            t = mn + ' ' + syn.replace('{}', '{L}')
            if zp in ('izx', 'izy'):
                s = absolute(t, lambda v, z=z: H(z, v), 8, 2)
                # a zero page only form may insist on a label that is already known
                s.fn = lambda v, pc, known, f=s.fn: f(v, pc, known) if known else uniq(f(v, pc, known) + ['!'])
                out.append(s)
                continue

            def fn(v, pc, known, z=z, a=a):
                if z is not None and known and 0 <= v <= 255:
                    return [H(z, v)]
                if a is not None and 0 <= v <= 0xffff:
                    return [H(a, le16(v))]
                return ['!']
            out.append(Slot(t, fn, None, 16))
        i = m6502.TABLE.get((mn, 'imm'))
        if i is not None:
            out.append(absolute(mn + ' #{L}', lambda v, i=i: H(i, v), 8, 2))
    for mn in m6502.BRANCHES:
        op = m6502.TABLE[mn, 'rel']
        out.append(relative(mn + ' {L}', lambda d, op=op: H(op, d & 255), 8, 2, lambda pc: pc + 2))
    return out


def s_lr():
    out = []
    for t, code in sm83.FORMS.items():
        if '{n16}' in t:
            out.append(absolute(t.replace('{n16}', '{L}'), lambda v, c=code: H(c, le16(v)), 16, 3))
        elif '{n8}' in t:
            out.append(absolute(t.replace('{n8}', '{L}'), lambda v, c=code: H(c, v), 8, 2))
        elif '{rel}' in t:
            out.append(relative(t.replace('{rel}', '{L}'), lambda d, c=code: H(c, d & 255), 8, 2, lambda pc: pc + 2))
        elif '{e8}' in t:
            out.append(absolute(t.replace('{e8}', '{L}'), lambda v, c=code: H(c, v), 8, 2, signed=True))
    return out


def s_z80():
    out = []
    for t, code in z80.FORMS.items():
        for k, bits in (('nn', 16), ('n', 8), ('e', 8), ('d', 8)):
            if '{%s}' % k not in t:
                continue
            text = t
            for other in ('d', 'n'):
                if other != k:
                    text = text.replace('{%s}' % other, '+5' if other == 'd' else '7')
            text = text.replace('{%s}' % k, '+{L}' if k == 'd' else '{L}')

            def build(v, code=code, k=k):
                o = b''
                for c in code:
                    if isinstance(c, int): o += bytes([c])
                    elif c != k: o += b'\5' if c == 'd' else b'\7'
                    else: o += le16(v) if k == 'nn' else bytes([v & 255])
                return o.hex()
            n = len(build(0)) // 2
            if k == 'e':
                out.append(relative(text, build, 8, n, lambda pc, n=n: pc + n))
            else:
                out.append(absolute(text, build, bits, n, signed=k == 'd'))
    return out


def s_8086():
    out = []
    R16 = ['AX', 'CX', 'DX', 'BX', 'SP', 'BP', 'SI', 'DI']
    R8 = ['AL', 'CL', 'DL', 'BL', 'AH', 'CH', 'DH', 'BH']
    A = lambda t, pre, bits, post=b'', signed=False: out.append(absolute(
        t, lambda v: H(pre, le16(v) if bits == 16 else bytes([v & 255]), post), bits, len(pre) + bits // 8 + len(post), signed))
    for i in range(8):
        A('MOV %s,{L}' % R16[i], bytes([0xb8 + i]), 16)
        A('MOV %s,{L}' % R8[i], bytes([0xb0 + i]), 8)
    for i, m in enumerate(['ADD', 'OR', 'ADC', 'SBB', 'AND', 'SUB', 'XOR', 'CMP']):
        A(m + ' AX,{L}', bytes([i * 8 + 5]), 16)
        A(m + ' AL,{L}', bytes([i * 8 + 4]), 8)
    A('TEST AX,{L}', b'\xa9', 16)
    A('TEST AL,{L}', b'\xa8', 8)
    A('MOV AL,[{L}]', b'\xa0', 16)
    A('MOV AX,[{L}]', b'\xa1', 16)
    A('MOV [{L}],AL', b'\xa2', 16)
    A('MOV [{L}],AX', b'\xa3', 16)
    A('LES BX,[{L}]', b'\xc4\x1e', 16)
    A('LDS SI,[{L}]', b'\xc5\x36', 16)
    A('RET {L}', b'\xc2', 16)
    A('RETF {L}', b'\xca', 16)
    A('INT {L}', b'\xcd', 8)
    A('IN AL,{L}', b'\xe4', 8)
    A('IN AX,{L}', b'\xe5', 8)
    A('OUT {L},AL', b'\xe6', 8)
    A('OUT {L},AX', b'\xe7', 8)
    A('CALL 4660:{L}', b'\x9a', 16, le16(4660))
    A('JMP {L}:4660', b'\xea' + le16(4660), 16)
    A('CALL {L}:{L}', b'\x9a', 16)
    s = out.pop()
    out.append(Slot(s.t, lambda v, pc, known: [H(b'\x9a', le16(v), le16(v))] if ufield(v, 16) else ['!'], 5, 16))
    rm = ['BX + SI', 'BX + DI', 'BP + SI', 'BP + DI', 'SI', 'DI', 'BP', 'BX']
    for i, m in enumerate(rm):
        A('MOV %s,[%s + {L}]' % (R16[i], m), bytes([0x8b, 0x80 | i << 3 | i]), 16, signed=True)
        A('MOV [%s + {L}],%s' % (m, R8[7 - i]), bytes([0x88, 0x80 | (7 - i) << 3 | i]), 16, signed=True)
        A('LEA DX,[%s + {L}]' % m, bytes([0x8d, 0x80 | 2 << 3 | i]), 16, signed=True)
        A('ADD CL,[%s + {L}]' % m, bytes([0x02, 0x80 | 1 << 3 | i]), 16, signed=True)
    A('MOV [SI],{L}', b'\xc6\x04', 8)
    A('MOV [BX + {L}],5', b'\xc6\x87', 16, b'\5', signed=True)
    A('MOV [DI + 4660],{L}', b'\xc6\x85' + le16(4660), 8)
    for i, m in enumerate(['JO', 'JNO', 'JB', 'JNB', 'JZ', 'JNZ', 'JBE', 'JA', 'JS', 'JNS', 'JPE', 'JPO', 'JL', 'JGE', 'JLE', 'JG']):
        out.append(relative(m + ' {L}', lambda d, i=i: H(0x70 + i, d & 255), 8, 2, lambda pc: pc + 2))
    for i, m in enumerate(['LOOPNZ', 'LOOPZ', 'LOOP', 'JCXZ']):
        out.append(relative(m + ' {L}', lambda d, i=i: H(0xe0 + i, d & 255), 8, 2, lambda pc: pc + 2))
    out.append(relative('CALL {L}', lambda d: H(0xe8, le16(d)), 16, 3, lambda pc: pc + 3))
    out.append(relative('JMP {L}', lambda d: H(0xe9, le16(d)), 16, 3, lambda pc: pc + 3))
    return out


def s_68000():
    out = []

    def a(mn, size, ops, bits):
        k = [o for o in ops if SENT in o][0]
        t = (mn + size + ' ' + ','.join(m68k.text(o, '$') for o in ops)).replace('$%x' % SENT, '{L}')
        sub = lambda v: [[v if x == SENT else x for x in o] for o in ops]
        w = m68k.encode(mn, size, sub(1), '$')
        assert w[0] != '!', (t, w)
        n = len(w[0]) // 2
        signed = k[0] in ('d16', 'd8')

        def fn(v, pc, known):
            if not ufield(v, bits):
                return ['!']
            w = [x for s in ('$', 'dec') for x in m68k.encode(mn, size, sub(v), s)]
            return uniq(w)
        out.append(Slot(t, fn, n, bits))

    def r(mn, size, ops, bits, align, bad=()):
        t = (mn + size + ' ' + ','.join(m68k.text(o, '$') for o in ops)).replace('$%x' % SENT, '{L}')
        sub = lambda v: [[v if x == SENT else x for x in o] for o in ops]
        n = len(m68k.encode(mn, size, sub(2), 'dec')[0]) // 2
        out.append(relative(t, lambda d: m68k.encode(mn, size, sub(d), 'dec')[0], bits, n, lambda pc: pc + 2, 1, bad=bad))
        if align == 2:
            s = out[-1]
            f0 = s.fn
            # an odd target cannot be branched to
            s.fn = lambda v, pc, known: ['!'] if v % 2 else uniq(f0(v, pc, known) + (['!'] if (v - pc) % 2 else []))
            s.align = 2

    eas = [(['w', SENT, 0], 16), (['w', SENT, 1], 16), (['l', SENT, 0], 32), (['l', SENT, 1], 32), (['l', SENT, 2], 32), (['d16', SENT, 3], 16),
           (['d8', SENT, 4, 'd', 2, '.w'], 8), (['d8', SENT, 5, 'a', 1, '.l'], 8)]
    for e, b in eas:
        for s in ('.b', '.w', '.l'):
            a('MOVE', s, [e, ['d', 1]], b)
            a('MOVE', s, [['d', 2], e], b)
            a('MOVE', s, [['imm', 0x12], e], b)
            a('MOVE', s, [e, ['d16', 0x12, 6]], b)
        a('MOVE', '.w', [['l', 0x123456, 0], e], b)
        a('MOVE', '.w', [e, ['l', 0x123456, 0]], b)
        for m in ('JMP', 'JSR'):
            a(m, '', [e], b)
        a('LEA', '', [e, ['a', 2]], b)
        a('MOVEA', '.l', [e, ['a', 2]], b)
        for m in m68k.IMMOPS:
            for s in ('.b', '.w', '.l'):
                a(m, s, [['imm', 0x12], e], b)
    for s, b in (('.b', 8), ('.w', 16), ('.l', 32)):
        for m in m68k.IMMOPS:
            a(m, s, [['imm', SENT], ['d', 3]], b)
            a(m, s, [['imm', SENT], ['d16', 0x12, 3]], b)
        a('MOVE', s, [['imm', SENT], ['d', 3]], b)
        a('MOVE', s, [['imm', SENT], ['l', 0x123456, 0]], b)
    a('MOVEA', '.w', [['imm', SENT], ['a', 3]], 16)
    a('ORI', '', [['imm', SENT], ['ccr']], 8)
    a('ANDI', '', [['imm', SENT], ['sr']], 16)
    for c in m68k.CC:
        for s in ('', '.w', '.b'):
            r('B' + c, s, [['l', SENT, 0]], 8 if s == '.b' else 16, 2, bad=(0,) if s == '.b' else ())
    for c in list(m68k.CC) + ['T', 'F', 'RA']:
        for s in ('', '.w'):
            r('DB' + c, s, [['d', 5], ['l', SENT, 0]], 16, 2)
    for e, b in ((['pc16', SENT], 16), (['pc8', SENT, 'd', 3, '.w'], 8), (['pc8', SENT, 'a', 6, '.l'], 8)):
        for mn, s, ops in (('JMP', '', [e]), ('JSR', '', [e]), ('LEA', '', [e, ['a', 1]]), ('MOVE', '.w', [e, ['d', 7]]), ('MOVE', '.b', [e, ['l', 0x1234, 0]]),
                           ('MOVE', '.l', [e, ['d16', 0x12, 2]]), ('MOVEA', '.l', [e, ['a', 5]])):
            r(mn, s, ops, b, 1)
    return out


def s_mips(big=True):
    out = []
    p = lambda w: w.to_bytes(4, 'big' if big else 'little').hex()

    def conv(ws):
        return uniq([x if x == '!' else p(x) for x in ws])

    def a(mn, t, ops, bits):
        sub = lambda v: [[v if x == SENT else x for x in o] for o in ops]

        def fn(v, pc, known):
            if not ufield(v, bits):
                return ['!']
            return conv(list(mips.encode(mn, sub(v), '0x', pc)) + list(mips.encode(mn, sub(v), 'dec', pc)))
        out.append(Slot(t, fn, 4, bits))
    for m in list(mips.IMM_S) + list(mips.IMM_SU) + list(mips.IMM_U):
        a(m, m + ' $t0,$a1,{L}', [['r', 8, 1], ['r', 5, 1], ['i', SENT]], 16)
    for m in mips.HI:
        a(m, m + ' $s0,{L}', [['r', 16, 1], ['i', SENT]], 32)
    for m in mips.SH:
        a(m, m + ' $t0,$t1,{L}', [['r', 8, 1], ['r', 9, 1], ['i', SENT]], 5)
    for m in ('j', 'jal'):
        a(m, m + ' {L}', [['i', SENT]], 32)
    for m in list(mips.BR2) + list(mips.BR1):
        two = m in mips.BR2
        t = m + (' $t0,$t1,{L}' if two else ' $t3,{L}')
        ops = ([['r', 8, 1], ['r', 9, 1]] if two else [['r', 11, 1]])
        out.append(relative(t, lambda d, m=m, ops=ops: p(mips.encode(m, ops + [['i', d]], 'dec')[0]), 18, 4, lambda pc: pc + 4, 4))
        f0 = out[-1].fn
        out[-1].fn = lambda v, pc, known, f0=f0: uniq(f0(v, pc, known) + ['!']) if v % 4 else f0(v, pc, known)
    return out


def s_thumb():
    out = []
    for c in thumbref.CC + ['B', 'BL']:
        bits = {'B': 12, 'BL': 23}.get(c, 9)

        def build(d, c=c):
            return thumbref.encode(c, [['num', d]])[0]
        s = relative(c + ' {L}', build, bits, 4 if c == 'BL' else 2, lambda pc: pc + 4, 2)
        f0 = s.fn
        s.fn = lambda v, pc, known, f0=f0: uniq(f0(v, pc, known) + ['!']) if v % 2 else f0(v, pc, known)
        out.append(s)
    for r in (0, 3, 7):
        s = relative('LDR r%d,[pc,#{L}]' % r, lambda d, r=r: (0x4800 | r << 8 | d >> 2).to_bytes(2, 'little').hex(), 11, 2, lambda pc: (pc + 4) & ~2, 4, lo=0, hi=1020)
        f0 = s.fn
        s.fn = lambda v, pc, known, f0=f0: uniq(f0(v, pc, known) + ['!']) if v % 4 else f0(v, pc, known)
        out.append(s)
    return out


def s_ppc():
    out = []
    tok = {'g': ('r9', ['g', 9]), 'z': ('r9', ['g', 9]), 'f': ('f3', ['f', 3])}
    for name, forms in ppc.FORMS.items():
        for base, shape in forms:
            nums = [i for i, (lsb, width, kind) in enumerate(shape) if kind in 'nsupb' or kind not in 'gzf']
            for i in nums:
                lsb, width, kind = shape[i]
                ops, text = [], []
                for j, (l, w, k) in enumerate(shape):
                    if j == i:
                        ops.append(['i', SENT]); text.append('{L}')
                    elif k in tok:
                        ops.append(tok[k][1]); text.append(tok[k][0])
                    else:
                        v = 4 if k in 'pb' else 1
                        ops.append(['i', v]); text.append(str(v))
                t = name + ' ' + ', '.join(text)
                sub = lambda v, ops=ops: [[v if x == SENT else x for x in o] for o in ops]
                if kind == 'p':
                    s = relative(t, lambda d, name=name, sub=sub: ppc.encode(name, sub(d), True)[0], width + 2, 4, lambda pc: pc, 4)
                    f0 = s.fn
                    s.fn = lambda v, pc, known, f0=f0: uniq(f0(v, pc, known) + ['!']) if v % 4 else f0(v, pc, known)
                    out.append(s)
                else:
                    def fn(v, pc, known, name=name, sub=sub):
                        if v < 0:
                            return ['!']
                        return uniq(ppc.encode(name, sub(v), False) + ppc.encode(name, sub(v), True))
                    if kind == 'b':
                        def fn(v, pc, known, name=name, sub=sub, width=width):
                            # absolute addresses are sign extended: the upper half is not reachable by its plain address
                            if v % 4 or v >= 1 << width + 2:
                                return ['!']
                            w = ppc.encode(name, sub(v), False)
                            return ['!'] if v >= 1 << width + 1 else w
                    out.append(Slot(t, fn, 4, width + (2 if kind == 'b' else 0), align=4 if kind == 'b' else 1))
    return out


def s_x86(bits):
    from harness.ref import x86 as R
    out = []
    sizes = (16, 32, 64) if bits == 64 else (16, 32)

    def pre(size, addr=None):
        """the accepted prefixes: operand size, address size, REX.W"""
        p66 = b'\x66' if size != 64 and (size == 16) != (bits == 16) else b''
        p67 = b'\x67' if addr is not None and addr != bits else b''
        rex = b'\x48' if size == 64 else b''
        return uniq([p67 + p66 + rex, p66 + p67 + rex])

    def A(t, pres, head, width, tail=b'', signed=False):
        def fn(v, pc, known):
            if not ufield(v, width):
                return ['!']
            w = [H(p, head, v.to_bytes(width // 8, 'little'), tail) for p in pres]
            # a field that is sign extended to 64 bits
            return w + ['!'] if signed and v >= 1 << width - 1 else w
        out.append(Slot(t, fn, len(pres[0]) + len(head) + width // 8 + len(tail), width))

    for size in sizes:
        regs, p = R.REG[size], pre(size)
        for i, r in enumerate(regs):
            A('MOV %s,{L}' % r, p, bytes([0xb8 + i]), size)
            if size == 64:
                continue
            m = R.ARITH[i]
            A('%s %s,{L}' % (m, regs[0]), p, bytes([i * 8 + 5]), size)
            A('%s %s,{L}' % (m, regs[7 - i or 3]), p, bytes([0x81, 0xc0 | i << 3 | (7 - i or 3)]), size)
            A('IMUL %s,%s,{L}' % (r, regs[i ^ 3]), p, bytes([0x69, 0xc0 | i << 3 | i ^ 3]), size)
        if size != 64:
            A('TEST %s,{L}' % regs[0], p, b'\xa9', size)
            A('TEST %s,{L}' % regs[6], p, b'\xf7\xc6', size)
        for addr in (16, 32, 64):
            if (addr == 64) > (bits == 64) or (addr == 16 and bits == 64):
                continue
            width, p = min(addr, 32), pre(size, addr)
            for i in range(8):
                r = regs[(i + 3) % 8]
                if addr == 16:
                    names, rm, sib = [R.R16[k] for k in R.M16[i] if k is not None], i, b''
                else:
                    names = [R.REG[addr][i]] if i % 2 or i == 4 else [R.REG[addr][i], R.REG[addr][i + 1]]
                    rm, sib = i, b''
                    if len(names) == 2:
                        rm, sib = 4, bytes([i + 1 << 3 | i])
                    elif i == 4:
                        sib = b'\x24'
                mem = '[' + ' + '.join(names + ['{L}']) + ']'
                code = lambda reg: bytes([0x80 | reg << 3 | rm]) + sib
                g = (i + 3) % 8
                kind = (i + size // 16 + addr // 32) % 4
                if kind == 0:
                    A('MOV %s,%s' % (r, mem), p, b'\x8b' + code(g), width, signed=True)
                    A('CMOVB %s,%s' % (r, mem), p, b'\x0f\x42' + code(g), width, signed=True)
                elif kind == 1:
                    A('XADD %s,%s' % (mem, r), p, b'\x0f\xc1' + code(g), width, signed=True)
                    if size == min(bits, 32):
                        A('NOT %s' % mem, p, b'\xf7' + code(2), width, signed=True)
                elif kind == 2:
                    A('MOV %s,%s' % (mem, r), p, b'\x89' + code(g), width, signed=True)
                    if size != 64:
                        A('IMUL %s,%s,5' % (r, mem), p, b'\x69' + code(g), width, (5).to_bytes(size // 8, 'little'), True)
                        A('IMUL %s,%s,{L}' % (r, mem.replace('{L}', '4660')), p, b'\x69' + code(g) + (4660).to_bytes(width // 8, 'little'), size)
                else:
                    A('LEA %s,%s' % (r, mem), p, b'\x8d' + code(g), width, signed=True)
                    if size == min(bits, 32):
                        A('INVLPG %s' % mem, pre(32 if bits != 16 else 16, addr), b'\x0f\x01' + code(7), width, signed=True)
    direct = {16: b'\x06', 32: b'\x05', 64: b'\x04\x25'}[bits]
    for n, m in enumerate(['SGDT', 'SIDT', 'LGDT', 'LIDT']):
        A(m + ' [{L}]', [b''], b'\x0f\x01' + bytes([direct[0] | n << 3]) + direct[1:], min(bits, 32), signed=bits == 64)
    width = 16 if bits == 16 else 32
    n = width // 8

    def J(name, head):
        length = len(head) + n
        out.append(relative(name + ' {L}', lambda d: H(head, (d % (1 << width)).to_bytes(n, 'little')), width, length, lambda pc: pc + length))
    for i, names in enumerate(R.CONDITIONS):
        J('J' + names[bits // 32 % len(names)], bytes([0x0f, 0x80 + i]))
    J('JMP', b'\xe9')
    J('CALL', b'\xe8')
    return out


def data_slots(name):
    big = BIG[name]
    out = []
    for d, n in (('db', 1), ('byte', 1), ('dw', 2), ('word', 2), ('dd', 4), ('dl', 4), ('dword', 4)):
        out.append(absolute('.%s {L}' % d, lambda v, n=n: v.to_bytes(n, 'big' if big else 'little').hex(), n * 8, n))
    return out


BIG = {'6502': False, 'lr35902': False, 'z80': False, '8086': False, '68000': True, 'mips32': True, 'psx': False, 'thumb': False, 'ppc': True,
       'gameboy': False, 'nes': False, 'sms': False, 'x86': False, 'x86_16': False, 'x86_32': False, 'x86_64': False}
_BUILD = {'6502': s_6502, 'lr35902': s_lr, 'z80': s_z80, '8086': s_8086, '68000': s_68000, 'mips32': s_mips, 'psx': lambda: s_mips(False),
          'thumb': s_thumb, 'ppc': s_ppc, 'x86_16': lambda: s_x86(16), 'x86_32': lambda: s_x86(32), 'x86_64': lambda: s_x86(64)}
CPUS = sorted(_BUILD)
# statements that take any space, to be between a reference and its label
STEP = {'6502': 1, 'lr35902': 1, 'z80': 1, '8086': 1, '68000': 2, 'mips32': 4, 'psx': 4, 'thumb': 2, 'ppc': 4, 'x86_16': 1, 'x86_32': 1, 'x86_64': 1}


@functools.lru_cache(None)
def slots(name):
    out = _BUILD[name]()
    return {s.t: s for s in out}


@functools.lru_cache(None)
def table(name, rel):
    return {t: s for t, s in list(slots(name).items()) + ([] if rel else [(s.t, s) for s in data_slots(name)]) if s.rel == rel}


@functools.lru_cache(None)
def keys(name, rel):
    return sorted(table(name, rel))


@functools.lru_cache(None)
def all_slots(name):
    d = dict(table(name, True))
    d.update(table(name, False))
    return d
