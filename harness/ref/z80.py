"""Z80 instruction set from the documented opcode structure (x/y/z/p/q decomposition)."""
R8 = ['B', 'C', 'D', 'E', 'H', 'L', '(HL)', 'A']
RP = ['BC', 'DE', 'HL', 'SP']
RP2 = ['BC', 'DE', 'HL', 'AF']
CC = ['NZ', 'Z', 'NC', 'C', 'PO', 'PE', 'P', 'M']
ROT = ['RLC', 'RRC', 'RL', 'RR', 'SLA', 'SRA', 'SLL', 'SRL']
ALU = ['ADD', 'ADC', 'SUB', 'SBC', 'AND', 'XOR', 'OR', 'CP']
WITH_A = {'ADD', 'ADC', 'SBC'}
# template -> list of parts: ints, or operand kinds 'n' 'nn' 'e' 'd'
FORMS, ALT = {}, {}


def _f(t, *code, alt=False):
    d = ALT if alt else FORMS
    assert t not in FORMS and t not in ALT, t
    d[t] = list(code)


def _unprefixed(pre, ix, hl):
    """pre: [] or [0xDD]; ix: None or IX/IY; emits the forms that involve HL when prefixed"""
    def r8(i, mem=True):
        if ix is None:
            return R8[i]
        return {4: ix + 'H', 5: ix + 'L', 6: '(%s{d})' % ix}.get(i, R8[i])

    def uses(*regs):
        return ix is None or any(x in (4, 5, 6) for x in regs)
    D = lambda *regs: ['d'] if ix is not None and 6 in regs else []
    rp = [x if x != 'HL' else (ix or 'HL') for x in RP]
    rp2 = [x if x != 'HL' else (ix or 'HL') for x in RP2]
    base = ix is None
    for op in range(256):
        x, y, z = op >> 6, op >> 3 & 7, op & 7
        p, q = y >> 1, y & 1
        c = pre + [op]
        if x == 0:
            if z == 0 and base:
                if y == 0: _f('NOP', *c)
                elif y == 1: _f("EX AF,AF'", *c)
                elif y == 2: _f('DJNZ {e}', *c, 'e')
                elif y == 3: _f('JR {e}', *c, 'e')
                else: _f('JR %s,{e}' % CC[y - 4], *c, 'e')
            elif z == 1:
                if q == 0:
                    if base or p == 2: _f('LD %s,{nn}' % rp[p], *c, 'nn')
                else:
                    _f('ADD %s,%s' % (hl, rp[p]), *c)
            elif z == 2:
                if base and p < 2:
                    m = ['(BC)', '(DE)'][p]
                    _f('LD A,' + m if q else 'LD %s,A' % m, *c)
                elif p == 2:
                    _f('LD %s,({nn})' % hl if q else 'LD ({nn}),' + hl, *c, 'nn')
                elif base:
                    _f('LD A,({nn})' if q else 'LD ({nn}),A', *c, 'nn')
            elif z == 3:
                if base or p == 2: _f('%s %s' % ('DEC' if q else 'INC', rp[p]), *c)
            elif z in (4, 5):
                if uses(y): _f('%s %s' % (['INC', 'DEC'][z - 4], r8(y)), *c, *D(y))
            elif z == 6:
                if uses(y): _f('LD %s,{n}' % r8(y), *c, *D(y), 'n')
            elif base:
                _f(['RLCA', 'RRCA', 'RLA', 'RRA', 'DAA', 'CPL', 'SCF', 'CCF'][y], *c)
        elif x == 1:
            if op == 0x76:
                if base: _f('HALT', *c)
            elif ix is not None and 6 in (y, z):
                # the other operand stays H or L
                a, b = (r8(6), R8[z]) if y == 6 else (R8[y], r8(6))
                _f('LD %s,%s' % (a, b), *c, 'd')
            elif uses(y, z):
                _f('LD %s,%s' % (r8(y), r8(z)), *c)
        elif x == 2:
            if uses(z):
                m = ALU[y]
                _f('%s A,%s' % (m, r8(z)), *c, *D(z), alt=m not in WITH_A)
                _f('%s %s' % (m, r8(z)), *c, *D(z), alt=m in WITH_A)
        elif z == 0:
            if base: _f('RET ' + CC[y], *c)
        elif z == 1:
            if q == 0:
                if base or p == 2: _f('POP ' + rp2[p], *c)
            elif p < 2:
                if base: _f(['RET', 'EXX'][p], *c)
            elif p == 2:
                _f('JP (%s)' % hl, *c)
                _f('JP %s' % hl, *c, alt=True)
            else: _f('LD SP,' + hl, *c)
        elif z == 2:
            if base: _f('JP %s,{nn}' % CC[y], *c, 'nn')
        elif z == 3:
            if y == 4: _f('EX (SP),' + hl, *c)
            elif base:
                if y == 0: _f('JP {nn}', *c, 'nn')
                elif y == 2: _f('OUT ({n}),A', *c, 'n')
                elif y == 3: _f('IN A,({n})', *c, 'n')
                elif y == 5: _f('EX DE,HL', *c)
                elif y == 6: _f('DI', *c)
                elif y == 7: _f('EI', *c)
        elif z == 4:
            if base: _f('CALL %s,{nn}' % CC[y], *c, 'nn')
        elif z == 5:
            if q == 0:
                if base or p == 2: _f('PUSH ' + rp2[p], *c)
            elif base and p == 0: _f('CALL {nn}', *c, 'nn')
        elif z == 6:
            if base:
                m = ALU[y]
                _f('%s A,{n}' % m, *c, 'n', alt=m not in WITH_A)
                _f('%s {n}' % m, *c, 'n', alt=m in WITH_A)
        elif base:
            _f('RST %XH' % (y * 8), *c)
            if y < 2:
                _f('RST %02XH' % (y * 8), *c, alt=True)
            _f('RST $%02X' % (y * 8), *c, alt=True)


def _cb(pre, ix):
    for op in range(256):
        x, y, z = op >> 6, op >> 3 & 7, op & 7
        m = ROT[y] if x == 0 else ['', 'BIT', 'RES', 'SET'][x]
        b = '' if x == 0 else '%d,' % y
        if ix is None:
            _f('%s %s%s' % (m, b, R8[z]), 0xCB, op)
        elif z == 6:
            _f('%s %s(%s{d})' % (m, b, ix), *pre, 0xCB, 'd', op)
        elif x != 1:
            # undocumented: the result goes to a register too
            _f('LD %s,%s %s(%s{d})' % (R8[z], m, b, ix), *pre, 0xCB, 'd', op)


def _ed():
    for y in range(8):
        p, q = y >> 1, y & 1
        o = 0x40 | y << 3
        if y != 6:
            _f('IN %s,(C)' % R8[y], 0xED, o)
            _f('OUT (C),%s' % R8[y], 0xED, o | 1)
        _f('%s HL,%s' % ('ADC' if q else 'SBC', RP[p]), 0xED, o | 2)
        t = 'LD %s,({nn})' % RP[p] if q else 'LD ({nn}),%s' % RP[p]
        if RP[p] != 'HL':
            _f(t, 0xED, o | 3, 'nn')
        if y < 2:
            _f(['RETN', 'RETI'][y], 0xED, o | 5)
    _f('NEG', 0xED, 0x44)
    _f('IM 0', 0xED, 0x46); _f('IM 1', 0xED, 0x56); _f('IM 2', 0xED, 0x5E)
    for t, c in (('LD I,A', 0x47), ('LD R,A', 0x4F), ('LD A,I', 0x57), ('LD A,R', 0x5F), ('RRD', 0x67), ('RLD', 0x6F)):
        _f(t, 0xED, c)
    for y, suf in enumerate(['I', 'D', 'IR', 'DR']):
        for z, m in enumerate(['LD', 'CP', 'IN', 'OUT']):
            n = m + suf
            if m == 'OUT':
                n = ['OUTI', 'OUTD', 'OTIR', 'OTDR'][y]
            _f(n, 0xED, 0xA0 | y << 3 | z)


_unprefixed([], None, 'HL')
_cb([], None)
_ed()
for _p, _i in ((0xDD, 'IX'), (0xFD, 'IY')):
    _unprefixed([_p], _i, _i)
    _cb([_p], _i)
FORMS['IN F,(C)'] = FORMS['IN (C)'] = [0xED, 0x70]
ALT['OUT (C),0'] = ALT['OUT (C),F'] = [0xED, 0x71]
