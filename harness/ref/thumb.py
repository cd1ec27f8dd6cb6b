"""ARM7TDMI Thumb encodings from the ARM architecture manual."""
from harness.cpulib import spell, fits

ALU = ['AND', 'EOR', 'LSL', 'LSR', 'ASR', 'ADC', 'SBC', 'ROR', 'TST', 'NEG', 'CMP', 'CMN', 'ORR', 'MUL', 'BIC', 'MVN']
CC = ['BEQ', 'BNE', 'BCS', 'BCC', 'BMI', 'BPL', 'BVS', 'BVC', 'BHI', 'BLS', 'BGE', 'BLT', 'BGT', 'BLE']
ALIASES = {11: 'fp', 12: 'ip', 13: 'sp', 14: 'lr', 15: 'pc'}
MEMR = {'STR': 0x5000, 'STRH': 0x5200, 'STRB': 0x5400, 'LDSB': 0x5600, 'LDR': 0x5800, 'LDRH': 0x5a00, 'LDRB': 0x5c00, 'LDSH': 0x5e00}
MEMI = {'STR': (0x6000, 4), 'LDR': (0x6800, 4), 'STRB': (0x7000, 1), 'LDRB': (0x7800, 1), 'STRH': (0x8000, 2), 'LDRH': (0x8800, 2)}
OPTIONAL = ('STRH',)
MNEM = sorted(set(ALU + CC + list(MEMR) + ['ADD', 'SUB', 'MOV', 'BX', 'B', 'BL', 'SWI', 'PUSH']))


def regname(r):
    return ALIASES[r[1]] if r[2] and r[1] in ALIASES else 'r%d' % r[1]


def text(o, sty='dec'):
    k = o[0]
    if k == 'r': return regname(o)
    if k == 'imm': return '#' + spell(o[1], sty)
    if k == 'num': return spell(o[1], sty)
    if k == 'ri': return '[%s, #%s]' % (regname(o[1]), spell(o[2], sty))
    if k == 'rr': return '[%s, %s]' % (regname(o[1]), regname(o[2]))
    if k == 'list':
        return '{' + ', '.join(['r%d' % a if a == b and not one else 'r%d-r%d' % (a, b) for a, b, *one in o[1]] + (['lr'] if o[2] else [])) + '}'


def encode(mn, ops, sty='dec'):
    """-> list of accepted outcomes: hex or '!'"""
    ws = _enc(mn, ops, sty)
    out = []
    for w in ws:
        if w == '!': out.append('!')
        elif isinstance(w, tuple): out.append(b''.join(x.to_bytes(2, 'little') for x in w).hex())
        else: out.append(w.to_bytes(2, 'little').hex())
    return out


def _enc(mn, ops, sty):
    ks = tuple(o[0] for o in ops)
    lows = [o[0] == 'r' and o[1] < 8 for o in ops]
    n = [o[1] for o in ops]
    if ks == ('r', 'r', 'imm'):
        v = n[2]
        if all(lows[:2]):
            if mn == 'LSL': return [v << 6 | n[1] << 3 | n[0]] if 0 <= v < 32 else ['!']
            if mn in ('LSR', 'ASR'):
                return [(0x800 if mn == 'LSR' else 0x1000) | (v & 31) << 6 | n[1] << 3 | n[0]] if 1 <= v <= 32 else ['!']
            if mn in ('ADD', 'SUB'):
                return [(0x1c00 if mn == 'ADD' else 0x1e00) | v << 6 | n[1] << 3 | n[0]] if 0 <= v < 8 else ['!']
        if mn == 'ADD' and lows[0] and n[1] in (13, 15):
            return [(0xa000 if n[1] == 15 else 0xa800) | n[0] << 8 | v >> 2] if 0 <= v < 1024 and v % 4 == 0 else ['!']
        return ['!']
    if ks == ('r', 'imm'):
        v = n[1]
        base = {'MOV': 0x2000, 'CMP': 0x2800, 'ADD': 0x3000, 'SUB': 0x3800}.get(mn)
        if base and lows[0]:
            if 0 <= v < 256: return [base | n[0] << 8 | v]
            return ['!', base | n[0] << 8 | v & 0xff] if fits(v, 8, sty) else ['!']
        if mn in ('ADD', 'SUB') and n[0] == 13:
            if v % 4 == 0 and abs(v) <= 508:
                neg = (v < 0) != (mn == 'SUB')
                w = [0xb000 | (0x80 if neg else 0) | abs(v) >> 2]
                if v == 0: w = [0xb000, 0xb080]
                return w if mn == 'ADD' else w + ['!']
        return ['!']
    if ks == ('r', 'r', 'r'):
        if all(lows) and mn in ('ADD', 'SUB'):
            return [(0x1800 if mn == 'ADD' else 0x1a00) | n[2] << 6 | n[1] << 3 | n[0]]
        return ['!']
    if ks == ('r', 'r'):
        if all(lows):
            if mn in ALU: return [0x4000 | ALU.index(mn) << 6 | n[1] << 3 | n[0]]
            if mn == 'ADD': return ['!', 0x1800 | n[1] << 6 | n[0] << 3 | n[0], 0x4400 | n[1] << 3 | n[0]]
            if mn == 'SUB': return ['!', 0x1a00 | n[1] << 6 | n[0] << 3 | n[0]]
            if mn == 'MOV': return ['!', 0x1c00 | n[1] << 3 | n[0], 0x4600 | n[1] << 3 | n[0]]
            return ['!']
        if mn in ('ADD', 'CMP', 'MOV'):
            return [{'ADD': 0x4400, 'CMP': 0x4500, 'MOV': 0x4600}[mn] | (n[0] >> 3) << 7 | n[1] << 3 | n[0] & 7]
        return ['!']
    if ks == ('r',):
        return [0x4700 | n[0] << 3] if mn == 'BX' else ['!']
    if ks == ('r', 'rr') and mn in MEMR:
        rb, ro = ops[1][1][1], ops[1][2][1]
        return [MEMR[mn] | ro << 6 | rb << 3 | n[0]] if lows[0] and rb < 8 and ro < 8 else ['!']
    if ks == ('r', 'ri') and lows[0]:
        rb, v = ops[1][1][1], ops[1][2]
        if rb < 8 and mn in MEMI:
            base, sc = MEMI[mn]
            if 0 <= v < 32 * sc and v % sc == 0:
                return [base | (v // sc) << 6 | rb << 3 | n[0]] + (['!'] if mn in OPTIONAL else [])
            return ['!']
        ok = 0 <= v < 1024 and v % 4 == 0
        if rb == 15 and mn == 'LDR': return [0x4800 | n[0] << 8 | v >> 2] if ok else ['!']
        if rb == 13 and mn in ('LDR', 'STR'):
            if not ok: return ['!']
            return [0x9800 | n[0] << 8 | v >> 2] if mn == 'LDR' else ['!', 0x9000 | n[0] << 8 | v >> 2]
        return ['!']
    if ks == ('num',):
        v = n[0]
        if mn == 'SWI':
            if 0 <= v < 256: return [0xdf00 | v]
            return ['!', 0xdf00 | v & 0xff] if fits(v, 8, sty) else ['!']
        bits = 9 if mn in CC else {'B': 12, 'BL': 23}.get(mn)
        if not bits or v % 2 or not fits(v, bits, sty, True): return ['!']
        if mn == 'BL': w = (0xf000 | v >> 12 & 0x7ff, 0xf800 | v >> 1 & 0x7ff)
        elif mn == 'B': w = 0xe000 | v >> 1 & 0x7ff
        else: w = 0xd000 | CC.index(mn) << 8 | v >> 1 & 0xff
        return [w] if v < 1 << bits - 1 else [w, '!']
    if ks == ('list',) and mn == 'PUSH':
        m = 0
        for a, b, *_ in ops[0][1]:
            if a > b or b > 7: return ['!']
            for i in range(a, b + 1): m |= 1 << i
        if not m and not ops[0][2]: return ['!']
        return [0xb400 | (0x100 if ops[0][2] else 0) | m]
    return ['!']


def pinned(mn, ops, sty='dec'):
    """(signature, outcome) of the behaviour that the existing unit tests pin although the CPU differs"""
    if mn == 'PUSH' and ops and ops[0][0] == 'list' and ops[0][2]:
        w = _enc(mn, ops, sty)[0]
        if w != '!':
            return 'thumb-push-lr-bit', (w & ~0x100 | 0x800).to_bytes(2, 'little').hex()
    if mn == 'LDRB' and len(ops) == 2 and ops[0][0] == 'r' and ops[0][1] < 8 and ops[1][0] == 'ri' and ops[1][1][1] < 8 and 0 <= ops[1][2] < 128:
        return 'thumb-ldrb-offset', (0x7800 | (ops[1][2] >> 2) << 6 | ops[1][1][1] << 3 | ops[0][1]).to_bytes(2, 'little').hex()
    return None
