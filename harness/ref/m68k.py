"""68000 effective addresses and instruction words, from the M68000 programmer's reference manual.

An operand is a list: ['d',n] ['a',n] ['ind',n] ['post',n] ['pre',n] ['d16',v,n] ['d8',v,n,xkind,xn,size]
['pc16',v] ['pc8',v,xkind,xn,size] ['w',v,spelling] ['l',v,spelling] ['imm',v] ['ccr'] ['sr']
"""
from harness.cpulib import spell, fits, be16, be32

CONTROL = ('ind', 'd16', 'd8', 'w', 'l', 'pc16', 'pc8')
DATA_ALT = ('d', 'ind', 'post', 'pre', 'd16', 'd8', 'w', 'l')
CC = {'HI': 2, 'LS': 3, 'CC': 4, 'CS': 5, 'NE': 6, 'EQ': 7, 'VC': 8, 'VS': 9, 'PL': 10, 'MI': 11, 'GE': 12, 'LT': 13, 'GT': 14, 'LE': 15}
IMMOPS = {'ORI': 0, 'ANDI': 2, 'SUBI': 4, 'ADDI': 6, 'EORI': 10, 'CMPI': 12}
REJ = None


def text(o, sty='dec'):
    k = o[0]
    if k in 'da': return '%s%d' % (k, o[1])
    if k == 'ind': return '(a%d)' % o[1]
    if k == 'post': return '(a%d)+' % o[1]
    if k == 'pre': return '-(a%d)' % o[1]
    if k == 'd16': return '(%s,a%d)' % (spell(o[1], sty), o[2])
    if k == 'd8': return '(%s,a%d,%s%d%s)' % (spell(o[1], sty), o[2], o[3], o[4], o[5])
    if k == 'pc16': return '(%s,pc)' % spell(o[1], sty)
    if k == 'pc8': return '(%s,pc,%s%d%s)' % (spell(o[1], sty), o[2], o[3], o[4])
    if k == 'w': return ('(%s).w' if o[2] else '%s.w') % spell(o[1], sty)
    if k == 'l': return ('%s', '(%s).l', '%s.l')[o[2]] % spell(o[1], sty)
    if k == 'imm': return '#' + spell(o[1], sty)
    return k


def brief(kind, n, size, d):
    return be16((0x8000 if kind == 'a' else 0) | n << 12 | (0x800 if size == '.l' else 0) | d & 0xff)


def ea(o, size, sty='dec'):
    """(mode, reg, [possible extension bytes]); None when a value does not fit"""
    k = o[0]
    if k == 'd': return 0, o[1], b''
    if k == 'a': return 1, o[1], b''
    if k == 'ind': return 2, o[1], b''
    if k == 'post': return 3, o[1], b''
    if k == 'pre': return 4, o[1], b''
    if k == 'd16': return (5, o[2], be16(o[1])) if fits(o[1], 16, sty, True) else None
    if k == 'd8': return (6, o[2], brief(o[3], o[4], o[5], o[1])) if fits(o[1], 8, sty, True) else None
    if k == 'w': return (7, 0, be16(o[1])) if fits(o[1], 16, sty) else None
    if k == 'l': return (7, 1, be32(o[1])) if fits(o[1], 32, sty) else None
    if k == 'pc16': return (7, 2, be16(o[1])) if fits(o[1], 16, sty, True) else None
    if k == 'pc8': return (7, 3, brief(o[2], o[3], o[4], o[1])) if fits(o[1], 8, sty, True) else None
    if k == 'imm':
        if not fits(o[1], size * 8, sty): return None
        return 7, 4, be32(o[1]) if size == 4 else be16(o[1] & (0xff if size == 1 else 0xffff))
    raise AssertionError(o)


def loose(o):
    """an absolute short address whose sign extension changes it: both outcomes are acceptable"""
    return o[0] == 'w' and not -0x8000 <= o[1] < 0x8000


def encode(mn, size, ops, sty='dec'):
    """-> list of accepted outcomes (hex or '!')"""
    mn = mn.upper()
    bsz = {'.b': 1, '.w': 2, '.l': 4, '': 2}[size]
    out = None
    soft = any(loose(o) for o in ops)
    ks = [o[0] for o in ops]
    if mn in ('RTS', 'NOP'):
        return ['4e75' if mn == 'RTS' else '4e71'] if not ops and not size else ['!']
    if mn in ('MOVE', 'MOVEA') and len(ops) == 2 and not (mn == 'MOVEA' and size == '.b'):
        s, d = ops
        if s[0] in ('ccr', 'sr') or d[0] in ('ccr', 'sr') or (bsz == 1 and s[0] == 'a'):
            return ['!']
        sz = {1: 1, 2: 3, 4: 2}[bsz]
        se = ea(s, bsz, sty)
        if se and d[0] == 'a' and bsz > 1:
            out = be16(sz << 12 | d[1] << 9 | 1 << 6 | se[0] << 3 | se[1]) + se[2]
        elif se and mn == 'MOVE' and d[0] in DATA_ALT:
            de = ea(d, bsz, sty)
            if de:
                out = be16(sz << 12 | de[1] << 9 | de[0] << 6 | se[0] << 3 | se[1]) + se[2] + de[2]
    elif mn in IMMOPS and len(ops) == 2 and ops[0][0] == 'imm':
        i, d = ops
        if d[0] in ('ccr', 'sr'):
            if mn not in ('ORI', 'ANDI', 'EORI'):
                return ['!']
            b = 1 if d[0] == 'ccr' else 2
            e = ea(i, b, sty)
            if not e: return ['!']
            soft = soft or size not in ('', '.b' if b == 1 else '.w')
            out = be16(IMMOPS[mn] << 8 | (0x3c if b == 1 else 0x7c)) + e[2]
        elif d[0] in DATA_ALT:
            e, de = ea(i, bsz, sty), ea(d, bsz, sty)
            if e and de:
                out = be16(IMMOPS[mn] << 8 | {1: 0, 2: 1, 4: 2}[bsz] << 6 | de[0] << 3 | de[1]) + e[2] + de[2]
    elif mn in ('JMP', 'JSR') and len(ops) == 1 and not size:
        if ks[0] in CONTROL:
            e = ea(ops[0], 4, sty)
            if e: out = be16((0x4ec0 if mn == 'JMP' else 0x4e80) | e[0] << 3 | e[1]) + e[2]
    elif mn == 'LEA' and len(ops) == 2 and size in ('', '.l'):
        if ks[0] in CONTROL and ks[1] == 'a':
            e = ea(ops[0], 4, sty)
            if e: out = be16(0x41c0 | ops[1][1] << 9 | e[0] << 3 | e[1]) + e[2]
    elif mn[0] == 'B' and mn[1:] in CC and len(ops) == 1 and size in ('', '.b', '.w'):
        if ks[0] == 'l' and ops[0][2] == 0:
            v = ops[0][1]
            if size == '.b':
                if fits(v, 8, sty, True) and v != 0:
                    out = be16(0x6000 | CC[mn[1:]] << 8 | v & 0xff)
            elif fits(v, 16, sty, True):
                out = be16(0x6000 | CC[mn[1:]] << 8) + be16(v)
            if v % 2: soft = True
        elif ks[0] in ('w', 'l'):
            return ['!']
    elif mn[:2] == 'DB' and (mn[2:] in CC or mn[2:] in ('T', 'F', 'RA')) and len(ops) == 2 and size in ('', '.w'):
        if ks[0] == 'd' and ks[1] == 'l' and ops[1][2] == 0:
            v = ops[1][1]
            cc = {'T': 0, 'F': 1, 'RA': 1}.get(mn[2:], CC.get(mn[2:]))
            if fits(v, 16, sty, True):
                out = be16(0x50c8 | cc << 8 | ops[0][1]) + be16(v)
            if v % 2: soft = True
    if out is None:
        return ['!']
    return [out.hex()] + (['!'] if soft else [])
