"""MIPS32 encodings from the MIPS32 architecture manual (plus lhi/llo of the classic table)."""
from harness.cpulib import spell, fits

ALIAS = ['zero', 'at', 'v0', 'v1', 'a0', 'a1', 'a2', 'a3', 't0', 't1', 't2', 't3', 't4', 't5', 't6', 't7',
         's0', 's1', 's2', 's3', 's4', 's5', 's6', 's7', 't8', 't9', 'k0', 'k1', 'gp', 'sp', 'fp', 'ra']
R3 = {'add': 32, 'addu': 33, 'and': 36, 'nor': 39, 'or': 37, 'slt': 42, 'sltu': 43, 'sub': 34, 'subu': 35, 'xor': 38}
MD = {'div': 26, 'divu': 27, 'mult': 24, 'multu': 25}
IMM_S = {'addi': 8, 'slti': 10}
IMM_SU = {'addiu': 9, 'sltiu': 11}
IMM_U = {'andi': 12, 'ori': 13, 'xori': 14}
SH = {'sll': 0, 'sra': 3, 'srl': 2}
SHV = {'sllv': 4, 'srav': 7, 'srlv': 6}
LS = {'lb': 32, 'lbu': 36, 'lh': 33, 'lhu': 37, 'lw': 35, 'sb': 40, 'sh': 41, 'sw': 43}
BR2 = {'beq': 4, 'bne': 5}
BR1 = {'bgtz': 7, 'blez': 6}
NOARG = {'break': 13, 'syscall': 12}
MF = {'mfhi': 16, 'mflo': 18}
MT = {'mthi': 17, 'mtlo': 19}
HI = {'lui': 15, 'lhi': 25, 'llo': 24}
J = {'j': 2, 'jal': 3, 'trap': 26}
FORMS = {}
for d, f in ((R3, 'rrr'), (MD, 'rr'), (IMM_S, 'rri'), (IMM_SU, 'rri'), (IMM_U, 'rri'), (SH, 'rri'), (SHV, 'rrr'), (LS, 'rm'), (BR2, 'rri'), (BR1, 'ri'),
             (NOARG, ''), (MF, 'r'), (MT, 'r'), (HI, 'ri'), (J, 'i'), ({'jr': 8, 'jalr': 9}, 'r')):
    for k in d:
        FORMS[k] = f


def text(o, sty):
    if o[0] == 'r':
        return '$' + (ALIAS[o[1]] if o[2] else str(o[1]))
    if o[0] == 'i':
        return spell(o[1], sty)
    return '%s($%d)' % (spell(o[1], sty), o[2])


def encode(mn, ops, sty, pc=0):
    """-> list of accepted 32-bit words / '!'"""
    if ''.join(o[0] for o in ops) != FORMS[mn]:
        return ['!']
    r = [o[1] for o in ops if o[0] == 'r']
    v = next((o[1] for o in ops if o[0] != 'r'), None)
    if mn in R3: return [r[1] << 21 | r[2] << 16 | r[0] << 11 | R3[mn]]
    if mn in MD: return [r[0] << 21 | r[1] << 16 | MD[mn]]
    if mn in SHV: return [r[2] << 21 | r[1] << 16 | r[0] << 11 | SHV[mn]]
    if mn in SH: return [r[1] << 16 | r[0] << 11 | (v & 31) << 6 | SH[mn]] if fits(v, 5, sty) else ['!']
    for t, signed in ((IMM_S, True), (IMM_U, False), (IMM_SU, False)):
        if mn in t:
            w = t[mn] << 26 | r[1] << 21 | r[0] << 16 | v & 0xffff
            if not fits(v, 16, sty, signed): return ['!']
            return [w, '!'] if t is IMM_SU and v > 32767 else [w]
    if mn in LS:
        return [LS[mn] << 26 | ops[1][2] << 21 | r[0] << 16 | v & 0xffff] if fits(v, 16, sty, True) else ['!']
    if mn in BR2 or mn in BR1:
        if not fits(v, 18, sty, True) or v % 4: return ['!']
        if v > 0x1ffff:     # a non decimal literal is the raw field
            return ['!', ((BR2.get(mn) or BR1.get(mn)) << 26) | r[0] << 21 | (r[1] << 16 if mn in BR2 else 0) | v >> 2 & 0xffff]
        return [((BR2.get(mn) or BR1.get(mn)) << 26) | r[0] << 21 | (r[1] << 16 if mn in BR2 else 0) | v >> 2 & 0xffff]
    if mn in NOARG: return [NOARG[mn]]
    if mn in MF: return [r[0] << 11 | MF[mn]]
    if mn in MT: return [r[0] << 21 | MT[mn]]
    if mn in HI:
        if not fits(v, 32, sty): return ['!']
        v &= 0xffffffff
        return [HI[mn] << 26 | r[0] << 16 | (v & 0xffff if mn == 'llo' else v >> 16)]
    if mn in J:
        if not fits(v, 32, sty): return ['!']
        v &= 0xffffffff
        reg = pc + 4 & 0xf0000000
        if mn == 'trap':
            return ['!', J[mn] << 26 | v >> 2 & 0x3ffffff, J[mn] << 26 | v & 0x3ffffff]
        w = J[mn] << 26 | v >> 2 & 0x3ffffff
        if v % 4: return ['!', w]
        if v < 1 << 28: return [w]
        return [w] if v & 0xf0000000 == reg else ['!']
    if mn == 'jr': return [r[0] << 21 | 8]
    if mn == 'jalr': return [r[0] << 21 | 31 << 11 | 9]
    raise AssertionError(mn)
