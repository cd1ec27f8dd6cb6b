"""8086 decoder and form list, written from the Intel 8086 user's manual opcode map.

decode(bytes) -> list of possible (mnemonic, operands) or None; operands:
  ['r8', n] ['r16', n] ['seg', n] ['mem', base, disp] ['imm', v, bits] ['rel', d, size] ['far', seg, off]
base: None for a direct address or one of BASES; sizes of memory operands are not part of the syntax here.
"""
R8 = ['AL', 'CL', 'DL', 'BL', 'AH', 'CH', 'DH', 'BH']
R16 = ['AX', 'CX', 'DX', 'BX', 'SP', 'BP', 'SI', 'DI']
SEG = ['ES', 'CS', 'SS', 'DS']
BASES = ['BX+SI', 'BX+DI', 'BP+SI', 'BP+DI', 'SI', 'DI', 'BP', 'BX']
ALU = ['ADD', 'OR', 'ADC', 'SBB', 'AND', 'SUB', 'XOR', 'CMP']
JCC = ['JO', 'JNO', 'JB', 'JNB', 'JZ', 'JNZ', 'JBE', 'JA', 'JS', 'JNS', 'JPE', 'JPO', 'JL', 'JGE', 'JLE', 'JG']
SIMPLE = {0x27: 'DAA', 0x2f: 'DAS', 0x37: 'AAA', 0x3f: 'AAS', 0x90: 'NOP', 0x98: 'CBW', 0x99: 'CWD', 0x9b: 'WAIT', 0x9c: 'PUSHF', 0x9d: 'POPF', 0x9e: 'SAHF',
          0x9f: 'LAHF', 0xa4: 'MOVSB', 0xa5: 'MOVSW', 0xa6: 'CMPSB', 0xa7: 'CMPSW', 0xaa: 'STOSB', 0xab: 'STOSW', 0xac: 'LODSB', 0xad: 'LODSW', 0xae: 'SCASB',
          0xaf: 'SCASW', 0xc3: 'RET', 0xcb: 'RETF', 0xce: 'INTO', 0xcf: 'IRET', 0xd7: 'XLAT', 0xf0: 'LOCK', 0xf2: 'REPNZ', 0xf3: 'REPZ', 0xf4: 'HLT', 0xf5: 'CMC',
          0xf8: 'CLC', 0xf9: 'STC', 0xfa: 'CLI', 0xfb: 'STI', 0xfc: 'CLD', 0xfd: 'STD'}
LOOPS = {0xe0: 'LOOPNZ', 0xe1: 'LOOPZ', 0xe2: 'LOOP', 0xe3: 'JCXZ'}


class Short(Exception):
    pass


def decode(b):
    """-> (mnemonic, [operands]) of the one instruction in b, None if it is not one"""
    try:
        pos = [1]

        def u8():
            if pos[0] >= len(b):
                raise Short()
            pos[0] += 1
            return b[pos[0] - 1]

        def u16():
            lo = u8()
            return lo | u8() << 8

        def s8():
            v = u8()
            return v - 256 if v > 127 else v

        def s16():
            v = u16()
            return v - 65536 if v > 32767 else v

        def modrm(w):
            m = u8()
            mod, reg, rm = m >> 6, m >> 3 & 7, m & 7
            if mod == 3:
                return reg, ['r16' if w else 'r8', rm]
            if mod == 0 and rm == 6:
                return reg, ['mem', None, u16()]
            d = 0 if mod == 0 else s8() if mod == 1 else s16()
            return reg, ['mem', BASES[rm], d & 0xffff]
        if not b:
            return None
        op = b[0]
        R = lambda w, n: ['r16' if w else 'r8', n]
        out = None
        if op in SIMPLE:
            out = SIMPLE[op], []
        elif op < 0x40 and op & 7 < 6:
            m = ALU[op >> 3]
            w = op & 1
            if op & 7 < 4:
                reg, rm = modrm(w)
                out = m, ([R(w, reg), rm] if op & 2 else [rm, R(w, reg)])
            else:
                out = m, [R(w, 0), ['imm', u16() if w else u8(), 16 if w else 8]]
        elif op < 0x20 and op & 7 >= 6:
            if op != 0x0f:
                out = ('PUSH' if op & 7 == 6 else 'POP'), [['seg', op >> 3 & 3]]
        elif 0x40 <= op < 0x60:
            out = ['INC', 'DEC', 'PUSH', 'POP'][op >> 3 & 3], [R(1, op & 7)]
        elif 0x70 <= op < 0x80:
            out = JCC[op & 15], [['rel', s8(), 2]]
        elif op in (0x80, 0x81, 0x83):
            reg, rm = modrm(op & 1)
            out = ALU[reg], [rm, ['imm', u8() if op == 0x80 else u16() if op == 0x81 else s8() & 0xffff, 8 if op == 0x80 else 16]]
        elif op in (0x84, 0x85, 0x86, 0x87):
            w = op & 1
            reg, rm = modrm(w)
            out = ('TEST' if op < 0x86 else 'XCHG'), [R(w, reg), rm]
        elif 0x88 <= op < 0x8c:
            w = op & 1
            reg, rm = modrm(w)
            out = 'MOV', ([R(w, reg), rm] if op & 2 else [rm, R(w, reg)])
        elif op in (0x8c, 0x8e):
            reg, rm = modrm(1)
            if reg < 4:
                out = 'MOV', ([rm, ['seg', reg]] if op == 0x8c else [['seg', reg], rm])
        elif op in (0x8d, 0xc4, 0xc5):
            reg, rm = modrm(1)
            if rm[0] == 'mem':
                out = {0x8d: 'LEA', 0xc4: 'LES', 0xc5: 'LDS'}[op], [R(1, reg), rm]
        elif op == 0x8f:
            reg, rm = modrm(1)
            if reg == 0:
                out = 'POP', [rm]
        elif 0x91 <= op < 0x98:
            out = 'XCHG', [R(1, op & 7), R(1, 0)]
        elif op in (0x9a, 0xea):
            off = u16()
            out = ('CALL' if op == 0x9a else 'JMP'), [['far', u16(), off]]
        elif 0xa0 <= op < 0xa4:
            w = op & 1
            mem = ['mem', None, u16()]
            out = 'MOV', ([mem, R(w, 0)] if op & 2 else [R(w, 0), mem])
        elif op in (0xa8, 0xa9):
            w = op & 1
            out = 'TEST', [R(w, 0), ['imm', u16() if w else u8(), 16 if w else 8]]
        elif 0xb0 <= op < 0xc0:
            w = op >> 3 & 1
            out = 'MOV', [R(w, op & 7), ['imm', u16() if w else u8(), 16 if w else 8]]
        elif op in (0xc2, 0xca):
            out = ('RET' if op == 0xc2 else 'RETF'), [['imm', u16(), 16]]
        elif op in (0xc6, 0xc7):
            reg, rm = modrm(op & 1)
            if reg == 0:
                out = 'MOV', [rm, ['imm', u16() if op & 1 else u8(), 16 if op & 1 else 8]]
        elif op == 0xcc:
            out = 'INT', [['imm', 3, 8]]
        elif op == 0xcd:
            out = 'INT', [['imm', u8(), 8]]
        elif op in (0xd0, 0xd1):
            reg, rm = modrm(op & 1)
            out = ['ROL', 'ROR', 'RCL', 'RCR', 'SHL', 'SHR', '?', 'SAR'][reg], [rm, ['imm', 1, 8]]
        elif op in (0xd4, 0xd5):
            v = u8()
            out = ('AAM' if op == 0xd4 else 'AAD'), ([] if v == 10 else [['imm', v, 8]])
        elif op in LOOPS:
            out = LOOPS[op], [['rel', s8(), 2]]
        elif op in (0xe4, 0xe5):
            out = 'IN', [R(op & 1, 0), ['imm', u8(), 8]]
        elif op in (0xe6, 0xe7):
            out = 'OUT', [['imm', u8(), 8], R(op & 1, 0)]
        elif op in (0xe8, 0xe9):
            out = ('CALL' if op == 0xe8 else 'JMP'), [['rel', s16(), 3]]
        elif op == 0xeb:
            out = 'JMP', [['rel', s8(), 2]]
        elif op in (0xec, 0xed):
            out = 'IN', [R(op & 1, 0), R(1, 2)]
        elif op in (0xee, 0xef):
            out = 'OUT', [R(1, 2), R(op & 1, 0)]
        elif op in (0xf6, 0xf7):
            reg, rm = modrm(op & 1)
            if reg >= 2:
                out = ['?', '?', 'NOT', 'NEG', 'MUL', 'IMUL', 'DIV', 'IDIV'][reg], [rm]
        elif op in (0xfe, 0xff):
            reg, rm = modrm(op & 1)
            if reg < 2:
                out = ['INC', 'DEC'][reg], [rm]
            elif op == 0xff and reg == 6:
                out = 'PUSH', [rm]
        if out is None or pos[0] != len(b):
            return None
        return out
    except Short:
        return None
