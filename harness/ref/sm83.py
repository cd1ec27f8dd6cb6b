"""SM83 / LR35902 instruction set from the documented opcode structure (x/y/z/p/q decomposition)."""
R8 = ['B', 'C', 'D', 'E', 'H', 'L', '(HL)', 'A']
RP = ['BC', 'DE', 'HL', 'SP']
RP2 = ['BC', 'DE', 'HL', 'AF']
CC = ['NZ', 'Z', 'NC', 'C']
ROT = ['RLC', 'RRC', 'RL', 'RR', 'SLA', 'SRA', 'SWAP', 'SRL']
# mnemonic, alternative operand prefix allowed
ALU = ['ADD', 'ADC', 'SUB', 'SBC', 'AND', 'XOR', 'OR', 'CP']
WITH_A = {'ADD', 'ADC', 'SBC'}          # canonical syntax names the accumulator
FORMS = {}       # template -> opcode bytes; operand kinds {n8} {n16} {e8} {r8rel} {a8}
ALT = {}         # other published spellings: may be rejected, must not mean something else


def _f(t, *code):
    assert t not in FORMS, t
    FORMS[t] = bytes(code)


def _build():
    for op in range(256):
        x, y, z = op >> 6, op >> 3 & 7, op & 7
        p, q = y >> 1, y & 1
        if x == 0:
            if z == 0:
                if y == 0: _f('NOP', op)
                elif y == 1: _f('LD ({n16}),SP', op)
                elif y == 2: _f('STOP', op, 0)
                elif y == 3: _f('JR {rel}', op)
                else: _f('JR %s,{rel}' % CC[y - 4], op)
            elif z == 1:
                _f('LD %s,{n16}' % RP[p] if q == 0 else 'ADD HL,%s' % RP[p], op)
            elif z == 2:
                m = ['(BC)', '(DE)', '(HL+)', '(HL-)'][p]
                _f('LD %s,A' % m if q == 0 else 'LD A,%s' % m, op)
            elif z == 3: _f('%s %s' % ('DEC' if q else 'INC', RP[p]), op)
            elif z == 4: _f('INC ' + R8[y], op)
            elif z == 5: _f('DEC ' + R8[y], op)
            elif z == 6: _f('LD %s,{n8}' % R8[y], op)
            else: _f(['RLCA', 'RRCA', 'RLA', 'RRA', 'DAA', 'CPL', 'SCF', 'CCF'][y], op)
        elif x == 1:
            _f('HALT' if op == 0x76 else 'LD %s,%s' % (R8[y], R8[z]), op)
        elif x == 2:
            m = ALU[y]
            (_f if m in WITH_A else lambda t, c: ALT.__setitem__(t, bytes([c])))('%s A,%s' % (m, R8[z]), op)
            (_f if m not in WITH_A else lambda t, c: ALT.__setitem__(t, bytes([c])))('%s %s' % (m, R8[z]), op)
        elif z == 0:
            if y < 4: _f('RET ' + CC[y], op)
            elif y == 4: _f('LDH ({a8}),A', op)
            elif y == 5: _f('ADD SP,{e8}', op)
            elif y == 6: _f('LDH A,({a8})', op)
            else: _f('LD HL,SP{e8+}', op)
        elif z == 1:
            if q == 0: _f('POP ' + RP2[p], op)
            else: _f(['RET', 'RETI', 'JP (HL)', 'LD SP,HL'][p], op)
        elif z == 2:
            if y < 4: _f('JP %s,{n16}' % CC[y], op)
            elif y == 4: _f('LD ($FF00+C),A', op)
            elif y == 5: _f('LD ({n16}),A', op)
            elif y == 6: _f('LD A,($FF00+C)', op)
            else: _f('LD A,({n16})', op)
        elif z == 3:
            if y == 0: _f('JP {n16}', op)
            elif y == 6: _f('DI', op)
            elif y == 7: _f('EI', op)
        elif z == 4:
            if y < 4: _f('CALL %s,{n16}' % CC[y], op)
        elif z == 5:
            if q == 0: _f('PUSH ' + RP2[p], op)
            elif p == 0: _f('CALL {n16}', op)
        elif z == 6:
            m = ALU[y]
            if m in WITH_A:
                _f(m + ' A,{n8}', op)
                ALT[m + ' {n8}'] = bytes([op])
            else:
                _f(m + ' {n8}', op)
                ALT[m + ' A,{n8}'] = bytes([op])
        else:
            _f('RST %02XH' % (y * 8), op)
            ALT['RST $%02X' % (y * 8)] = bytes([op])
    for op in range(256):
        x, y, z = op >> 6, op >> 3 & 7, op & 7
        _f('%s %s' % (ROT[y], R8[z]) if x == 0 else '%s %d,%s' % (['', 'BIT', 'RES', 'SET'][x], y, R8[z]), 0xCB, op)
    ALT['JP HL'] = b'\xe9'
    for a, b in (('(HL+)', '(HLI)'), ('(HL-)', '(HLD)')):
        ALT['LD A,' + b] = FORMS['LD A,' + a]
        ALT['LD %s,A' % b] = FORMS['LD %s,A' % a]
    ALT['LD (C),A'] = b'\xe2'
    ALT['LD A,(C)'] = b'\xf2'
    ALT['LDI A,(HL)'], ALT['LDI (HL),A'], ALT['LDD A,(HL)'], ALT['LDD (HL),A'] = b'\x2a', b'\x22', b'\x3a', b'\x32'
    ALT['LDH (C),A'], ALT['LDH A,(C)'] = b'\xe2', b'\xf2'
    ALT['LDHL SP,{e8}'] = b'\xf8'
    ALT['STOP 0'] = b'\x10\0'
    ALT['LD ($FF00+{a8}),A'] = b'\xe0'
    ALT['LD A,($FF00+{a8})'] = b'\xf0'
    ALT['BRA'] = b'\x1f'
    ALT['ADD (HL)'] = b'\x86'


_build()
assert len(FORMS) == 245 + 256 - 1, len(FORMS)    # 256 - 11 holes - CB prefix, plus the CB page
