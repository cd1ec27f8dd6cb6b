"""Reference decoder for the part of the x86 instruction set the assembler
supports, written from the opcode map of the Intel manual.

`decode(bits, data, pc)` returns the instruction the processor would execute
in the 16, 32 or 64 bit mode as (mnemonic, operand, ...) and raises Bad when
the bytes are not exactly one such instruction.  Operands:

    ('r', size, number)                    general register
    ('cr', number)                         control register
    ('m', addr_size, base, index, scale, disp)  base/index are numbers or None
    ('rip', disp)                          memory relative to rip
    ('i', size, value)                     immediate, modulo 2 ** size
    ('t', target)                          branch target, modulo the mode
"""

R8 = 'AL CL DL BL AH CH DH BH'.split()
R16 = 'AX CX DX BX SP BP SI DI'.split()
R32 = ['E' + r for r in R16]
R64 = ['R' + r for r in R16]
REG = {16: R16, 32: R32, 64: R64}

ARITH = 'ADD OR ADC SBB AND SUB XOR CMP'.split()
GROUP_F7 = 'TEST ? NOT NEG MUL IMUL DIV IDIV'.split()
SHIFTS = 'ROL ROR RCL RCR SHL SHR SAL SAR'.split()
GROUP_BA = {4: 'BT', 5: 'BTS', 6: 'BTR', 7: 'BTC'}
GROUP_0F01 = {0: 'SGDT', 1: 'SIDT', 2: 'LGDT', 3: 'LIDT', 7: 'INVLPG'}
GROUP_0FAE = {0: 'FXSAVE', 1: 'FXRSTOR', 2: 'LDMXCSR', 3: 'STMXCSR',
              4: 'XSAVE', 5: 'XRSTOR', 7: 'CLFLUSH'}

# condition codes: the low nibble of 0f 4x (cmov) and 0f 8x (jump)
CONDITIONS = [
    ('O',), ('NO',), ('B', 'NAE', 'C'), ('NB', 'AE', 'NC'), ('Z', 'E'),
    ('NZ', 'NE'), ('BE', 'NA'), ('NBE', 'A'), ('S',), ('NS',), ('P', 'PE'),
    ('NP', 'PO'), ('L', 'NGE'), ('NL', 'GE'), ('LE', 'NG'), ('NLE', 'G')]

ALIAS = {}
for _number, _names in enumerate(CONDITIONS):
    for _name in _names:
        ALIAS['J' + _name] = 'Jcc%x' % _number
        ALIAS['CMOV' + _name] = 'CMOVcc%x' % _number

# the two operands can be exchanged
COMMUTATIVE = ('XCHG', 'TEST')

M16 = [(3, 6), (3, 7), (5, 6), (5, 7), (6, None), (7, None), (5, None), (3, None)]


class Bad(Exception):
    pass


class _Reader:
    def __init__(self, data):
        self.data = bytes(data)
        self.at = 0

    def u(self, size=1):
        if self.at + size > len(self.data):
            raise Bad('truncated')
        value = int.from_bytes(self.data[self.at:self.at + size], 'little')
        self.at += size
        return value

    def s(self, size):
        value = self.u(size)
        return value - (1 << size * 8) if value >> (size * 8 - 1) else value


def _modrm(rd, addr, rex, long_mode):
    """-> (reg, function of the operand size returning the r/m operand)"""
    byte = rd.u()
    mod, reg, rm = byte >> 6, byte >> 3 & 7, byte & 7
    reg |= (rex & 4) << 1
    if mod == 3:
        number = rm | (rex & 1) << 3
        return reg, lambda size: ('r', size, number)
    if addr == 16:
        base, index = M16[rm]
        disp = 0
        if mod == 0 and rm == 6:
            base, disp = None, rd.u(2)
        elif mod == 1:
            disp = rd.s(1)
        elif mod == 2:
            disp = rd.u(2)
        memory = ('m', 16, base, index, 1, disp % 0x10000)
        return reg, lambda size: memory
    index, scale = None, 1
    if rm == 4:
        sib = rd.u()
        base = sib & 7
        index = sib >> 3 & 7 | (rex & 2) << 2
        scale = 1 << (sib >> 6)
        if index == 4:
            index, scale = None, 1
        if mod == 0 and base == 5:
            base, disp = None, rd.s(4)
        else:
            base |= (rex & 1) << 3
            disp = 0
    elif mod == 0 and rm == 5:
        disp = rd.s(4)
        if long_mode:
            memory = ('rip', disp)
            return reg, lambda size: memory
        base = None
    else:
        base, disp = rm | (rex & 1) << 3, 0
    if mod == 1:
        disp = rd.s(1)
    elif mod == 2:
        disp = rd.s(4)
    memory = ('m', addr, base, index, scale, disp % (1 << addr))
    return reg, lambda size: memory


def decode(bits, data, pc=0):
    rd = _Reader(data)
    p66 = p67 = rep = False
    while True:
        op = rd.u()
        if op == 0x66 and not p66:
            p66 = True
        elif op == 0x67 and not p67:
            p67 = True
        elif op in (0xf2, 0xf3) and not rep:
            rep = op
        else:
            break
    rex = 0
    if bits == 64 and op & 0xf0 == 0x40:
        rex = op
        op = rd.u()
    size = 64 if rex & 8 else 16 if (bits == 16) != p66 else 32
    if bits == 64:
        addr = 32 if p67 else 64
    else:
        addr = 16 if (bits == 16) != p67 else 32
    bit = rex & 1

    def modrm():
        return _modrm(rd, addr, rex, bits == 64)

    def imm(short=False):
        # a 64 bit operation has a sign extended 32 bit immediate
        value = rd.s(1) if short or size == 8 else rd.s(min(size, 32) // 8)
        return ('i', size, value % (1 << size))

    def reg(number):
        return ('r', size, number)

    used_rep = False
    if op == 0x0f:
        op = 0x0f00 | rd.u()
    # byte operations have an even opcode one below the other sizes
    if op < 0x40 and op & 7 in (0, 2, 4) or op in (0x80, 0x84, 0x86, 0x88, 0x8a, 0xa8, 0xc0, 0xc6, 0xd0, 0xd2, 0xf6, 0xfe):
        op |= 1
        size = 8
        if op == 0x81:
            op = 0x83
    if op < 0x40 and op & 7 in (1, 3, 5):
        name = ARITH[op >> 3]
        if op & 7 == 5:
            out = (name, reg(0), imm())
        else:
            r, e = modrm()
            out = (name, e(size), reg(r)) if op & 7 == 1 else (name, reg(r), e(size))
    elif 0x40 <= op <= 0x4f:
        out = ('INC' if op < 0x48 else 'DEC', reg(op & 7))
    elif 0x50 <= op <= 0x5f:
        stack = 64 if bits == 64 and not p66 else size
        out = ('PUSH' if op < 0x58 else 'POP', ('r', stack, op & 7 | bit << 3))
    elif op in (0x69, 0x6b):
        r, e = modrm()
        out = ('IMUL', reg(r), e(size), imm(op == 0x6b))
    elif op in (0x81, 0x83):
        r, e = modrm()
        out = (ARITH[r & 7], e(size), imm(op == 0x83))
    elif op in (0x85, 0x87):
        r, e = modrm()
        out = ('TEST' if op == 0x85 else 'XCHG', e(size), reg(r))
    elif op == 0x89:
        r, e = modrm()
        out = ('MOV', e(size), reg(r))
    elif op == 0x8b:
        r, e = modrm()
        out = ('MOV', reg(r), e(size))
    elif op == 0x8d:
        r, e = modrm()
        if e(size)[0] == 'r':
            raise Bad('lea of a register')
        out = ('LEA', reg(r), e(size))
    elif op == 0x8f:
        r, e = modrm()
        if r & 7:
            raise Bad('8f /%d' % r)
        out = ('POP', e(64 if bits == 64 and not p66 else size))
    elif 0x91 <= op <= 0x97 or (op == 0x90 and (rex & 1)):
        out = ('XCHG', reg(op & 7 | bit << 3), reg(0))
    elif op == 0x90 and not rep:
        # exchanging the accumulator with itself; 32 bit operations of the 64
        # bit mode clear the upper half of the register, this does not
        out = ('NOP',) if bits == 64 and size == 32 else ('XCHG', reg(0), reg(0))
    elif op == 0xa9:
        out = ('TEST', reg(0), imm())
    elif 0xb0 <= op <= 0xb7:
        out = ('MOV', ('r', 8, op & 7 | bit << 3), ('i', 8, rd.u()))
    elif op in (0xc1, 0xd1, 0xd3):
        r, e = modrm()
        count = ('i', 8, rd.u()) if op == 0xc1 else ('i', 8, 1) if op == 0xd1 else ('r', 8, 1)
        out = (SHIFTS[r & 7], e(size), count)
    elif 0xb8 <= op <= 0xbf:
        out = ('MOV', reg(op & 7 | bit << 3), ('i', size, rd.u(size // 8)))
    elif op == 0xc7:
        r, e = modrm()
        if r & 7:
            raise Bad('c7 /%d' % r)
        out = ('MOV', e(size), imm())
    elif op in (0xe8, 0xe9):
        out = ('CALL' if op == 0xe8 else 'JMP', '?')
    elif op == 0xeb or 0x70 <= op <= 0x7f:
        out = ('JMP' if op == 0xeb else 'Jcc%x' % (op & 15), rd.s(1))
    elif op == 0xf7:
        r, e = modrm()
        name = GROUP_F7[r & 7]
        out = (name, e(size)) + ((imm(),) if name == 'TEST' else ())
    elif op == 0xff:
        r, e = modrm()
        name = {0: 'INC', 1: 'DEC'}.get(r & 7)
        out = (name, e(size))
    elif op == 0x0f01:
        r, e = modrm()
        out = (GROUP_0F01.get(r & 7), e(size))
        if out[1][0] == 'r':
            raise Bad('0f 01 with a register')
    elif op == 0x0fae:
        r, e = modrm()
        out = (GROUP_0FAE.get(r & 7), e(size))
        if out[1][0] == 'r':
            raise Bad('0f ae with a register')
    elif op in (0x0f20, 0x0f22):
        byte = rd.u()
        width = 64 if bits == 64 else 32
        g, c = ('r', width, byte & 7 | bit << 3), ('cr', byte >> 3 & 7)
        if byte >> 6 != 3:
            raise Bad('mov cr with mod %d' % (byte >> 6))
        out = ('MOV', g, c) if op == 0x0f20 else ('MOV', c, g)
    elif 0x0f40 <= op <= 0x0f4f:
        r, e = modrm()
        out = ('CMOVcc%x' % (op & 15), reg(r), e(size))
    elif 0x0f80 <= op <= 0x0f8f:
        out = ('Jcc%x' % (op & 15), '?')
    elif op in (0x0fa3, 0x0fab, 0x0fb3, 0x0fbb):
        r, e = modrm()
        out = (GROUP_BA[4 + (op >> 3 & 3)], e(size), reg(r))
    elif op == 0x0faf:
        r, e = modrm()
        out = ('IMUL', reg(r), e(size))
    elif op in (0x0fb1, 0x0fc1):
        r, e = modrm()
        out = ('CMPXCHG' if op == 0x0fb1 else 'XADD', e(size), reg(r))
    elif op == 0x0fb8 and rep == 0xf3:
        used_rep = True
        r, e = modrm()
        out = ('POPCNT', reg(r), e(size))
    elif op in (0x0fbc, 0x0fbd) and not rep:
        r, e = modrm()
        out = ('BSF' if op == 0x0fbc else 'BSR', reg(r), e(size))
    elif 0x0fc8 <= op <= 0x0fcf:
        out = ('BSWAP', reg(op & 7 | bit << 3))
    else:
        raise Bad('opcode %x' % op)
    if rep and not used_rep:
        raise Bad('prefix %x' % rep)
    if out[0] in (None, '?'):
        raise Bad('opcode %x with extension' % op)
    if out[-1] == '?':
        out = (out[0], rd.s(2 if size == 16 else 4))
    if isinstance(out[-1], int):
        mask = 0xffff if size == 16 else 0xffffffff if bits != 64 else (1 << 64) - 1
        out = (out[0], ('t', pc + rd.at + out[1] & mask))
    if rd.at != len(rd.data):
        raise Bad('%d more bytes' % (len(rd.data) - rd.at))
    return out


def normal(instruction):
    """the same tuple for different names of the same instruction"""
    name, *ops = instruction
    name = ALIAS.get(name, name)
    if name in COMMUTATIVE and not any(op[0] == 'i' for op in ops):
        ops.sort(key=repr)
    # (esp/rsp can only be the base, so the registers are swapped)
    ops = [('m', op[1], op[3], op[2], 1, op[5])
           if op[0] == 'm' and op[4] == 1 and op[1] != 16 and op[3] == 4 else op
           for op in ops]
    return (name,) + tuple(ops)


# instructions without operands:
# name: (modes, prefix before anything, operand size or None, opcode)
# the size is None when the instruction does not depend on it
ALL, LEGACY, LONG = (16, 32, 64), (16, 32), (64,)
PLAIN = {}


def _plain(modes, size, **names):
    for name, code in names.items():
        PLAIN[name.rstrip('_')] = (modes, size, bytes.fromhex(code))


_plain(LEGACY, None, AAA='37', AAS='3f', AAM='d40a', AAD='d50a', DAA='27',
       DAS='2f', INTO='ce')
_plain(ALL, None, CLC='f8', CLD='fc', CLI='fa', CMC='f5', STC='f9', STD='fd',
       STI='fb', HLT='f4', LAHF='9f', SAHF='9e', NOP='90', LEAVE='c9',
       XLATB='d7', WAIT='9b', FWAIT='9b', PAUSE='f390', ICEBP='f1',
       CMPSB='a6', INSB='6c', LODSB='ac', MOVSB='a4', OUTSB='6e', SCASB='ae',
       STOSB='aa',
       CPUID='0fa2', CLTS='0f06', INVD='0f08', WBINVD='0f09', RDMSR='0f32',
       WRMSR='0f30', RDTSC='0f31', RDPMC='0f33', RSM='0faa', UD2='0f0b',
       SYSENTER='0f34', SYSEXIT='0f35', EMMS='0f77', GETSEC='0f37',
       LFENCE='0faee8', MFENCE='0faef0', SFENCE='0faef8',
       MONITOR='0f01c8', MWAIT='0f01c9', RDTSCP='0f01f9', VMCALL='0f01c1',
       VMLAUNCH='0f01c2', VMRESUME='0f01c3', VMXOFF='0f01c4',
       XGETBV='0f01d0', XSETBV='0f01d1',
       F2XM1='d9f0', FABS='d9e1', FADDP='dec1', FCHS='d9e0', FCLEX='9bdbe2',
       FCOM='d8d1', FCOM2='dcd1', FCOMP='d8d9', FCOMP3='dcd9',
       FCOMP5='ded1', FCOMPP='ded9', FCOS='d9ff', FDECSTP='d9f6',
       FDISI='9bdbe1', FDIVP='def9', FDIVRP='def1', FENI='9bdbe0',
       FINCSTP='d9f7', FINIT='9bdbe3', FLD1='d9e8', FLDL2E='d9ea',
       FLDL2T='d9e9', FLDLG2='d9ec', FLDLN2='d9ed', FLDPI='d9eb',
       FLDZ='d9ee', FMULP='dec9', FNCLEX='dbe2', FNDISI='dbe1',
       FNENI='dbe0', FNINIT='dbe3', FNOP='d9d0', FNSETPM='dbe4',
       FPATAN='d9f3', FPREM='d9f8', FPREM1='d9f5', FPTAN='d9f2',
       FRNDINT='d9fc', FSCALE='d9fd', FSETPM='9bdbe4', FSIN='d9fe',
       FSINCOS='d9fb', FSQRT='d9fa', FSUBP='dee9', FSUBRP='dee1',
       FTST='d9e4', FUCOM='dde1', FUCOMP='dde9', FUCOMPP='dae9',
       FXAM='d9e5', FXCH='d9c9', FXCH4='ddc9', FXCH7='dfc9',
       FXTRACT='d9f4', FYL2X='d9f1', FYL2XP1='d9f9')
_plain(ALL, None, LOCK='f0', INT1='f1', TAKEN='3e', NTAKEN='2e')
_plain(LEGACY, None, SALC='d6', SETALC='d6')
_plain(LONG, None, **{'REX' + ('.' + ''.join(
    letter for bit, letter in ((8, 'W'), (4, 'R'), (2, 'X'), (1, 'B'))
    if number & bit) if number else ''): '%02x' % (0x40 + number)
    for number in range(16)})
_plain(LONG, None, SYSCALL='0f05', SYSRET='0f07', SWAPGS='0f01f8')
_plain(ALL, 16, CBW='98', CWD='99', CMPSW='a7', INSW='6d', LODSW='ad',
       MOVSW='a5', OUTSW='6f', SCASW='af', STOSW='ab')
_plain(ALL, 32, CWDE='98', CDQ='99', CMPSD='a7', INSD='6d', LODSD='ad',
       MOVSD='a5', OUTSD='6f', SCASD='af', STOSD='ab')
_plain(LEGACY, 32, POPAD='61', PUSHAD='60', POPFD='9d', PUSHFD='9c',
       IRETD='cf')
_plain(LONG, 64, CDQE='98', CQO='99', CMPSQ='a7', LODSQ='ad', MOVSQ='a5',
       SCASQ='af', STOSQ='ab', IRETQ='cf')
# pushing 64 bits is the default of the 64 bit mode
_plain(LONG, None, POPFQ='9d', PUSHFQ='9c')
# names for the size of the mode
_plain(LEGACY, 0, POPA='61', PUSHA='60')
_plain(ALL, 0, POPF='9d', PUSHF='9c', IRET='cf')
# near return, far return: the same bytes for every mode
_plain(ALL, None, RET='c3', RETN='c3', RETF='cb')


def plain(bits, name):
    """bytes of an instruction without operands, None if the mode lacks it"""
    modes, size, code = PLAIN[name]
    if bits not in modes:
        return None
    if size == 64:
        return b'\x48' + code
    if size in (16, 32) and (size == 16) != (bits == 16):
        return b'\x66' + code
    return code
