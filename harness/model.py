"""Reference model of the framework level semantics, evaluated on an AST (never on text).

Statements (JSON lists):
  ["label", name]
  ["data", directive, size, [operand...]]     operand: ["s", quote, text] | expression
  ["fill", expr_num, expr_num|None] ["align", n] ["goto", n, v] ["upto", n, v] ["ram", n]
  ["org", n, n|None]
  ["op", mnemonic, [operand...]]              one of the instructions of the test CPU
  ["repeat", n, [statements]]
  ["ascii", size, z, [expr...]]
Expression: {"v": [term, [[op, term|None]...]], "drop": k, "keep": k}
Term: ["n", value, style] | ["l", name]
"""
from necroassembler import Assembler, opcode
from necroassembler.utils import pack_byte


class Reject(Exception):
    pass


# ---- literal styles -------------------------------------------------------
def _digits(v, base):
    d = '0123456789abcdef'
    if v == 0:
        return '0'
    o = ''
    while v:
        o = d[v % base] + o
        v //= base
    return o


STYLES = {
    # name: (decimal?, render)
    'dec': (True, lambda v: str(v)),
    '0x': (False, lambda v: '0x' + _digits(v, 16)),
    '$': (False, lambda v: '$' + _digits(v, 16).upper()),
    '%': (False, lambda v: '%' + _digits(v, 2)),
    '0b': (False, lambda v: '0b' + _digits(v, 2)),
    '@': (False, lambda v: '@' + _digits(v, 8)),
    '0o': (False, lambda v: '0o' + _digits(v, 8)),
    '0d': (True, lambda v: '0d' + str(v)),
    'h': (False, lambda v: '0' + _digits(v, 16) + 'h'),
    'b': (False, lambda v: _digits(v, 2) + 'b'),
    'o': (False, lambda v: _digits(v, 8) + 'o'),
    'd': (True, lambda v: str(v) + 'd'),
    'char': (False, lambda v: "'%s'" % chr(v)),
}

PREFIX_STYLES = ['dec', '0x', '$', '%', '0b', '@', '0o', '0d']
SUFFIX_STYLES = ['dec', 'h', 'b', 'o', 'd']


def make_cpu(big_endian=False, fill=0, suffixes=False, sensitive=False):
    """A small test CPU built on the public extension API."""
    be = big_endian

    class TestCPU(Assembler):
        big_endian = be
        fill_value = fill
        case_sensitive = sensitive
        if suffixes:
            hex_suffixes = ('h',)
            bin_suffixes = ('b',)
            oct_suffixes = ('o',)
            dec_suffixes = ('d',)
        else:
            hex_prefixes = ('0x', '$')
            bin_prefixes = ('0b', '%')
            oct_prefixes = ('0o', '@')
            dec_prefixes = ('0d',)

        def register_instructions(self):
            self.register_instruction('NOP', b'\xea')
            self.register_instruction('WIDE', b'\x01\x02\x03')

        def _abs(self, instr, code, size):
            if len(instr.tokens) != 2:
                return None
            v = self.parse_integer_or_label(instr.tokens[1], size=size, bits_size=size * 8, offset=1)
            return bytes([code]) + int(v).to_bytes(size, 'big' if self.big_endian else 'little')

        @opcode('LD8')
        def ld8(self, instr):
            return self._abs(instr, 0x10, 1)

        @opcode('LD16')
        def ld16(self, instr):
            return self._abs(instr, 0x20, 2)

        @opcode('LD32')
        def ld32(self, instr):
            return self._abs(instr, 0x40, 4)

        @opcode('BR8')
        def br8(self, instr):
            if len(instr.tokens) != 2:
                return None
            v = self.parse_integer_or_label(instr.tokens[1], size=1, bits_size=8, offset=1,
                                            relative=self.pc + 2)
            return bytes([0x50]) + pack_byte(v)

        @opcode('BR16')
        def br16(self, instr):
            if len(instr.tokens) != 2:
                return None
            v = self.parse_integer_or_label(instr.tokens[1], size=2, bits_size=16, offset=1,
                                            relative=self.pc + 3)
            return bytes([0x60]) + (v & 0xffff).to_bytes(2, 'big' if self.big_endian else 'little')

    return TestCPU


OPS = {'LD8': (0x10, 1, False), 'LD16': (0x20, 2, False), 'LD32': (0x40, 4, False),
       'BR8': (0x50, 1, True), 'BR16': (0x60, 2, True)}


# ---- rendering ------------------------------------------------------------
def r_term(t):
    if t[0] == 'n':
        return STYLES[t[2]][1](t[1])
    return t[1]


def r_expr(e):
    s = '>' * e.get('drop', 0) + '<' * e.get('keep', 0) + r_term(e['v'][0])
    for op, t in e['v'][1]:
        s += op + ('' if t is None else r_term(t))
    return s


def num(v, style='dec'):
    return {'v': [['n', v, style], []]}


def lab(n):
    return {'v': [['l', n], []]}


def escape(quote, text):
    return quote + ''.join('\\' + c if c in ('\\', quote) else c for c in text) + quote


def r_operand(o):
    if isinstance(o, list):
        return escape(o[1], o[2])
    return r_expr(o)


def r_stmt(s):
    """-> list of token groups lines: each statement as list of tokens (already text)"""
    k = s[0]
    if k == 'label':
        return [[s[1] + ':']]
    if k == 'data':
        return [['.' + s[1]] + [r_operand(o) for o in s[3]]]
    if k == 'ascii':
        return [['.%s_to_ascii%s' % ('db' if s[1] == 1 else 'dw', 'z' if s[2] else '')] + [r_expr(o) for o in s[3]]]
    if k in ('fill', 'goto', 'upto', 'org'):
        return [['.' + k, r_expr(s[1])] + ([] if s[2] is None else [r_expr(s[2])])]
    if k in ('align', 'ram'):
        return [['.' + k, r_expr(s[1])]]
    if k == 'op':
        return [[s[1]] + [r_expr(o) for o in s[2]]]
    if k == 'repeat':
        out = [['.repeat', r_expr(s[1])]]
        for x in s[2]:
            out += r_stmt(x)
        return out + [['.endrepeat']]
    raise AssertionError(k)


def render(prog):
    return '\n'.join(' '.join(t) for s in prog for t in r_stmt(s)) + '\n'


# ---- evaluation -----------------------------------------------------------
def fold(value, e, term):
    if e.get('drop') or e.get('keep'):
        value >>= 8 * e.get('drop', 0)
        if e.get('keep'):
            value &= (1 << (8 * e['keep'])) - 1
    for op, t in e['v'][1]:
        a = 1 if t is None else term(t)
        if op == '+':
            value += a
        elif op == '-':
            value -= a
        elif op == '*':
            value *= a
        elif op == '/':
            if a == 0:
                raise Reject('division by zero')
            value = value // a
        elif op == '&':
            value &= a
        elif op == '|':
            value |= a
    return value


def fit_number(value, decimal, bits, signed=False):
    """Field value (non negative when unsigned) or Reject."""
    if decimal:
        lo, hi = -(1 << (bits - 1)), ((1 << (bits - 1)) - 1 if signed else (1 << bits) - 1)
    else:
        lo, hi = 0, (1 << bits) - 1
    if not lo <= value <= hi:
        raise Reject('%d does not fit %d bits' % (value, bits))
    return value


def is_num(e):
    return e['v'][0][0] == 'n'


class Model:
    def __init__(self, big_endian=False, fill=0):
        self.be, self.fill = big_endian, fill
        self.bytes = bytearray()
        self.org = self.org_end = self.cnt = 0
        self.labels = {}
        self.fixups = []      # (index, size, expr, relative base or None, ascii digits or 0)

    @property
    def pc(self):
        return self.org + self.cnt

    def emit(self, b):
        self.bytes += b
        self.cnt += len(b)

    def now(self, e, bits=64, signed=False):
        """numeric expression evaluated immediately; labels must be known"""
        def term(t):
            if t[0] == 'n':
                return fit_number(t[1], STYLES[t[2]][0], 64)
            if t[1] not in self.labels:
                raise Reject('unknown label')
            return self.labels[t[1]]
        v = fold(e['v'][0][1], e, term)
        v = fit_number(v, STYLES[e['v'][0][2]][0], bits, signed)
        return v + (1 << bits) if v < 0 and not signed else v

    def ref(self, e, size, relbase=None):
        if is_num(e):
            v = self.now(e, size * 8, relbase is not None)
            self.emit((v & ((1 << size * 8) - 1)).to_bytes(size, 'big' if self.be else 'little'))
        else:
            self.fixups.append((len(self.bytes), size, e, relbase, 0))
            self.emit(bytes(size))

    def directive_num(self, e, bits=64):
        if not is_num(e):
            raise Reject('label in directive')
        return self.now(e, bits)

    def set_org(self, s, e):
        if e > 0 and e < s:
            raise Reject('end before start')
        if self.org_end > 0:
            if self.pc > s:
                raise Reject('backwards')
            if s > self.org_end:
                pad = self.org_end + 1 - self.pc
            elif s > self.org:
                pad = s - self.pc
            else:
                raise Reject('same origin')
            self.bytes += bytes([self.fill]) * max(0, pad)
        self.org, self.org_end, self.cnt = s, e, 0

    def stmt(self, s):
        k = s[0]
        if k == 'label':
            if s[1] in self.labels:
                raise Reject('duplicate label')
            self.labels[s[1]] = self.pc
        elif k == 'data':
            for o in s[3]:
                if isinstance(o, list):
                    enc = {1: 'ascii', 2: 'utf-16', 4: 'utf-32'}[s[2]]
                    self.emit(o[2].encode(enc))
                else:
                    self.ref(o, s[2])
        elif k == 'ascii':
            digits = 3 if s[1] == 1 else 5
            for o in s[3]:
                if is_num(o):
                    self.emit(str(self.now(o, 8 * s[1])).encode())
                else:
                    self.fixups.append((len(self.bytes), digits, o, None, digits))
                    self.emit(bytes(digits))
            if s[2]:
                self.emit(b'\0')
        elif k == 'fill':
            n = self.directive_num(s[1])
            v = self.fill if s[2] is None else self.directive_num(s[2], 8)
            self.emit(bytes([v]) * n)
        elif k == 'align':
            n = self.directive_num(s[1])
            if n == 0:
                raise Reject('align 0')
            self.emit(bytes([self.fill]) * (-self.pc % n))
        elif k == 'goto':
            n = self.directive_num(s[1])
            if n < self.pc:
                raise Reject('backwards')
            v = self.fill if s[2] is None else self.directive_num(s[2], 8)
            self.emit(bytes([v]) * (n - self.pc))
        elif k == 'upto':
            n = self.directive_num(s[1])
            if n < self.cnt:
                raise Reject('backwards')
            v = self.fill if s[2] is None else self.directive_num(s[2], 8)
            self.emit(bytes([v]) * (n - self.cnt))
        elif k == 'ram':
            n = self.directive_num(s[1])
            if n < 1:
                raise Reject('ram 0')
            self.cnt += n
        elif k == 'org':
            self.set_org(self.directive_num(s[1]), 0 if s[2] is None else self.directive_num(s[2]))
        elif k == 'op':
            if s[1] == 'NOP':
                self.emit(b'\xea')
            elif s[1] == 'WIDE':
                self.emit(b'\x01\x02\x03')
            else:
                code, size, rel = OPS[s[1]]
                pc = self.pc
                self.emit(bytes([code]))
                self.ref(s[2][0], size, pc + 1 + size if rel else None)
        elif k == 'repeat':
            n = self.directive_num(s[1])
            if n <= 0:
                raise Reject('repeat 0')
            for i in range(n):
                for x in s[2]:
                    if x[0] == 'label' and i:
                        continue
                    self.stmt(x)
        else:
            raise AssertionError(k)

    def finish(self):
        if self.org_end > 0 and self.pc <= self.org_end:
            self.emit(bytes([self.fill]) * (self.org_end + 1 - self.pc))

    def link(self):
        def term(t):
            if t[0] == 'n':
                return fit_number(t[1], STYLES[t[2]][0], 64)
            if t[1] not in self.labels:
                raise Reject('unknown label ' + t[1])
            return self.labels[t[1]]
        for idx, size, e, relbase, digits in self.fixups:
            base = term(e['v'][0])
            if relbase is not None:
                base -= relbase
            v = fold(base, e, term)
            if digits:
                if not 0 <= v < (256 if digits == 3 else 65536):
                    raise Reject('ascii range')
                out = str(v).rjust(digits, '0').encode()
                self.bytes[idx:idx + digits] = out
                continue
            bits = size * 8
            if relbase is None:
                if not 0 <= v < (1 << bits):
                    raise Reject('label range')
            elif not -(1 << bits - 1) <= v < (1 << bits - 1):
                raise Reject('branch range')
            self.bytes[idx:idx + size] = (v & ((1 << bits) - 1)).to_bytes(size, 'big' if self.be else 'little')


def evaluate(prog, big_endian=False, fill=0):
    """-> Model after link, or raises Reject"""
    m = Model(big_endian, fill)
    for s in prog:
        m.stmt(s)
    m.finish()
    m.link()
    return m
