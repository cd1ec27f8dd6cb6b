from hypothesis import strategies as st
from harness.core import Registry
from harness.lib import *
from harness import model as M, gen as G

REG = Registry('C03', 'generated literals in generated prefix/suffix configurations and in the real CPUs\' configurations, values concentrated at the '
               'limits of the field; the oracle is the arithmetic rule of the statement. Non-trivial: non-zero value.', [])

PFX = ['$', '#', '0x', 'x.', '%', '0b', '@', '0o', '~', 'hex_', 'B.']
SFX = ['h', 'b', 'o', 'q', 'y', 'd', '_t']
KINDS = ['hex', 'bin', 'oct', 'dec']
BASE = {'hex': 16, 'bin': 2, 'oct': 8, 'dec': 10}


def near(bits):
    lim = [0, (1 << bits) - 1, (1 << bits), (1 << bits - 1) - 1, 1 << bits - 1]
    return st.one_of(st.builds(lambda a, b: abs(a + b), st.sampled_from(lim), st.integers(-2, 2)), st.integers(0, (1 << bits) + 10), st.integers(0, 1 << 70))


@st.composite
def literal(draw):
    bits = draw(st.integers(1, 64))
    return {'bits': bits, 'signed': draw(st.booleans()), 'v': draw(near(bits)), 'neg': draw(st.booleans()), 'upper': draw(st.booleans()), 'zeros': draw(st.sampled_from([0, 0, 1, 2, 7, 24, 70])),
            'kind': draw(st.sampled_from(KINDS + ['plain', 'plain', 'char'])), 'suffix': draw(st.booleans()),
            'pfx': draw(st.permutations(PFX))[:4], 'sfx': draw(st.permutations(SFX))[:4]}


def check_number(asm, tok, value, decimal, bits, signed, what):
    try:
        want = M.fit_number(value, decimal, bits, signed)
        if want < 0 and not signed:
            want += 1 << bits
    except M.Reject:
        want = None
    try:
        got = asm.parse_integer(tok, bits, signed)
    except AssemblerException as e:
        if want is not None:
            fail('%s: literal %r rejected (%s), expected %d in %d bits signed=%s' % (what, tok, e, want, bits, signed))
        return False
    except Exception as e:
        fail('%s: literal %r raised %r in %d bits signed=%s' % (what, tok, e, bits, signed))
    if got != want or isinstance(got, bool):
        fail('%s: literal %r read as %r, expected %s in %d bits signed=%s' % (what, tok, got, want, bits, signed))
    return bool(want)


@REG.given(literal(), quick=3000)
def any_configuration(case):
    """exact value or rejection, for every base, width and signedness"""
    px = dict(zip(KINDS, case['pfx']))
    sx = dict(zip(KINDS, case['sfx']))

    class Cfg(Assembler):
        hex_prefixes, bin_prefixes, oct_prefixes, dec_prefixes = [(px[k],) for k in KINDS]
        hex_suffixes, bin_suffixes, oct_suffixes, dec_suffixes = [(sx[k],) for k in KINDS]
    asm = new(Cfg)
    kind, v = case['kind'], case['v']
    if kind == 'char':
        v = 32 + v % 95 if case['upper'] else 0xa1 + v % 0x3000
        if chr(v) in "'\\":
            v = 65
        return check_number(asm, "'%s'" % chr(v), v, False, case['bits'], case['signed'], 'char')
    if kind == 'plain':
        if case['neg']:
            v = -v
        return check_number(asm, str(v), v, True, case['bits'], case['signed'], 'plain')
    d = '0' * case['zeros'] + M._digits(v, BASE[kind])
    if case['upper']:
        d = d.upper()
    if case['suffix']:
        tok = ('0' + d if kind == 'hex' else d) + sx[kind]
        if any(tok.startswith(p) for p in px.values()) or any(tok.endswith(s) for k, s in sx.items() if k != kind and sx[kind] != s and s.endswith(sx[kind])):
            return False        # ambiguous spelling
        # a hex digit may be another suffix letter only if the hex suffix follows it
    else:
        tok = px[kind] + d
        if any(tok.startswith(p) for k, p in px.items() if k != kind):
            return False
        if any(tok.endswith(s) for s in sx.values()) and tok[:1].isdigit():
            return False        # a suffix letter that is also a digit of this literal: ambiguous spelling
    return check_number(asm, tok, v, kind == 'dec', case['bits'], case['signed'], 'prefix %r suffix %r' % (px, sx))


REAL = {
    '6502': dict(hex=['$'], bin=['%'], oct=['@']), 'lr35902': dict(hex=['$'], bin=['%'], oct=['@']),
    'gameboy': dict(hex=['$'], bin=['%'], oct=['@']), 'nes': dict(hex=['$'], bin=['%'], oct=['@']),
    'z80': dict(hex=['$'], bin=['%']), 'sms': dict(hex=['$'], bin=['%']), '68000': dict(hex=['$'], bin=['%']),
    'mips32': dict(hex=['0x'], bin=['0b']), 'psx': dict(hex=['0x'], bin=['0b']), 'thumb': dict(hex=['0x'], bin=['0b', '0y']), 'ppc': dict(hex=['0x']),
    '8086': dict(hex=['0x', '0h', '$0', '-h'], dec=['0d', '-d'], bin=['0b', '0y', '-b', '-y'], oct=['0o', '0q', '-o', '-q']),
}
REAL['x86'] = REAL['8086']
BIG = {'mips32', 'ppc', '68000'}


@st.composite
def real_literal(draw):
    c = draw(st.sampled_from(sorted(REAL)))
    kind = draw(st.sampled_from(sorted(REAL[c]) + ['plain']))
    mark = draw(st.sampled_from(REAL[c][kind])) if kind != 'plain' else ''
    size = draw(st.sampled_from([1, 2, 4]))
    return {'cpu': c, 'kind': kind, 'mark': mark, 'size': size, 'v': draw(near(size * 8)), 'neg': draw(st.booleans()), 'upper': draw(st.booleans()),
            'zeros': draw(st.sampled_from([0, 0, 1, 2, 7, 24, 70]))}


def spelling(case):
    """(text, decimal) of a drawn literal, None when it reads as something else"""
    kind, mark, v = case['kind'], case['mark'], case['v']
    if kind == 'plain':
        return str(-v if case['neg'] else v)
    d = '0' * case['zeros'] + M._digits(v, BASE[kind])
    if case['upper']:
        d = d.upper()
    if mark[0] == '-' and kind != 'hex' and d == '0':
        return None        # 0b, 0d, ... are prefixes
    if mark[0] == '-':
        return ('0' if kind == 'hex' else '') + d + mark[1]
    return mark + d


def stored(case, bits):
    v = -case['v'] if case['neg'] and case['kind'] == 'plain' else case['v']
    try:
        return M.fit_number(v, case['kind'] in ('plain', 'dec'), bits) % (1 << bits)
    except M.Reject:
        return None


@REG.given(real_literal(), quick=1500)
def in_data_of_real_cpus(case):
    """the literal syntaxes of the shipped assemblers, through .db/.dw/.dd"""
    size, tok = case['size'], spelling(case)
    if tok is None:
        return False
    want = stored(case, size * 8)
    text = '.%s %s' % ({1: 'db', 2: 'dw', 4: 'dd'}[size], tok)
    r = run(cpu(case['cpu']), text)
    if want is None:
        expect_error(r, '%s: %r' % (case['cpu'], text))
        return False
    expect_image(r, want.to_bytes(size, 'big' if case['cpu'] in BIG else 'little'), '%s: %r' % (case['cpu'], text))
    return bool(want)


FIELDS = [('.fill 3 @', 8, lambda v: bytes([v]) * 3), ('.goto 4 @', 8, lambda v: bytes([v]) * 4), ('.upto 5 @', 8, lambda v: bytes([v]) * 5),
          ('.db_to_ascii @', 8, lambda v: b'%d' % v), ('.db_to_asciiz @', 8, lambda v: b'%d\0' % v), ('.dw_to_ascii @', 16, lambda v: b'%d' % v),
          ('.dw_to_asciiz @,7', 16, lambda v: b'%d7\0' % v), ('.byte 1,@', 8, lambda v: bytes([1, v])), ('.dl @', 32, None), ('.word 0,@', 16, None)]


@REG.given(st.tuples(st.integers(0, len(FIELDS) - 1).flatmap(lambda k: st.tuples(st.just(k), near(FIELDS[k][1]))), real_literal()), quick=900)
def in_directive_fields(case):
    """values in the fields of the other directives"""
    (k, v), lit = case
    t, bits, data = FIELDS[k]
    lit = dict(lit, v=v)
    tok = spelling(lit)
    if tok is None or tok[0] == '-' and 'ascii' in t:
        return False           # the digits of a negative number are not specified
    want = stored(lit, bits)
    text = t.replace('@', tok)
    r = run(cpu(lit['cpu']), text)
    if want is None:
        expect_error(r, '%s: %r' % (lit['cpu'], text))
        return True
    if data is None:
        n = bits // 8
        data = lambda v: bytes(n * t.count(',')) + v.to_bytes(n, 'big' if lit['cpu'] in BIG else 'little')
    expect_image(r, data(want), '%s: %r' % (lit['cpu'], text))
    return True


@REG.given(st.fixed_dictionaries({'p': st.sampled_from(['$', '%', '@', '0x', '0b', '0o']), 'v': st.integers(1, 127), 'where': st.sampled_from(['-%s%s', '%s-%s']),
                                  'd': st.sampled_from(['.db ', '.dd ', 'LD8 ', 'LD32 ', '.fill ', '.org '])}), quick=200)
def signed_non_decimal(case):
    """a sign is only accepted on decimal numbers"""
    b = {'$': 16, '0x': 16, '%': 2, '0b': 2, '@': 8, '0o': 8}[case['p']]
    text = case['d'] + case['where'] % (case['p'], M._digits(case['v'], b))
    expect_error(run(M.make_cpu(), text), repr(text))
    return True


@REG.given(st.fixed_dictionaries({'c': st.sampled_from([c for c in map(chr, range(33, 127)) if c not in "'\\"] + [' '] + list('\u00a1\u00df\u00e9\u00ff\u0100\u03a9\u20ac\U0001f600')), 'm': st.sampled_from(['LD8', 'LD16', 'LD32']), 'be': st.booleans()}), quick=300)
def char_operand(case):
    """a quoted character as an instruction operand is its code"""
    _, size, _ = M.OPS[case['m']]
    text = "%s '%s'" % (case['m'], case['c'])
    if ord(case['c']) >> 8 * size:
        expect_error(run(M.make_cpu(case['be']), text), repr(text))
        return True
    expect_image(run(M.make_cpu(case['be']), text), bytes([M.OPS[case['m']][0]]) + ord(case['c']).to_bytes(size, 'big' if case['be'] else 'little'), repr(text))
    return True


@REG.given(st.fixed_dictionaries({'bits': st.integers(1, 64), 'tok': st.sampled_from(['abc', 'label', 'x', '_a', 'a1', 'ffh', 'dad', 'oo', '.x', 'bah', 'b', 'd', 'h', 'face'])}), quick=100)
def names_are_not_numbers(case):
    """names are never read as numbers"""
    for c in ('8086', 'x86', '6502'):
        asm = new(cpu(c))
        try:
            got = asm.parse_integer(case['tok'], case['bits'], False)
        except Exception as e:
            fail('%s: name %r raised %r' % (c, case['tok'], e))
        if got is not None:
            fail('%s: name %r read as %r' % (c, case['tok'], got))
    return True
