"""Shared by the per-CPU encoding checks.

A case is {"t": source text, "w": [accepted outcomes]} where an outcome is the hex image or "!" for
"rejected".  The expected outcomes come from the per-CPU reference encoders in harness/ref/, never from
the code under test.
"""
import re
from hypothesis import strategies as st
from harness.lib import *
from harness.core import TIER

SPELL = {
    'dec': lambda v: str(v),
    '$': lambda v: '$%x' % v,
    '$0': lambda v: '$%04X' % v,
    '0x': lambda v: '0x%x' % v,
    '%': lambda v: '%' + bin(v)[2:],
    '@': lambda v: '@%o' % v,
    '0b': lambda v: '0b' + bin(v)[2:],
    '0y': lambda v: '0y' + bin(v)[2:],
    'h': lambda v: ('%xh' % v) if ('%x' % v)[0].isdigit() else ('0%xh' % v),
}
STYLES = {'6502': ['dec', '$', '$0', '%', '@'], 'lr35902': ['dec', '$', '$0', '%', '@'],
          'z80': ['dec', '$', '$0', '%'], '68000': ['dec', '$', '$0', '%'],
          'thumb': ['dec', '0x', '0b', '0y'], 'mips32': ['dec', '0x', '0b'],
          'ppc': ['dec', '0x'], '8086': ['dec', '0x', 'h'], 'x86': ['dec', '0x', 'h']}


def spell(v, sty='dec'):
    """v spelled in a style; negative numbers only exist in decimal; some decimals get leading zeros"""
    if v < 0:
        return str(v) if v % 5 != 2 else '-0%s' % -v
    if sty == 'dec' and v % 5 == 2:
        return '00%d' % v if v % 3 else '0%d' % v
    return SPELL[sty](v)


def fits(v, bits, sty='dec', signed=False):
    """Does a literal fit an n-bit field (the C03 rule)?"""
    if sty != 'dec' and v >= 0:
        return 0 <= v < 1 << bits
    if signed:
        return -(1 << bits - 1) <= v < 1 << bits - 1
    return -(1 << bits - 1) <= v < 1 << bits


WORD = re.compile(r'(?<![\w$%@.#\'"])[A-Za-z][A-Za-z0-9_.]*')
WORD2 = re.compile(r'(?<![\w$%@.\'"])\$?[A-Za-z][A-Za-z0-9_.]*')


def recase(text, mode):
    """mode 0 as is, 1 lower, 2 upper, >2 pseudo random per letter"""
    if mode == 0:
        return text
    n = [mode]

    def f(m):
        w = m.group(0)
        if mode == 1:
            return w.lower()
        if mode == 2:
            return w.upper()
        out = ''
        for c in w:
            n[0] = (n[0] * 1103515245 + 12345) & 0x7fffffff
            out += c.upper() if n[0] >> 16 & 1 else c.lower()
        return out
    return WORD.sub(f, text)


def H(*parts):
    """bytes/ints -> hex"""
    b = b''
    for p in parts:
        b += bytes([p]) if isinstance(p, int) else bytes(p)
    return b.hex()


def le16(v):
    return (v & 0xffff).to_bytes(2, 'little')


def be16(v):
    return (v & 0xffff).to_bytes(2, 'big')


def le32(v):
    return (v & 0xffffffff).to_bytes(4, 'little')


def be32(v):
    return (v & 0xffffffff).to_bytes(4, 'big')


def judge(name, case, prepare=None):
    text, want = case['t'], case['w']
    res = run(cpu(name), text, prepare=prepare)
    if not res.ok:
        from harness.lib import AssemblerException
        if '!' in want:
            return True
        fail('%s %r: expected %s, got %r' % (name, text, ' or '.join(want), res), case.get('s'))
    if res.image.hex() in want:
        return True
    fail('%s %r: expected %s, got %s' % (name, text, ' or '.join('rejection' if w == '!' else w for w in want), hexs(res.image)),
         case.get('s'))


def judge_many(name, cases):
    """Same verdict as judge() on each, sharing one assembler for speed: anything that does not come out as
    expected there is judged again alone, on a fresh assembler and linked."""
    asm = new(cpu(name))
    for c in cases:
        before = len(asm.assembled_bytes)
        try:
            asm.assemble(c['t'])
            got = bytes(asm.assembled_bytes[before:]).hex()
        except Exception:
            got = '!'
        if got not in c['w']:
            judge(name, c)
            if got == '!':
                asm = new(cpu(name))
    return len(cases), len(cases)


def chunks(it, n=60):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf


def seq_strategy(one):
    """sequences of statements from a strategy of single cases: accepted ones are concatenated"""
    return st.lists(one, min_size=2, max_size=12).map(
        lambda cs: {'t': '\n'.join(c['t'] for c in cs if '!' not in c['w'] and len(c['w']) == 1),
                    'w': [''.join(c['w'][0] for c in cs if '!' not in c['w'] and len(c['w']) == 1)]})


def interesting(bits, signed=None):
    """boundary values around an n-bit field"""
    v = {0, 1, 2, 5, (1 << bits - 1) - 1, 1 << bits - 1, (1 << bits - 1) + 1, (1 << bits) - 1, 1 << bits, (1 << bits) + 1,
         (1 << bits + 3) + 5, -1, -2, -(1 << bits - 1), -(1 << bits - 1) - 1, -(1 << bits) + 1, -(1 << bits), -(1 << bits) - 1,
         0x55555555 & ((1 << bits) - 1), 0x12345678 & ((1 << bits) - 1), 0x9abcdef1 & ((1 << bits) - 1)}
    return sorted(v)


def ints(bits):
    return st.one_of(st.sampled_from(interesting(bits)), st.integers(-(1 << bits) - 3, (1 << bits + 1)), st.integers(0, (1 << bits) - 1),
                     st.integers(0, (1 << bits) - 1))


CASES = st.sampled_from([0, 0, 0, 1, 2, 77, 12345])
