from hypothesis import strategies as st
from harness.core import Registry
from harness.lib import *

REG = Registry('C14', 'generated bases, bit fields, values and packer arguments, concentrated at field limits; the oracle is bit arithmetic written out bit by bit '
               'and int.to_bytes. Non-trivial: at least one non-zero value.', [])
U = load('utils')


@st.composite
def field(draw, top=64):
    start = draw(st.integers(0, top - 1))
    end = min(top - 1, start + draw(st.integers(-1 if start else 0, 20)))
    if top == 64 and draw(st.integers(0, 7)) == 0:
        # the fields of a long instruction word
        start, end = start + draw(st.integers(1, 70)), end + 70
    w = max(1, end - start + 1)
    v = draw(st.one_of(st.integers(-(1 << w - 1), (1 << w) - 1), st.sampled_from([0, 1, -1, (1 << w) - 1, 1 << w, -(1 << w - 1), -(1 << w - 1) - 1, (1 << w - 1)]), st.integers(-2 ** 40, 2 ** 40)))
    return [end, start, v]


def model_bits(base, fields):
    for end, start, v in fields:
        if end < start:
            return None
        w = end - start + 1
        if not -(1 << w - 1) <= v < (1 << w):
            return None
        for i in range(w):
            if (v >> i) & 1:
                base |= 1 << (start + i)
    return base


@REG.given(st.fixed_dictionaries({'base': st.one_of(st.just(0), st.integers(0, 2 ** 64 - 1)), 'fields': st.one_of(st.lists(field(), min_size=1, max_size=4), st.lists(st.integers(0, 63).flatmap(lambda s: st.tuples(st.integers(0, 3), st.integers(-2, 15)).map(lambda t: [s + t[0], s, t[1] % (2 << t[0])])), min_size=5, max_size=40))}), quick=3000)
def bit_fields(case):
    want = model_bits(case['base'], case['fields'])
    try:
        got = U.pack_bits(case['base'], *[((e, s), v) for e, s, v in case['fields']])
    except AssemblerException:
        got = None
    except Exception as e:
        fail('pack_bits(%r) raised %r' % (case, e))
    if got != want:
        fail('pack_bits(%r) = %r, expected %r' % (case, got, want))
    return want is not None and want != case['base']


@REG.enum(lambda tier: [[w, s] for w in range(1, 73) for s in (0, 1, 7, 8, 15, 24, 31, 32, 63, 100)])
def limits_of_every_width(case):
    """values at and beyond the limits of fields of every width"""
    w, s = case
    n = 0
    for base in (0, 0x123456789abcdef << 40, (1 << s) - 1 | 1 << s + w):
        for v in {m + d for m in (0, 1 << w - 1, 1 << w, -(1 << w - 1), -(1 << w), 1 << w + 1, -(1 << w + 1), 1 << 80, -(1 << 80)) for d in (-2, -1, 0, 1)}:
            bit_fields({'base': base, 'fields': [[s + w - 1, s, v]]})
            n += 1
    return n, n


@REG.given(st.fixed_dictionaries({'base': st.integers(0, 2 ** 32 - 1), 'bits': st.lists(st.tuples(st.integers(0, 31), st.integers(-1, 2)), min_size=1, max_size=6).flatmap(lambda l: st.sampled_from([l, l, l + [(b, v % 2) for b, v in enumerate(range(32))], [(31 - b, 1) for b in range(17)] + l]))}), quick=500)
def single_bits(case):
    want = model_bits(case['base'], [[b, b, v] for b, v in case['bits']])
    try:
        got = U.pack_bit(case['base'], *[tuple(x) for x in case['bits']])
    except AssemblerException:
        got = None
    if got != want:
        fail('pack_bit(%r) = %r, expected %r' % (case, got, want))
    return want is not None and want != case['base']


PACK = {'pack_byte': (1, 'little'), 'pack_8s': (1, 'little'), 'pack_le16u': (2, 'little'), 'pack_le16s': (2, 'little'), 'pack_be16u': (2, 'big'), 'pack_be16s': (2, 'big'),
        'pack_le32u': (4, 'little'), 'pack_le32s': (4, 'little'), 'pack_be32u': (4, 'big'), 'pack_be32s': (4, 'big'), 'pack_le64u': (8, 'little'), 'pack_le64s': (8, 'little')}
LIM = sorted({s * (1 << k) + d for k in (0, 7, 8, 15, 16, 31, 32, 63, 64) for s in (1, -1) for d in (-1, 0, 1)})


@REG.given(st.fixed_dictionaries({'fn': st.sampled_from(sorted(PACK)), 'args': st.lists(st.one_of(st.none(), st.sampled_from(LIM), st.integers(-2 ** 70, 2 ** 70)), min_size=1, max_size=5).flatmap(lambda l: st.sampled_from([l, l, l, l * 60]))}), quick=2000)
def packers(case):
    size, order = PACK[case['fn']]
    want = b''.join(((v or 0) % (1 << 8 * size)).to_bytes(size, order) for v in case['args'])
    try:
        got = getattr(U, case['fn'])(*case['args'])
    except Exception as e:
        fail('%s%r raised %r' % (case['fn'], tuple(case['args']), e))
    if got != want:
        fail('%s%r = %r, expected %r' % (case['fn'], tuple(case['args']), got, want))
    return any(case['args'])


@REG.given(st.fixed_dictionaries({'fn': st.sampled_from(['pack_bits_le32u', 'pack_bits_le16u', 'pack_bits_be16u']), 'base': st.integers(0, 65535), 'fields': st.lists(field(16), min_size=1, max_size=3)}), quick=600)
def packed_fields(case):
    v = model_bits(case['base'], case['fields'])
    size, order = {'pack_bits_le32u': (4, 'little'), 'pack_bits_le16u': (2, 'little'), 'pack_bits_be16u': (2, 'big')}[case['fn']]
    want = None if v is None else v.to_bytes(size, order)
    try:
        got = getattr(U, case['fn'])(case['base'], *[((e, s), x) for e, s, x in case['fields']])
    except AssemblerException:
        got = None
    if got != want:
        fail('%s(%r) = %r, expected %r' % (case['fn'], case, got, want))
    return bool(v)


@REG.given(st.fixed_dictionaries({'n': st.integers(1, 64), 'd': st.integers(-3, 3), 'at': st.sampled_from([0, 1, 2, 3]), 'any': st.integers(-2 ** 66, 2 ** 66), 'use': st.booleans()}), quick=2000)
def predicates(case):
    n = case['n']
    v = [0, 1 << n, 1 << n - 1, -(1 << n - 1)][case['at']] + case['d'] if case['use'] else case['any']
    for name, got, want in (('in_bit_range(%d, %d)' % (v, n), U.in_bit_range(v, n), 0 <= v < (1 << n)),
                            ('in_bit_range_decimal(%d, %d, signed=False)' % (v, n), U.in_bit_range_decimal(v, n, signed=False), -(1 << n - 1) <= v < (1 << n)),
                            ('in_bit_range_decimal(%d, %d, signed=True)' % (v, n), U.in_bit_range_decimal(v, n, signed=True), -(1 << n - 1) <= v < (1 << n - 1))):
        if bool(got) != want:
            fail('%s = %r' % (name, got))
    if 0 <= v < (1 << n):
        got = U.neg_fix(v, n)
        want = v - (1 << n) if v >= (1 << n - 1) else v
        if got != want:
            fail('neg_fix(%d, %d) = %r, expected %d' % (v, n, got, want))
    return v != 0


@REG.given(st.fixed_dictionaries({'name': st.text(alphabet='abzABZ019_.-+$ #(:\u00e9', min_size=1, max_size=6)}), quick=300)
def valid_names(case):
    """a label name consists of letters, digits, underscore and dot"""
    want = all(c.isascii() and (c.isalnum() or c in '_.') for c in case['name'])
    if bool(U.is_valid_name(case['name'])) != want:
        fail('is_valid_name(%r) = %r' % (case['name'], not want))
    return True
