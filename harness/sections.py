"""Sections among the other statements: `.section NAME PERM` changes neither the location counter nor the image, `.section NAME PERM A` is `.org A`."""
from hypothesis import strategies as st
from harness.lib import *

PERMS = ['R', 'RW', 'RX', 'RWX', 'W', 'E', 'RWXE', 'X']
PLACES = st.lists(st.tuples(st.integers(0, 1 << 20), st.one_of(st.none(), st.none(), st.integers(0, 300), st.sampled_from([0x1000, 0x7fff, 0x8000, 0xfff0, 0x10000])), st.integers(0, 7)), min_size=1, max_size=4)


def insert(lines, places):
    """-> the lines with sections, the lines without"""
    with_, without = list(lines), list(lines)
    for i, (at, address, perm) in enumerate(sorted(places, key=lambda p: -(p[0] % (len(lines) + 1)))):
        at %= len(lines) + 1
        name = ['text', 'data', 'sect_a', 'S', '.bss', 'zz9'][i]
        with_.insert(at, '.section %s %s%s' % (name, PERMS[perm], '' if address is None else ' %d' % address))
        without.insert(at, '' if address is None else '.org %d' % address)
    return with_, without


def verdict(cls, what, lines, places):
    with_, without = insert(lines, places)
    a, b = run(cls, '\n'.join(with_) + '\n'), run(cls, '\n'.join(without) + '\n')
    text = '%s\n%s\n' % (what, '\n'.join(with_))
    if b.ok != a.ok:
        fail('%s: %r; with the sections as origins: %r' % (text, a, b))
    if not a.ok:
        return False
    expect_image(a, b.image, text)
    if labels_of(a.asm) != labels_of(b.asm) or a.asm.pc != b.asm.pc:
        fail('%s: labels %r and counter %d, with the sections as origins %r and %d' % (text, labels_of(a.asm), a.asm.pc, labels_of(b.asm), b.asm.pc))
    return len(a.image) > 2
