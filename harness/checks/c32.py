"""C32 NES images.  Oracle: the iNES header layout and a model of the program."""
import sys
from hypothesis import strategies as st
from harness.core import Registry
from harness.lib import *

REG = Registry('C32', 'the program has a cartridge header and something after it, or symbols in a list',
               ['lines of a symbol list may come in any order'])
FIELD = {'cartridge_prg_roms': 4, 'cartridge_chr_roms': 5}


def num(v):
    return [str(v), '$%02x' % v, '%' + bin(v)[2:], '@%o' % v][v % 4]


def build(case):
    lines, img, header, pc = [], bytearray(), False, 0
    for d in case['dirs']:
        if d[0] == 'cartridge':
            lines.append('.cartridge')
            if img:
                return lines, None, {}
            img += b'NES\x1a\x02\x00' + bytes(10)
            pc += 16
            header = True
        elif d[0] in FIELD:
            lines.append('.' + d[0] + ' ' + ' '.join(num(v) if isinstance(v, int) else v for v in d[1]))
            if not header or len(d[1]) != 1 or not isinstance(d[1][0], int) or d[1][0] > 255:
                return lines, None, {}
            img[FIELD[d[0]]] = d[1][0]
        elif d[0] == 'bytes':
            lines.append('.db ' + ' '.join(str(b) for b in d[1]))
            img += bytes(d[1])
            pc += len(d[1])
        elif d[0] == 'fill':
            lines.append('.fill %d %d' % (d[1], d[2]))
            img += bytes([d[2]] * d[1])
            pc += d[1]
        elif d[0] == 'org':
            lines.append('.org $%04X' % d[1])
            pc = d[1]
        elif d[0] == 'ram':
            lines.append('.ram %d' % d[1])
            pc += d[1]
        elif d[0] == 'label':
            lines.append(d[1] + ':')
            case.setdefault('labels', {})[d[1]] = pc
        elif d[0] == 'code':
            lines.append('STA PPUADDR\nLDA #$%02x' % d[1])
            img += bytes([0x8d, 6, 0x20, 0xa9, d[1]])
            pc += 5
    return lines, bytes(img), case.get('labels', {})


NAMES = ['reset', 'nmi', 'irq', 'Loop', 'loop', 'x_pos', 'y_pos', 'tiles.end', 'a1', 'PPU', 'lives', '_hidden']


@st.composite
def roms(draw):
    dirs = []
    k = draw(st.integers(0, 14))
    cart = ['cartridge']
    f = lambda: [draw(st.sampled_from(sorted(FIELD))), [draw(st.integers(0, 255))]]
    if k != 0:
        if draw(st.integers(0, 3)) == 0:
            # nothing is in the image yet
            dirs.append(draw(st.one_of(st.tuples(st.just('org'), st.sampled_from([0, 1, 0x7ff0, 0x7fff, 0x8000, 0xbff0, 0xc000, 0xffef, 0xfff0, 0xffff, 0x10000, 0x18000, 0x100000])),
                                       st.tuples(st.just('ram'), st.integers(1, 0x1ffff)), st.tuples(st.just('label'), st.just('top_of_all')))))
            dirs[-1] = list(dirs[-1])
        dirs.append(cart)
    if k == 1:
        dirs.insert(0, f())
    for _ in range(draw(st.integers(0, 3))):
        dirs.append(f())
    if k == 2:
        dirs.append([draw(st.sampled_from(sorted(FIELD))), draw(st.sampled_from([[1, 2], [], [256], ['reset'], [1, 2, 3], [65536]]))])
    if k == 3:
        dirs.append(cart)
    names = draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=8))
    for _ in range(draw(st.integers(0, 10))):
        c = draw(st.integers(0, 9))
        if c < 3:
            dirs.append(['bytes', list(draw(st.binary(min_size=1, max_size=10)))])
        elif c < 5:
            dirs.append(['org', draw(st.sampled_from([0, 0x7ff, 0x800, 0x801, 0x7fff, 0x8000, 0xffff, 0xc000, 0x200, 0x7f0, 0xfff0, 0x10000, 0x2000]))])
        elif c < 7 and names:
            dirs.append(['label', names.pop()])
        elif c == 7:
            dirs.append(['ram', draw(st.integers(1, 300))])
        elif c == 8:
            dirs.append(['code', draw(st.integers(0, 255))])
        else:
            dirs.append(f() if k != 0 or draw(st.integers(0, 2)) == 0 else ['fill', draw(st.integers(1, 400)), draw(st.integers(0, 255))])
    for n in names:
        dirs.append(['label', n])
    return {'dirs': dirs}


def nontrivial(case, want):
    return len(want) > 16 and ['cartridge'] in case['dirs'] or bool(case.get('labels'))


@REG.given(roms(), quick=2500)
def images(case):
    """iNES image byte for byte"""
    lines, want, labels = build(case)
    res = run(cpu('nes'), '\n'.join(lines) + '\n')
    if want is None:
        expect_error(res, repr(lines))
        return True
    expect_image(res, want, repr(lines))
    if labels_of(res.asm) != labels:
        fail('labels %r, expected %r' % (labels_of(res.asm), labels))
    return nontrivial(case, want)


@REG.given(roms(), quick=300)
def tool(case):
    """the command line tool: image and symbol lists"""
    lines, want, labels = build(case)
    text = '\n'.join(lines) + '\n'
    mod = load('platforms.nes')
    with scratch():
        with open('n.S', 'w') as f:
            f.write(text)
        old = sys.argv
        sys.argv = ['necro_nes', 'n.S', 'rom.nes']
        try:
            with quiet():
                mod.main()
            res = Res(True, content('rom.nes') or b'')
        except Exception as exc:
            res = Res(False, exc=exc)
        finally:
            sys.argv = old
        if want is None:
            expect_error(res, repr(lines))
            return True
        expect_image(res, want, repr(lines))
        for ext, lo, hi in (('.0.nl', 0x8000, 0xffff), ('.ram.nl', 0, 0x7ff)):
            got = sorted((content('rom.nes' + ext) or b'').decode('ascii').split('\r\n'))
            exp = sorted(['$%04X#%s#' % (a, n) for n, a in labels.items() if lo <= a <= hi] + [''])
            if got != exp:
                fail('%s of %r: %r, expected %r' % (ext, lines, got, exp))
        return nontrivial(case, want)


@REG.enum(lambda tier: [[d, v] for d in sorted(FIELD) for v in range(-130, 258)])
def banks(case):
    """every bank count"""
    d, v = case
    res = run(cpu('nes'), '.cartridge\n.%s %d\n.db 1 2 3\n' % (d, v))
    if not -128 <= v <= 255:
        expect_error(res, '.%s %d' % (d, v))
    else:
        want = bytearray(b'NES\x1a\x02\x00' + bytes(10) + b'\1\2\3')
        want[FIELD[d]] = v & 255
        expect_image(res, want, '.%s %d' % (d, v))
    return True


@REG.enum(lambda tier: [[p, c, t] for p in (1, 2, 8, 32) for c in (0, 1, 16) for t in (0, 1)])
def full_size(case):
    """complete images: every bank filled, labels all over the memory, through the API and the command line tool"""
    p, c, t = case
    lines = ['.cartridge', '.cartridge_prg_roms %d' % p, '.cartridge_chr_roms %d' % c]
    labels, img = {}, bytearray(b'NES\x1a' + bytes([p, c]) + bytes(10))
    for i in range(16):
        labels['r%d' % i] = i * 136
        lines += ['.org %d' % (i * 136), 'r%d: .ram 1' % i]
    # the limits of both of the lists
    for a in (0, 1, 0xff, 0x100, 0x7fe, 0x7ff, 0x800, 0x1fff, 0x2000, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xbfff, 0xc000, 0xfffe, 0xffff, 0x10000, 0x18000):
        labels['at_%x' % a] = a
        lines += ['.org %d' % a, 'at_%x:' % a]
    for i in range(p):
        a = 0xc000 if i == p - 1 else 0x8000
        labels['bank%d' % i], labels['end%d' % i] = a, a + 0x3ffe
        lines += ['.org $%X' % a, 'bank%d: .fill %d %d' % (i, 0x3ffe, i & 255), 'end%d: .dw bank%d' % (i, i)]
        img += bytes([i & 255]) * 0x3ffe + a.to_bytes(2, 'little')
    if c:
        lines += ['.org 0', '.fill %d 85' % (c * 0x2000)]
        img += b'\x55' * (c * 0x2000)
    img = bytes(img)
    text = '\n'.join(lines) + '\n'
    if not t:
        res = run(cpu('nes'), text)
        expect_image(res, img, 'NES image with %d + %d banks' % (p, c))
        if labels_of(res.asm) != labels:
            fail('labels of the image with %d banks: %r' % (p, labels_of(res.asm)))
        return True
    with scratch():
        with open('n.S', 'w') as f:
            f.write(text)
        old, sys.argv = sys.argv, ['necro_nes', 'n.S', 'rom.nes']
        try:
            with quiet():
                load('platforms.nes').main()
        except Exception as exc:
            fail('NES tool with %d + %d banks: %r' % (p, c, exc))
        finally:
            sys.argv = old
        expect_image(Res(True, content('rom.nes') or b''), img, 'NES file with %d + %d banks' % (p, c))
        for ext, lo, hi in (('.0.nl', 0x8000, 0xffff), ('.ram.nl', 0, 0x7ff)):
            got = sorted((content('rom.nes' + ext) or b'').decode('ascii').split('\r\n'))
            exp = sorted(['$%04X#%s#' % (a, n) for n, a in labels.items() if lo <= a <= hi] + [''])
            if got != exp:
                fail('%s: %r, expected %r' % (ext, got, exp))
    return True


@REG.enum(lambda tier: [[n, d, v] for n in (0, 1, 4, 5, 6, 15, 16, 17, 100) for d in ['cartridge'] + sorted(FIELD) for v in (0, 1, 255)])
def placement(case):
    """a cartridge or a field at a wrong place, or without a cartridge, whatever was assembled before by another assembler"""
    n, d, v = case
    first = run(cpu('nes'), '.cartridge\n.cartridge_prg_roms %d\n.cartridge_chr_roms %d\n.db 1\n' % (v, v))
    expect_image(first, b'NES\x1a' + bytes([v, v]) + bytes(10) + b'\1', 'a program with both fields')
    res = run(cpu('nes'), ('.fill %d\n' % n if n else '') + '.%s%s\n' % (d, '' if d == 'cartridge' else ' %d' % v))
    if d == 'cartridge' and n == 0:
        expect_image(res, b'NES\x1a\2\0' + bytes(10), 'a cartridge alone')
    else:
        expect_error(res, '.%s after %d bytes' % (d, n))
    return True
