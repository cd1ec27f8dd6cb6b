"""C31 Game Boy cartridges.  Oracle: header layout of the Game Boy documentation and the checksum rules."""
import sys
from hypothesis import strategies as st
from harness.core import Registry
from harness.lib import *

REG = Registry('C31', 'the image has a cartridge header',
               ['`.cartridge` is accepted exactly when 256 bytes have been emitted, which is how the tool recognises $100',
                'field bytes not covered by a shorter value keep what they held'])
LOGO = bytes.fromhex('CEED6666CC0D000B03730083000C000D0008111F8889000EDCCC6EE6DDDDD999'
                     'BBBB67636E0EECCCDDDC999FBBB9333E')
FIELDS = {'cartridge_title': (0x134, 16), 'cartridge_license': (0x144, 2), 'cartridge_cgb': (0x143, 1),
          'cartridge_sgb': (0x146, 1), 'cartridge_type': (0x147, 1), 'cartridge_destination': (0x14a, 1)}


def boot_rom_accepts(img):
    """what the boot ROM computes: sum of 0x134..0x14d plus 25 is zero, and the logo compares equal"""
    return img[0x104:0x134] == LOGO and (sum(img[0x134:0x14e]) + 0x19) & 0xff == 0


def finish(img):
    img = bytearray(img)
    if len(img) < 0x150:
        return bytes(img)
    x = 0
    for a in range(0x134, 0x14d):
        x = (x - img[a] - 1) & 0xff
    img[0x14d] = x
    g = sum(b for a, b in enumerate(img) if a not in (0x14e, 0x14f)) & 0xffff
    img[0x14e:0x150] = g.to_bytes(2, 'big')
    return bytes(img)


def operand_text(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append('"' + p + '"')
        else:
            out.append([str(p), '$%02x' % p, '%' + bin(p)[2:], str(p - 256) if p >= 128 else str(p)][p % 4])
    return ' '.join(out)


def operand_bytes(parts):
    b = b''
    for p in parts:
        b += p.encode('ascii') if isinstance(p, str) else bytes([p])
    return b


def build(case):
    """-> (source, expected image or None when rejected)"""
    lines, img, ok, pc = [], bytearray(), True, 0
    header = False
    if case['bound']:
        lines.append('.org 0 $%x' % case['bound'])
    pre = bytes(case['pre'])
    for i in range(0, len(pre), 16):
        lines.append('.db ' + ' '.join(str(b) for b in pre[i:i + 16]))
    img += pre
    for d in case['dirs']:
        if d[0] == 'goto':
            lines.append('.goto $100 %d' % d[1])
            if len(img) > 0x100:
                return lines, None
            img += bytes([d[1]] * (0x100 - len(img)))
        elif d[0] == 'cartridge':
            lines.append('.cartridge')
            if len(img) != 0x100:
                return lines, None
            img += b'\x00\xc3\x50\x01' + LOGO + bytes(16) + bytes(6) + b'\x01\x33' + bytes(4)
            header = True
        elif d[0] == 'bytes':
            for i in range(0, len(d[1]), 16):
                lines.append('.db ' + ' '.join(str(b) for b in d[1][i:i + 16]))
            img += bytes(d[1])
        elif d[0] == 'fill':
            lines.append('.fill %d %d' % (d[1], d[2]))
            img += bytes([d[2]] * d[1])
        else:
            name, parts = d
            lines.append('.' + name + ' ' + operand_text(parts))
            a, n = FIELDS[name]
            b = operand_bytes(parts)
            if not header or len(b) > n or not parts:
                return lines, None
            img[a:a + len(b)] = b
    # a label at the end shows that the location counter follows the header
    if len(img) <= 0xfffd:
        lines.append('theend:')
        lines.append('.dw theend')
        img += len(img).to_bytes(2, 'little')
    if case['bound'] and len(img) <= case['bound']:
        img += bytes(case['bound'] + 1 - len(img))
    return lines, finish(img)


TEXT = st.text(alphabet='ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,-abc', min_size=1, max_size=17)


@st.composite
def field(draw):
    name = draw(st.sampled_from(sorted(FIELDS)))
    n = FIELDS[name][1]
    k = draw(st.integers(0, 9))
    if k == 0:
        parts = draw(st.lists(st.integers(0, 255), min_size=0, max_size=n + 1))
    elif name == 'cartridge_title' or k == 1:
        parts = draw(st.one_of(TEXT.map(lambda t: [t]), st.tuples(TEXT, st.lists(st.integers(0, 255), max_size=5)).map(lambda t: [t[0][:10]] + t[1])))
        if k != 1 and len(operand_bytes(parts)) > n:
            parts = [parts[0][:n]] if isinstance(parts[0], str) else parts[:n]
    elif k == 2:
        parts = draw(st.lists(st.integers(0, 255), min_size=n, max_size=n))
    else:
        parts = draw(st.lists(st.integers(0, 255), min_size=1, max_size=n))
    if name == 'cartridge_title' and k > 5:
        # a title that fills the field, up to the CGB flag
        parts = (parts + list(b'THE TITLE OF THE'))[:n] if not any(isinstance(p, str) for p in parts) else ['THE TITLE OF THE']
    return [name, parts]


@st.composite
def roms(draw, good=False):
    k = 9 if good else draw(st.integers(0, 19))
    goto = True
    npre = draw(st.sampled_from([0, 0, 3, 10, 0x40]))
    if k == 0:
        npre = draw(st.integers(250, 262))
        goto = draw(st.booleans())
    pre = draw(st.binary(min_size=npre, max_size=npre))
    dirs = []
    if goto:
        dirs.append(['goto', draw(st.sampled_from([0, 0, 0xff, 0x11]))])
    flds = draw(st.lists(field(), max_size=7))
    if k == 1:
        dirs += flds[:1]
    if k != 2:
        dirs.append(['cartridge'])
    else:
        flds = flds[:draw(st.integers(0, 1))]
    body = draw(st.lists(st.one_of(st.binary(min_size=1, max_size=40).map(lambda b: ['bytes', list(b)]),
                                   st.tuples(st.integers(1, 3000), st.integers(0, 255)).map(lambda t: ['fill', t[0], t[1]])), max_size=3))
    # fields can come after other code as well
    for f in flds:
        if draw(st.integers(0, 3)):
            dirs.append(f)
        elif body:
            dirs.append(body.pop())
            dirs.append(f)
        else:
            dirs.append(f)
    dirs += body
    if k == 3:
        dirs = [d for d in dirs if d[0] not in FIELDS]
    return {'bound': 0 if good else draw(st.sampled_from([0, 0, 0x7fff, 0x1fff])), 'pre': list(pre), 'dirs': dirs}


def check(case, link):
    lines, want = build(case)
    res = link('\n'.join(lines) + '\n')
    if want is None:
        expect_error(res, 'rejected cartridge ' + repr(lines))
        return True
    expect_image(res, want, 'cartridge')
    if len(want) >= 0x150 and any(d[0] == 'cartridge' for d in case['dirs']):
        if not boot_rom_accepts(res.image):
            fail('the boot ROM does not accept the header')
        return True
    return False


@REG.given(roms(), quick=900)
def cartridges(case):
    """image of a cartridge program, byte for byte"""
    return check(case, lambda t: run(cpu('gameboy'), t))


@REG.given(roms(), quick=150)
def tool(case):
    """the same through the command line tool"""
    def link(text):
        with scratch():
            with open('g.S', 'w') as f:
                f.write(text)
            old = sys.argv
            sys.argv = ['necro_gb', 'g.S', 'g.gb']
            try:
                with quiet():
                    cpu('gameboy').main()
            except Exception as exc:
                return Res(False, exc=exc)
            finally:
                sys.argv = old
            with open('g.gb', 'rb') as f:
                return Res(True, f.read())
    return check(case, link)


@REG.given(st.tuples(st.integers(0x13e, 0x15a), st.integers(0, 255), st.booleans()), quick=80)
def short(case):
    """programs around the length that can hold a header"""
    n, v, two = case
    asm = new(cpu('gameboy'))
    asm.assemble('.fill %d %d\n' % (n, v))
    if two:     # the header area is only complete with the second file
        asm.assemble('.db 1 2 3\n')
    asm.link()
    img = bytes([v] * n) + (b'\1\2\3' if two else b'')
    expect_image(Res(True, bytes(asm.assembled_bytes)), finish(img), '%d bytes' % len(img))
    return len(img) >= 0x150


@REG.given(st.tuples(roms(True), roms(True)), quick=100)
def two_carts(case):
    """a cartridge does not change the next one built in the same process (interleaved)"""
    out = []
    progs = [build(c) for c in case]
    asms = [new(cpu('gameboy')) for _ in case]
    n = 0
    for i in range(max(len(p[0]) for p in progs)):
        for j, (lines, want) in enumerate(progs):
            if i < len(lines) and want is not None and not case[j]['bound']:
                asms[j].assemble(lines[i] + '\n')
    for j, (lines, want) in enumerate(progs):
        if want is None or case[j]['bound']:
            continue
        asms[j].link()
        expect_image(Res(True, bytes(asms[j].assembled_bytes)), want, 'interleaved cartridge')
        n += 1
    return n == 2


@REG.enum(lambda tier: [[n, d] for n in (0, 1, 0xff, 0x100, 0x101, 0x150) for d in ['cartridge'] + sorted(FIELDS)])
def placement(case):
    """a cartridge or a field at every kind of wrong place"""
    n, d = case
    res = run(cpu('gameboy'), ('.fill %d\n' % n if n else '') + '.' + d + (' 1' if d != 'cartridge' else '') + '\n')
    if d == 'cartridge' and n == 0x100:
        if not res.ok or not boot_rom_accepts(res.image):
            fail('cartridge at $100: %r' % res)
    else:
        expect_error(res, '.%s after %d bytes' % (d, n))
    return True


@REG.enum(lambda tier: [[n, v, t] for n in (0x4000, 0x7fff, 0x8000, 0x8001, 0x10000, 0x40000) for v in (0, 1, 255) for t in (0, 5)] + [[0x400300, 255, 1], [0x800000, 1, 0x1b], [0x100003, 254, 0x19]])
def rom_sizes(case):
    """cartridges of full size, and beyond the addresses of the CPU"""
    n, v, t = case
    lines, want = build({'bound': 0, 'pre': [], 'dirs': [['goto', 0], ['cartridge'], ['cartridge_type', [t]], ['cartridge_title', ['BIG %d' % n]]]})
    lines = [x for x in lines if 'theend' not in x]
    text = '\n'.join(lines) + '\n.fill %d %d\n.db 1 2 3\n' % (n - 0x150, v)
    img = bytearray(want[:0x150]) + bytes([v]) * (n - 0x150) + b'\1\2\3'
    expect_image(run(cpu('gameboy'), text), finish(img), 'cartridge of %d bytes' % n)
    return True


@REG.enum(lambda tier: [[f, n, v, w] for f in sorted(FIELDS) for n in (FIELDS[f][1] - 1, FIELDS[f][1], FIELDS[f][1] + 1) if n > 0 for v in (0, 0xff, 0x20, 0x41) for w in range(6)])
def field_sizes(case):
    """a value of just the size of the field, one byte less and one more, with any first and last byte, as text and as numbers"""
    f, n, v, w = case
    t = 'GAME TITLE FOR A FIELD'[:n]
    parts = {0: [v] * n, 1: [65 + i for i in range(n - 1)] + [v], 2: [v] + [90 - i for i in range(n - 1)], 3: [t],
             4: [t[:n - 1], v] if t[:n - 1] else [v], 5: [v, t[:n - 1]] if t[:n - 1] else [v]}[w]
    other = [['cartridge_title', ['ABC']]] if v == 0x20 else []
    return check({'bound': 0, 'pre': [], 'dirs': [['goto', 0], ['cartridge']] + other + [[f, parts], ['bytes', [1, 2, 3]]]}, lambda text: run(cpu('gameboy'), text))
