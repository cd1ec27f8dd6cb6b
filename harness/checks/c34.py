"""C34 executable wrappers (GBA, Mega Drive, PlayStation).  Oracle: the published header formats."""
import sys
from hypothesis import strategies as st
from harness.core import Registry
from harness.lib import *

REG = Registry('C34', 'the program is long enough to have the header (GBA: $C0 bytes, Mega Drive: $200 bytes and non-zero code; PlayStation: any program)',
               ['Mega Drive: a missing last odd byte counts as zero', 'programs shorter than the header are only required not to produce a different image silently'])


def tool(platform, text):
    mod = load('platforms.' + platform)
    with scratch():
        with open('p.S', 'w') as f:
            f.write(text)
        old = sys.argv
        sys.argv = ['tool', 'p.S', 'out.bin']
        try:
            with quiet():
                mod.main()
            return Res(True, content('out.bin') or b'')
        except Exception as exc:
            return Res(False, exc=exc)
        finally:
            sys.argv = old


def gba(img):
    img = bytearray(img)
    # cartridge header complement check: 0xA0..0xBC
    img[0xbd] = -(0x19 + sum(img[0xa0:0xbd])) & 0xff
    return bytes(img)


def genesis(img):
    img = bytearray(img)
    total = 0
    code = bytes(img[0x200:])
    if len(code) % 2:
        code += b'\0'
    for i in range(0, len(code), 2):
        total += int.from_bytes(code[i:i + 2], 'big')
    img[0x18e:0x190] = (total & 0xffff).to_bytes(2, 'big')
    return bytes(img)


def psx(img):
    body = img + bytes(-len(img) % 2048)
    h = bytearray(2048)
    h[0:8] = b'PS-X EXE'
    h[0x10:0x14] = (0x80010000).to_bytes(4, 'little')
    h[0x14:0x18] = b'\xff\xff\xff\xff'
    h[0x18:0x1c] = (0x80010000).to_bytes(4, 'little')
    h[0x1c:0x20] = len(body).to_bytes(4, 'little')
    h[0x30:0x34] = (0x801ffff0).to_bytes(4, 'little')
    m = b'Sony Computer Entertainment Inc. for Europe area'
    h[0x4c:0x4c + len(m)] = m
    return bytes(h) + body


CODE = {'gba': [('MOV r0,#5', b'\x05\x20'), ('ADD r0,r1,r2', b'\x88\x18'), ('LSL r0,r1,#4', b'\x08\x01')],
        'genesis': [('NOP', b'\x4e\x71'), ('RTS', b'\x4e\x75'), ('MOVE.W D0,D1', b'\x32\x00')],
        'psx': [('add $t0,$t1,$t2', bytes.fromhex('20402a01')), ('jr $ra', bytes.fromhex('0800e003')), ('lui $t0,0x12340000', bytes.fromhex('3412083c'))]}
WANT = {'gba': (gba, 0xc0), 'genesis': (genesis, 0x200), 'psx': (psx, 0)}


@st.composite
def progs(draw):
    p = draw(st.sampled_from(sorted(WANT)))
    parts = []
    first = draw(st.sampled_from([0, 0, 0xa0, 0xbc, 0xbf, 0xc0, 0x100, 0x18d, 0x1ff, 0x200, 0x201, 0x7fc, 0x800, 0x801, 0x1000]))
    if first:
        parts.append(['fill', first, draw(st.sampled_from([0, 0, 0xff, 0x5a]))])
    for _ in range(draw(st.integers(0, 8))):
        k = draw(st.integers(0, 5))
        if k < 2:
            parts.append(['code', draw(st.integers(0, 2))])
        elif k < 4:
            parts.append(['bytes', list(draw(st.binary(min_size=1, max_size=40)))])
        elif k == 4:
            parts.append(['fill', draw(st.one_of(st.integers(1, 600), st.sampled_from([2047, 2048, 2049]))), draw(st.integers(0, 255))])
        else:
            parts.append(['ref'])
    return {'p': p, 'parts': parts}


def build(case):
    p = case['p']
    lines, img = [], b''
    for s in case['parts']:
        if s[0] == 'fill':
            lines.append('.fill %d %d' % (s[1], s[2]))
            img += bytes([s[2]] * s[1])
        elif s[0] == 'bytes':
            lines.append('.db ' + ' '.join(str(b) for b in s[1]))
            img += bytes(s[1])
        elif s[0] == 'code':
            t, b = CODE[p][s[1]]
            lines.append(t)
            img += b
        else:
            n = 'lab%d' % len(lines)
            lines.append('%s: .dd %s' % (n, n))
            img += len(img).to_bytes(4, 'big' if p == 'genesis' else 'little')
    return '\n'.join(lines) + '\n', img


@REG.given(progs(), quick=1200)
def images(case):
    """the file each tool writes, byte for byte"""
    text, img = build(case)
    f, least = WANT[case['p']]
    res = tool(case['p'], text)
    if len(img) < least:
        # no room for the header: an error, or the checksum rule on what there is
        if not res.ok:
            return False
        try:
            want = f(img)
        except IndexError:
            want = img
        if res.image not in (img, want):
            fail('short %s program: %s' % (case['p'], hexs(res.image)))
        return False
    expect_image(res, f(img), '%s program of %d bytes' % (case['p'], len(img)))
    return True


@REG.enum(lambda tier: [[p, n] for p in ('psx', 'genesis', 'gba') for n in sorted(set(range(0, 5000, 251)) | {k * b + d for b in (256, 512, 1024, 2048) for k in range(1, 6144 // b + 1) for d in (0, 1, 2, -1, 4)} | {1, 0xbe, 0xbf, 0xc0, 0xc1, 0x200, 0x201, 0x202, 0x203, 2047, 2048, 2049, 4095, 4096, 4097, 0x18e, 0x18f, 0x190, 0x1ff})])
def lengths(case):
    """a pattern of every interesting length"""
    p, n = case
    f, least = WANT[p]
    img = bytes((i * 7 + 3) & 0xff for i in range(n))
    with_text = ''.join('.db ' + ' '.join(str(b) for b in img[i:i + 32]) + '\n' for i in range(0, n, 32))
    res = tool(p, with_text)
    if n < least:
        return False
    expect_image(res, f(img), '%s program of %d bytes' % (p, n))
    return True


@REG.given(st.tuples(st.integers(0xa0, 0xbd), st.integers(0, 255), st.binary(min_size=0xc0, max_size=0xc0).map(list)), quick=150)
def gba_rule(case):
    """the BIOS accepts the header: sum of $A0..$BD plus 0x19 is zero"""
    at, v, img = case
    img = list(img)
    img[at] = v
    res = tool('gba', '.db ' + ' '.join(map(str, img)) + '\n')
    expect_image(res, gba(bytes(img)), 'gba')
    if (sum(res.image[0xa0:0xbe]) + 0x19) & 0xff:
        fail('complement check of %s' % hexs(res.image[0xa0:0xbe]))
    return True


@REG.enum(lambda tier: [[p, n, v] for p in ('psx', 'genesis', 'gba') for n in (65535, 65536, 65537, 131072, 200001, 524288) for v in (0, 1, 254, 255)]
          + [[p, n, v] for p in ('psx', 'genesis', 'gba') for n, v in ((0x200004, 0xff), (0x1ffffe, 0x7f), (0x400001, 0xff)) + (((0x1000003, 1), (0x800000, 255)) if tier != 'quick' else ())])
def large_programs(case):
    """programs beyond 64 KiB: sums wrap, sizes need more bytes"""
    p, n, v = case
    f, least = WANT[p]
    img = bytes([v]) * (n - 4) + b'\1\2\3\4'
    expect_image(tool(p, '.fill %d %d\n.db 1 2 3 4\n' % (n - 4, v)), f(img), '%s program of %d bytes of %d' % (p, n, v))
    return True
