"""C33 image import.  Oracle: an independent tile decoder; PIL is replaced by a stand-in that serves pixels."""
import sys
import types
from hypothesis import strategies as st
from harness.core import Registry
from harness.lib import *

REG = Registry('C33', 'the image is accepted and not of a single colour',
               ['Pillow is not installed here: `PIL.Image.open` is a stand-in giving `mode`, `size`, `getpixel`, `getdata`, `load`, `tobytes` and a context manager'])
IMAGES = {}


class Image:
    def __init__(self, mode, size, pixels):
        self.mode, self.size, self.pixels = mode, tuple(size), pixels
        self.width, self.height = self.size

    def getpixel(self, xy):
        x, y = xy
        if not (0 <= x < self.width and 0 <= y < self.height):
            raise IndexError('image index out of range')
        return self.pixels[y * self.width + x]

    def getdata(self):
        return list(self.pixels)

    def load(self):
        return self

    def __getitem__(self, xy):
        return self.getpixel(xy)

    def tobytes(self):
        return bytes(self.pixels)

    def crop(self, box):
        x0, y0, x1, y1 = box
        return Image(self.mode, (x1 - x0, y1 - y0), [self.getpixel((x, y)) for y in range(y0, y1) for x in range(x0, x1)])

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def install():
    pil, mod = types.ModuleType('PIL'), types.ModuleType('PIL.Image')

    def open_(fp, mode='r'):
        name = fp if isinstance(fp, str) else getattr(fp, 'name', fp)
        if name not in IMAGES:
            raise FileNotFoundError(name)
        return IMAGES[name]
    mod.open = open_
    mod.Image = Image
    pil.Image = mod
    sys.modules['PIL'], sys.modules['PIL.Image'] = pil, mod


install()

# platform: (directive, bits, layout)
PLAT = {'gameboy': ('tiles', 2), 'nes': ('chr_pattern_table', 2), 'sms': ('tiles', 4)}


def decode(plat, blob, w, h):
    """tiles -> pixels, as the console's video chip reads them"""
    px = [None] * (w * h)
    bits = PLAT[plat][1]
    size = 8 * bits
    for t in range((w // 8) * (h // 8)):
        tile = blob[t * size:(t + 1) * size]
        tx, ty = t % (w // 8) * 8, t // (w // 8) * 8
        for y in range(8):
            for x in range(8):
                v = 0
                for p in range(bits):
                    byte = tile[y + 8 * p] if plat == 'nes' else tile[y * bits + p]
                    v |= (byte >> (7 - x) & 1) << p
                px[(ty + y) * w + tx + x] = v
    return px


def pixels_of(spec, n, maxv):
    import random
    kind, seed = spec[0], spec[1]
    r = random.Random(seed)
    if kind == 'random':
        px = [r.randrange(maxv) for _ in range(n)]
    elif kind == 'flat':
        px = [seed % maxv] * n
    else:
        px = [0] * n
        for _ in range(1 + seed % 5):
            px[r.randrange(n)] = r.randrange(maxv)
    if len(spec) > 2 and spec[2] is not None:
        px[spec[2][0] % n] = spec[2][1]
    return px


@st.composite
def images(draw):
    plat = draw(st.sampled_from(['gameboy', 'nes', 'sms', 'gameboy', 'sms']))
    k = draw(st.integers(0, 19))
    if plat == 'nes':
        size = [128, 128]
        if k < 3:
            size = draw(st.sampled_from([[8, 8], [128, 64], [64, 128], [128, 136], [256, 128], [120, 128], [0, 128]]))
    else:
        size = [8 * draw(st.integers(1, 5)), 8 * draw(st.integers(1, 5))]
        if k < 2:
            size[draw(st.integers(0, 1))] += draw(st.integers(1, 7))
        if k == 2:
            size = draw(st.sampled_from([[4, 8], [12, 12], [8, 4], [0, 8], [16, 0]]))
    mode = 'P' if k != 3 else draw(st.sampled_from(['RGB', 'L', 'RGBA', '1', 'PA', 'p']))
    top = 16 if plat == 'sms' else 4
    bad = None
    if k == 4:
        bad = [draw(st.integers(0, 1 << 20)), draw(st.sampled_from([top, top + 1, 255, 16, 15 if top == 4 else 17, 2 * top]))]
    return {'plat': plat, 'size': size, 'mode': mode, 'px': [draw(st.sampled_from(['random', 'random', 'few', 'flat'])), draw(st.integers(0, 1 << 30)), bad],
            'pre': draw(st.sampled_from([0, 0, 1, 5, 8, 33])), 'quote': draw(st.sampled_from(['"', "'", '']))}


def use(case):
    plat = case['plat']
    d, bits = PLAT[plat]
    w, h = case['size']
    px = pixels_of(case['px'], w * h, 1 << bits) if w * h else []
    IMAGES.clear()
    IMAGES['pic.bmp'] = Image(case['mode'], (w, h), px)
    q = case['quote']
    text = '.fill %d 7\n' % case['pre'] if case['pre'] else ''
    text += 'before: .%s %spic.bmp%s\nafter:\n.db 9 8\n' % (d, q, q)
    res = run(cpu(plat), text, link=False)      # linking a Game Boy image writes its checksums
    ok = case['mode'] == 'P' and (w, h) == (128, 128) if plat == 'nes' else case['mode'] == 'P' and w % 8 == 0 and h % 8 == 0
    ok = ok and all(0 <= p < 1 << bits for p in px)
    what = '%s %dx%d mode %s' % (plat, w, h, case['mode'])
    if not ok:
        expect_error(res, what + ' (unsupported)')
        return True
    n = w * h * bits // 8
    if not res.ok:
        fail('%s: %r' % (what, res))
    img = res.image
    if len(img) != case['pre'] + n + 2 or img[:case['pre']] != bytes([7] * case['pre']):
        fail('%s: %d bytes emitted, expected %d' % (what, len(img), case['pre'] + n + 2))
    got = decode(plat, img[case['pre']:case['pre'] + n], w, h)
    if got != px:
        i = [a == b for a, b in zip(got, px)].index(False)
        fail('%s: pixel (%d,%d) is %d and reads back %r' % (what, i % w, i // w, px[i], got[i]))
    lab = labels_of(res.asm)
    if lab != {'before': case['pre'], 'after': case['pre'] + n} or img[-2:] != bytes([9, 8]):
        fail('%s: labels around the tiles %r' % (what, lab))
    return len(set(px)) > 1


@REG.given(images(), quick=700)
def tiles(case):
    """every pixel reads back"""
    return use(case)


@REG.enum(lambda tier: [[p, v, x, y] for p in ('gameboy', 'sms') for v in range(1, 4 if p == 'gameboy' else 16) for x in range(8) for y in range(8)])
def one_pixel(case):
    """each colour at each position of a tile"""
    p, v, x, y = case
    px = [0] * 64
    px[y * 8 + x] = v
    IMAGES.clear()
    IMAGES['pic.bmp'] = Image('P', (8, 8), px)
    res = run(cpu(p), '.tiles "pic.bmp"\n')
    if not res.ok or decode(p, res.image, 8, 8) != px:
        fail('%s: colour %d at (%d,%d): %r' % (p, v, x, y, res))
    return True


@REG.given(st.lists(images(), min_size=2, max_size=4), quick=120)
def several(case):
    """several images imported by one program follow each other"""
    plat = case[0]['plat']
    d, bits = PLAT[plat]
    text, want = '', []
    IMAGES.clear()
    for i, c in enumerate(case):
        w, h = (128, 128) if plat == 'nes' else (c['size'][0] // 8 * 8 or 8, c['size'][1] // 8 * 8 or 8)
        px = pixels_of([c['px'][0], c['px'][1]], w * h, 1 << bits)
        IMAGES['i%d.bmp' % i] = Image('P', (w, h), px)
        text += '.%s "i%d.bmp"\n' % (d, i)
        want.append((w, h, px))
    res = run(cpu(plat), text, link=False)
    if not res.ok:
        fail('%r: %r' % (text, res))
    at = 0
    for w, h, px in want:
        n = w * h * bits // 8
        if len(res.image) < at + n or decode(plat, res.image[at:at + n], w, h) != px:
            fail('%s: image of %dx%d at %d does not read back' % (plat, w, h, at))
        at += n
    if len(res.image) != at:
        fail('%d bytes after the last image' % (len(res.image) - at))
    return True


@REG.enum(lambda tier: [[p, t] for p in PLAT for t in ('', ' "a" "b"', ' "missing.bmp"')])
def arguments(case):
    """no file, two files, a file that is not there"""
    p, t = case
    IMAGES.clear()
    IMAGES['a'] = IMAGES['b'] = Image('P', (128, 128), [0] * 128 * 128)
    expect_error(run(cpu(p), '.' + PLAT[p][0] + t + '\n'), '.%s%s' % (PLAT[p][0], t))
    return True


@REG.enum(lambda tier: [[p, w, h, s] for p in ('gameboy', 'sms') for w, h in ((256, 256), (160, 144), (256, 8), (8, 256), (264, 16), (16, 264), (128, 128), (2048, 8), (8, 2048), (520, 8), (8, 520), (8, 1032), (1032, 8), (24, 776), (16, 4104), (4104, 8)) for s in range(1 if tier == 'quick' else 5)])
def large_images(case):
    """whole screens and long strips"""
    p, w, h, s = case
    return use({'plat': p, 'size': [w, h], 'mode': 'P', 'px': ['random', s + w, None], 'pre': 3, 'quote': '"'})
