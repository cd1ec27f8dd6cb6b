"""Statements of every shape with a label in place of one of their numbers (harness/labelforms.json, tools/gen_labelforms.py):
the label must give what its address written as a number gives."""
import functools
import json
import os
from harness.lib import *
from harness import slots as S
from harness.core import SEED

AT = 0x100


@functools.lru_cache(None)
def table():
    with open(os.path.join(os.path.dirname(__file__), 'labelforms.json')) as f:
        return json.load(f)


def values(bits):
    top = (1 << bits) - 1
    vs = [0, 1, 4, 5, 0x12, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x100, 0x101, 0x1234, 0x7ffc, 0x7fff, 0x8000, 0x8001, 0xff00, 0xfffc, 0xffff, 0x10000, 0x123456, 0x12345678, 0x7fffffff, 0x80000000, 0xfffffffe]
    return sorted({v for v in vs if v <= top} | {top, top - 3, top >> 1, (top >> 1) + 1, top - 1}), [top + 1, top + 2, (top + 1) << 8]


def cases(cpus, part=1):
    """-> f(tier): [cpu, value, forward, spelled, statements]"""
    def gen(tier):
        n = 0
        for c in cpus:
            rows = table()[c]
            if tier == 'quick':
                rows = [r for i, r in enumerate(rows) if (i * 7919 >> 3) % part == SEED % part]
            for bits in sorted({b for _, b in rows}):
                ts = [t for t, b in rows if b == bits]
                inside, outside = values(bits)
                for i in range(0, len(ts), 12):
                    for v in inside:
                        n += 1
                        if tier == 'quick' and n % 3 and v not in (4, (1 << bits) - 4):
                            continue
                        yield [c, v, n % 2, n // 2 % 4, ts[i:i + 12]]
                for i, t in enumerate(ts):
                    v = outside[i % 3]
                    n += 1
                    if tier == 'quick' and n % 3:
                        continue
                    yield [c, v, n % 2, 0, [t]]
    return gen


def texts(c, v, fwd, spelled, ts):
    name = ['lab', 'Tbl.end_2', 'lab+1', 'where'][spelled]
    d = v
    if spelled == 2:
        if v < 1:
            name = 'lab'
        else:
            d = v - 1
    body = '.org %d\n' % AT + '\n'.join(t.replace('{L}', name) for t in ts) + '\n'
    place = '.org %d\n%s:\n' % (d, name.split('+')[0])
    return place + body if not fwd else body + place


def check(case):
    c, v, fwd, spelled, ts = case
    num = '.org %d\n' % AT + '\n'.join(ts) + '\n'
    want = run(cpu(c), num.replace('{L}', str(v)))
    got = run(cpu(c), texts(c, v, fwd, spelled, ts))
    if want.ok:
        if got.ok and got.image == want.image:
            return len(ts), len(ts)
        if len(ts) > 1:
            for t in ts:
                check([c, v, fwd, spelled, [t]])
            if got.ok:
                fail('%s label %s at %d: %s gives %s, the number %s' % (c, texts(c, v, fwd, spelled, ts)[:30], v, ts, hexs(got.image)[:300], hexs(want.image)[:300]))
            return len(ts), len(ts)
        if c == 'mips32' and ts[0].split()[0].upper() in ('J', 'JAL') and v % 4 and not got.ok:
            return 1, 1
        fail('%s: %r, the number %d: %r' % (c, texts(c, v, fwd, spelled, ts), v, want))
    if len(ts) > 1:
        k = 0
        for t in ts:
            k += check([c, v, fwd, spelled, [t]])[1]
        return len(ts), k
    if got.ok:
        # a signed field may hold an address that fits it in hexadecimal only
        h = {'68000': '$%x', '8086': '0%xh', 'z80': '$%x', 'lr35902': '$%x'}.get(c, '0%xh' if c.startswith('x86') else '0x%x')
        other = run(cpu(c), num.replace('{L}', h % v))
        if not other.ok or other.image != got.image:
            fail('%s: %r is accepted: %r, the number %d: %r, in hexadecimal %r' % (c, texts(c, v, fwd, spelled, ts), got, v, want, other))
    return 1, 1
