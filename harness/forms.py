"""Every instruction form that the reference encoders know, as statements, and rewritings that must not change them."""
import functools
import json
import os
import re
from harness.lib import *
from harness import slots as S
from harness.core import SEED

WORD = re.compile(r'[A-Za-z0-9_.]+')


def statements(c, directives=True):
    """[(text with {L} for the label, alignment of the label)]"""
    out = []
    for t, s in sorted(S.all_slots(c).items()):
        if "'" in t or '"' in t or t.startswith('.') and not directives:
            continue
        out.append((t, s))
    return out


def target(s, at):
    """an address near `at` that the slot can hold"""
    if s.rel:
        return at + 16
    for v in (at + 16, 64, 16, 4, 0):
        w = s.outcomes(v, at, True)
        if w != ['!']:
            return v
    return 0


def words(text, first=0):
    """the whole names of a statement in order, without repetition"""
    out = []
    for i, m in enumerate(WORD.finditer(text)):
        if i >= first and m.group() not in out:
            out.append(m.group())
    return out


def rename(text, table, first=0):
    k = [-1]

    def f(m):
        k[0] += 1
        return table.get(m.group(), m.group()) if k[0] >= first else m.group()
    return WORD.sub(f, text)


def batches(tier, part, size=12, directives=True):
    """[cpu, slot texts]; in the quick tier one in `part` statements"""
    for c in S.CPUS:
        ts = [t for t, _ in statements(c, directives)]
        if tier == 'quick':
            ts = [t for i, t in enumerate(ts) if i % part == len(c) % part or S.all_slots(c)[t].rel and i % 2 == 0]
        for i in range(0, len(ts), size):
            yield [c, ts[i:i + size]]


def layout(c, stmt, s, at=0x100):
    """the statement at a known place with its label defined"""
    v = target(s, at)
    step = S.STEP[c]
    v += -v % step
    return '.org %d\nlab:\n.org %d\n' % (v, at), stmt.replace('{L}', 'lab')


def compare(c, a, b, what):
    ra, rb = run(cpu(c), a), run(cpu(c), b)
    if ra.ok != rb.ok or ra.ok and (ra.image != rb.image or labels_of(ra.asm) != labels_of(rb.asm)):
        fail('%s: %s\n%s\ngives %r, written out\n%s\ngives %r' % (c, what, a, ra, b, rb))
    return rb.ok


@functools.lru_cache(None)
def corpus():
    """cpu -> one valid statement of every shape its encoding check generates (tools/gen_statements.py)"""
    with open(os.path.join(os.path.dirname(__file__), 'statements.json')) as f:
        return json.load(f)


def shapes(tier, part, size=12):
    """[cpu, offset, statements]; in the quick tier one in `part`, which one depends on the seed"""
    for c, ts in sorted(corpus().items()):
        if tier == 'quick' and len(ts) > 300:
            ts = [t for i, t in enumerate(ts) if (i * 7919 >> 3) % part == SEED % part]
        for i in range(0, len(ts), size):
            yield [c, i, ts[i:i + size]]
