"""Programs with labels and references: text, expected segments, verdict (shared by C05 and C06)."""
import re
from hypothesis import strategies as st
from harness.lib import *
from harness import slots as S
from harness.cpulib import interesting

NAMES = ['lab_a', 'lab_b', 'Start', 'start', 'START', 'tbl.end', '_t', 'lab', 'lab_', 'vector_table_of_the_rom', 'data.tbl', 'loop2', 'loop20']


def text_of(prog):
    out = []
    for s in prog:
        k = s[0]
        if k == 'org': out.append('.org ' + (str(s[1])))
        elif k == 'fill': out.append('.fill %d %d' % (s[1], s[2]))
        elif k == 'ram': out.append('.ram %d' % s[1])
        elif k == 'label': out.append(s[1] + ':')
        elif k == 'ref': out.append(s[1].replace('{L}', s[2]))
    return '\n'.join(out) + '\n'


EXPR = re.compile(r'([<>]*)([A-Za-z0-9_.]+)(.*)$')
TERM = re.compile(r'([-+*/&|])([^-+*/&|]*)')


def value_of(name, labels):
    """label expression: selectors, a label, then operators from left to right; None when it has no value"""
    pre, name, rest = EXPR.match(name).groups()
    if name not in labels:
        return None
    v = labels[name] >> 8 * pre.count('>')
    if '<' in pre:
        v &= (1 << 8 * pre.count('<')) - 1
    for op, arg in TERM.findall(rest):
        n = int(arg or '1') if not arg or arg.isdigit() else labels.get(arg)
        if n is None or op == '/' and n == 0:
            return None
        v = {'+': lambda: v + n, '-': lambda: v - n, '*': lambda: v * n, '/': lambda: v // n, '&': lambda: v & n, '|': lambda: v | n}[op]()
    return v


def model(cpu_, prog):
    """-> (segments: list of outcome lists, label addresses, ok) ok False: a definition is rejected"""
    sl = S.all_slots(cpu_)
    pc, labels = 0, {}
    dup = False
    recs = []
    for s in prog:
        k = s[0]
        if k == 'org': pc = s[1]
        elif k == 'ram': pc += s[1]
        elif k == 'fill':
            recs.append(('lit', bytes([s[2]] * s[1]).hex()))
            pc += s[1]
        elif k == 'label':
            if s[1] in labels:
                dup = True
            labels[s[1]] = pc
        elif k == 'ref':
            slot = sl[s[1]]
            n = slot.length
            v = value_of(s[2], labels)
            known = v is not None
            if n is None:       # 6502 zero page choice
                n = 3
                if known:
                    w = slot.outcomes(v, pc, True)
                    if w[0] != '!':
                        n = len(w[0]) // 2
            recs.append(('ref', slot, s[2], pc, known))
            pc += n
    segs = []
    for r in recs:
        if r[0] == 'lit':
            segs.append([r[1]])
        else:
            v = value_of(r[2], labels)
            segs.append(['!'] if v is None else r[1].outcomes(v, r[3], r[4]))
    return segs, labels, not dup


def show(cpu_, text):
    text = text.replace('\n', ' ; ')
    return '%s %s' % (cpu_, text if len(text) < 500 else text[:300] + ' ... ' + text[-150:])


def brief(segs):
    return ' '.join('|'.join(w if len(w) < 20 else w[:8] + '..' for w in s) for s in segs)[:300]


def verdict(cpu_, prog, sig=None):
    """True when the program links to what the model says"""
    segs, labels, ok = model(cpu_, prog)
    text = text_of(prog)
    res = run(cpu(cpu_), text)
    must_fail = not ok or any(s == ['!'] for s in segs)
    if must_fail:
        if res.ok:
            fail('%s: expected a rejection (%s), got %s' % (show(cpu_, text), brief(segs), hexs(res.image)[:200]), sig)
        return True
    may_fail = any('!' in s for s in segs)
    if not res.ok:
        if may_fail:
            return True
        fail('%s: expected %s, got %s' % (show(cpu_, text), brief(segs), repr(res)[:300]), sig)
    img, at = res.image.hex(), 0
    for i, s in enumerate(segs):
        for w in s:
            if w != '!' and img.startswith(w, at):
                at += len(w)
                break
        else:
            fail('%s: segment %d at byte %d is %s, expected %s' % (show(cpu_, text), i, at // 2, img[at:at + 24], brief([s])), sig)
    if at != len(img):
        fail('%s: %d bytes too many' % (show(cpu_, text), (len(img) - at) // 2), sig)
    got = labels_of(res.asm)
    if got != labels:
        fail('%s: labels %r, expected %r' % (show(cpu_, text), got, labels), sig)
    return True


ORIGINS = [0, 0, 0x10, 0x80, 0xf0, 0x100, 0x7ff0, 0x8000, 0xc000]


@st.composite
def programs(draw, cpus, rel, clean=85):
    """random programs mixing every kind of reference; mostly linkable"""
    c = draw(st.sampled_from(cpus))
    step = S.STEP[c]
    relt, abst = S.table(c, True), S.table(c, False)
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    todo = list(names)
    prog = []
    if draw(st.integers(0, 1)):
        prog.append(['org', draw(st.sampled_from(ORIGINS))])
    n = draw(st.integers(2, 16))
    pool = names + (['nolabel'] if draw(st.integers(0, 40)) == 0 else [])
    relkeys, abskeys = S.keys(c, True), S.keys(c, False)
    for _ in range(n):
        k = draw(st.integers(0, 9))
        if k < 3 and todo:
            prog.append(['label', todo.pop()])
        elif k == 3:
            q = draw(st.integers(0, 3))
            if q < 2:
                prog.append(['fill', step * draw(st.sampled_from([1, 2, 3, 10, 31, 60, 63, 64, 126, 127, 130])), draw(st.integers(0, 255))])
            elif q == 2:
                prog.append(['ram', step * draw(st.integers(1, 70))])
            else:
                prog.append(['org', draw(st.sampled_from(ORIGINS))])
        else:
            use_rel = draw(st.integers(0, 9)) < (7 if rel else 2) and relkeys
            t = draw(st.sampled_from(relkeys if use_rel else abskeys))
            nm = draw(st.sampled_from(pool))
            e = draw(st.integers(0, 11))
            slot = (relt if use_rel else abst)[t]
            if e == 0 and slot.t.startswith('.'):
                nm = nm + draw(st.sampled_from(['+1', '+4', '-1', '+255']))
            elif slot.bits == 8 and not use_rel and slot.t.startswith('.') and e < 9:
                nm = draw(st.sampled_from(['<', '>', '><'])) + nm
            prog.append(['ref', t, nm])
    for nm in todo:
        prog.append(['label', nm])
    if draw(st.integers(0, 60)) == 0:
        prog.append(['label', names[0]])
    if draw(st.integers(0, 99)) < clean:
        prog = prune(c, prog)
    return {'cpu': c, 'prog': prog}


def prune(c, prog):
    for _ in range(20):
        segs, labels, ok = model(c, prog)
        bad = [i for i, s in enumerate(segs) if s == ['!']]
        if not ok or not bad:
            return prog
        idx, n = set(), -1
        for i, s in enumerate(prog):
            if s[0] in ('fill', 'ref'):
                n += 1
                if n == bad[0]:
                    idx.add(i)
        prog = [s for i, s in enumerate(prog) if i not in idx]
    return prog


def nontrivial(prog):
    return sum(s[0] == 'ref' for s in prog) >= 2 and any(s[0] == 'label' for s in prog)


def place(t, base, name, fwd, at_label, at_ref, tail=True):
    """label at one address, reference at another; only one statement emits"""
    a = [['org', at_label], ['label', name]]
    b = [['org', at_ref], ['ref', t, name]]
    return b + a if fwd else a + b


WORDS = ['LOOP', 'END', 'start', 'next', 'Begin', 'main', 'exit', 'done', 'table', 'data', 'text', 'init', 'wait', 'stop', 'vector', 'value', 'count', 'index', 'byte', 'word', 'long', 'short', 'near',
         'offset', 'size', 'temp', 'buffer', 'stack', 'heap', 'port', 'irq', 'nmi', 'reset', 'sub_1', '_start', '__x__', 'a.b.', 'x..y', '.L1', '..', 'L.1.2', 'x_', 'lab2', '_0', 'lo', 'hi', 'if', 'else',
         'macro', 'repeat', 'org', 'include', 'define', 'label.b.c', 'g.x.', 'true', 'none', 'not', 'and_', 'begin.end', 'the_quick_brown_fox_jumps_over', 'Loop', 'lOOP', 'Target', 'x' * 300]
REGISTERLIKE = re.compile(r'(r\d+[a-z]?|[a-z]{1,3}\d*|zero)$', re.I)
NAME = st.text(alphabet='abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_..', min_size=1, max_size=24)


def plain_names(c, names):
    """the names changed so that each is a label and nothing else, some of them beginning or ending like another; None if two are the same"""
    names = ['g' + n if n[0].isdigit() or REGISTERLIKE.match(n) else n for n in names]
    if len(names) > 2:
        names[1], names[2] = names[0] + '_' + names[1], names[2] + '.' + names[0]
    if c == '68000':
        names = [n.lstrip('.') or 'dots' for n in names]
        names = [n + 'x' if n[-2:].lower() in ('.b', '.w', '.l') else n for n in names]
    names = ['long' + n if len(n) < 5 else n for n in names]
    return None if len(set(names)) < len(names) or any(n[0].isdigit() for n in names) else names


def distances(s):
    b, a = s.bits, s.align
    lo, hi = -(1 << b - 1), (1 << b - 1) - 1
    d = {0, a, -a, 2 * a, -2 * a, 1, -1, 2, -2, 3, 5, -5, 4, 8, 12, -4, -8, hi, hi - 1, hi + 1, lo, lo + 1, lo - 1, hi + a, lo - a, hi - a + 1, lo + a, hi // 2, lo // 2 // a * a, (hi // a - 3) * a,
         (1 << b), -(1 << b), (1 << b) - a, -(1 << b) + a, (1 << b) + 2 * a, -(1 << b) - 2 * a, hi + 1 + a}
    if b == 11:
        d |= {1020, 1016, 1021, 1022, 1024, 1028, 510, 508, 512, 2044, 2048}
    return sorted(d)


def origins(c, s):
    step = S.STEP[c]
    big = 1 << s.bits
    low = [step * 0x400, 0, step * 3, 0x10000, big * 2, big + step * 5] if s.bits < 20 else [step * 0x400, 0, step, big, big * 4]
    # the last ones keep the low bits of both kinds (a multiple of four or not)
    return low + [0x10000 + step, 0x8000000 + step * 3, 0x7ffe0000 + step * 2]


def limits_of(cpus):
    def cases(tier):
        quick = tier == 'quick'
        n = 0
        for c in cpus:
            tb = S.table(c, True)
            for t in sorted(tb):
                s = tb[t]
                batch = []
                for at in origins(c, s):
                    for d in distances(s):
                        v = s.base(at) + d
                        if v < 0:
                            continue
                        for fwd in (True, False):
                            n += 1
                            if quick and n % (13 if len(tb) > 40 else 3):
                                continue
                            batch.append([c, t, v, fwd, at])
                for i in range(0, len(batch), 40):
                    yield batch[i:i + 40]
    return cases


def places_of(cpus):
    def places(tier):
        quick = tier == 'quick'
        n = 0
        for c in cpus:
            for t in sorted(S.table(c, False)):
                s = S.table(c, False)[t]
                vals = [v for v in interesting(s.bits) if v >= 0]
                if s.bits > 16:
                    vals += [0xffff, 0x10000, 0x123456]
                vals = sorted(set(vals + [4, 0xfe, 0xff, 0x100, 0x101, 0x7ffc, 0x8000, 0xfffc, 0xffff, 0x10000]))
                batch = []
                for v in vals:
                    for fwd in (True, False):
                        n += 1
                        if quick and n % (7 if len(S.table(c, False)) > 150 else 3):
                            continue
                        batch.append([c, t, v, fwd, [0, 0x8000, 0x104, 0x10002, 0x8000004][n % 5]])
                if batch:
                    yield batch
    return places


def slot_cases(cpus):
    """a sample of the two above"""
    def gen(tier):
        for i, b in enumerate(list(limits_of(cpus)(tier)) + list(places_of(cpus)(tier))):
            yield b if tier != 'quick' or len(b) < 4 else b[i % 2::2]
    return gen


def slot_verdicts(batch):
    for c, t, v, fwd, at in batch:
        verdict(c, place(t, None, ['there', 'Label_2', 'tbl.end', 'x1'][(v + at) % 4], fwd, v, at))
    return len(batch), len(batch)
