"""C06 PC-relative references"""
from hypothesis import strategies as st
from harness.core import Registry
from harness.linkcheck import *
from harness import slots as S
from harness import scale, sections

REG = Registry('C06', 'every PC-relative instruction of every CPU x origins x both directions x displacements at, inside and just outside the limits of its field and off its alignment, plus generated '
               'programs with emitted code in between. The expected bytes come from the reference encoders; the displacement is recomputed from the address of the label. '
               'Non-trivial: every enumerated case; programs with at least two references and a label.',
               ['code of CPUs with aligned instructions is placed at aligned addresses, or the reference may also be rejected'])


@REG.enum(limits_of(S.CPUS))
def limits(batch):
    """each instruction at the limits of its range"""
    for c, t, v, fwd, at in batch:
        verdict(c, place(t, None, 'there', fwd, v, at))
    return len(batch), len(batch)


def emitted_cases(tier):
    """the same with real code in between, where the range is small enough"""
    for c in S.CPUS:
        tb = S.table(c, True)
        keys = sorted(tb)
        for i, t in enumerate(keys):
            s = tb[t]
            if s.bits > 18:
                continue
            lens = [0, S.STEP[c], 5 * S.STEP[c]]
            if s.bits <= 12:
                m = 1 << s.bits - 1
                lens += [m - 8, m - 4, m - 3, m - 2, m - 1, m, m + 1, m + 2, m + 4]
            if s.bits == 11:
                lens += [1018, 1020, 1022, 1024]
            if s.bits == 16 and (i % 30 == 0 or tier != 'quick'):
                lens += [32764, 32768] if S.STEP[c] == 4 else [32762, 32764, 32766, 32768]
            yield [[c, t, n, fwd, org] for n in lens for fwd in (True, False) for org in (0, 0x4000)]


@REG.enum(emitted_cases)
def emitted(batch):
    """distances made of emitted bytes"""
    for c, t, n, fwd, org in batch:
        ref = ['ref', t, 'there']
        f = ['fill', n, 0xee]
        verdict(c, [['org', org], ref, f, ['label', 'there']] if fwd else [['org', org], ['label', 'there'], f, ref])
    return len(batch), len(batch)


@REG.given(programs(S.CPUS, True), quick=1500)
def programs_(case):
    """programs with several labels and relative references"""
    verdict(case['cpu'], case['prog'])
    return nontrivial(case['prog']) and any(s[0] == 'ref' and S.all_slots(case['cpu'])[s[1]].rel for s in case['prog'])


@st.composite
def far(draw):
    c = draw(st.sampled_from(S.CPUS))
    t = draw(st.sampled_from(S.keys(c, True)))
    s = S.table(c, True)[t]
    at = S.STEP[c] * draw(st.integers(0, 1 << 20))
    m = 1 << s.bits
    d = draw(st.one_of(st.integers(-m, m), st.integers(-m // 2 - 20, -m // 2 + 20), st.integers(m // 2 - 20, m // 2 + 20), st.integers(-20, 20)))
    if draw(st.integers(0, 3)):
        d -= d % s.align
    return [c, t, max(0, s.base(at) + d), draw(st.booleans()), at]


@REG.given(far(), quick=1500)
def generated(case):
    """generated origins and displacements"""
    c, t, v, fwd, at = case
    verdict(c, place(t, None, 'there', fwd, v, at))
    return True


@REG.given(scale.case(30, 250), quick=60)
def large_programs(case):
    """a hundred branches to a hundred labels, forward and backward, in one program"""
    import random
    r = random.Random(case['seed'])
    c = r.choice(['6502', 'lr35902', 'z80', '8086', '68000', 'mips32', 'thumb', 'ppc'])
    rel = sorted(S.table(c, True))
    prog, names = [], ['L%d' % i for i in range(r.randint(1, 100))]
    todo = list(names)
    r.shuffle(todo)
    for i in range(case['n'] // 3):
        if todo and r.random() < .4:
            prog.append(['label', todo.pop()])
        prog.append(['ref', r.choice(rel), r.choice(names)])
    for n in todo:
        prog.append(['label', n])
    # branches that do not reach are dropped until all others do
    for _ in range(200):
        segs, labels, ok = model(c, prog)
        refs = [i for i, s in enumerate(prog) if s[0] == 'ref']
        bad = [i for i, s in zip(refs, segs) if '!' in s]
        if not bad:
            break
        for i in reversed(bad):
            del prog[i]
    verdict(c, prog)
    return len(prog) > 20


@st.composite
def expression(draw):
    c = draw(st.sampled_from(S.CPUS))
    t = draw(st.sampled_from(S.keys(c, True)))
    s = S.table(c, True)[t]
    step = S.STEP[c]
    at = step * draw(st.integers(0, 0x2000))
    lim = (1 << s.bits - 1) - 1
    d = draw(st.sampled_from([0, 0, step, -step, 8 * step, lim - lim % s.align, -lim - 1, lim + s.align, 5])) + s.align * draw(st.integers(-3, 3))
    want = max(0, s.base(at) + d)
    form = draw(st.integers(0, 8))
    k = draw(st.integers(1, 9))
    other = draw(st.integers(1, 40))
    # an expression over a label whose value is the target
    if form == 0: lab, e = want + k - other, 'there+%d-%d' % (other, k)
    elif form == 1: lab, e = want + k - other, 'there-%d+%d' % (k, other)
    elif form == 2: lab, e = want * 2, 'there/2'
    elif form == 3: lab, e, want = want // 4 * 2, 'there*2', want // 4 * 4
    elif form == 4: lab, e = want << 16 | other, 'there/65536'
    elif form == 5: lab, e = want | 1 << 40, 'there&%d' % ((1 << 40) - 1)
    elif form == 6: lab, e = want << 8 | other, '>there'
    elif form == 7: lab, e = want | 1 << 56, '<' * 7 + 'there'
    else: lab, e = want - 3 * k - 1, 'there+%d+%d+%d+' % (k, k, k)
    return [c, t, e, max(0, lab), at, draw(st.booleans())]


@REG.given(expression(), quick=1200)
def expressions(case):
    """the target is the value of an expression over a label"""
    c, t, e, lab, at, fwd = case
    a, b = [['org', lab], ['label', 'there']], [['org', at], ['ref', t, e]]
    verdict(c, b + a if fwd else a + b)
    return True


def words(tier):
    n = 0
    for c in S.CPUS:
        ks = S.keys(c, True)
        for t in ks:
            for k in (range(9) if tier != 'quick' or len(ks) < 40 else (n % 9, (n + 4) % 9)):
                n += 1
                yield [c, t, k, n % 2]


@REG.enum(words)
def words_in_every_slot(case):
    """each relative operand with labels of many names"""
    c, t, k, fwd = case
    a, b = [], []
    for w in WORDS[k::9]:
        a += [['label', w], ['ram', 4]]
        b.append(['ref', t, w])
    verdict(c, [['org', 0x400]] + (b + a if fwd else a + b))
    return 8, 8


@REG.given(st.tuples(st.sampled_from(S.CPUS), st.lists(NAME, min_size=1, max_size=6, unique=True), st.integers(0, 1 << 20), st.permutations(range(6)), st.integers(0, 63)), quick=500)
def any_name(case):
    """branches to labels of any names (letters, digits, dots, underscores)"""
    c, names, k, order, fwd = case
    names = plain_names(c, names)
    if names is None:
        return False
    ks = S.keys(c, True)
    pre, post, refs = [], [], []
    for i, n in enumerate(names):
        (post if fwd >> i & 1 else pre).extend([['label', n], ['ram', 4]])
    for i, j in enumerate(order):
        refs += [['ref', ks[(k + i * 7919) % len(ks)], names[j % len(names)]]]
    verdict(c, [['org', 0x400]] + pre + refs + post)
    return len(names) > 1


@REG.given(st.tuples(programs(S.CPUS, True), sections.PLACES), quick=400)
def in_sections(t):
    """labels and references inside sections, and origins given as the address of a section"""
    case, places = t
    lines = text_of(case['prog']).rstrip('\n').split('\n')
    if case['cpu'] in ('68000', 'mips32', 'psx', 'thumb', 'ppc'):
        places = [[p, None if a is None else a & ~7, k] for p, a, k in places]
    return sections.verdict(cpu(case['cpu']), case['cpu'], lines, places)
