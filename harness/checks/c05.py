"""C05 absolute label references"""
from hypothesis import strategies as st
from harness.core import Registry
from harness import labelforms
from harness.cpulib import interesting
from harness.linkcheck import *
from harness import slots as S
from harness import scale, sections

REG = Registry('C05', 'every absolute operand slot of every CPU (an instruction form or data directive with a label as its operand) x boundary label addresses x label before or after the '
               'reference, plus generated programs with several labels, origins, reservations and references. The expected bytes come from the reference encoders. '
               'Non-trivial: at least two references and a label (programs), every case (enumerations).',
               ['a label in a signed field (index displacement, signed immediate) whose address only fits the field as an unsigned number may be rejected or encoded, as its hexadecimal spelling is',
                'a MIPS jump to a misaligned label may be rejected or encoded without the low bits (test_jump of the unit tests pins the latter for numbers)'])


@REG.enum(places_of(S.CPUS))
def every_slot(batch):
    """each slot, label address at every boundary, defined before and after"""
    for c, t, v, fwd, at in batch:
        verdict(c, place(t, None, ['lab', 'Start', 'tbl.end'][v % 3], fwd, v, at))
    return len(batch), len(batch)


@REG.given(programs(S.CPUS, False), quick=1500)
def programs_(case):
    """programs with several labels and references"""
    verdict(case['cpu'], case['prog'])
    return nontrivial(case['prog'])


@REG.given(st.tuples(programs(S.CPUS, False), st.integers(0, 1 << 30)).map(lambda t: {'cpu': t[0]['cpu'], 'prog': t[0]['prog'], 'cut': t[1]}), quick=300)
def several_files(case):
    """the definition and the reference in different assemble() calls of one assembler"""
    prog = case['prog']
    cut = case['cut'] % (len(prog) + 1)
    segs, labels, ok = model(case['cpu'], prog)
    a = run(cpu(case['cpu']), text_of(prog))
    b = run(cpu(case['cpu']), [text_of(prog[:cut]), text_of(prog[cut:])])
    if a.ok != b.ok or a.image != b.image:
        fail('%s %r in one part %r, in two parts %r' % (case['cpu'], text_of(prog), a, b))
    return a.ok and 0 < cut < len(prog)


@REG.enum(lambda tier: [[c, t] for c in S.CPUS for t in sorted(S.all_slots(c))])
def undefined(case):
    """a reference that is never defined, or only in another letter case, makes linking fail"""
    c, t = case
    for text in (t.replace('{L}', 'nolabel'), 'lab:\n' + t.replace('{L}', 'Lab'), t.replace('{L}', 'LAB') + '\nlab:'):
        expect_error(run(cpu(c), text + '\n'), '%s %r' % (c, text))
    return True


NUMERIC = {'6502': ['5', '$10', '%101', '@17', '00'], 'lr35902': ['5', '$10', '%101', '@17'], 'z80': ['5', '$10', '%101'], '68000': ['5', '$FFFF', '%1'],
           'thumb': ['5', '0x10', '0b101', '0y11'], 'mips32': ['5', '0x10', '0b101'], 'psx': ['0', '0xff'], 'ppc': ['5', '0x10'],
           '8086': ['5', '0x10', '0h10', '10h', '0FFh', '101b', '17o', '9d', '0b11', '0d1h']}
NUMERIC['x86_16'] = NUMERIC['x86_32'] = NUMERIC['x86_64'] = NUMERIC['8086']
MALFORMED = ['a-b', 'a+b', 'lab#', 'x!', 'a$b', 'tab~le', 'a?', 'l@b', 'n\xe4me', 'a%', 'a/b', 'a&b', 'a=b']


@REG.enum(lambda tier: [[c, n] for c in S.CPUS for n in NUMERIC[c] + MALFORMED])
def bad_names(case):
    """numeric and malformed label names, and second definitions, are rejected"""
    c, n = case
    expect_error(run(cpu(c), '%s:\n.db 1\n' % n, link=False), '%s label %r' % (c, n))
    name = 'ok_' + c[:2]
    for first, second in (('.db 1\n', '.db 2\n'), ('', ''), ('.db 1\n.org 256\n', '.org 512\n'), ('.org 16\n.db 1\n', '.org 32\n.db 1\n'), ('.org 16\n', '.ram 4\n'), ('.ram 2\n', '.org 2\n'),
                          ('.org 16 20\n.db 9\n', '.org 17 33\n'), ('.section a\n.db 1\n', '.section b\n.db 1\n')):
        for link in (False, True):
            expect_error(run(cpu(c), '%s%s:\n%s%s: .db 1\n' % (first, name, second, name), link=link), '%s second definition after %r' % (c, second))
    return True


GOODNAMES = ['a', 'Z', '_', '.', 'a.b', '_1', 'L0', 'x' * 60, 'label_1', '.local', 'ORG', 'db', 'nop', 'ADD', 'end.']


@REG.enum(lambda tier: [[c, n] for c in S.CPUS for n in GOODNAMES])
def good_names(case):
    """names that look like other things; two names that differ in letter case only"""
    c, n = case
    other = n.swapcase()
    text = '.org 18\n%s:\n.dw 1\n' % n + ('%s:\n' % other if other != n else '')
    res = run(cpu(c), text)
    if not res.ok:
        fail('%s label %r: %r' % (c, n, res))
    want = {n: 18}
    if other != n:
        want[other] = 20
    if labels_of(res.asm) != want:
        fail('%s labels %r, expected %r' % (c, labels_of(res.asm), want))
    if n.isalpha() and n.lower() not in ('a', 'z', 'add', 'nop', 'db') or n in ('label_1', 'x' * 60):
        text += '.dw %s\n' % n
        b = (18).to_bytes(2, 'big' if S.BIG[c] else 'little')
        one = (1).to_bytes(2, 'big' if S.BIG[c] else 'little')
        expect_image(run(cpu(c), text), one + b, '%s reference to %r' % (c, n))
    return True


def words(tier):
    n = 0
    for c in S.CPUS:
        ks = S.keys(c, False)
        for k in sorted({k.split()[0] for k in ks}):
            if not k.startswith('.') and len(k) > 2 and not (c == '68000' and '.' in k):
                yield [c, k, ks[n % len(ks)], n % 2]
                n += 1


@REG.enum(words)
def any_word(case):
    """a label called like an instruction, a directive or any other word is a label like any other"""
    c, w, t, fwd = case
    verdict(c, place(t, None, w, fwd, 0x44, 0x104))
    return True


@REG.enum(lambda tier: [[c, t, k] for c in S.CPUS for n, t in enumerate(S.keys(c, False)) for k in ((n % 2,) if tier == 'quick' else (0, 1))])
def words_in_every_slot(case):
    """each operand slot with labels of many names"""
    c, t, k = case
    names = WORDS[k::2][:32]
    a, b = [['org', 0]], [['org', 0x200]]
    for i, w in enumerate(names):
        a += [['label', w], ['ram', 4]]
        b.append(['ref', t, w])
    verdict(c, a + b if k else b + a)
    return len(names), len(names)


@REG.given(st.tuples(st.sampled_from(S.CPUS), st.lists(NAME, min_size=1, max_size=6, unique=True), st.integers(0, 1 << 20), st.permutations(range(6)), st.integers(0, 63)), quick=600)
def any_name(case):
    """labels of any names (letters, digits, dots, underscores), some of them beginning or ending like another"""
    c, names, k, order, fwd = case
    names = plain_names(c, names)
    if names is None:
        return False
    ks = S.keys(c, False)
    pre, post, refs = [], [], []
    for i, n in enumerate(names):
        (post if fwd >> i & 1 else pre).extend([['org', 0x20 + 16 * i], ['label', n]])
    for i, j in enumerate(order):
        refs += [['org', 0x100 + 32 * i], ['ref', ks[(k + i * 7919) % len(ks)], names[j % len(names)]]]
    verdict(c, pre + refs + post)
    return len(names) > 1


@REG.given(scale.case(), quick=60)
def large_programs(case):
    """a hundred labels with names that are prefixes of each other, far apart, many references"""
    return scale.verdict(case, 'many labels', layout=0.25, refs=0.8, big=0.2)


@REG.enum(lambda tier: [[c, d] for c in ('6502', '68000', 'thumb', 'x86_32') for d in [1 << k for k in range(4, 21)] + [(1 << k) + 1 for k in (8, 12, 16)] + [(1 << k) - 1 for k in (8, 12, 16)]])
def distant_references(case):
    """references to the same label at any distance from each other and from the label"""
    c, d = case
    prog = [['ref', '.dd {L}', 'lab'], ['fill', d - 4, 9], ['ref', '.dd {L}', 'lab'], ['fill', max(d - 4, 4), 8], ['label', 'lab'], ['ref', '.dd {L}', 'lab'], ['fill', d - 4 or 4, 7],
            ['ref', '.dd {L}', 'lab'], ['ref', '.dd {L}', 'end'], ['label', 'end']]
    verdict(c, prog)
    return True


@REG.enum(labelforms.cases(sorted(labelforms.table()), 3))
def label_operands(case):
    """statements of every shape with a label in place of a number"""
    return labelforms.check(case)


@REG.given(st.tuples(programs(S.CPUS, False), sections.PLACES), quick=400)
def in_sections(t):
    """labels and references inside sections, and origins given as the address of a section"""
    case, places = t
    lines = text_of(case['prog']).rstrip('\n').split('\n')
    if case['cpu'] in ('68000', 'mips32', 'psx', 'thumb', 'ppc'):
        places = [[p, None if a is None else a & ~7, k] for p, a, k in places]
    return sections.verdict(cpu(case['cpu']), case['cpu'], lines, places)
