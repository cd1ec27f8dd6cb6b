from hypothesis import strategies as st
from harness.core import Registry
from harness.lib import *
from harness import model as M, gen as G
from harness.checks.c02 import model_run
from harness import scale, sections

REG = Registry('C07', 'generated histories of layout and data directives, each step drawn valid for the current state of an independent layout model '
               '(plus some invalid last steps), a label after every step exposing the location counter; image, every label and the final counter '
               'must equal the model. Non-trivial: at least two layout directives took effect.',
               ['code that overflows the end of a bounded origin and selecting the very start of an empty bounded origin again are outside the domain'])


@st.composite
def history(draw, max_len=12):
    cfg = draw(G.config)
    m = M.Model(cfg['be'], cfg['fill'])
    prog = []
    for i in range(draw(st.integers(1, max_len))):
        if draw(st.integers(0, 9)) < 7:
            s = draw(G.layout_stmt(cfg, m))
        else:
            s = draw(st.sampled_from([['data', 'db', 1, [M.num(17)]], ['data', 'dw', 2, [M.num(0x1234), M.num(0x5678)]], ['op', 'NOP', []], ['op', 'WIDE', []], ['data', 'db', 1, [['s', '"', 'abcde']]]]))
        if m.org_end and s[0] in ('data', 'op') and m.pc + 6 > m.org_end + 1:
            continue
        try:
            m.stmt(s)
        except M.Reject:
            continue
        prog += [s, ['label', 'p%d' % i]]
    bad = draw(st.integers(0, 9))
    n = M.num
    if bad == 0 and m.pc > 0:
        prog.append(['goto', n(draw(st.integers(0, m.pc - 1))), None])
    elif bad == 1 and m.cnt > 0:
        prog.append(['upto', n(draw(st.integers(0, m.cnt - 1))), None])
    elif bad == 2:
        s = draw(st.integers(2, 5000)) + m.pc
        prog.append(['org', n(s), n(draw(st.integers(1, s - 1)))])
    elif bad == 3 and m.org_end and m.pc > 0:
        prog.append(['org', n(draw(st.integers(0, m.pc - 1))), None])
    elif bad == 4:
        prog.append(draw(st.sampled_from([['ram', n(0)], ['align', n(0)], ['fill', M.lab('p0'), None], ['org', M.lab('p0'), None], ['goto', M.lab('zz'), None], ['upto', M.lab('zz'), None],
                                          ['fill', n(3), n(256)], ['fill', n(3), M.lab('zz')], ['goto', n(m.pc + 3), n(300)], ['ram', M.lab('zz')], ['align', M.lab('zz')]])))
    return {'cfg': cfg, 'prog': prog}


@REG.given(history(), quick=2000)
def layout_history(case):
    m = model_run(case, 'layout')
    n = sum(1 for s in case['prog'] if s[0] in ('fill', 'align', 'goto', 'upto', 'ram', 'org'))
    return m is not None and n >= 2


@REG.given(G.program(layout=True, max_stmts=16), quick=800)
def layout_mixed(case):
    """layout interleaved with data, instructions and label references"""
    m = model_run(case, 'layout with references')
    n = sum(1 for s in case['prog'] if s[0] in ('fill', 'align', 'goto', 'upto', 'ram', 'org'))
    return m is not None and n >= 2


@REG.given(st.fixed_dictionaries({'cpu': st.sampled_from(['6502', 'lr35902', 'z80', '8086', 'x86', '68000', 'mips32', 'thumb', 'ppc', 'nes', 'sms', 'psx']),
                                  'blocks': st.lists(st.tuples(st.integers(0, 40), st.integers(0, 30), st.integers(0, 255)), min_size=1, max_size=4),
                                  'start': st.sampled_from([0, 1, 0x100, 0x8000]), 'align': st.sampled_from([1, 2, 4, 8, 16])}), quick=400)
def on_real_cpus(case):
    """the same bookkeeping on every shipped assembler"""
    m = M.Model()
    lines = []
    labels = {}

    def do(s, text):
        m.stmt(s)
        lines.append(text)
        name = 'q%d' % len(lines)
        lines.append(name + ':')
        labels[name] = m.pc
    s = case['start']
    for gap, used, v in case['blocks']:
        e = s + used + gap + 1
        do(['org', M.num(s), M.num(e)], '.org %d %d' % (s, e))
        do(['fill', M.num(used), M.num(v)], '.fill %d %d' % (used, v))
        if -m.pc % case['align'] + m.pc <= e + 1:
            do(['align', M.num(case['align'])], '.align %d' % case['align'])
        s = e + 1 + gap
    m.finish()
    text = '\n'.join(lines)
    r = run(cpu(case['cpu']), text)
    expect_image(r, m.bytes, '%s:\n%s' % (case['cpu'], text))
    if labels_of(r.asm) != labels:
        fail('%s: labels %r, expected %r for\n%s' % (case['cpu'], labels_of(r.asm), labels, text))
    return True


@REG.given(scale.case(), quick=120)
def large_programs(case):
    """long histories with blocks, alignments and origins of many sizes"""
    return scale.verdict(case, 'many layout directives', layout=0.6, refs=0.2, big=0.3, repeats=0)


BIG = [0x8000, 0xffff, 0x10000, 0x10001, 0x18000, 0x20000, 0x100000]


@REG.enum(lambda tier: [[k, v + d, at, f] for k in ('align', 'goto', 'upto', 'ram', 'fill', 'org') for v in (BIG if tier == 'quick' else BIG + [0x1000000]) for d in (0, 1) for at in (0, 3) for f in (None, 0x5a)])
def large_paddings(case):
    """paddings, reservations and blocks of 64K and more"""
    k, v, at, f = case
    n = M.num
    prog = [['data', 'db', 1, [n(1), n(2), n(3)]]] if at else []
    if k in ('goto', 'upto', 'fill'):
        prog.append([k, n(v), None if f is None else n(f)])
    elif k == 'org':
        prog += [['org', n(5), n(v)], ['data', 'db', 1, [n(7)]], ['org', n(0x20), None]]
    else:
        prog.append([k, n(v)])
    prog += [['label', 'after'], ['data', 'db', 1, [n(9)]], ['data', 'dd', 4, [M.lab('after')]]]
    model_run({'cfg': {'be': False, 'fill': 0 if f is None else 0x33, 'suffixes': False}, 'prog': prog}, 'large ' + k)
    return True


@REG.given(st.tuples(history(20), sections.PLACES), quick=500)
def in_sections(t):
    """the layout directives count the same inside sections, and a section with an address is an origin"""
    case, places = t
    cfg = case['cfg']
    lines = [' '.join(t) for s in case['prog'] for t in M.r_stmt(s)]
    return sections.verdict(M.make_cpu(cfg['be'], cfg['fill'], cfg['suffixes']), 'sections', lines, places)


@REG.given(st.tuples(history(), st.integers(0, 255), st.booleans()), quick=250)
def fill_value_of_the_instance(t):
    """the fill value in force is the one of the assembler when the directive is executed"""
    case, fill, twice = t
    cfg = case['cfg']
    text = M.render(case['prog'])

    def prepare(asm):
        asm.fill_value = fill
    a = run(M.make_cpu(cfg['be'], cfg['fill'], cfg['suffixes']), text, prepare=prepare)
    b = run(M.make_cpu(cfg['be'], fill, cfg['suffixes']), text)
    if a.ok != b.ok:
        fail('fill value %d on the instance: %r, on the class: %r for\n%s' % (fill, a, b, text))
    if not a.ok:
        return False
    expect_image(a, b.image, 'fill value %d set on the instance for\n%s' % (fill, text))
    return True
