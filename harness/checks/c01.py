import random
from hypothesis import strategies as st
from harness.core import Registry, TIER
from harness.lib import *
from harness import model as M, gen as G, scale, forms as F
from harness.corpus import CORPUS, toks
from harness.cpulib import recase
from harness.checks.c26 import regcase

REG = Registry('C01', 'generated programs (test CPU with an independent evaluator, and token-list corpora of the nine CPUs) are '
               'rendered twice, plainly and with generated layout noise (separators, comments, line ends, label placement, letter case, '
               'quoting); the images must agree with each other and with the model. Non-trivial: plain rendering assembles to a non-empty image '
               'and the noisy text differs from it.',
               ['lone CR line ends and a space between a label and its colon are outside the domain'])

COMMENT = st.text(alphabet='abc ;:"\'()[]{}.,#$%\\\t\u00e9', max_size=14)
SEP = st.text(alphabet=' \t,', min_size=1, max_size=3)
SEP0 = st.text(alphabet=' \t,', min_size=0, max_size=2)
NOISE = st.lists(st.tuples(SEP, SEP0, SEP0, COMMENT, st.integers(0, 2 ** 31)), min_size=1, max_size=8)
PLAIN = [[' ', '', '', '', 0]]


class Noise:
    def __init__(self, items):
        self.items, self.i = items, 0

    def take(self):
        self.i += 1
        return self.items[(self.i * 7 + self.i // len(self.items)) % len(self.items)]


def case_of(name, bits):
    return ''.join(c.upper() if (bits >> (i % 29)) & 1 else c.lower() for i, c in enumerate(name))


def requote(tok, bits):
    """another spelling of the same quoted string"""
    q, body = tok[0], tok[1:-1]
    text, i = '', 0
    while i < len(body):
        if body[i] == '\\':
            i += 1
        text += body[i]
        i += 1
    nq = '"' if bits & 1 else "'"
    out = ''
    for i, c in enumerate(text):
        if c in ('\\', nq) or (bits >> (i % 20 + 1)) & 1:
            out += '\\'
        out += c
    return nq + out + nq


def render(lines, noise, recase=True):
    """lines: list of token lists; a label is a single token ending in ':' (strings are tokens with quotes)"""
    out = []
    nz = Noise(noise)
    n = len(lines)
    for li, toks in enumerate(lines):
        sep, lead, trail, comment, bits = nz.take()
        is_label = len(toks) == 1 and toks[0].endswith(':')
        s = lead
        if noise is not PLAIN and (li == 0 or bits & 64) and bits & 32:
            # lines of their own before the statement
            s = lead + ';' + comment + ('\r\n' if bits & 8 else '\n') * (1 + bits % 3) + trail + (';' + comment[::-1] + '\n' if bits & 128 else '') + lead
        if is_label:
            s += toks[0]
        else:
            head = toks[0]
            s += case_of(head, bits) if recase and noise is not PLAIN else head
            for i, t in enumerate(toks[1:]):
                prev = toks[i]
                loose = t[0] in '()[]{}"\'' or prev[0] in '()[]{}"\''
                sp = nz.take()
                s += sp[1] if loose and sp[4] & 4 and noise is not PLAIN else sp[0]
                s += requote(t, sp[4]) if noise is not PLAIN and t[0] in '"\'' and len(t) >= 2 else t
        s += trail
        last = li == n - 1
        kind = bits % 7
        if is_label and kind in (1, 2, 3) and not last:
            out.append(s)          # label in front of the next statement
            continue
        if noise is PLAIN:
            out.append(s + '\n')
            continue
        nl = '\r\n' if bits & 8 else '\n'
        if kind in (0, 4):
            s += ';' + comment
        elif kind == 5:
            s += nl + lead + ';' + comment + nl + trail
        if not (last and bits & 16):
            s += nl
        out.append(s)
    return ''.join(out)


def lines_of(prog):
    return [t for s in prog for t in M.r_stmt(s)]


@REG.given(st.tuples(G.program(repeat=True, keep_bad=5), NOISE), quick=500)
def program_layout(case):
    """noise layout of a model program gives the model's image"""
    cfg, prog = case[0]['cfg'], case[0]['prog']
    cls = M.make_cpu(cfg['be'], cfg['fill'], cfg['suffixes'])
    lines = lines_of(prog)
    if not lines:
        return False
    plain, noisy = render(lines, PLAIN), render(lines, case[1])
    try:
        want = bytes(M.evaluate(prog, cfg['be'], cfg['fill']).bytes)
    except M.Reject:
        want = None
    rp, rn = run(cls, plain), run(cls, noisy)
    if rp.ok != rn.ok or rp.ok and rp.image != rn.image:
        fail('layout changes the result of\n%s\n%r\nversus\n%r\n%r' % (plain, rp, noisy, rn))
    if want is not None:
        expect_image(rn, want, 'noisy layout %r' % noisy)
        if labels_of(rn.asm) != labels_of(rp.asm):
            fail('layout changes the labels of %r' % noisy)
    return want is not None and len(want) > 0 and noisy != plain


@st.composite
def cpu_prog(draw):
    cpu_name = draw(st.sampled_from(sorted(CORPUS)))
    idx = draw(st.lists(st.integers(0, len(CORPUS[cpu_name]) - 1), min_size=1, max_size=6))
    labs = draw(st.lists(st.integers(0, 6), max_size=2, unique=True))
    lines = [list(CORPUS[cpu_name][i]) for i in idx]
    for j, p in enumerate(sorted(labs)):
        lines.insert(min(p, len(lines)), ['lbl_%d:' % j])
    return {'cpu': cpu_name, 'lines': lines, 'noise': draw(NOISE)}


@REG.given(cpu_prog(), quick=700)
def cpu_layout(case):
    """noise layout of real CPU statements gives the plain image"""
    cls = cpu(case['cpu'])
    plain, noisy = render(case['lines'], PLAIN), render(case['lines'], case['noise'])
    rp, rn = run(cls, plain), run(cls, noisy)
    if not rp.ok:
        return False
    expect_image(rn, rp.image, '%s: layout %r of %r' % (case['cpu'], noisy, plain))
    return len(rp.image) > 0 and noisy != plain


def noise_of(seed):
    r = random.Random(seed)
    sep = lambda lo: ''.join(r.choice(' \t,') for _ in range(r.randint(lo, 3)))
    return [[sep(1), sep(0), sep(0), ''.join(r.choice('abc ;:"\'()[]{}.,#$%\\\t') for _ in range(r.randint(0, 9))), r.getrandbits(31)] for _ in range(7)]


def register_case(cpu_name, tok, r):
    mode = r.choice([0, 1, 2, 5 + r.getrandbits(20)])
    return regcase(tok, mode) if cpu_name == 'mips32' else recase(tok, mode)


@REG.enum(lambda tier: F.shapes(tier, 1))
def every_statement(case):
    """layout noise and letter case of names do not matter for any statement of any CPU"""
    c, seed, texts = case
    cls = cpu(c)
    lines = [toks(t) for t in texts]
    r = random.Random(repr(case))
    other = [l[:1] + [register_case(c, t, r) for t in l[1:]] for l in lines]
    plain, noisy = render(lines, PLAIN), render(other, noise_of(repr(case)))
    rp, rn = run(cls, plain), run(cls, noisy)
    if not rp.ok:
        fail('%s: statements that are accepted alone are rejected together:\n%s\n%r' % (c, plain, rp))
    expect_image(rn, rp.image, '%s: layout %r of %r' % (c, noisy, plain))
    return len(texts), len(texts)


STR = st.text(alphabet=st.sampled_from(list(' ,;:()[]{}\t"\'\\\r\n.#abcXYZ019<>+-*/&|%$@')), min_size=1, max_size=20)


@REG.given(st.fixed_dictionaries({'strings': st.lists(st.tuples(st.sampled_from(['"', "'"]), STR), min_size=1, max_size=3),
                                  'cpu': st.sampled_from(['6502', 'z80', '8086', '68000', 'mips32', 'thumb', 'ppc', 'lr35902', 'x86']),
                                  'seps': st.lists(SEP, min_size=1, max_size=3), 'comment': COMMENT, 'before': st.booleans(),
                                  'escapes': st.one_of(st.just(0), st.integers(0, (1 << 31) - 1))}), quick=600)
def quoted_text_is_data(case):
    """every character inside quotes is data"""
    def quoted(q, t):
        # a backslash makes any character data, so that it may be in front of each
        return q + ''.join('\\' + c if c in ('\\', q) or (case['escapes'] >> (i * 5 % 31)) & 1 else c for i, c in enumerate(t)) + q
    ops = case['seps'][0].join(quoted(q, t) for q, t in case['strings'])
    want = ''.join(t for q, t in case['strings']).encode()
    text = ('lab: ' if case['before'] else '') + '.DB' + case['seps'][-1] + ops + ';' + case['comment'] + '\n.db 1'
    r = run(cpu(case['cpu']), text)
    expect_image(r, want + b'\x01', '%s: %r' % (case['cpu'], text))
    return any(c in want.decode() for c in ' ,;:()[]{}"\'\\\n\t')


@REG.given(st.fixed_dictionaries({'quote': st.sampled_from(['"', "'"]), 'text': STR, 'closed': st.lists(st.tuples(st.sampled_from(['"', "'"]), STR), max_size=3), 'same': st.lists(st.tuples(st.sampled_from(['"', "'"]), STR), max_size=3),
                                  'cpu': st.sampled_from(['6502', 'z80', '8086', '68000', 'mips32', 'thumb', 'ppc', 'lr35902', 'x86']), 'tail': st.sampled_from(['', '\n', '\n\n', '\\', '\n.db 3\n', ' ; x\n']),
                                  'head': st.sampled_from(['.db ', '.ascii ', '.db 1,', '.db 7\n', 'lab: .db ', '', '.include ', '.define X '])}), quick=400)
def open_quote(case):
    """a quote that is never closed is an error at the line that opens it"""
    q = case['quote']
    tail = case['tail']
    before = '.db 4 ; it\'s a "comment\n' + ''.join('.db %s\n' % M.escape(k, t) for k, t in case['closed'])
    before += case['head'] + ''.join(M.escape(k, t) + s for (k, t), s in zip(case['same'], (' ', ',', '')))
    text = before + M.escape(q, case['text'])[:-1] + tail
    r = run(cpu(case['cpu']), text)
    expect_error(r, '%s: %r' % (case['cpu'], text))
    line = before.count('\n') + 1
    if 'line %d' % line not in str(r.exc):
        fail('%s: %r: the error %r does not name line %d, where the quote is opened' % (case['cpu'], text, str(r.exc), line))
    return True


@REG.given(st.fixed_dictionaries({'name': st.text(alphabet='abcdefXYZ_09', min_size=2, max_size=6).filter(lambda s: s[0].isalpha()),
                                  'bits': st.lists(st.integers(0, 2 ** 31), min_size=3, max_size=3),
                                  'sensitive': st.booleans()}), quick=400)
def name_case(case):
    """mnemonic, directive and macro names ignore case unless the assembler is case sensitive; labels and defines do not"""
    cls = M.make_cpu(sensitive=case['sensitive'])
    b = case['bits']
    name = 'q' + case['name']
    variant = case_of(name, b[0])
    text = '.macro %s x\nLD8 x\n.endmacro\n%s 5\n' % (name, variant)
    r = run(cls, text)
    if case['sensitive'] and variant != name:
        expect_error(r, 'case sensitive macro %r' % text)
    else:
        expect_image(r, b'\x10\x05', 'macro name case %r' % text)
    for base, tail, img in (('LD8', ' 7', b'\x10\x07'), ('NOP', '', b'\xea')):
        v = case_of(base, b[1])
        r = run(cls, v + tail)
        if case['sensitive'] and v != base:
            expect_error(r, 'case sensitive mnemonic %r' % v)
        else:
            expect_image(r, img, 'mnemonic case %r' % v)
    v = case_of('db', b[2])
    r = run(cls, '.' + v + ' 7')
    if case['sensitive'] and v != 'db':
        expect_error(r, 'case sensitive directive %r' % v)
    else:
        expect_image(r, b'\x07', 'directive case %r' % v)
    # labels
    if variant != name:
        r = run(cls, '.org 17\n%s:\n.org 34\n%s:\n.db %s, %s' % (name, variant, name, variant))
        expect_image(r, b'\x11\x22', 'label case %s %s' % (name, variant))
        expect_error(run(cls, '%s: NOP\nLD8 %s' % (name, variant)), 'label of another case %s %s' % (name, variant))
        r = run(cls, '.define %s 17\n.define %s 34\n.db %s, %s' % (name, variant, name, variant))
        expect_image(r, b'\x11\x22', 'define case %s %s' % (name, variant))
        expect_error(run(cls, '.define %s 17\nLD8 %s' % (name, variant)), 'define of another case')
    return variant != name


@REG.given(st.tuples(scale.case(30, 200), st.lists(st.tuples(SEP, SEP0, SEP0, COMMENT, st.integers(0, 2 ** 31)), min_size=8, max_size=40)), quick=25)
def large(case):
    """noise layout of a large program gives the model's image"""
    c, noise = case
    prog = scale.program(c, layout=0.15)
    want = bytes(M.evaluate(prog, c['be'], c['fill']).bytes)
    text = render(lines_of(prog), noise)
    expect_image(run(M.make_cpu(c['be'], c['fill']), text), want, 'noisy layout %r' % text)
    return len(want) > 1000
