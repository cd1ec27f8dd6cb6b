from hypothesis import strategies as st
from harness.core import Registry
from harness.lib import *
from harness import model as M, gen as G
from harness.checks.c02 import model_run
from harness.corpus import CORPUS
from harness import forms as F, scale

REG = Registry('C13', 'generated repeat blocks (data, fills, instructions, label references in every copy, labels in the first copy) inside programs, against the '
               'independent evaluator and against the unrolled text on every CPU; non-trivial: count of at least two and a non-empty body.',
               [])


@st.composite
def rep(draw):
    cfg = draw(G.config)
    names = draw(st.permutations(['l1', 'l2', 'l3', 'start']))[:draw(st.integers(1, 4))]
    prog = [['org', M.num(draw(st.sampled_from([0, 0, 16, 0x100, 0x1234]))), None]]
    todo = list(names)
    for _ in range(draw(st.integers(1, 3))):
        if todo and draw(st.booleans()):
            prog.append(['label', todo.pop()])
        prog.append(draw(G.simple_stmt(cfg, names, ('data', 'op'))))
        # before the block, the image and the origin may be at different positions
        k = draw(st.integers(0, 5))
        if k == 0:
            prog.append(['ram', M.num(draw(st.integers(1, 9)))])
        elif k == 1:
            prog.append(['org', M.num(0x2000 * (1 + len(prog)) + draw(st.integers(0, 3))), None])
        body = draw(st.lists(G.simple_stmt(cfg, names, ('data', 'op', 'op', 'fill', 'ascii')), min_size=1, max_size=4))
        if todo and draw(st.booleans()):
            body.insert(draw(st.integers(0, len(body))), ['label', todo.pop()])
        prog.append(['repeat', M.num(draw(st.integers(1, 6)), draw(st.sampled_from(G.styles(cfg)))), body])
    for n in todo:
        prog.append(['label', n])
    return {'cfg': cfg, 'prog': prog if draw(st.integers(0, 9)) == 0 else G.prune(prog, cfg)}


@REG.given(rep(), quick=1200)
def repeat_model(case):
    m = model_run(case, 'repeat')
    return m is not None and any(s[0] == 'repeat' and s[1]['v'][0][1] > 1 for s in case['prog'])


BR = {'6502': ['BNE @', 'JMP @', 'LDA @', '.dw @', 'LDA #<@'], 'lr35902': ['JR NZ,@', 'JP @', 'LD HL,@', 'CALL @', '.dw @'], 'z80': ['JR NZ,@', 'JP @', 'LD HL,@', 'DJNZ @', '.dw @'],
      '8086': ['JZ @', 'JMP @', 'CALL @', '.dw @', 'MOV AX,@'], '68000': ['BNE.W @', 'BRA.B @', 'LEA (@).L,A0', '.dd @', 'JMP (@).L'], 'mips32': ['beq $t0,$t1,@', 'j @', '.dd @', 'bne $a0,$zero,@'],
      'thumb': ['BEQ @', 'B @', '.dd @', 'BL @'], 'ppc': ['b @', 'bl @', '.dd @'], 'x86': ['JZ @', '.dw @']}


@REG.given(st.fixed_dictionaries({'cpu': st.sampled_from(sorted(BR)), 'pre': st.sampled_from(['', '', '.org 256 300\n.db 1\n', '.org 64\n.db 1,2,3\n', '.ram 4\n', '.fill 9 1\n']), 'n': st.integers(1, 5), 'body': st.lists(st.tuples(st.booleans(), st.integers(0, 60), st.integers(0, 1)), min_size=1, max_size=4)}), quick=500)
def unrolled_on_cpus(case):
    """the unrolled text, on every CPU, with branches and absolute references"""
    c = case['cpu']
    body = []
    for ref, k, which in case['body']:
        body.append(BR[c][k % len(BR[c])].replace('@', ['first', 'last'][which]) if ref else ' '.join(CORPUS[c][k % len(CORPUS[c])]))
    b = '\n'.join(body)
    head, foot = case['pre'] + '.org %d\n.align 4\nfirst: .dd 1\n' % 0x1000, '\n.align 4\nlast: .dd last\n'
    if case['n'] % 2:
        head += '.ram 4\n'
    ra = run(cpu(c), head + b.join(['.repeat %d\n' % case['n'], '\n.endrepeat']) + foot)
    rb = run(cpu(c), head + '\n'.join([b] * case['n']) + foot)
    if ra.ok != rb.ok or ra.ok and (ra.image != rb.image or labels_of(ra.asm) != labels_of(rb.asm)):
        fail('%s: repeat %d of %r gives %r, unrolled %r' % (c, case['n'], body, ra, rb))
    return rb.ok and case['n'] > 1


@REG.given(st.fixed_dictionaries({'k': st.sampled_from(['nested', 'end', 'zero', 'label', 'noarg', 'two']), 'pre': st.integers(0, 3), 'n': st.integers(1, 4)}), quick=60)
def invalid_repeats(case):
    t = 'x: NOP\n' + 'NOP\n' * case['pre']
    t += {'nested': '.repeat %d\nNOP\n.repeat 2\nNOP\n.endrepeat\n.endrepeat' % case['n'], 'end': '.endrepeat', 'zero': '.repeat 0\nNOP\n.endrepeat',
          'label': '.repeat x\nNOP\n.endrepeat', 'noarg': '.repeat\nNOP\n.endrepeat', 'two': '.repeat %d\nNOP\n.endrepeat\n.endrepeat' % case['n']}[case['k']]
    expect_error(run(M.make_cpu(), t), t)
    return True


@REG.given(scale.case(5, 60), quick=60)
def large_counts(case):
    """many blocks, counts up to a thousand"""
    return scale.verdict(case, 'many repeats', layout=0.1, refs=0.3, big=0.4, repeats=0.5)


@REG.enum(lambda tier: [[n, b] for n in ((256, 32768, 65537) if tier == 'quick' else (255, 256, 257, 32767, 32768, 65535, 65536, 65537, 100000, 1 << 20)) for b in ('NOP', '.db 1,2', '.dw lab')] +
          [[n, b] for n in (40, 127, 128, 129, 255, 256, 257, 300, 1000, 2049, 5000) for b in ('.db 1\n.align 4', '.fill 3 7', '.ram 2\n.db 5', '.db 3\n.ram 3', '.db 1\n.db 2\n.dw lab\nNOP', 'LD8 $41\n.dd lab+1', '.define KK 6\n.db KK')])
def huge_counts(case):
    """any count is a count"""
    n, b = case
    text = '.db 9\nlab:\n.repeat %d\n%s\n.endrepeat\nlast: .dd last' % (n, b)
    one = {'NOP': b'\xea', '.db 1,2': b'\1\2', '.dw lab': b'\1\0', '.fill 3 7': b'\7\7\7', '.ram 2\n.db 5': b'\5', '.db 3\n.ram 3': b'\3', '.db 1\n.db 2\n.dw lab\nNOP': b'\1\2\1\0\xea',
           'LD8 $41\n.dd lab+1': b'\x10\x41\2\0\0\0', '.define KK 6\n.db KK': b'\6'}.get(b)
    # the first copy starts at 1
    want = b'\x09' + (one * n if one else b'\1\0\0' + b'\1\0\0\0' * (n - 1))
    size = len(want) + {'.ram 2\n.db 5': 2 * n, '.db 3\n.ram 3': 3 * n}.get(b, 0)
    expect_image(run(M.make_cpu(), text), want + size.to_bytes(4, 'little'), text)
    return True


@REG.enum(lambda tier: F.batches(tier, 3))
def every_form(case):
    """each statement form of each CPU repeated: every copy refers to the label from its own position"""
    c, ts = case
    done = 0
    for k, t in enumerate(ts):
        head, stmt = F.layout(c, t, F.S.all_slots(c)[t])
        if k % 3 == 0:
            # the label comes after the copies
            head, stmt, foot = '.org 256\n', t.replace('{L}', 'lab'), '.org 320\nlab: .db 1\n'
        else:
            foot = '.db 1\n'
        n = 2 + k % 4
        a = '%s.repeat %d\n%s\n.endrepeat\n%s' % (head, n, stmt, foot)
        done += F.compare(c, a, head + (stmt + '\n') * n + foot, 'the repeat')
    return len(ts), done


@REG.given(st.tuples(st.sampled_from(F.S.CPUS), st.lists(st.integers(0, 1 << 20), min_size=1, max_size=6), st.integers(1, 5), st.booleans()), quick=300)
def bodies_of_several_forms(case):
    c, picks, times, fwd = case
    ts = F.statements(c)
    body = ''.join(ts[p % len(ts)][0].replace('{L}', 'lab') + '\n' for p in picks)
    define, use = '.org 384\nlab:\n.db 1\n', '.org 256\n'
    call, plain = use + '.repeat %d\n%s.endrepeat\n' % (times, body), use + body * times
    return F.compare(c, define + call if not fwd else call + define, define + plain if not fwd else plain + define, 'repeated body') and times > 1


@REG.given(st.fixed_dictionaries({'org': st.sampled_from([0, 0, 3, 0x100, 0x7ffe]), 'pre': st.integers(0, 5), 'n': st.integers(1, 9),
                                  'body': st.lists(st.one_of(st.tuples(st.just('db'), st.integers(1, 9)), st.tuples(st.just('align'), st.sampled_from([1, 2, 3, 4, 8, 10])), st.tuples(st.just('fill'), st.integers(0, 9)),
                                                             st.tuples(st.just('ram'), st.integers(1, 9)), st.tuples(st.just('dd'), st.just(4))), min_size=1, max_size=5)}), quick=800)
def layout_bodies(case):
    """bodies of data and layout directives in any order, the image and the location counter computed copy by copy"""
    pc, img = case['org'] + case['pre'], b'\1' * case['pre']
    text = '.org %d\n%s.repeat %d\n' % (case['org'], '.db 1\n' * case['pre'], case['n'])
    text += ''.join('.%s %s\n' % (k, ', '.join('7' * v) if k == 'db' else v if k != 'dd' else 'last') for k, v in case['body']) + '.endrepeat\nlast: .db 9\n'
    refs = []
    for _ in range(case['n']):
        for k, v in case['body']:
            if k == 'dd':
                refs.append(len(img))
            more = {'db': b'\7' * v, 'align': b'\0' * (-pc % max(v, 1)), 'fill': b'\0' * v, 'ram': b'', 'dd': b'\0' * 4}[k]
            img += more
            pc += len(more) + (v if k == 'ram' else 0)
    img = bytearray(img)
    for at in refs:
        img[at:at + 4] = pc.to_bytes(4, 'little')
    r = run(M.make_cpu(), text)
    expect_image(r, bytes(img) + b'\x09', text)
    if r.asm.pc != pc + 1 or labels_of(r.asm) != {'last': pc}:
        fail('%s: location counter %d, labels %r, expected %d' % (text, r.asm.pc, labels_of(r.asm), pc))
    return case['n'] > 1


LINES = ['.define V V+1', '.define W W+V', '.align 4', '.align 8', '.align V', '.define V 2', '.define V 4', '.define W V+1', '.define W lab+1', '.define x NOP', '.db V', '.dw W', '.dd W,V', 'x', '.ram 3', '.ram V',
         'mac V', 'MAC W', '.macro mac q\nLD32 q+2\n.endmacro', '.macro mac q\nLD16 q\nNOP\n.endmacro', 'in1:', 'in2:', '.dw in1', 'BR8 in1', 'BR16 in2', 'BR16 lab', 'LD8 <in2',
         '.include "part.S"', '.include "other.S"', '.fill V 9', '.fill V', '.ram 2', '.section more RX', '.section more RW 0x380', '.dw_to_ascii in1', '.incbin "bytes.bin"', '.org 0x100', '.org 0x100 0x10f', '.goto 0x60', '.upto 0x50', 'NOP',
         'LD8 7', '.db "V"', 'BR8 -2', '.log', 'FROB', 'LD8 256', '.db']
PARTS = ['NOP\n', 'p:\n.db 3\n', '', 'p:\n', '.dw in1\nLD8 V\n', '.define V 3\nLD16 W']


@REG.given(st.tuples(st.lists(st.sampled_from(LINES[:-3]), min_size=1, max_size=7), st.integers(1, 5), st.sampled_from(PARTS), st.sampled_from(PARTS), st.integers(0, 60),
                     st.one_of(st.none(), st.none(), st.none(), st.sampled_from(LINES[-3:])), st.booleans(),
                     st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, 40), min_size=1, max_size=4), st.just('all'))), quick=1200)
def any_statements(case):
    """bodies of directives, definitions, macro calls and included files, whose copies may differ from each other"""
    body, n, part, other, pre, bad, fwd, cuts = case
    body = list(body)
    for k in ('in1:', 'in2:', '.include "part.S"', '.include "other.S"'):
        while body.count(k) > (1 if k[0] == 'i' or 'p:' in (part, other)[k != '.include "part.S"'] else 9):
            body.remove(k)
    if bad and pre % 2:
        body.insert(pre % len(body), bad)
    if part.startswith('p:') and other.startswith('p:'):
        other = ''
    files = {'part.S': part, 'other.S': other.replace('p:', 'o:')}
    text = '\n'.join(body) + '\n'
    plain = text
    for f, t in files.items():
        plain = plain.replace('.include "%s"\n' % f, t if t[-1:] in ('\n', '') else t + '\n')
    rest = ''.join(l + '\n' for l in plain.splitlines() if not l.endswith(':'))
    head = '.macro mac q\nLD8 V\n.endmacro\n.define V 1\n.define W 0x21\n.define x WIDE\n.org 16\n' + 'NOP\n' * (pre % 7) + ['', '', '.section code RX\nNOP\n', '.section data RW 0x20\n'][pre // 7 % 4]
    tail = '.org 0x4000\nlab: NOP\n.dw V\n' + ''.join(l + ' NOP\n' for l in ('in1:', 'in2:') if l not in body)
    head, tail = (head, tail) if fwd else (tail.replace('.dw V\n', '') + head, '.dw V\n')
    with scratch(), contextlib.redirect_stdout(io.StringIO()):
        for f, t in files.items():
            with open(f, 'w') as h:
                h.write(t)
        with open('bytes.bin', 'wb') as h:
            h.write(b'\1\2\3')
        # the source may come in several calls, the block then begins in one and ends in another
        whole = ('%s.repeat %d\n%s.endrepeat\n%s' % (head, n, text, tail)).splitlines(True)
        # (a bounded origin ends with the call)
        at = [] if '.org 0x100 0x10f' in body else range(len(whole)) if cuts == 'all' else sorted({head.count('\n') + c % (len(body) + 3) for c in cuts})
        ra = run(M.make_cpu(), [''.join(whole[a:b]) for a, b in zip([0] + list(at), list(at) + [len(whole)])])
        rb = run(M.make_cpu(), head + plain + rest * (n - 1) + tail)
    if ra.ok != rb.ok or ra.ok and (ra.image != rb.image or labels_of(ra.asm) != labels_of(rb.asm) or ra.asm.pc != rb.asm.pc):
        fail('%d times\n%s with %r in\n%s<repeat>\n%s cut at %r gives %r, written out\n%s%r' % (n, text, files, head, tail, cuts, ra, plain + rest * (n - 1), rb))
    return rb.ok and n > 1


@REG.given(st.tuples(st.sampled_from(F.S.CPUS), st.lists(st.integers(0, 1 << 20), min_size=1, max_size=5), st.integers(2, 5), st.integers(0, 5)), quick=400)
def labels_inside(case):
    """a label defined by the first copy is known to the others"""
    c, picks, times, at = case
    ts = F.statements(c)
    body = [ts[p % len(ts)][0].replace('{L}', 'lab') for p in picks]
    if at % 2:
        body.insert(0, '.align 4')
    body.insert(at % (len(body) + 1), 'lab:')
    head = '.org 64\n' if at < 3 else '.org 256\n'
    rest = '\n'.join(l for l in body if l != 'lab:') + '\n'
    body = '\n'.join(body) + '\n'
    return F.compare(c, head + '.repeat %d\n%s.endrepeat\n' % (times, body), head + body + rest * (times - 1), 'repeated body')


@REG.enum(lambda tier: [[n, m] for n in ((257, 4097, 20000) if tier == 'quick' else (255, 256, 257, 1023, 1025, 4095, 4096, 4097, 8193, 32769, 65537, 150000)) for m in (1, 2, 3)])
def long_bodies(case):
    """a body of any number of statements"""
    n, m = case
    body = ['.db %d' % (i % 251) if i % 5 else '.dw lab' for i in range(n)]
    one = b''.join(bytes([i % 251]) if i % 5 else b'\1\0' for i in range(n))
    text = '.db 9\nlab:\n.repeat %d\n%s\n.endrepeat\nlast: .dd last' % (m, '\n'.join(body))
    want = b'\x09' + one * m
    expect_image(run(M.make_cpu(), text), want + len(want).to_bytes(4, 'little'), 'a body of %d statements repeated %d times' % (n, m))
    return True
