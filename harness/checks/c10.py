import os
import re
from hypothesis import strategies as st
from harness.core import Registry
from harness.lib import *
from harness.checks.c12 import PIECES
from harness import model as M, gen as G
from harness import forms as F, scale

REG = Registry('C10', 'generated programs (labels, bounded origins, references, macros, defines, repeat blocks) are cut into generated, nested include files in a '
               'scratch directory; including must give the image, labels and counter of the inlined text (which the model also evaluates). '
               'Non-trivial: at least one non-empty file included.', [])


def split(lines, cuts, files, depth=0):
    """cuts: list of (a, b) fractions; the chosen slice of lines moves to an include file"""
    out = list(lines)
    for a, b, style in cuts:
        if len(out) < 1:
            break
        i = a % (len(out) + 1)
        j = i + b % (len(out) - i + 1)
        name = ['inc%d.S', 'inc_%d', 'sub/part%d.inc'][style % 3] % len(files)
        files[name] = None
        body = out[i:j]
        files[name] = '\n'.join(body) + ('\n' if style & 4 else '')
        q = ['"%s"', "'%s'", '%s'][style % 5 % 3]
        out[i:j] = ['.include ' + q % name]
    return out


CUTS = st.lists(st.tuples(st.integers(0, 60), st.integers(0, 60), st.integers(0, 120)), min_size=1, max_size=4)
SPICE = [['.define VALUE 0x21', 'LD8 VALUE'], ['.macro mm a b', 'LD8 a', 'LD16 b', '.endmacro', 'mm 1 2'], ['.macro inner', 'NOP', '.endmacro', 'inner', 'INNER'], ['.section code RX'],
         ['.dw "\u00e9t\u00e9" 1', '.dd "\u20ac" 2 ; \u00fc'], ['; \u00e9\u00df\U0001f600', '.db 7', '.dw "\u4e2d"']]


@REG.given(st.tuples(G.program(repeat=True, keep_bad=3, max_stmts=12), CUTS, st.lists(st.tuples(st.integers(0, 5), st.integers(0, 40)), max_size=2)), quick=900)
def include_equals_inline(case):
    (pc, cuts, spice) = case
    cfg, prog = pc['cfg'], pc['prog']
    cls = M.make_cpu(cfg['be'], cfg['fill'], False)
    if cfg['suffixes']:
        cls = M.make_cpu(cfg['be'], cfg['fill'], True)
    lines = []
    for s in prog:
        lines += [' '.join(t) for t in M.r_stmt(s)]
    lines = [x for l in lines for x in l.split('\n')] if not any('\n' in l for l in lines) else lines
    done = set()
    if not cfg['suffixes']:
        for k, at in spice:
            if k in done:
                continue
            done.add(k)
            at = at % (len(lines) + 1)
            lines[at:at] = SPICE[k]
    inline = '\n'.join(lines)
    files = {}
    top = split(lines, cuts, files)
    ra = run(cls, inline)
    with scratch():
        os.mkdir('sub')
        for n, t in files.items():
            with open(n, 'w', newline='') as f:
                f.write(t)
        rb = run(cls, '\n'.join(top))
    ctx = 'program\n%s\nwith files %r' % ('\n'.join(top), files)
    if ra.ok != rb.ok or ra.ok and ra.image != rb.image:
        fail('%s gives %r, inline it gives %r' % (ctx, rb, ra))
    if not done:
        try:
            m = M.evaluate(prog, cfg['be'], cfg['fill'])
        except M.Reject:
            m = None
        if m is not None:
            expect_image(rb, m.bytes, ctx)
    if ra.ok:
        if labels_of(ra.asm) != labels_of(rb.asm) or ra.asm.pc != rb.asm.pc:
            fail('%s: labels or counter differ from the inlined program' % ctx)
        if {k: dict(v) for k, v in ra.asm.sections.items()} != {k: dict(v) for k, v in rb.asm.sections.items()}:
            fail('%s: sections differ from the inlined program: %r %r' % (ctx, ra.asm.sections, rb.asm.sections))
    return ra.ok and len(ra.image) > 0 and any(files.values())


@REG.given(st.fixed_dictionaries({'mix': st.integers(0, 11), 'depth': st.integers(0, 3), 'pre': st.lists(st.integers(0, 5), min_size=4, max_size=4), 'post': st.booleans(),
                                  'bad': st.sampled_from(['FROB 1', 'LD8 256', 'LD8 1 2', 'dup: NOP', '.frobnicate', 'NOP 1', 'LD16 -40000', 'WIDE x']), 'cpu': st.booleans(),
                                  'back': st.integers(-1, 3),
                                  'names': st.lists(st.sampled_from(['f%d.S', 'f%d.S', 'sub/f%d.S', 'sub/../f%d.S', './f%d.S', 'sub/./f%d.S', 'sub/../sub/f%d.S', 'sub//f%d.S', 'a b/f%d.S', 'x' * 60 + '/' + 'y' * 90 + 'f%d.S', 'sub/../' * 12 + 'f%d.S', 'z' * 120 + 'f%d.S']), min_size=4, max_size=4)}), quick=400)
def error_location(case):
    """errors are reported with the file and the line of that file"""
    depth = case['depth']
    files = {}
    # file k includes file k+1 after pre[k] lines; the bad statement is in file `depth`
    # or, when back >= 0, in file min(back, depth) after its include
    where = depth if case['back'] < 0 else min(case['back'], depth)
    bad_line = None
    for k in range(depth + 1):
        ls = [['; comment', 'NOP ; line %d' % i, '', '  ', '\t; x', '.db 1,2'][(i + case['mix']) % 6] for i in range(case['pre'][k])]
        if k == 0:
            ls.insert(case['mix'] % (len(ls) + 1), 'dup: NOP')
        if k < depth:
            ls.append('.include "%s"' % (case['names'][k + 1] % (k + 1)))
            if k == where:
                ls += ['', 'NOP']
        if k == where:
            ls.append(case['bad'])
            bad_line = len(ls)
        if case['post']:
            ls.append('NOP')
        files[k] = ['\n', '\r\n'][case['mix'] // 6 % 2].join(ls + [''] * (1 + case['mix'] % 3))
    with scratch():
        os.mkdir('sub')
        os.mkdir('a b')
        os.mkdir('x' * 60)
        for k, t in files.items():
            with open(case['names'][k] % k, 'w', newline='') as f:
                f.write(t)
        asm = new(M.make_cpu())
        try:
            asm.assemble_file(case['names'][0] % 0)
            res = Res(True, bytes(asm.assembled_bytes), asm=asm)
        except Exception as e:
            res = Res(False, exc=e, asm=asm)
    expect_error(res, 'files %r' % files)
    msg = str(res.exc)
    lines = re.findall(r'line (\d+)', msg)
    names = re.findall(r'f\d\.S', msg)
    full = case['names'][where] % where
    if full not in msg:
        fail('error in %r reported as %r' % (full, msg))
    if not isinstance(res.exc, AssemblerException):
        fail('files %r: raised %r' % (files, res.exc))
    if lines[:1] != [str(bad_line)] or names[:1] != ['f%d.S' % where]:
        fail('error in f%d.S line %d reported as %r; files %r' % (where, bad_line, msg, files))
    return True


@REG.given(st.fixed_dictionaries({'end': st.integers(20, 200), 'a': st.integers(0, 9), 'b': st.integers(0, 9), 'fill': st.sampled_from([0, 255]), 'nested': st.booleans()}), quick=150)
def include_in_bounded_origin(case):
    """a bounded origin is padded once, at its end"""
    with scratch():
        with open('a.S', 'w') as f:
            f.write('.fill %d 1\nin_a: .db 2\n' % case['a'] + ('.include "b.S"\n' if case['nested'] else ''))
        with open('b.S', 'w') as f:
            f.write('.fill %d 3' % case['b'])
        r = run(M.make_cpu(fill=case['fill']), '.org 0 %d\n.include "a.S"\n.db 4\n.include "b.S"\nlast: .db 5\n.dw last' % case['end'])
    body = b'\x01' * case['a'] + b'\x02' + (b'\x03' * case['b'] if case['nested'] else b'') + b'\x04' + b'\x03' * case['b']
    body += b'\x05' + len(body).to_bytes(2, 'little')
    if len(body) > case['end'] + 1:
        return False
    want = body + bytes([case['fill']]) * (case['end'] + 1 - len(body))
    expect_image(r, want, 'include in a bounded origin %r' % case)
    return True


@REG.given(scale.case(20, 150, depth=st.integers(1, 12)), quick=40)
def large_programs(case):
    """long programs cut into a dozen nested files"""
    import random
    prog = scale.program(case)
    r = random.Random(case['seed'] + 1)
    lines = [' '.join(t) for s in prog for t in M.r_stmt(s)]
    files, top = {}, list(lines)
    for k in range(case['depth']):
        i = r.randint(0, len(top))
        j = r.randint(i, len(top))
        name = 'f%d.S' % k
        files[name] = '\n'.join(top[i:j]) + r.choice(['', '\n'])
        top[i:j] = ['.include "%s"' % name]
    cls = M.make_cpu(case['be'], case['fill'])
    ra = run(cls, '\n'.join(lines))
    with scratch():
        for n, t in files.items():
            with open(n, 'w') as f:
                f.write(t)
        rb = run(cls, '\n'.join(top))
    if not ra.ok or not rb.ok or ra.image != rb.image or labels_of(ra.asm) != labels_of(rb.asm):
        fail('program\n%s\nwith files %r gives %r, inline %r' % ('\n'.join(top)[:2000], sorted(files), rb, ra))
    return True


@REG.given(st.fixed_dictionaries({'times': st.integers(2, 30), 'n': st.integers(0, 40), 'mid': st.booleans()}), quick=60)
def same_file_again(case):
    """a file without labels can be included many times"""
    with scratch():
        with open('part.S', 'w') as f:
            f.write('.dw after\n' + 'NOP\n' * case['n'])
        r = run(M.make_cpu(), '\n'.join(['.include "part.S"' + ('\n.db 7' if case['mid'] else '')] * case['times']) + '\nafter: .db 1')
    part = 2 + case['n'] + case['mid']
    end = part * case['times']
    want = (end.to_bytes(2, 'little') + b'\xea' * case['n'] + b'\7' * case['mid']) * case['times'] + b'\1'
    expect_image(r, want, 'included %d times' % case['times'])
    return True


@REG.enum(lambda tier: F.batches(tier, 3))
def every_form(case):
    """each statement form of each CPU inside an included file, its label outside"""
    c, ts = case
    done = 0
    with scratch():
        for k, t in enumerate(ts):
            head, stmt = F.layout(c, t, F.S.all_slots(c)[t])
            if k % 3 == 0:
                head, stmt, foot = '.org 256\n', t.replace('{L}', 'lab'), '.org 320\nlab: .db 1\n'
            else:
                foot = '.db 1\n'
            with open('form.S', 'w') as f:
                f.write(stmt if k % 2 else stmt + '\n')
            done += F.compare(c, head + '.include "form.S"\n' * 2 + foot, head + (stmt + '\n') * 2 + foot, 'the included statement %r' % stmt)
    return len(ts), done


NAME_CHARS = "abcXYZ019 _-.,;:#()[]{}<>+*/@$%&!?=~^|'\"\u00e9\u4e2d"


@REG.given(st.tuples(st.text(alphabet=NAME_CHARS, min_size=1, max_size=12), st.integers(0, 7), st.sampled_from(['include', 'INCLUDE', 'incbin', 'inccsv', 'incjson'])), quick=500)
def file_names(case):
    """a quoted name may hold any character but its quote"""
    name, k, d = case
    q = '"\''[k % 2]
    name = name.replace(q, 'q')
    if any(part in ('', '.', '..') for part in name.split('/')):
        return False
    data = {'include': b'.db 1\n.db 2', 'incbin': b'\1\2', 'inccsv': b'1,2\n', 'incjson': b'{"k": [1, 2]}'}[d.lower()]
    with scratch():
        if os.path.dirname(name):
            os.makedirs(os.path.dirname(name), exist_ok=True)
        with open(name, 'wb') as f:
            f.write(data)
        text = '.%s %s%s%s%s\n.db 3' % (d, q, name, q, ' k' if d == 'incjson' else '')
        r = run(M.make_cpu(), text)
        missing = run(M.make_cpu(), text.replace(q + name + q, q + name + 'x' + q))
    expect_image(r, b'\1\2\3', repr(text))
    expect_error(missing, 'missing file of %r' % text)
    return True


@REG.enum(lambda tier: [[d, w] for d in (3, 5, 8, 9, 10, 15, 16, 17, 20, 33, 40) for w in sorted({0, 1, d // 2, d - 1, d})])
def deep_includes(case):
    """files included through many levels: the bytes, and the place of an error in any of them, before or after its include"""
    depth, where = case
    for bad in (False, True):
        with scratch():
            for i in range(depth + 1):
                with open('f%d.S' % i, 'w') as f:
                    f.write('.db %d\n' % i * (1 + i % 3) + ('.include "f%d.S"\n' % (i + 1) if i < depth else '') + '\n' + ('FROB 1\n' if bad and i == where else '') + '.dw end\n')
                    if i == 0:
                        f.write('end:\n')
            asm = new(M.make_cpu())
            try:
                asm.assemble_file('f0.S')
                asm.link()
                r = Res(True, bytes(asm.assembled_bytes), asm=asm)
            except Exception as e:
                r = Res(False, exc=e, asm=asm)
        if bad:
            expect_error(r, 'depth %d' % depth)
            line = 1 + where % 3 + 1 + (where < depth) + 1
            if re.findall(r'line (\d+)', str(r.exc))[:1] != [str(line)] or re.findall(r'f\d+\.S', str(r.exc))[:1] != ['f%d.S' % where]:
                fail('error in line %d of f%d.S, %d files deep, reported as %r' % (line, where, depth, str(r.exc)))
        else:
            pre = b''.join(bytes([i]) * (1 + i % 3) for i in range(depth + 1))
            expect_image(r, pre + (len(pre) + 2 * depth + 2).to_bytes(2, 'little') * (depth + 1), 'depth %d' % depth)
    return True


@REG.enum(lambda tier: [[n, k] for n in (17, 33, 65, 100, 129, 257, 300, 600) for k in ('same', 'many', 'repeat', 'calls')])
def many_includes(case):
    """a program of many includes"""
    n, kind = case
    with scratch():
        for i in range(n if kind == 'many' else 1):
            with open('part%d.S' % i, 'w') as f:
                f.write('.dw end %d\n' % i + ('lab%d:\n' % i if kind == 'many' else ''))
        if kind == 'repeat':
            text = '.repeat %d\n.include "part0.S"\n.endrepeat\nend:' % n
        else:
            text = ''.join('.include "part%d.S"\n' % (i if kind == 'many' else 0) for i in range(n)) + 'end:'
        if kind == 'calls':
            asm = new(M.make_cpu())
            for i in range(n):
                asm.assemble('.include "part0.S"\n')
            asm.assemble('end:')
            asm.link()
            r = Res(True, bytes(asm.assembled_bytes), asm=asm)
        else:
            r = run(M.make_cpu(), text)
    le = lambda v: v.to_bytes(2, 'little')
    expect_image(r, b''.join(le(4 * n) + le(i if kind == 'many' else 0) for i in range(n)), '%d includes (%s)' % (n, kind))
    return True


@REG.given(st.fixed_dictionaries({'dirs': st.lists(st.sampled_from(['d', 'd/e', 'f', '.', 'd/../f']), min_size=2, max_size=3), 'copies': st.lists(st.booleans(), min_size=4, max_size=4),
                                  'what': st.sampled_from(['include', 'incbin', 'inccsv']), 'abs': st.booleans(), 'up': st.booleans()}), quick=150)
def directories(case):
    """a name is a path from the working directory, wherever the file that holds the directive is"""
    with scratch():
        for d in ('d/e', 'f'):
            os.makedirs(d)
        data = {'include': '.db %d', 'incbin': '%c', 'inccsv': '%d\n'}[case['what']]
        # the same name in several directories
        for k, d in enumerate(['.', 'd', 'd/e', 'f']):
            if k == 0 or case['copies'][k]:
                with open(os.path.join(d, 'leaf.x'), 'w') as f:
                    f.write(data % (65 + k))
        names = [os.path.normpath(os.path.join(d, 'm%d.S' % i)) for i, d in enumerate(case['dirs'])]
        if case['abs']:
            names = [os.path.abspath(n) for n in names]
        names.append('f/../leaf.x' if case['up'] else 'leaf.x')
        for i, n in enumerate(names[:-1]):
            d = 'include' if i < len(names) - 2 else case['what']
            with open(n, 'w') as f:
                f.write('.db %d\n.%s "%s"\n.db %d\n' % (i, d, names[i + 1], i))
        want = bytes(range(len(names) - 1)) + b'A' + bytes(reversed(range(len(names) - 1)))
        expect_image(run(M.make_cpu(), '.include "%s"' % names[0]), want, 'files %r' % names)
        asm = new(M.make_cpu())
        asm.assemble_file(names[0])
        asm.link()
        if bytes(asm.assembled_bytes) != want:
            fail('files %r: %s, expected %s' % (names, hexs(asm.assembled_bytes), hexs(want)))
        os.remove('leaf.x')
        expect_error(run(M.make_cpu(), '.include "%s"' % names[0]), 'missing %s of %r' % (names[-1], names))
    return any(case['copies'][1:])


@REG.given(st.fixed_dictionaries({'pieces': st.lists(st.tuples(st.integers(0, len(PIECES) - 1), st.integers(1, 3)), min_size=2, max_size=20), 'defined': st.booleans(),
                                  'cuts': st.lists(st.tuples(st.integers(0, 60), st.integers(0, 60)), min_size=1, max_size=4), 'nl': st.booleans()}), quick=1200)
def cut_anywhere(case):
    """any lines moved to a file: parts of macros and repeats, sections, exports"""
    seen, lines, pieces = set(), [], list(case['pieces'])
    if case['defined']:
        pre = [n for n in range(len(PIECES)) if PIECES[n].startswith(('.macro', '.define'))]
        pieces = [[n, k] for n in pre for k in sorted({k for i, k in pieces})] + [p for p in pieces if not PIECES[p[0]].startswith(('.org', '.goto', 'BRA'))]
        pieces += [[PIECES.index('lab%d:'), k] for k in sorted({k for i, k in pieces})]
    for i, k in pieces:
        t = PIECES[i].replace('%d', str(k))
        if t.startswith(('lab', '.section')) and t in seen:
            continue
        seen.add(t)
        lines += t.split('\n')
    top, files = list(lines), {}
    for n, (i, j) in enumerate(case['cuts']):
        i, j = sorted((i % (len(top) + 1), j % (len(top) + 1)))
        # a file of labels in a repeated block would define them again, as its text would not
        if i < j:
            files['f%d.S' % n] = '\n'.join(top[i:j]) + '\n' * case['nl']
            top[i:j] = ['.include "f%d.S"' % n]
    state = lambda r: [r.ok] + ([r.image.hex(), labels_of(r.asm), r.asm.pc, [[n, s['start'], s['offset'], s['size']] for n, s in r.asm.sections.items()], list(r.asm.exports), r.asm.labels] if r.ok else [])
    with scratch():
        for n, t in files.items():
            with open(n, 'w') as f:
                f.write(t)
        ra, rb = run(M.make_cpu(), '\n'.join(lines)), run(M.make_cpu(), '\n'.join(top))
    if state(ra) != state(rb):
        fail('program %r: %r, as %r with files %r: %r' % ('\n'.join(lines), state(ra) if ra.ok else ra, top, files, state(rb) if rb.ok else rb))
    return ra.ok and len(files) > 0 and len(ra.image) > 0
