"""C17 logging reports what is assembled and changes nothing"""
import contextlib
import io
import re
from hypothesis import strategies as st
from harness.core import Registry
from harness.lib import *
from harness import model as M, gen as G, scale
from harness.corpus import CORPUS
from necroassembler import Assembler, opcode as necro_opcode

REG = Registry('C17', 'generated programs with .log statements at generated positions, on the test CPU (against the emissions the independent evaluator computes) and with every instruction text of '
               'the corpus on every CPU; the same program with blank lines in place of the .log statements must give the same image, labels or error. Non-trivial: at least two reported statements that '
               'emit bytes while logging is on.',
               ['text values of labels (.db_to_ascii of a label) are not reported when they are resolved', 'only locations, bytes and offsets of the report are compared, not its wording'])

LOGS = ['.log', '.log', '.log on', '.log on', '.LOG ON', '.log off', '.log Off', '.log on ; from here', '\t.Log\tOFF', '.log oFF', '.log ofF', '.log oN', '.LOG On', '.loG OFf', '.log on']
ENTRY = re.compile(r'^(not )?assembled (.*?)at line (\d+)(.*?)(?: -> \(([^()]*)\) at 0x([0-9a-fA-F]+))?$')
FIX = re.compile(r'^label (.*) translated to \(([^()]*)\) at address 0x([0-9a-fA-F]+)$')


def hexlist(t):
    return bytes(int(x, 16) for x in t.split(',') if x)


def logged(cls, text, name=None):
    """-> Res, entries, fixups, bytes before linking"""
    asm = new(cls)
    buf = io.StringIO()
    pre = b''
    try:
        with contextlib.redirect_stdout(buf):
            asm.assemble(text, name)
            pre = bytes(asm.assembled_bytes)
            asm.link()
        r = Res(True, bytes(asm.assembled_bytes), asm=asm)
    except Exception as exc:
        r = Res(False, exc=exc, asm=asm)
    entries, fixups = [], []
    for line in buf.getvalue().split('\n'):
        m = ENTRY.match(line)
        if m:
            if name is not None and name not in line:
                fail('%r: no source name in %r' % (text, line))
            data = hexlist(m[5]) if m[5] is not None else b''
            if bool(m[1]) != (not data):
                fail('%r: contradictory report %r' % (text, line))
            entries.append((int(m[3]), int(m[6], 16) if m[6] else None, data))
            continue
        m = FIX.match(line)
        if m:
            fixups.append((int(m[3], 16), hexlist(m[2])))
        elif line:
            fail('%r: report line not understood: %r' % (text, line))
    return r, entries, fixups, pre


def same(a, b, what):
    if a.ok != b.ok or a.ok and (a.image != b.image or labels_of(a.asm) != labels_of(b.asm) or a.asm.pc != b.asm.pc):
        fail('%s: with .log %r, without %r' % (what, a, b))
    if not a.ok and (type(a.exc) is not type(b.exc) or str(a.exc) != str(b.exc) or bytes(a.asm.assembled_bytes) != bytes(b.asm.assembled_bytes)):
        fail('%s: with .log %r, without %r' % (what, a, b))


@st.composite
def cases(draw):
    p = draw(G.program(repeat=True, bounded=False))
    n = len(p['prog'])
    return {'cfg': p['cfg'], 'prog': p['prog'], 'name': draw(st.sampled_from([None, 'some file.S'])),
            'logs': draw(st.lists(st.tuples(st.integers(0, n), st.sampled_from(LOGS)), min_size=1, max_size=5))}


@REG.given(cases(), quick=1200)
def report(case):
    """each statement is reported with its line, bytes and offset; nothing else changes"""
    cfg, prog = case['cfg'], case['prog']
    cls = M.make_cpu(cfg['be'], cfg['fill'], cfg['suffixes'])
    lines, plain, want = [], [], []
    m = M.Model(cfg['be'], cfg['fill'])
    on = False
    rejected = False

    def emit(at, line):
        if on:
            want.append((line, at if len(m.bytes) > at else None, bytes(m.bytes[at:])))
    try:
        for i in range(len(prog) + 1):
            for pos, t in case['logs']:
                if pos == i:
                    lines.append(t)
                    plain.append('')
                    on = 'off' not in t.lower()
                    emit(len(m.bytes), len(lines))
            if i == len(prog):
                break
            s = prog[i]
            ls = [' '.join(t) for t in M.r_stmt(s)]
            lines += ls
            plain += ls
            first = len(lines) - len(ls) + 1
            at = len(m.bytes)
            if s[0] != 'repeat':
                m.stmt(s)
                emit(at, first)
                continue
            n = m.directive_num(s[1])
            emit(at, first)
            k = first + 1
            for x in s[2]:
                at = len(m.bytes)
                m.stmt(x)
                emit(at, k)
                k += len(M.r_stmt(x))
            at = len(m.bytes)
            m.stmt(['repeat', M.num(max(1, n - 1)), [x for x in s[2] if x[0] != 'label']]) if n > 1 else None
            emit(at, k)
        m.finish()
        pre = bytes(m.bytes)
        m.link()
    except M.Reject:
        rejected = True
        if i < len(prog):
            rest = [' '.join(t) for s in prog[i + 1:] for t in M.r_stmt(s)]
            lines += rest
            plain += rest
    text = '\n'.join(lines) + '\n'
    r, entries, fixups, before = logged(cls, text, case['name'])
    r0 = Res(False)
    asm = new(cls)
    try:
        with quiet():
            asm.assemble('\n'.join(plain) + '\n', case['name'])
            asm.link()
        r0 = Res(True, bytes(asm.assembled_bytes), asm=asm)
    except Exception as exc:
        r0 = Res(False, exc=exc, asm=asm)
    same(r, r0, text)
    if rejected:
        return False
    if not r.ok:
        fail('%s: expected %s, got %r' % (text, hexs(m.bytes), r))
    if entries != want:
        fail('%s: reported (line, offset, bytes)\n%s\nexpected\n%s' % (text, entries, want))
    final = bytes(m.bytes)
    fx = sorted((f[0], final[f[0]:f[0] + f[1]]) for f in m.fixups if not f[4]) if on else []
    if sorted(fixups) != fx:
        fail('%s: reported resolutions %s, expected %s' % (text, sorted(fixups), fx))
    return sum(1 for e in want if e[2]) > 1


@REG.given(scale.case(30, 150, logs=st.lists(st.tuples(st.integers(0, 150), st.sampled_from(LOGS)), min_size=1, max_size=8)), quick=25)
def large(case):
    """the report of a large program"""
    prog = [s for s in scale.program(case, layout=0.1) if not (s[0] == 'repeat' and s[1]['v'][0][1] > 40)]
    return report({'cfg': {'be': case['be'], 'fill': case['fill'], 'suffixes': False}, 'prog': prog, 'name': None, 'logs': case['logs']})


@REG.enum(lambda tier: [[c, k] for c in sorted(CORPUS) for k in range(0, len(CORPUS[c]), 12)])
def every_cpu(case):
    """the reports of consecutive statements are the consecutive bytes of the image"""
    c, k = case
    part = [' '.join(x) for x in CORPUS[c][k:k + 12]]
    head = '.org 4096\nlab: .dw lab\n.align 4\n'
    r, entries, fixups, pre = logged(cpu(c), head + '.log\n' + '\n'.join(part) + '\n', 'f.S')
    r0 = run(cpu(c), head + '\n' + '\n'.join(part) + '\n')
    if r.ok != r0.ok or r.ok and r.image != r0.image:
        fail('%s %r: with .log %r, without %r' % (c, part, r, r0))
    if not r.ok:
        return False
    if [e[0] for e in entries] != list(range(4, 5 + len(part))) and len(entries) == len(part) + 1:
        fail('%s %r: reported lines %r' % (c, part, [e[0] for e in entries]))
    if len(entries) != len(part) + 1:
        fail('%s %r: %d reports for %d statements' % (c, part, len(entries), len(part) + 1))
    at = 4
    for line, off, data in entries[1:]:
        if data:
            if off != at:
                fail('%s %r: line %d reported at %d, is at %d' % (c, part, line, off, at))
            at += len(data)
    if at != len(pre) or b''.join(e[2] for e in entries) != pre[4:]:
        fail('%s %r: reported %s, before linking %s' % (c, part, b''.join(e[2] for e in entries).hex(), pre[4:].hex()))
    return True


@REG.given(st.fixed_dictionaries({'n': st.integers(0, 3), 'm': st.integers(1, 4), 'log': st.sampled_from(LOGS), 'where': st.sampled_from(['top', 'inc', 'before'])}), quick=100)
def nested(case):
    """includes and macro calls"""
    inc = '.db 1\n' * case['n'] + 'there: NOP\n'
    top = '.macro mm v\nLD16 v\n.endmacro\n@.include "i.S"\n#mm there\nmm 5\n'
    with scratch():
        with open('i.S', 'w') as f:
            f.write((case['log'] + '\n' if case['where'] == 'inc' else '') + inc * 1)
        t = top.replace('@', case['log'] + '\n' if case['where'] == 'before' else '\n').replace('#', case['log'] + '\n' if case['where'] == 'top' else '\n')
        r, entries, fixups, pre = logged(M.make_cpu(), t)
        with quiet():
            r0 = run(M.make_cpu(), top.replace('@', '\n').replace('#', '\n'))
        same(r, r0, t)
    on = 'off' not in case['log'].lower()
    if not on:
        if entries or fixups:
            fail('%r reports %r' % (t, entries))
        return False
    data = [e for e in entries if e[2]]
    n = case['n']
    x = b'\1' * n + b'\xea'
    calls = [(7, n + 1, b'\x20\0\0'), (8, n + 4, b'\x20\5\0')]
    singles = [(i + 1, i, x[i:i + 1]) for i in range(n + 1)]
    shift = [(l + 1, o, b) for l, o, b in singles]
    want = {'top': calls, 'before': singles + [(5, 0, x)] + calls, 'inc': shift + [(5, 0, x)] + calls}[case['where']]
    if data != want:
        fail('%r with %r: reported %r, expected %r' % (t, case, data, want))
    return True


@REG.enum(lambda tier: ['foo', '1', '"on"', 'onn', 'of', 'true', 'o', 'lab'])
def bad_argument(arg):
    """an argument that is neither on nor off is rejected and leaves logging as it was"""
    for state in ('on', 'off'):
        text = 'lab: .log %s\n.db 1\n.log %s\n.db 2\n' % (state, arg)
        r, entries, fixups, pre = logged(M.make_cpu(), text)
        if r.ok:
            fail('%r is accepted' % text)
        expect_error(r, text)
        if bytes(r.asm.assembled_bytes) != b'\1':
            fail('%r: rejected but image %s' % (text, hexs(r.asm.assembled_bytes)))
    return True


@REG.enum(lambda tier: [[n, k] for n in (17, 255, 256, 1000, 4095, 4096, 4097, 5000, 65535, 65536, 70000, 200000) for k in ('incbin', 'fill', 'db', 'align', 'org', 'repeat', 'macro')
                        if n < {'db': 20000, 'repeat': 2000, 'macro': 2000}.get(k, 1 << 30)])
def large_blocks(case):
    """statements that give thousands of bytes"""
    n, k = case
    data = bytes(i * 7 % 256 for i in range(n))
    head, want = '', None
    if k == 'incbin':
        stmt = '.incbin "blob.bin"'
    elif k == 'fill':
        stmt, data = '.fill %d 7' % n, b'\7' * n
    elif k == 'db':
        stmt = '.db ' + ' '.join(map(str, data))
    elif k == 'align':
        head, stmt, data = '.org 1\n', '.align %d' % n, bytes(n - 1)
    elif k == 'org':
        head, stmt, data = '.org 0\n', '.org 8 %d' % (n + 7), b''
    elif k == 'repeat':
        stmt, data = '.repeat %d\n.db 5\n.endrepeat' % n, b'\5' * n
    else:
        head, stmt, data = '.macro mm\n' + '.db_\n'.replace('.db_', 'NOP') * n + '.endmacro\n', 'mm', b'\xea' * n
    head = '.org 3\nthree:\n.org 0\n' + head
    text = head + '.log\n.db 1\n' + stmt + '\n.db 2\n.dw three\n'
    with scratch():
        with open('blob.bin', 'wb') as f:
            f.write(data)
        r, entries, fixups, pre = logged(M.make_cpu(), text)
    if not r.ok:
        fail('%s of %d: %r' % (k, n, r))
    line = head.count('\n') + 2
    after = line + 2 + stmt.count('\n')
    want = [(line, 0, b'\1')] if k != 'align' else [(line, 0, b'\1')]
    if k == 'align':
        # the byte before it is at 1
        data = data[1:]
    last = [(after, 1 + len(data), b'\2'), (after + 1, 2 + len(data), b'\0\0')]
    blocks = {'repeat': [(line + 2, 1, b'\5'), (line + 3, 2, data[1:])] if n > 1 else [], 'org': []}.get(k, [(line + 1, 1, data)])
    got = [e for e in entries if e[2]]
    if k == 'org':
        # the bounded block is filled at the end
        got, last = got[:3], [(after, 1, b'\2'), (after + 1, 2, b'\0\0')]
    if got != want + blocks + last:
        short = lambda es: [(a, b, len(c), bytes(c[:4]).hex()) for a, b, c in es]
        fail('%s of %d bytes: reported (line, offset, length, start) %r, expected %r' % (k, n, short(got), short(want + blocks + last)))
    if fixups != [(last[1][1], b'\3\0')]:
        fail('%s of %d bytes: reported resolutions %r, expected a word of 3 at %d' % (k, n, fixups, last[1][1]))
    return True


STMTS = ['.db 1', '.dw lab', '.define V 3', '.ram 2', 'NOP', '', 'LD16 lab', '.log off', '.log on', '.log', '.align 4', '.macro mm\nNOP\nNOP\n.endmacro', 'here:', '.fill 3 1']


@REG.given(st.fixed_dictionaries({'calls': st.lists(st.lists(st.integers(0, len(STMTS) - 1), max_size=5), min_size=2, max_size=5), 'first': st.sampled_from(['', '.log', '.log on', '.log off'])}), quick=250)
def several_calls(case):
    """a program given in several calls to assemble: logging stays as it was left, and the lines are those of each call"""
    seen, calls = set(), []
    for i, c in enumerate(case['calls']):
        ls = [case['first']] if i == 0 else []
        for k in c:
            t = STMTS[k]
            if t[:1] == '.' and t.startswith('.macro') or t == 'here:':
                if t in seen:
                    continue
                seen.add(t)
            ls.append(t)
        calls.append('\n'.join(ls) + '\n')
    calls.append('lab: .db 9\n')

    def go(texts, link=True):
        asm, out = new(M.make_cpu()), []
        for t in texts:
            buf = io.StringIO()
            at = len(asm.assembled_bytes)
            with contextlib.redirect_stdout(buf):
                asm.assemble(t)
            out.append((t, at, bytes(asm.assembled_bytes)[at:], [m for m in map(ENTRY.match, buf.getvalue().split('\n')) if m], buf.getvalue()))
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            asm.link()
        return asm, out, buf.getvalue()
    asm, out, linked = go(calls)
    plain, _, quiet_link = go([re.sub(r'\.log[^\n]*', '', t) for t in calls])
    if bytes(asm.assembled_bytes) != bytes(plain.assembled_bytes) or labels_of(asm) != labels_of(plain):
        fail('calls %r give %s, without .log %s' % (calls, hexs(asm.assembled_bytes), hexs(plain.assembled_bytes)))
    if quiet_link or any(o[4] for o in _):
        fail('calls %r report without .log' % calls)
    on, emitted = False, 0
    for t, at, data, entries, text in out:
        want, macro = [], False
        for n, l in enumerate(t.split('\n')[:-1], 1):
            if l.startswith('.log'):
                on = 'off' not in l
            if l.startswith('.macro'):
                macro = True
            if on and l and not (macro and l == 'NOP'):
                want += [n] * (2 if l.startswith('lab:') else 1)
            if l.startswith('.endmacro'):
                macro = False
        # how the lines of a macro are reported is not of interest here
        inside = [n for n, l in enumerate(t.split('\n')[:-1], 1) if l == 'NOP' and '.macro' in t]
        got = [int(e[3]) for e in entries if int(e[3]) not in inside]
        want = [n for n in want if n not in inside]
        if got != want:
            fail('calls %r: in %r the lines %r are reported, expected %r' % (calls, t, got, want))
        for e in entries:
            if e[5] is None:
                continue
            k, b = int(e[6], 16), hexlist(e[5])
            if not at <= k <= at + len(data) - len(b) or data[k - at:k - at + len(b)] != b:
                fail('calls %r: %s reported at %d, the call gave %s at %d' % (calls, b.hex(), k, data.hex(), at))
    if bool(linked) != (on and '.dw lab' in ''.join(calls) or on and 'LD16 lab' in ''.join(calls)):
        fail('calls %r: logging %s, linking reports %r' % (calls, on, linked))
    return any(o[3] for o in out[1:])


@REG.given(st.fixed_dictionaries({'be': st.booleans(), 'on': st.sampled_from(['before', 'call']), 'org': st.sampled_from([0, 3, 0x100, 0x7ffe]), 'pre': st.integers(0, 4), 'lab': st.integers(0, 1 << 40),
                                  'fields': st.lists(st.tuples(st.sampled_from([1, 2, 3, 4, 5, 8]), st.integers(0, 3), st.integers(0, 63), st.integers(1, 64), st.booleans()), min_size=1, max_size=3)}), quick=600)
def fixup_fields(case):
    """each resolution is reported with its address and all the bytes of its field, whatever part of it the value takes"""
    fields = []
    for size, gap, low, width, whole in case['fields']:
        low %= size * 8
        width = min(width, size * 8 - low)
        fields.append((size, gap, None if whole else (low + width - 1, low), size * 8 if whole else width))

    def emit(self, instr):
        at = 1
        blob = b'\xc3'
        for size, gap, bits, width in fields:
            at += gap
            self.parse_integer_or_label(label='lab', size=size, bits_size=width, bits=bits, offset=at)
            blob += bytes(gap) + bytes(size)
            at += size
        return blob
    cls = type('Cpu', (Assembler,), {'big_endian': case['be'], 'emit': necro_opcode('EMIT')(emit)})
    lab = case['lab'] % (1 << min([40] + [f[3] for f in fields]))
    log = '.log\n'
    texts = ['.org %d\n' % case['org'] + (log if case['on'] == 'before' else '') + '.db 1\n' * case['pre'] + 'EMIT\n.db 2\n', (log if case['on'] == 'call' else '') + '.org %d\nlab:' % lab]
    asm, buf = new(cls), io.StringIO()
    with contextlib.redirect_stdout(buf):
        for t in texts:
            asm.assemble(t)
        asm.link()
    got = [(int(m[3], 16), hexlist(m[2])) for m in map(FIX.match, buf.getvalue().split('\n')) if m]
    at, want, image = case['pre'] + 1, [], bytearray(b'\1' * case['pre'] + b'\xc3')
    for size, gap, bits, width in fields:
        at += gap
        data = (lab << (bits[1] if bits else 0)).to_bytes(size, 'big' if case['be'] else 'little')
        want.append((at, data))
        image += bytes(gap) + data
        at += size
    image += b'\2'
    what = 'fields (size, gap, bits, width) %r, %s, lab = %d, %r' % (fields, 'big endian' if case['be'] else 'little endian', lab, texts)
    if bytes(asm.assembled_bytes) != bytes(image):
        fail('%s: image %s, expected %s' % (what, bytes(asm.assembled_bytes).hex(), bytes(image).hex()))
    if sorted(got) != sorted(want):
        fail('%s: reported resolutions %r, expected %r' % (what, got, want))
    return len(fields) > 1
