"""C11 rejected statements: error class, location, and nothing emitted."""
import os
from hypothesis import strategies as st
from harness.core import Registry
from harness.lib import *
from harness import slots as S, model as M

REG = Registry('C11', 'arbitrary instruction texts (real mnemonics with token soup, mutated valid statements, unknown mnemonics, raw characters) on every CPU, and programs with one bad statement '
               'at a generated position of a main or included file. Oracle: the error class, the location computed while the text is generated, the image and location counter of the preceding '
               'statements. Non-trivial: the text was rejected after at least one byte of program (fuzz), every located case.',
               ['a rejected data directive may already have emitted its earlier operands', 'text refused by the tokenizer is refused before any statement of that source is assembled'])

CPUS = ['6502', 'lr35902', 'z80', '8086', 'x86', '68000', 'mips32', 'thumb', 'ppc']
_mn = {}


def mnemonics(c):
    if c not in _mn:
        _mn[c] = sorted(new(cpu(c)).instructions)
    return _mn[c]


REGS = {'6502': ['A', 'X', 'Y', '#5', '#$1', '#'], 'lr35902': ['A', 'B', 'HL', 'SP', 'HL+', 'NZ', 'C', 'SP+5', 'SP-'], 'z80': ['A', 'IX', 'IY', 'HL', "AF'", 'AF', 'NZ', 'IX+5', 'I', 'R'],
        '8086': ['AX', 'AL', 'BX', 'SI', 'CS', 'CS:', '+', '-', 'BYTE', 'REP', 'BX+SI', '5:6', 'FAR'], 'x86': ['EAX', 'RAX', 'AL', 'AX', 'CR0', 'EBP', 'R9', 'XMM0', '+', '*4', 'ES', 'CL'],
        '68000': ['D0', 'A7', 'SP', '#5', '#$12', 'PC', 'CCR', 'SR', '(A0)+', 'D0/D1', '#', 'D1.w', '$5', '+', '-', '4.w'], 'mips32': ['$t0', '$a0', '$zero', '$0', '$31', '4($sp)', '$'],
        'thumb': ['r0', 'R7', 'sp', 'pc', 'lr', '#5', '#0x1', 'r0-r3', 'r12', '#', '#-1', 'r3-r1', '='], 'ppc': ['r0', 'r31', 'f3', 'cr0', '4(r3)', 'f31', '32', '-1']}
COMMON = ['5', '0', '-1', '255', '256', '65536', '4294967296', '$ff', '0xff', '%101', '0b1', '0x', '$', '%', 'lab', 'nolab', '<lab', '>lab', 'lab+1', 'lab-', 'lab/0', '1/0', '5+', '<', '>', '+', '-', '*', '&', '|',
          '(', ')', '[', ']', '{', '}', "'a'", '"str"', "'", '"', '#', '!', '--5', '+-5', '.', ',', '..', 'A', '0b2', '09', '1e5', '0xfg', '99999999999999999999', 'é', '\x00', '~', '=', '@', '@7', '@8', '5h', 'ffh', '١', '²']


@st.composite
def soup(draw):
    c = draw(st.sampled_from(CPUS))
    k = draw(st.integers(0, 9))
    if k < 5:
        toks = draw(st.lists(st.sampled_from(REGS[c] + REGS[c] + COMMON), max_size=6))
        sep = draw(st.sampled_from([' ', ',', ', ', '']))
        text = draw(st.sampled_from(mnemonics(c))) + ' ' + sep.join(toks)
    elif k < 8:
        # a valid statement, damaged
        keys = S.keys('8086' if c == 'x86' else c, False) + S.keys('8086' if c == 'x86' else c, True)
        text = draw(st.sampled_from(keys)).replace('{L}', draw(st.sampled_from(['lab', '5', 'nolab', '70000', '-5', '', 'lab/0', '$10', '0x10'])))
        for _ in range(draw(st.integers(1, 3))):
            i = draw(st.integers(0, len(text)))
            e = draw(st.integers(0, 4))
            x = draw(st.sampled_from(REGS[c] + COMMON))
            if e == 0: text = text[:i] + text[i + 1:]
            elif e == 1: text = text[:i] + x + text[i:]
            elif e == 2: text = text[:i] + ' ' + x
            elif e == 3: text = text[:i] + x + text[i + len(x):]
            else: text = text[:i] + text[i:].swapcase()
    elif k == 8:
        text = draw(st.text(max_size=20))
    else:
        text = draw(st.sampled_from(mnemonics(c)))[:draw(st.integers(0, 9))] + draw(st.text(alphabet='ABXYZabc019_.#$%()[]+-*/&|<>!@^`~?=\'"', max_size=12))
    text = ''.join(x for x in text if x not in '\n\r;')
    if text.lstrip(' \t,').startswith('.'):
        text = 'x' + text
    return {'cpu': c, 'text': text, 'lines': draw(st.integers(0, 5)), 'file': draw(st.sampled_from([None, 'a.S', 'dir/some file.asm']))}


PREFIX = '.org 32\n.fill 8 7\nlab:\n.dw lab\n.fill 6 7\n'


def where(line, name):
    return 'at line %d%s:' % (line, '' if name is None else ' of ' + name)


def located(exc, line, name, what):
    if not isinstance(exc, AssemblerException):
        fail('%s: %s instead of an assembler error: %s' % (what, type(exc).__name__, str(exc)[:200]))
    s = str(exc)
    if where(line, name) in s + ':':
        return
    fail('%s: the error does not tell %r: %s' % (what, where(line, name), s[:300]))


def link_of(asm):
    try:
        asm.link()
    except Exception as exc:
        fail('linking fails: %r' % exc)
    return bytes(asm.assembled_bytes)


def nul(name):
    return '' if name is None else name


@REG.given(soup(), quick=5000)
def fuzz(case):
    """any instruction text assembles or is rejected properly"""
    c, text, name = case['cpu'], case['text'], case['file']
    asm = new(cpu(c))
    with quiet():
        asm.assemble(PREFIX)
        before, pc, labels = bytes(asm.assembled_bytes), asm.pc, labels_of(asm)
        what = '%s %r' % (c, text)
        try:
            asm.assemble('\n' * case['lines'] + text + '\n', name)
        except Exception as exc:
            located(exc, case['lines'] + 1, name, what)
            if ':' in text:
                return True
            if bytes(asm.assembled_bytes) != before or asm.pc != pc or labels_of(asm) != labels:
                fail('%s is rejected (%s) but leaves %s, pc %d' % (what, exc, hexs(asm.assembled_bytes), asm.pc))
            # and the program can go on as if the statement had not been there
            big = asm.big_endian
            try:
                asm.assemble('.db 90\nafter: .dw after\n.fill 8 7\n')
                asm.link()
            except Exception as exc2:
                fail('%s is rejected (%s), then a correct program fails: %r' % (what, exc, exc2))
            lab, aft = ((v).to_bytes(2, 'big' if big else 'little') for v in (40, 49))
            want = before[:8] + lab + before[10:] + b'\x5a' + aft + b'\7' * 8
            if bytes(asm.assembled_bytes) != want:
                fail('%s is rejected (%s), then a correct program gives %s instead of %s' % (what, exc, hexs(asm.assembled_bytes), hexs(want)))
            return True
        now = bytes(asm.assembled_bytes)
        if now[:len(before)] != before or asm.pc - pc != len(now) - len(before):
            fail('%s: accepted, image %s -> %s, pc %d -> %d' % (what, hexs(before), hexs(now), pc, asm.pc))
        try:
            asm.link()
        except AssemblerException:
            return False
        except Exception as exc:
            fail('%s: linking raises %s instead of an assembler error: %s' % (what, type(exc).__name__, str(exc)[:200]))
    return False


@REG.enum(lambda tier: [[c, m] for c in CPUS for m in mnemonics(c)])
def unknown(case):
    """names near a mnemonic are not that mnemonic"""
    c, m = case
    names = set(mnemonics(c))
    n = 0
    for bad in (m + 'QQ', 'ZQ' + m, m + '_', m[:-1] + 'ßq', m + '0Q', m.replace(m[0], m[0] + 'Q_', 1), '_' + m):
        if bad.upper() in names or bad in names:
            continue
        for ops in ('', ' 5', ' A,5' if n % 2 else ' (lab)'):
            n += 1
            asm = new(cpu(c)) if n == 1 else asm
            start = bytes(asm.assembled_bytes), asm.pc
            try:
                asm.assemble('\n' * (n % 3) + bad + ops, 'f%d.S' % n)
            except Exception as exc:
                located(exc, n % 3 + 1, 'f%d.S' % n, '%s %r' % (c, bad + ops))
            else:
                fail('%s %r: an unknown instruction is assembled to %s' % (c, bad + ops, hexs(asm.assembled_bytes)))
            if (bytes(asm.assembled_bytes), asm.pc) != start:
                fail('%s %r: rejected, but emitted %s' % (c, bad + ops, hexs(asm.assembled_bytes)))
    return n, n


DIRECTIVES = ['org', 'db', 'dw', 'dd', 'byte', 'word', 'fill', 'align', 'ram', 'goto', 'upto', 'repeat', 'endrepeat', 'macro', 'endmacro', 'define', 'include', 'incbin', 'section', 'export', 'db_to_ascii']


@REG.enum(lambda tier: [[c, d] for c in CPUS + ['gameboy', 'nes', 'sms', 'psx'] for d in DIRECTIVES])
def unknown_directive(case):
    """names near a directive are not that directive"""
    c, d = case
    asm = new(cpu(c))
    for i, bad in enumerate(('.' + d + 'q', '.q' + d, '.' + d + '_', '..' + d, '.' + d[:-1] + 'Q', '.')):
        for ops in ('', ' 5', ' "x" 5'):
            try:
                asm.assemble('\n' * i + bad + ops)
            except Exception as exc:
                located(exc, i + 1, None, '%s %r' % (c, bad + ops))
            else:
                fail('%s %r: an unknown directive is accepted' % (c, bad + ops))
            if asm.assembled_bytes or asm.pc or asm.labels:
                fail('%s %r: rejected but emitted %s' % (c, bad + ops, hexs(asm.assembled_bytes)))
    return True


def bad_arguments():
    out = []

    def add(name, *args):
        out.extend([name, a] for a in args)
    for name in ('org', 'goto', 'upto', 'fill'):
        add(name, '', '5 1 1', '5 1 lab', '5 "x"', '"x"', 'lab', 'lab 5', '99999999999999999999', '1/0', '-', '5 1/0', 'nolab', '256/0')
    add('org', '2 1', '5 lab', '5 nolab')
    add('goto', '0', '4', '5 256', '9 lab', '9 -129', '9 nolab', '9 "x"', '9 1 2')
    add('upto', '0', '5 256', '9 lab', '9 -129', '9 nolab', '9 1 2')
    add('fill', '5 256', '5 lab', '5 -129', '0 256', '5 nolab')
    for name in ('align', 'ram', 'repeat'):
        add(name, '', '0', '1 1', '4 lab', 'lab', 'nolab', '"x"', "'ab'", '99999999999999999999', '1/0', '-', '2 2 2', '5-5', '-1', '-5', '2-3')
    add('endrepeat', '')
    add('endmacro', '')
    add('define', '', 'qq', 'qq 1 2')
    add('include', '', '"x.S" "x.S"', '"x.S" 1', 'x.S x.S')
    add('incbin', '', '"x.bin" "x.bin"', '"x.bin" 1', 'x.bin 0 1')
    for name in ('inccsv', 'inccsv_le16'):
        add(name, '', '"x.csv" "x.csv"', '"x.csv" 1', '"lab.csv"', '"big.csv"', '"neg.csv"', '"text.csv"', '"blank.csv"')
    add('inccsv', '"word.csv"')
    add('incjson', '', '"x.json"', '"x.json" "a" "a"', '"x.json" "a" 1', '"x.json" "big"', '"x.json" "neg"', '"x.json" "lab"', '"x.json" "word"')
    add('section', '', '"s"', '"s" R 5 5', '"s" R lab', '"s" Q', '"s" RWZ', '"s" r5', '"s" "R"', '"s" R nolab', '"s" R "x"', 's -')
    add('export', '', 'lab lab', 'lab 1', '"lab" "lab"')
    for name in ('include', 'incbin', 'inccsv', 'inccsv_le16'):
        add(name, '"nofile"', 'nofile.x', '"."', '"x.S/x"')
    add('include', '"latin.S"')
    add('inccsv', '"latin.S"')
    add('incjson', '"nofile" "a"', '"." "a"', '"x.json" "nokey"', '"x.json" "a.b"', '"x.json" "deep.nokey"', '"x.json" "deep"', '"x.json" "number"', '"x.json" "float"', '"x.json" "none"',
        '"x.json" "lists"', '"x.json" "nothing"', '"x.json" "dicts"', '"x.json" "number.a"', '"x.S" "a"', '"x.json" ""', '"x.json" "deep.list.0"')
    add('macro', '')
    add('log', 'on off', 'off 1', 'on on', 'maybe', '"on"', '1', 'lab')
    return out


FILES = {'x.S': '.db 5\n', 'x.bin': 'abc', 'x.csv': '1,2\n3\n', 'lab.csv': '1,lab\n', 'big.csv': '1,65536\n', 'neg.csv': '1,-32769\n', 'text.csv': '1,"a b"\n', 'blank.csv': '1,,2\n', 'word.csv': '1\n256\n',
         'latin.S': b'.db 1 ; caf\xe9\n',
         'x.json': '{"deep": {"list": [1, 2]}, "number": 5, "float": [1, 2.5], "none": [1, null], "lists": [1, [2]], "nothing": null, "dicts": [1, {"a": 1}], "a": [1, 2], "big": [1, 65536], "neg": [1, "-32769"], "lab": [1, "lab"], "word": [1, 256]}'}


@REG.enum(lambda tier: bad_arguments())
def directive_arguments(case):
    """a directive with a wrong number or kind of arguments is rejected, and the program can go on"""
    name, args = case
    text = ('.%s %s' % (name, args)).rstrip()
    n = len(text) % 3
    with scratch(), quiet():
        for f, data in FILES.items():
            with open(f, 'wb') as fd:
                fd.write(data if isinstance(data, bytes) else data.encode())
        for c in ('6502', '68000', 'gameboy'):
            asm = new(cpu(c))
            asm.assemble('.org 4\nlab: .db 1\n')
            state = bytes(asm.assembled_bytes), asm.pc, labels_of(asm), dict(asm.sections), list(asm.exports), dict(asm.defines), sorted(asm.macros), asm.log
            try:
                asm.assemble('\n' * n + text + '\n', 'f.S')
            except Exception as exc:
                located(exc, n + 1, 'f.S', '%s %r' % (c, text))
            else:
                fail('%s: %r is accepted: image %s, pc %d' % (c, text, hexs(asm.assembled_bytes), asm.pc))
            now = bytes(asm.assembled_bytes), asm.pc, labels_of(asm), dict(asm.sections), list(asm.exports), dict(asm.defines), sorted(asm.macros), asm.log
            if now != state:
                fail('%s: %r is rejected but changes %r to %r' % (c, text, state, now))
            asm.assemble('.db 2\nafter: .db 3\n')
            r = link_of(asm)
            if r != b'\1\2\3' or labels_of(asm) != {'lab': 4, 'after': 6}:
                fail('%s: after %r is rejected, a correct program gives %r, labels %r' % (c, text, r, labels_of(asm)))
    return True


# (cpu, what is needed before, directive, what it is for after, bytes of the whole program)
OWN = [('gameboy', '.fill 256', '.cartridge', None), ('nes', '', '.cartridge', None), ('gameboy', '.fill 256\n.cartridge', '.cartridge_title', ' "ABC"'), ('gameboy', '.fill 256\n.cartridge', '.cartridge_type', ' 3'),
       ('nes', '.cartridge', '.cartridge_prg_roms', ' 1'), ('x86', 'MOV EAX,EBX', '.bits', ' 32'), ('x86', '.bits 32', '.bits', ' 16'), ('6502', '.macro m\nLDA #5', '.endmacro', None), ('x86', '.repeat 2\n.db 1', '.endrepeat', None)]
WRONG = {None: ['1', '"x"', 'lab', '0 0', 'x y z'], ' "ABC"': ['', 'lab', '256', '"ABC" lab', '-129', 'nolab', '"ABCDEFGHIJKLMNOPQ"', '"ABCDEFGHIJKLMNOP" 1'], ' 3': ['', '1 2', '256', '-129', 'lab', '"ab"', '1 lab'],
         ' 1': ['', '1 2', '256', 'lab', '-129', '"ab"'], ' 32': ['', '8', '0', '128', '16 32', '32 32', 'lab', '"32"', '-32', '65568', '33', '31', '32 lab'], ' 16': ['', '16 16', '17', 'lab', '272', '16 "x"']}


@REG.enum(lambda tier: [[i, a, n] for i, o in enumerate(OWN) for a in WRONG[o[3]] for n in (0, 3)])
def own_directive_arguments(case):
    """the same for the directives of single processors and machines, and the ends of macros and repeats: after the refused one, the correct one works"""
    i, args, n = case
    c, before, name, right = OWN[i]
    head = 'lab: ' + before + '\n' * (n + 1)
    tail = name + (right or '') + '\n' + {'x86': 'MOV EAX,EBX\n', '6502': 'm\nm\n'}.get(c, '') + '.db 9\n'
    want = run(cpu(c), head + tail)
    if not want.ok:
        fail('%s %r: %r' % (c, head + tail, want))
    with quiet():
        asm = new(cpu(c))
        asm.assemble(head)
        text = '%s %s' % (name, args)
        state = bytes(asm.assembled_bytes), asm.pc, labels_of(asm)
        try:
            asm.assemble('\n' * n + text + '\n', 'f.S')
        except Exception as exc:
            located(exc, n + 1, 'f.S', '%s %r after %r' % (c, text, before))
        else:
            fail('%s: %r is accepted after %r' % (c, text, before))
        if (bytes(asm.assembled_bytes), asm.pc, labels_of(asm)) != state:
            fail('%s: %r is rejected after %r, but changes the image' % (c, text, before))
        asm.assemble(tail)
        r = link_of(asm)
    if r != want.image:
        fail('%s: after the rejected %r the program gives %s, expected %s' % (c, text, hexs(r), hexs(want.image)))
    return True


GOOD = ['', '', '   ', '; comment', ';', '; it\'s "quoted ; (', '  ; .db 5: x', '.db 1', '.db 1, 2 ,3 ; c', 'l{n}:', 'l{n}: .dw 5', '.db "a;b"', ".db 'x'", '.db "two\nlines"', '.ram 3', '.fill 3 9', '.db "it\'s"',
        '.repeat 2\n.db 7\n.endrepeat', '.macro m{n} x\n{mn} ; not assembled here\n.endmacro', '\t.dw 5\t', '.define d{n} 5', '.db "\\""', '.db 5;x', '.db 5 ;;;', '.org {n}00']
BAD = ['nosuch_instruction', 'nosuch 1,2', '.nosuch', '.nosuch 1', '.db 256', '.db -129', '.dw 65536', 'dup:', '5:', 'a-b:', '.align 0', '.org 5 3', '.endmacro', '.endrepeat', '{mn} ( ( [ #', '{mn} "x" "y" "z" "w"',
       'dup: .db 1', '.db 1/0', '.fill', '.org', '.fill 5 256', '.db 99999999999999999999', '.define', '.ram nolabel_x', '  {mn} 5 5 5 5 5 5 5 5 5']
NEED = {'6502': 'LDA', 'lr35902': 'LD', 'z80': 'LD', '8086': 'MOV', 'x86': 'MOV', '68000': 'MOVE', 'mips32': 'addiu', 'thumb': 'MOV', 'ppc': 'addi'}


@st.composite
def progs(draw):
    c = draw(st.sampled_from(CPUS))
    def lines(lo):
        out = []
        for _ in range(draw(st.integers(lo, 9))):
            out.append(draw(st.sampled_from(GOOD)))
        return out + (['.org {n}00'] if draw(st.integers(0, 5)) == 0 else [])
    return {'cpu': c, 'pre': lines(0), 'inc': lines(0), 'post': lines(0), 'bad': draw(st.sampled_from(BAD)), 'how': draw(st.sampled_from(['text', 'named', 'file', 'include', 'include2'])),
            'eol': draw(st.sampled_from(['\n', '\n', '\r\n'])), 'end': draw(st.booleans()),
            'path': draw(st.sampled_from(['', 'sub/', 'sub/../', './', 'sub/../sub/', 'sub//', 'sub/./', 'sub dir/', 'sub/.hidden/', 'Sub.d/']))}


@REG.given(progs(), quick=1500)
def programs_(case):
    """a program with one bad statement: location, image, location counter, labels"""
    c, how, eol = case['cpu'], case['how'], case['eol']
    n = [0]

    def render(ls):
        out = []
        for l in ls:
            n[0] += 1
            out.append(l.replace('{n}', str(n[0])).replace('{mn}', NEED[c]))
        return out
    first = ['dup: .db 1']
    pre, inc = render(case['pre']), render(case['inc'])
    bad = case['bad'].replace('{mn}', NEED[c])
    post = render(case['post'])

    def join(ls, end=True):
        return '' if not ls else eol.join(x.replace('\n', eol) if '"two' not in x else x for x in ls) + (eol if end else '')
    with scratch() as d, quiet():
        ref = new(cpu(c))
        ref.assemble(join(first + pre + (inc if how.startswith('include') else [])))
        want = bytes(ref.assembled_bytes), ref.pc, labels_of(ref)
        asm = new(cpu(c))
        body = join(first + pre)
        path = case['path']
        for x in ('sub/.hidden', 'sub dir', 'Sub.d'):
            os.makedirs(x)
        try:
            if how.startswith('include'):
                with open(path + 'inc.S', 'w', newline='') as f:
                    f.write(join(inc + [bad] + post, case['end']))
                main = body + '.include "%sinc.S"' % path + eol
                if how == 'include2':
                    with open('main.S', 'w', newline='') as f:
                        f.write(main)
                    main = eol * 2 + '.include "main.S"' + eol
                name, line = path + 'inc.S', join(inc).count('\n') + 1
                asm.assemble(main, 'top.S')
            else:
                code = body + join([bad] + post, case['end'])
                line = body.count('\n') + 1
                name = {'text': None, 'named': path + 'some.S', 'file': path + 'main.S'}[how]
                if how == 'file':
                    # universal newlines: the file is read as text
                    with open(name, 'w', newline='') as f:
                        f.write(code)
                    asm.assemble_file(name)
                else:
                    asm.assemble(code, name)
        except Exception as exc:
            located(exc, line, name, '%s %s %r' % (c, how, (body + bad)[-200:]))
            got = bytes(asm.assembled_bytes), asm.pc, labels_of(asm)
            if got != want:
                fail('%s: after %r is rejected: image %s pc %d labels %s, expected %s pc %d labels %s' % (c, bad, hexs(got[0]), got[1], got[2], hexs(want[0]), want[1], want[2]))
        else:
            fail('%s: %r is accepted: %s' % (c, bad, hexs(asm.assembled_bytes)))
    return True


@st.composite
def macro_cases(draw):
    c = draw(st.sampled_from(CPUS))
    n = draw(st.one_of(st.integers(1, 3), st.integers(1, 3), st.integers(4, 40)))
    return {'cpu': c, 'blank': draw(st.integers(0, 4)), 'body': draw(st.one_of(st.integers(0, 3), st.integers(0, 60))), 'nargs': n, 'given': draw(st.integers(0, 3) if n < 4 else st.integers(n - 1, n + 2)), 'gap': draw(st.integers(0, 3)),
            'vals': draw(st.lists(st.integers(0, 255), min_size=3, max_size=3))}


MACRO_OK = {'6502': ('LDA #{}', lambda v: bytes([0xa9, v])), 'lr35902': ('LD A,{}', lambda v: bytes([0x3e, v])), 'z80': ('LD A,{}', lambda v: bytes([0x3e, v])), '8086': ('MOV AL,{}', lambda v: bytes([0xb0, v])),
            'x86': ('MOV EAX,{}', lambda v: bytes([0xb8, v, 0, 0, 0])), '68000': ('MOVE.B #{},D0', lambda v: bytes([0x10, 0x3c, 0, v])), 'mips32': ('ori $t0,$t1,{}', lambda v: bytes([0x35, 0x28, 0, v])),
            'thumb': ('MOV r0,#{}', lambda v: bytes([v, 0x20])), 'ppc': ('addi r0,r0,{}', lambda v: bytes([0x38, 0, 0, v]))}
# the operand of these is a token of its own (macro arguments replace whole tokens)
WHOLE = {c for c, (t, _) in MACRO_OK.items() if '#{}' not in t}


@REG.given(macro_cases(), quick=250)
def macros(case):
    """too few arguments and bad statements in a macro are located, and the macro still works afterwards"""
    c = case['cpu']
    t, enc = MACRO_OK[c]
    args = ['arg%d' % i for i in range(case['nargs'])]
    whole = c in WHOLE
    body = [t.format(args[-1] if whole else '17')] * case['body'] + ['nosuch ' + ' '.join(args), t.format('1')]
    text = '\n' * case['blank'] + '.macro bad %s\n' % ' '.join(args) + '\n'.join(body) + '\n.endmacro\n'
    good = '.macro good x y\n%s\n%s\n.endmacro\n' % (t.format('x') if whole else t.format('3'), t.format('y') if whole else t.format('4'))
    asm = new(cpu(c))
    with quiet():
        asm.assemble(text + good, 'defs.S')
        given_ = (case['vals'] * 20)[:case['given']]
        try:
            asm.assemble('\n' * case['gap'] + 'bad ' + ' '.join(map(str, given_)), 'call.S')
        except Exception as exc:
            if len(given_) < len(args):
                located(exc, case['gap'] + 1, 'call.S', '%s macro with %d of %d arguments' % (c, len(given_), len(args)))
                if asm.assembled_bytes:
                    fail('%s: a macro call without enough arguments emits %s' % (c, hexs(asm.assembled_bytes)))
            else:
                located(exc, case['blank'] + 2 + case['body'], 'defs.S', '%s bad statement of a macro' % c)
        else:
            fail('%s: macro call accepted: %r with %r' % (c, text, given_))
        for i, v in enumerate(case['vals'][:2]):
            start = len(asm.assembled_bytes)
            try:
                asm.assemble('good %d %d' % (v, 255 - v))
            except Exception as exc:
                fail('%s: a good macro call after a bad one fails: %r' % (c, exc))
            want = enc(v) + enc(255 - v) if whole else enc(3) + enc(4)
            if bytes(asm.assembled_bytes[start:]) != want:
                fail('%s: a good macro call after a bad one gives %s, expected %s' % (c, hexs(asm.assembled_bytes[start:]), hexs(want)))
        # a macro that failed on one call works on the next one
        for bad in ('"bad"', '99999999999', '-99999999999', '1/0', '5 )'):
            asm = new(cpu(c))
            asm.assemble('.macro one x\n%s\n%s\n.endmacro\n.macro two x y\none x\none y\n.endmacro' % ((t.format('x'),) * 2))
            for how in ('one ' + bad, 'two 7 ' + bad):
                start = len(asm.assembled_bytes)
                try:
                    asm.assemble(how)
                except Exception as exc:
                    located(exc, 2, None, c + ' macro')
                    if bytes(asm.assembled_bytes[start:]) != (b'' if how[0] == 'o' else enc(7) * 2):
                        fail('%s: rejected macro call %r emits %s' % (c, how, hexs(asm.assembled_bytes[start:])))
                start = len(asm.assembled_bytes)
                try:
                    asm.assemble('one %d\ntwo %d %d' % tuple(case['vals']))
                except Exception as exc:
                    fail('%s: after the failed call %r of a macro, a good call of it fails: %r' % (c, how, exc))
                want = b''.join(enc(v) * 2 for v in case['vals'])
                if bytes(asm.assembled_bytes[start:]) != want:
                    fail('%s: after the failed call %r of a macro, good calls of it give %s, expected %s' % (c, how, hexs(asm.assembled_bytes[start:]), hexs(want)))
    return True


RAISED = ['ValueError', 'KeyError', 'TypeError', 'IndexError', 'AttributeError', 'ZeroDivisionError', 'OverflowError', 'AssertionError', 'RuntimeError', 'OSError', 'UnicodeError', 'StopIteration', 'own', 'own_subclass', 'none']


@REG.enum(lambda tier: [[k, e, n, w] for k in ('instruction', 'directive') for e in RAISED for n in (0, 1, 4) for w in ('plain', 'repeat', 'macro', 'include')])
def raised_by_the_assembler(case):
    """whatever an instruction or a directive of an assembler raises is reported with the line, nothing is emitted, no label reference stays"""
    kind, what, n, where_ = case
    na_ = load('')
    from builtins import __dict__ as B
    E = load('exceptions').AssemblerException
    if kind == 'directive' and (what == 'none' or where_ == 'macro'):
        return False

    def bad(self, instr):
        if kind == 'instruction':
            self.add_label_translation(label='nowhere', size=1, bits_size=8)
        if what == 'none':
            return None
        if what == 'own':
            raise type('Own', (E,), {'message': 'own'})(instr)
        if what == 'own_subclass':
            raise type('Mine', (E,), {'message': 'mine'})()
        raise B[what]('some text')
    body = {'bad': (na_.opcode('BAD') if kind == 'instruction' else na_.directive('bad'))(bad)}
    asm = new(type('Custom', (load('assembler').Assembler,), body))
    text = 'BAD 1' if kind == 'instruction' else '.bad 1'
    with scratch():
        asm.assemble('.db 1\n')
        if where_ == 'repeat':
            src, line, name = '\n' * n + '.repeat 2\n' + text + '\n.endrepeat\n', n + 2, 'f.S'
        elif where_ == 'macro':
            asm.assemble('\n' * n + '.macro m\n.endmacro\n.macro mm\n' + text + '\n.endmacro\n', 'm.S')
            src, line, name = 'mm\n', n + 4, 'm.S'
        elif where_ == 'include':
            with open('inc.S', 'w') as f:
                f.write('\n' * n + text + '\n')
            src, line, name = '.include "inc.S"\n', n + 1, 'inc.S'
        else:
            src, line, name = '\n' * n + text + '\n', n + 1, 'f.S'
        try:
            asm.assemble(src, 'f.S')
        except Exception as exc:
            located(exc, line, name, '%r raising %s' % (src, what))
        else:
            fail('%r raising %s is accepted' % (src, what))
        if bytes(asm.assembled_bytes) != b'\1' or asm.pc != 1:
            fail('%r raising %s leaves %s' % (src, what, hexs(asm.assembled_bytes)))
        if where_ != 'repeat':
            asm.assemble('.db 5\n')
            if link_of(asm) != b'\1\5':
                fail('after %r raising %s a correct program gives %r' % (src, what, link_of(asm)))
    return True


@REG.enum(lambda tier: [[n, k, t] for n in (250, 32766, 65533, 65535, 65536, 70000, 131071) for k in ('blank', 'comments', 'data', 'string') for t in ('FROB', '.frob 1', '.db 256', 'LD8 nowhere-')
                        if n < 60000 or k != 'data' or tier != 'quick'])
def far_down(case):
    """the location of a bad statement after thousands of lines"""
    n, k, bad = case
    line = {'blank': '', 'comments': '; text', 'data': '.db 1', 'string': ''}[k]
    src = (line + '\n') * n + ('.db "' + '\n' * 7 + '"\n' if k == 'string' else '') + bad + '\n.db 2\n'
    asm = new(M.make_cpu())
    try:
        asm.assemble(src, 'long.S')
        asm.link()
    except Exception as exc:
        if bad[:3] != 'LD8':
            located(exc, n + 1 + (8 if k == 'string' else 0), 'long.S', '%d lines (%s), then %s' % (n, k, bad))
    else:
        fail('%d lines, then %s: accepted' % (n, bad))
    return True
