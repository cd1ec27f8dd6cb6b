import re
from hypothesis import strategies as st
from harness.core import Registry
from harness.lib import *
from harness import forms as F, model as M

REG = Registry('C09', 'generated programs of define/redefine statements and uses in whole and composite tokens built from structured pieces; the program must '
               'give the image of the program with the pieces substituted by the harness. Non-trivial: accepted and at least one piece was substituted.', [])

NAMES = ['FOO', 'foo', 'Foo', 'FOOT', 'A', 'AB', 'B.C', '_q', 'x9', 'NOP', 'LD8', 'end', 'VRAM', 'LY', 'NOW', 'db', 'dd', '.dd']
VALS = ['1', '7', '0x20', '%110', '3+4', '9', '12', 'lab', 'lab+1', 'A', 'FOO', 'x9', "'c'"]
FEW = ['FOO', 'foo', 'A', 'AB', 'LY']
SHAPES = [[None], [None], [None, '+1'], ['1+', None], [None, '|', None], ['<', None], [None, '*', None, '+', None], ['>', None, '&0xff'], ['2*', None], [None, '/', '3'], [None, '-', None], [None, '&', None, '/', None], ['1/', None], [None, '*2-'], ['<', None, '/2']]
LABELS = ['lab', 'FOO', 'foo', 'Foo', 'FOOT', 'A', 'AB', 'B.C', '_q', 'x9', 'end', 'VRAM', 'LY', 'NOW', 'db', 'dd', '.dd']


@st.composite
def stmts(draw):
    out, known, numeric = [], [], []
    for _ in range(draw(st.integers(2, 9))):
        k = draw(st.integers(0, 9)) if known else 0
        if k < 3:
            nm = draw(st.sampled_from(FEW if draw(st.integers(0, 3)) else NAMES))
            v = draw(st.sampled_from(VALS))
            known.append(nm)
            out.append(['def', nm, v])
            continue
        if k == 9:
            out.append(['str', draw(st.sampled_from(known)), draw(st.sampled_from('"\'')), draw(st.booleans())])
            continue
        d = draw(st.sampled_from(['LD32', '.dd', 'LD32', '.dd', 'LD16', '.dw', 'LD8', '.db']))
        shape = draw(st.sampled_from(SHAPES))
        pick = lambda: draw(st.sampled_from([n for n in known if n in LABELS] or ['FOO'])) if draw(st.integers(0, 2)) else draw(st.sampled_from(LABELS))
        out.append(['use', d, [['t', p] if p is not None else ['n', pick()] for p in shape]])
    return out


@REG.given(st.fixed_dictionaries({'stmts': stmts(), 'be': st.booleans(), 'label_first': st.sampled_from([True, True, True, False])}), quick=2000)
def substitution(case):
    cls = M.make_cpu(case['be'])
    env = {}
    a, b = [], []
    used = 0
    for s in case['stmts']:
        if s[0] == 'def':
            # the value of a define is an ordinary later occurrence of earlier names
            v = s[2]
            parts = v.split('+')
            v = v if v[0] == "'" else env.get(v) or '+'.join(env.get(p, p) for p in parts)
            env[s[1]] = v
            a.append('.define %s %s' % (s[1], s[2]))
        elif s[0] == 'str':
            text = s[2] + (s[1] + ' ' if s[3] else '') + s[1] + s[2]
            a.append('.db ' + text)
            b.append('.db ' + text)
        else:
            d = s[1]
            a.append(d + ' ' + ''.join(v for _, v in s[2]))
            toks = [env[v] if k == 'n' and v in env else v for k, v in s[2]]
            used += sum(1 for k, v in s[2] if k == 'n' and v in env)
            if len(s[2]) > 1 and any(v in env and env[v][0] == "'" for k, v in s[2] if k == 'n'):
                return False      # a quoted character cannot be part of a composite token
            d0 = env.get(d, d) if not d.startswith('.') else d
            b.append(d0 + ' ' + ''.join(toks))
    # labels with the names of defines: definitions are never substituted
    lab = ['.org 0x21'] + ['%s: .fill 1' % n for n in LABELS]
    if case['label_first']:
        lab.append('.org 0x100')
        ta, tb = '\n'.join(lab + a), '\n'.join(lab + b)
    else:
        ta, tb = '\n'.join(a + lab), '\n'.join(b + lab)
    ra, rb = run(cls, ta), run(cls, tb)
    if ra.ok != rb.ok or ra.ok and ra.image != rb.image:
        fail('program\n%s\ngives %r, substituted\n%s\ngives %r' % (ta, ra, tb, rb))
    if ra.ok and labels_of(ra.asm) != labels_of(rb.asm):
        fail('labels differ after substitution of\n%s' % ta)
    return rb.ok and used > 0


@st.composite
def chains(draw):
    """histories over a few names whose values are each other's names"""
    names = draw(st.permutations(['FOO', 'A', 'AB', 'x9', 'B.C']))[:draw(st.integers(2, 4))]
    out = []
    for _ in range(draw(st.integers(3, 9))):
        n = draw(st.sampled_from(names))
        if draw(st.integers(0, 2)):
            out.append(['def', n, draw(st.sampled_from(names + ['5', '0x31', 'lab', names[0] + '+1', '2*' + names[-1]]))])
        if draw(st.integers(0, 2)):
            out.append(['use', draw(st.sampled_from(['.dd', 'LD32', 'LD16', '.dw'])), draw(st.sampled_from(SHAPES[:6])), n, draw(st.sampled_from(names))])
    return out


NAME = re.compile(r'[A-Za-z0-9_.]+')


@REG.given(st.tuples(chains(), st.booleans()), quick=1200)
def chained_names(case):
    """a value that is another name means that name as it stood when the define was made, and nothing later"""
    env, a, b, used = {}, [], [], 0
    once = lambda text: NAME.sub(lambda m: env.get(m.group(0), m.group(0)), text)
    for s in case[0]:
        if s[0] == 'def':
            a.append('.define %s %s' % (s[1], s[2]))
            env[s[1]] = once(s[2])
        else:
            it = iter(s[3:])
            text = ''.join(p if p is not None else next(it, 'lab') for p in s[2])
            a.append('%s %s' % (s[1], text))
            b.append('%s %s' % (s[1], once(text)))
            used += once(text) != text
    lab = ['.org 0x21'] + ['%s: .fill 3' % n for n in ['lab', 'FOO', 'A', 'AB', 'x9', 'B.C']]
    ta, tb = ('\n'.join(lab + a), '\n'.join(lab + b)) if case[1] else ('\n'.join(a + lab), '\n'.join(b + lab))
    ra, rb = run(M.make_cpu(), ta), run(M.make_cpu(), tb)
    if ra.ok != rb.ok or ra.ok and ra.image != rb.image:
        fail('program\n%s\ngives %r, substituted\n%s\ngives %r' % (ta, ra, tb, rb))
    return rb.ok and used > 1


BUILTIN = {
    'gameboy': {'VRAM': 0x8000, 'LCDC': 0xff40, 'STAT': 0xff41, 'SCY': 0xff42, 'SCX': 0xff43, 'LY': 0xff44, 'LYC': 0xff45, 'WY': 0xff4a, 'WX': 0xff4b,
                'TMAP0': 0x9800, 'TMAP1': 0x9c00, 'WRAM': 0xc000, 'WRAM0': 0xc000, 'WRAM1': 0xd000, 'HRAM': 0xff80},
    'nes': {'PPUCTRL': 0x2000, 'PPUMASK': 0x2001, 'PPUSTATUS': 0x2002, 'OAMADDR': 0x2003, 'OAMDATA': 0x2004, 'PPUSCROLL': 0x2005, 'PPUADDR': 0x2006,
            'PPUDATA': 0x2007, 'OAMDMA': 0x4014},
    'sms': {'RAM': 0xc000, 'JOY1': 0xdc, 'JOY2': 0xdd, 'PSG': 0x7f, 'VDPDATA': 0xbe, 'VDPADDR': 0xbf, 'CMD_VRAM': 0x40, 'CMD_REG': 0x80, 'CMD_CRAM': 0xc0},
}


@st.composite
def builtin(draw):
    p = draw(st.sampled_from(sorted(BUILTIN)))
    return {'p': p, 'uses': draw(st.lists(st.tuples(st.sampled_from(sorted(BUILTIN[p])), st.integers(0, 20)), min_size=1, max_size=4)),
            'override': draw(st.one_of(st.none(), st.tuples(st.sampled_from(sorted(BUILTIN[p])), st.integers(0, 0xff00))))}


@REG.given(builtin(), quick=400)
def platform_defines(case):
    """built-in defines have the documented hardware values and can be overridden"""
    env = dict(BUILTIN[case['p']])
    t = ''
    want = b''
    for i, (n, k) in enumerate(case['uses']):
        if i == len(case['uses']) // 2 and case['override']:
            n2, v2 = case['override']
            env[n2] = v2
            t += '.define %s $%x\n' % (n2, v2)
        t += '.dw %s, %s+%d\n' % (n, n, k)
        want += env[n].to_bytes(2, 'little') + (env[n] + k).to_bytes(2, 'little')
    expect_image(run(cpu(case['p']), t), want, '%s: %s' % (case['p'], t))
    # and a fresh assembler has the original values again
    for n, v in BUILTIN[case['p']].items():
        expect_image(run(cpu(case['p']), '.dw ' + n), v.to_bytes(2, 'little'), '%s: %s in a new assembler' % (case['p'], n))
    return True


CPU_USE = [('6502', 'LDA #@', '$12'), ('6502', 'LDA (@),Y', '$12'), ('6502', 'STA @,X', '$1234'), ('6502', 'LDA #<@', '$1234'), ('lr35902', 'LD A,(@)', '$c123'), ('lr35902', 'LD (@),A', '$c123'), ('lr35902', 'LD BC,@', '$c123'),
           ('z80', 'LD A,(@)', '$c123'), ('z80', 'LD (IX+@),A' if 0 else 'LD HL,@', '$c0'), ('8086', 'MOV AX,@', '0x1234'), ('8086', 'MOV AL,[@]', '0x12'), ('mips32', 'lw $t0,@($sp)', '0x10'), ('mips32', 'addi $t0,$t1,@', '5'),
           ('thumb', 'MOV r0,#@', '5'), ('thumb', 'LDR r0,[r1,#@]', '8'), ('68000', 'MOVE.W #@,D0', '$12'), ('68000', 'LEA (@).L,A0', '$1234'), ('6502', 'LDA @', '$12'), ('6502', '@ #5', 'LDA'), ('lr35902', 'LD @,B', 'A'), ('z80', 'LD @,(HL)', 'D'), ('mips32', 'addi @,$zero,5', '$a0'), ('8086', 'MOV @,5', 'CX')]


@REG.given(st.fixed_dictionaries({'u': st.sampled_from(CPU_USE), 'name': st.sampled_from(['FOO', 'value', 'V_1', 'q.q', 'Zed']), 'other': st.sampled_from(['FO', 'FOOO', 'Value', 'V_', 'q', 'zed', 'Z'])}), quick=200)
def in_cpu_operands(case):
    """names inside operand syntax of the real CPUs"""
    c, tpl, val = case['u']
    ra = run(cpu(c), '.define %s %s\n.define %s 77\n%s' % (case['name'], val, case['other'], tpl.replace('@', case['name'])))
    rb = run(cpu(c), tpl.replace('@', val))
    if ra.ok != rb.ok or ra.ok and ra.image != rb.image:
        fail('%s: %r with %s=%s gives %r, expected %r' % (c, tpl, case['name'], val, ra, rb))
    return rb.ok


@REG.given(st.fixed_dictionaries({'seed': st.integers(0, 1 << 30), 'n': st.integers(1, 150)}), quick=80)
def large_programs(case):
    """dozens of defines with names that are prefixes of each other, redefined while used"""
    import random
    r = random.Random(case['seed'])
    names = ['D%d' % i for i in range(r.randint(1, 60))] + ['D1.x', 'D_1', 'xD1', 'D10D1', 'd1', 'dd1']
    env, a, b = {}, [], []
    for _ in range(case['n']):
        if r.random() < .4 or not env:
            n, v = r.choice(names), str(r.randint(0, 9999))
            a.append('.define %s %s' % (n, v))
            env[n] = v
        else:
            # only the first name of a sum may be a label
            known = list(env)
            toks = [[r.choice((names if r.random() < .2 and not k else known) if r.random() < .8 else '123456789') for k in range(r.choice([1, 1, 2, 5, 20]))]
                    for _ in range(r.choice([1, 1, 3, 40, 70]))]
            d = r.choice(['.dd ', '.DD '])
            a.append(d + ' '.join('+'.join(t) for t in toks))
            b.append(d + ' '.join('+'.join(env.get(x, x) for x in t) for t in toks))
    tail = '\n.org 0x40000\n' + '\n'.join('%s: .db 0' % n for n in names)
    ra, rb = run(M.make_cpu(), '\n'.join(a) + tail), run(M.make_cpu(), '\n'.join(b) + tail)
    if ra.ok != rb.ok or ra.ok and ra.image != rb.image:
        fail('program\n%s\ngives %r, substituted %r' % ('\n'.join(a)[:3000], ra, rb))
    return rb.ok and len(b) > 3


@REG.enum(lambda tier: F.batches(tier, 3))
def every_form(case):
    """each statement form of each CPU with its names (mnemonic, registers, operands) replaced by defined names"""
    c, ts = case
    done = 0
    for k, t in enumerate(ts):
        head, stmt = F.layout(c, t, F.S.all_slots(c)[t])
        first = int(stmt.startswith('.'))
        ws = F.words(stmt, first)
        if k % 3 == 0:
            ws = ws[k // 3 % len(ws):][:1]
        names = [['W%d', 'Name_%d', 'b.c%d', '_%d_', 'z%dz'][(k + len(c)) % 5] % i for i in range(len(ws))]
        defs = ['.define %s %s' % (n, w) for n, w in zip(names, ws)]
        # names that only contain a used one, and a later definition, mean nothing
        defs += ['.define %s 99' % (names[0] + '9'), '.define Q%s 98' % names[0]]
        a = '%s%s\n%s\n.define %s 97\n' % (head, '\n'.join(defs), F.rename(stmt, dict(zip(ws, names)), first), names[0])
        done += F.compare(c, a, head + stmt + '\n', 'the defines')
    return len(ts), done


@REG.enum(lambda tier: F.shapes(tier, 3))
def every_statement(case):
    """one statement of each shape of each CPU with its mnemonic, registers and numbers as defines"""
    c, at, texts = case
    text, plain = '', ''
    for k, t in enumerate(texts):
        if "'" in t:
            continue
        ws = F.words(t)
        if k % 3 == 0:
            ws = ws[(at // 12 + k // 3) % len(ws):][:1 + k % 2]
        names = [['W%d', 'Name_%d', 'b.c%d', '_%d_', 'z%dz'][(k + at // 12) % 5] % i for i in range(len(ws))]
        text += ''.join('.define %s %s\n' % (n, w) for n, w in zip(names, ws)) + F.rename(t, dict(zip(ws, names))) + '\n'
        plain += t + '\n'
    return len(texts), len(texts) * F.compare(c, text, plain, 'the defines')


@REG.enum(lambda tier: [[k, n] for k in ('operands', 'defines', 'redefined', 'long') for n in (15, 16, 17, 31, 33, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1025, 5000)])
def large_scale(case):
    """many operands, many defines, a name defined many times, long names and values"""
    k, n = case
    le = lambda v: (v & 0xffff).to_bytes(2, 'little')
    if k == 'operands':
        src, want = '.define KK 7\n.dw %s KK\nLD8 KK' % ' '.join('KK' if i % 5 == 0 else str(i) for i in range(n)), b''.join(le(7 if i % 5 == 0 else i) for i in range(n)) + le(7) + b'\x10\7'
    elif k == 'defines':
        src, want = ''.join('.define K%d %d\n' % (i, i + 3) for i in range(n)) + ''.join('.dw K%d\n' % i for i in range(n)), b''.join(le(i + 3) for i in range(n))
    elif k == 'redefined':
        src, want = ''.join('.define KK %d\n.dw KK\n' % (i + 3) for i in range(n)), b''.join(le(i + 3) for i in range(n))
    else:
        src, want = '.define %s %s5\n.dw %s' % ('K' * n, '0' * n if n < 4000 else '', 'K' * n), le(5)
    expect_image(run(M.make_cpu(), src), want, '%d: %s' % (n, k))
    return True


@REG.given(st.fixed_dictionaries({'base': st.sampled_from(['plain', 'gameboy', 'nes', 'sms']), 'cls': st.lists(st.tuples(st.integers(0, 5), st.integers(0, 99)), max_size=3), 'sub': st.lists(st.tuples(st.integers(0, 5), st.integers(100, 199)), max_size=3),
                                  'inst': st.lists(st.tuples(st.integers(0, 5), st.integers(200, 255)), max_size=3), 'source': st.lists(st.tuples(st.integers(0, 5), st.integers(0, 255)), max_size=2), 'subclass': st.booleans()}), quick=400)
def registered(case):
    """defines of a class, of its register_defines, of an instance and of the source: the later one counts, for this assembler only"""
    first = sorted(BUILTIN.get(case['base'], {}))[:3]
    names = first + ['MINE', 'mine', 'x.1'] + ['NN', 'Q_', 'q_'][len(first):]
    parent = M.make_cpu() if case['base'] == 'plain' else cpu(case['base'])
    env = dict(BUILTIN.get(case['base'], {}))
    own = {names[n]: str(v) for n, v in case['cls']}

    class Cpu(parent):
        if own:
            defines = dict(parent.defines, **own)

        def register_defines(self):
            super().register_defines()
            for n, v in case['sub']:
                self.register_define(names[n], str(v))

    class Sub(Cpu):
        pass
    cls = Sub if case['subclass'] else Cpu
    env.update({n: int(v) for n, v in own.items()})
    env.update({names[n]: v for n, v in case['sub']})
    clean = dict(env)

    def prepare(asm):
        for n, v in case['inst']:
            asm.register_define(names[n], str(v))
    env.update({names[n]: v for n, v in case['inst']})
    text, want = '', b''
    for round_ in range(2):
        for n in sorted(env):
            text += '.dw %s\n' % n
            want += env[n].to_bytes(2, 'little')
        if not round_:
            for n, v in case['source']:
                text += '.define %s %d\n' % (names[n], v)
                env[names[n]] = v
    expect_image(run(cls, text, prepare=prepare), want, '%r: %s' % (case, text))
    for c, e in ((cls, clean), (parent, BUILTIN.get(case['base'], {}))):
        t = ''.join('.dw %s\n' % n for n in sorted(e))
        expect_image(run(c, t), b''.join(e[n].to_bytes(2, 'little') for n in sorted(e)), 'another assembler after %r: %s' % (case, t))
    return bool(case['cls'] or case['sub'] or case['inst'])


# every operand of every directive: statement with the operand, values for it
OPERANDS = [('.org @', '40'), ('.org 40 @', '60'), ('.org @ 60', '40'), ('.fill @', '3'), ('.fill 2 @', '9'), ('.align @', '4'), ('.goto @', '9'), ('.goto 9 @', '7'), ('.upto @', '9'), ('.upto 9 @', '7'), ('.ram @', '3'),
            ('.repeat @\nNOP\n.endrepeat', '3'), ('.section @ R', 'sec'), ('.section sec @', 'RW'), ('.section sec R @', '64'), ('.export @', 'lab'), ('.include @', '"f.inc"'), ('.include @', 'f.inc'), ('.incbin @', '"f.bin"'),
            ('.incbin @', 'f.bin'), ('.inccsv @', '"f.csv"'), ('.inccsv_le16 @', 'f.csv'), ('.incjson @ k', '"f.json"'), ('.incjson "f.json" @', 'k'), ('.incjson f.json @', '"k"'), ('.log @', 'off'), ('.define OTHER @\n.dw OTHER', '77'),
            ('.define OTHER @\n.dw OTHER', 'lab'), ('.db @', '1'), ('.byte 3 @', '1'), ('.dw @', 'lab'), ('.word 1,@', '500'), ('.dd @', 'lab'), ('.dl @', '7'), ('.dword @', '"x"'), ('.db @', '"text"'), ('.db_to_ascii @', '12'), ('.db_to_asciiz 4 @', 'lab'),
            ('.dw_to_ascii @', '1234'), ('.dw_to_asciiz @', 'lab'), ('LD8 @', '5'), ('LD16 @', 'lab'), ('@ 5', 'LD8'), ('@', 'NOP'), ('.macro @ p\nLD8 p\n.endmacro\nmm 4', 'mm'), ('.macro mm p\nLD8 p\n.endmacro\nmm @', '4'),
            ('.macro mm p\n@ p\n.endmacro\nmm 4', 'LD8'), ('.macro mm @\nLD8 p\n.endmacro\nmm 4', 'p'), ('.macro mm p\nLD8 p\n.endmacro\n@ 4', 'mm')]
FOREIGN = [('x86', '.bits @\nNOP', '32'), ('gameboy', '.goto 256\n.cartridge\n.cartridge_title @', '"NAME"'), ('gameboy', '.goto 256\n.cartridge\n.cartridge_type @', '3'), ('gameboy', '.goto 256\n.cartridge\n.cartridge_cgb @', '$80'),
           ('gameboy', '.goto 256\n.cartridge\n.cartridge_sgb @', '3'), ('gameboy', '.goto 256\n.cartridge\n.cartridge_license @', '"AB"'), ('gameboy', '.goto 256\n.cartridge\n.cartridge_destination @', '1'),
           ('nes', '.cartridge\n.cartridge_prg_roms @', '7'), ('nes', '.cartridge\n.cartridge_chr_roms @', '5')]


@REG.enum(lambda tier: [[None, i, n, k] for i in range(len(OPERANDS)) for n in ('NAME', 'n', 'x.y_1') for k in (0, 1)] + [[c, i, n, k] for i, (c, _, _) in enumerate(FOREIGN) for n in ('NAME', 'n', 'x.y_1') for k in (0, 1)])
def in_every_directive(case):
    """a define can stand for any operand of any directive"""
    c, i, name, k = case
    text, value = OPERANDS[i] if c is None else FOREIGN[i][1:]
    cls = M.make_cpu() if c is None else cpu(c)
    pre = ('' if c else 'lab:\n.db 8\n')
    post = '\n' + ('' if c else '.db 9\nend: .dw end\n')
    other = '.define %s 99\n' % name.swapcase()
    with scratch():
        for f, t in (('f.inc', '.db 1,2\n'), ('f.bin', 'xyz'), ('f.csv', '1,2\n3\n'), ('f.json', '{"k": [4, 5]}')):
            with open(f, 'w') as h:
                h.write(t)
        a = run(cls, other + '.define %s %s\n' % (name, value) * (1 + k) + pre + text.replace('@', name) + post)
        b = run(cls, pre + text.replace('@', value) + post)
    if not b.ok:
        fail('%r is rejected: %r' % (text.replace('@', value), b))
    what = '%r with %s defined as %s' % (text, name, value)
    expect_image(a, b.image, what)
    if labels_of(a.asm) != labels_of(b.asm) or a.asm.pc != b.asm.pc or list(a.asm.sections) != list(b.asm.sections) or list(a.asm.exports) != list(b.asm.exports):
        fail('%s: labels, sections or exports differ' % what)
    return True
