import json
from hypothesis import strategies as st
from harness.core import Registry
from harness.lib import *
from harness import model as M, gen as G
from harness.corpus import CORPUS
from harness import scale, slots as S
import contextlib
import io

REG = Registry('C12', 'generated histories over several live assembler instances of several classes, interleaved chunk by chunk, against each program run alone in '
               'one call; non-trivial: at least two instances (or chunks) and a non-empty image.', [])

CPUS = sorted(CORPUS)


@st.composite
def chunks(draw, c):
    n = draw(st.integers(1, 4))
    out = []
    k = 0
    for _ in range(n):
        ls = []
        for _ in range(draw(st.integers(0, 4))):
            w = draw(st.integers(0, 9))
            if w < 6:
                ls.append(' '.join(draw(st.sampled_from(CORPUS[c]))))
            elif w == 6:
                k += 1
                ls.append('lab%d:' % k)
            elif w == 7:
                ls.append('.define D%d %d' % (draw(st.integers(0, 2)), draw(st.integers(0, 99))))
            elif w == 8:
                ls.append('.db %s' % draw(st.sampled_from(['D0', 'D1', 'lab1', 'lab2', '7', 'D2+1'])))
            else:
                ls.append('.macro m%d a\n%s\n.endmacro\nm%d 1' % (k, ' '.join(draw(st.sampled_from(CORPUS[c]))), k))
        out.append('\n'.join(ls))
    return out


@st.composite
def history(draw):
    progs = []
    for _ in range(draw(st.integers(2, 4))):
        c = draw(st.sampled_from(CPUS))
        progs.append({'cpu': c, 'chunks': draw(chunks(c))})
    order = draw(st.permutations([i for i, p in enumerate(progs) for _ in p['chunks']]))
    return {'progs': progs, 'order': list(order)}


for _c in CPUS:
    cpu(_c)         # imported here, so that forked children share the modules (and nothing else)


def summary(asm):
    return labels_of(asm), asm.pc


@REG.given(history(), quick=350)
def interleaved_instances(case):
    """instances assembled in any interleaving behave as if alone"""
    # each program alone, in a process that never assembled anything else
    alone = [in_child(alone_run, p['cpu'], '\n'.join(p['chunks'])) for p in case['progs']]
    return in_child(interleave, case, alone)


def outcome(r):
    return [r.ok, r.image.hex(), [sorted(labels_of(r.asm).items()), r.asm.pc]] if r.ok else [False, None, None]


def alone_run(c, text):
    return outcome(run(cpu(c), text))


def interleave(case, alone):
    live = [new(cpu(p['cpu'])) for p in case['progs']]
    dead = [None] * len(live)
    nxt = [0] * len(live)
    for i in case['order']:
        p = case['progs'][i]
        if dead[i] is None:
            try:
                live[i].assemble(p['chunks'][nxt[i]])
            except Exception as e:
                dead[i] = e
        nxt[i] += 1
    n = 0
    for i, p in enumerate(case['progs']):
        if dead[i] is None:
            try:
                live[i].link()
            except Exception as e:
                dead[i] = e
        got = outcome(Res(dead[i] is None, bytes(live[i].assembled_bytes), dead[i], live[i]))
        got = json.loads(json.dumps(got))
        if got != alone[i]:
            fail('%s program %r: alone %r, interleaved with others %r' % (p['cpu'], p['chunks'], alone[i], got))
        n += bool(got[1])
    for p, was in zip(case['progs'], alone):
        again = json.loads(json.dumps(alone_run(p['cpu'], '\n'.join(p['chunks']))))
        if again != was:
            fail('%s program %r: alone %r, after other programs %r' % (p['cpu'], p['chunks'], was, again))
    return n >= 2


@REG.given(st.fixed_dictionaries({'a': st.sampled_from(CPUS), 'b': st.sampled_from(CPUS), 'name': st.sampled_from(['FOO', 'lab', 'x1']), 'v': st.integers(1, 250),
                                  'kind': st.sampled_from(['define', 'label', 'macro', 'instr', 'directive', 'register_define', 'pass', 'section', 'prefix', 'org', 'export', 'settings'])}), quick=600)
def nothing_leaks(case):
    """what one instance is told is unknown to every other instance, before or after"""
    return in_child(leak, case)


def leak(case):
    ca, cb = cpu(case['a']), cpu(case['b'])
    # what an instance that never saw another gives
    probe = '.db 1\n.align 8\nq: .dw q 258\n.dd 66051'
    usual = run(cb, probe)
    early = new(cb)
    a = new(ca)
    nm, v, k = case['name'], case['v'], case['kind']
    calls = []
    stmt = ' '.join(CORPUS[case['a']][0])
    if k == 'define':
        a.assemble('.define %s %d' % (nm, v))
    elif k == 'register_define':
        a.register_define(nm, str(v))
    elif k == 'label':
        a.assemble('.org 16\n%s:' % nm)
    elif k == 'macro':
        a.assemble('.macro %s\n%s\n.endmacro' % (nm, stmt))
    elif k == 'instr':
        a.register_instruction(nm, b'\x01')
    elif k == 'directive':
        a.register_directive(nm, lambda instr: None)
    elif k == 'pass':
        a.post_link_passes.append(lambda asm: calls.append(asm))
        a.pre_link_passes.append(lambda asm: calls.append(asm))
    elif k == 'section':
        a.assemble('.section %s RX' % nm)
    elif k == 'export':
        a.assemble('.export %s' % nm)
    elif k == 'prefix':
        a.hex_prefixes = a.hex_prefixes + ('!!',)
    elif k == 'org':
        a.assemble('.org 100\n.db 1')
    elif k == 'settings':
        a.fill_value = v
        a.big_endian = not a.big_endian
        a.hex_prefixes, a.bin_prefixes, a.dec_prefixes, a.oct_prefixes = ('!h',), ('!b',), ('!d',), ('!o',)
        with quiet():
            a.assemble('.db 1\n.log on\n.align 4\n.org 32 64\n.fill 3\n.ram 2\n.dw 1\n.log off\n.section mine RW\nmine_lab: .dd mine_lab\n.define KQ 4\n.macro MQ\n.db 2\n.endmacro\nMQ\n.repeat 2\n.db KQ\n.endrepeat')
            a.link()
    for b in (early, new(cb)):
        what = '%s seen by another %s after %s' % (k, case['b'], case['a'])
        if k in ('define', 'register_define', 'label', 'prefix'):
            text = {'prefix': '.db !!12'}.get(k, '.db ' + nm)
            try:
                b.assemble(text)
                b.link()
            except Exception:
                pass
            else:
                fail('%s: %r gives %s' % (what, text, hexs(b.assembled_bytes)))
        elif k in ('macro', 'instr', 'directive'):
            text = ('.' if k == 'directive' else '') + nm
            try:
                b.assemble(text)
            except Exception:
                pass
            else:
                fail('%s: %r accepted' % (what, text))
        elif k == 'pass':
            b.link()
            if calls:
                fail('%s: pass ran for another instance' % what)
        elif k == 'section':
            if dict(b.sections):
                fail('%s: %r' % (what, b.sections))
            b.assemble('.section %s RX' % nm)
        elif k == 'export':
            b.assemble('.export %s' % nm)
        elif k == 'settings':
            b.assemble(probe)
            b.link()
            if bytes(b.assembled_bytes) != usual.image:
                fail('%s: %r gives %s, was %s' % (what, probe, hexs(b.assembled_bytes), hexs(usual.image)))
        elif k == 'org':
            b.assemble('q: .dw q')
            b.link()
            if bytes(b.assembled_bytes) != b'\0\0':
                fail('%s: %s' % (what, hexs(b.assembled_bytes)))
    return True


@REG.given(st.tuples(G.program(bounded=False, keep_bad=3, max_stmts=12), st.lists(st.integers(0, 20), max_size=4)), quick=600)
def split_calls(case):
    """several assemble calls equal one"""
    (pc, cuts) = case
    cfg, prog = pc['cfg'], pc['prog']
    cls = M.make_cpu(cfg['be'], cfg['fill'], cfg['suffixes'])
    parts, i = [], 0
    for c in sorted(c % (len(prog) + 1) for c in cuts):
        parts.append(M.render(prog[i:c]))
        i = c
    parts.append(M.render(prog[i:]))
    ra, rb = run(cls, ''.join(parts)), run(cls, parts)
    if ra.ok != rb.ok or ra.ok and (ra.image != rb.image or summary(ra.asm) != summary(rb.asm)):
        fail('one call: %r, calls %r: %r' % (ra, parts, rb))
    try:
        m = M.evaluate(prog, cfg['be'], cfg['fill'])
    except M.Reject:
        expect_error(rb, repr(parts))
        return False
    expect_image(rb, m.bytes, repr(parts))
    return len(parts) > 1 and len(m.bytes) > 0


@REG.given(scale.case(30, 150, cuts=st.lists(st.integers(0, 1000), max_size=30)), quick=40)
def large_split_calls(case):
    """long programs in dozens of calls"""
    prog = scale.program(case)
    # the end of a call pads a bounded origin
    prog = [['org', s[1], None] if s[0] == 'org' else s for s in prog]
    cls = M.make_cpu(case['be'], case['fill'])
    parts, i = [], 0
    for c in sorted(c % (len(prog) + 1) for c in case['cuts']):
        parts.append(M.render(prog[i:c]))
        i = c
    parts.append(M.render(prog[i:]))
    ra, rb = run(cls, ''.join(parts)), run(cls, parts)
    if ra.ok != rb.ok or ra.ok and (ra.image != rb.image or summary(ra.asm) != summary(rb.asm)):
        fail('one call: %r, %d calls: %r\n%s' % (ra, len(parts), rb, M.render(prog)[:2000]))
    return ra.ok and len(parts) > 1


PLATFORMS = ['gameboy', 'nes', 'sms', 'psx']
SLOTS_OF = {'gameboy': 'lr35902', 'sms': 'z80', 'nes': '6502', 'x86': 'x86_64'}
for _c in PLATFORMS:
    cpu(_c)
ODD = ['.log on', '.log', '.macro zz a', '.endmacro', '.repeat 3', '.endrepeat', '.section s RX', '.section t RW 64', '.export lab', '.define DD 7', '.define lab 9', '.org 100', '.org 300 310', '.ram 5', '.fill 3', '.fill 256',
       '.align 16', 'lab:', 'other:', '.db DD', '.dw lab', '.dw other+1', '.db 999', 'nosuch 1', '.nosuch', '.db "', '.db 1,2,lab', 'zz 5', '.db_to_ascii lab', '.dd -1', '.goto 40', '.upto 50', '.macro yy', 'yy', '.include "x"']
ODD_OF = {'x86': ['.bits 16', '.bits 16', '.bits 32', '.bits 32', '.bits 64', '.bits 8', 'MOV EAX,EBX', 'PUSH AX', 'MOV RAX,RBX', 'REP STOSB'],
          'gameboy': ['.fill 256', '.cartridge', '.cartridge_title "XY"', '.cartridge_type 3', '.db LCDC', '.define LCDC 3', '.cartridge_cgb 128'],
          'nes': ['.cartridge', '.cartridge', '.cartridge_prg_roms 4', '.cartridge_chr_roms 3', '.dw PPUCTRL', '.define PPUCTRL 3'], 'sms': ['.db PSG', '.define PSG 3']}


@st.composite
def two(draw):
    c = draw(st.sampled_from(sorted(set(CPUS) | set(PLATFORMS) | {'x86'})))
    k = SLOTS_OF.get(c, c)
    names = S.keys(k, False) + S.keys(k, True)
    stmt = st.one_of(st.sampled_from(ODD), st.sampled_from(ODD_OF.get(c, ODD)), st.builds(lambda t, v: t.replace('{L}', v), st.sampled_from(names), st.sampled_from(['lab', '4', 'other', '20', '1000'])))
    return {'cpu': c, 'a': draw(st.lists(stmt, min_size=1, max_size=8)), 'b': draw(st.lists(stmt, min_size=1, max_size=8))}


def piecewise(asm, stmts):
    """every statement in a call of its own; -> what happened"""
    out = []
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        for s in stmts:
            try:
                asm.assemble(s + '\n')
                out.append('')
            except Exception as e:
                out.append(type(e).__name__)
        out += [bytes(asm.assembled_bytes).hex(), asm.pc, sorted(labels_of(asm).items())]
        try:
            asm.link()
            out.append('')
        except Exception as e:
            out.append(type(e).__name__)
        out.append(bytes(asm.assembled_bytes).hex())
    return json.loads(json.dumps(out + [buf.getvalue()]))


def first_run(c, stmts):
    return piecewise(new(cpu(c)), stmts)


def second_run(case):
    early = new(cpu(case['cpu']))
    piecewise(new(cpu(case['cpu'])), case['a'])
    return [piecewise(early, case['b']), piecewise(new(cpu(case['cpu'])), case['b'])]


def probes(tier):
    for c in sorted(ODD_OF) + ['6502', 'z80', '68000'] * (1 if tier == 'quick' else 0) + (sorted(CPUS) if tier != 'quick' else []):
        own = ODD_OF.get(c, [])
        for s in own + ODD:
            yield {'cpu': c, 'a': [s], 'b': own[::-1][:4] + ['lab: .dw lab', '.db DD', 'zz 5', 'yy', '.fill 3', '.db 9', 'fresh:', '.export lab', '.log off'] + own}


@REG.enum(probes)
def after_one_statement(case):
    """no single statement of an instance reaches another instance"""
    return compare(case)


@REG.given(two(), quick=600)
def after_another(case):
    """an instance that another one of its class ran before (or between its creation and its use) works as the first one of a process"""
    return compare(case)


def compare(case):
    want = in_child(first_run, case['cpu'], case['b'])
    for got, how in zip(in_child(second_run, case), ('created before', 'created after')):
        if got != want:
            fail('%s: %r gives %r in a new process, %r on an instance %s another one assembled %r' % (case['cpu'], case['b'], want, got, how, case['a']))
    return len(want[-2]) > 0


PIECES = ['.macro m%d x\nLD8 x\nLD16 lab%d\n.endmacro', 'm%d 4', '.repeat 3\n.db 1 2\nLD8 %d\n.endrepeat', 'lab%d:', '.dw lab%d', '.define D%d 5', '.db D%d', '.export lab%d', '.align 8', '.ram 3', '.fill 2 %d',
          '.org 0x%d00', '.goto 0x%d50', '.macro n%d\n.endmacro', 'n%d', 'LD32 lab%d+1', '.section sec%d RX', 'BRA lab%d', '.repeat 2\nm%d 9\n.endrepeat', '.macro o%d a b\nm1 a\nLD8 b\n.endmacro', 'o%d 7 8',
          '.db "a b; c" %d', '; nothing %d', '']


@REG.given(st.fixed_dictionaries({'pieces': st.lists(st.tuples(st.integers(0, len(PIECES) - 1), st.integers(1, 3)), min_size=2, max_size=20), 'cuts': st.one_of(st.just('all'), st.lists(st.integers(0, 60), max_size=6)),
                                  'nl': st.booleans()}), quick=1200)
def cut_anywhere(case):
    """a program cut between any two lines, inside macros and repeats too"""
    seen, src = set(), []
    pieces = [[i, k] for i, k in case['pieces']]
    # mostly, everything is defined
    if len(pieces) % 4:
        pre = [n for n in range(len(PIECES)) if PIECES[n].startswith(('.macro', '.define'))]
        pieces = [[n, k] for n in pre for k in sorted({k for i, k in pieces})] + [p for p in pieces if not PIECES[p[0]].startswith(('.org', '.goto', 'BRA'))] + [[3, k] for k in (1, 2, 3)]
    for i, k in pieces:
        p = PIECES[i]
        t = p.replace('%d', str(k))
        if (p.startswith('lab') or p.startswith('.section')) and t in seen:
            continue
        seen.add(t)
        src += t.split('\n')
    if case['cuts'] == 'all':
        parts = [[l] for l in src]
    else:
        cs = sorted({c % (len(src) + 1) for c in case['cuts']})
        parts = [src[a:b] for a, b in zip([0] + cs, cs + [len(src)])]
    end = '\n' if case['nl'] else ''
    state = lambda r: [r.ok] + ([r.image.hex(), labels_of(r.asm), r.asm.pc, [[n, s['start'], s['offset'], s['size']] for n, s in r.asm.sections.items()], list(r.asm.exports)] if r.ok else [])
    ra, rb = run(M.make_cpu(), '\n'.join(src)), run(M.make_cpu(), ['\n'.join(p) + end for p in parts])
    if state(ra) != state(rb):
        fail('program %r in one call: %r, in the calls %r: %r' % ('\n'.join(src), state(ra) if ra.ok else ra, parts, state(rb) if rb.ok else rb))
    return ra.ok and len(parts) > 1 and len(ra.image) > 0


TABLES = [b + '_' + p for b in ('hex', 'bin', 'oct', 'dec') for p in ('prefixes', 'suffixes')]


@REG.enum(lambda tier: [[t, kind, when, sub] for t in TABLES for kind in ('list', 'tuple') for when in ('registering', 'later') for sub in (False, True)])
def own_tables(case):
    """an instance that extends its literals extends neither its class nor the other instances"""
    table, kind, when, sub = case
    base, pos = table.split('_')
    mark = '!' if pos == 'prefixes' else 'q'
    digits = {'hex': '1f', 'bin': '101', 'oct': '17', 'dec': '19'}[base]
    lit = mark + digits if pos == 'prefixes' else digits + mark
    want = bytes([int(digits, {'hex': 16, 'bin': 2, 'oct': 8, 'dec': 10}[base])])

    class Cpu(na.Assembler):
        extend = False

        def register_instructions(self):
            if self.extend and when == 'registering':
                more(self)

    def more(asm):
        t = getattr(asm, table)
        t += type(t)([mark])
        setattr(asm, table, t)
    setattr(Cpu, table, ['~'] if kind == 'list' else ('~',))
    first, other = Cpu(), Cpu()

    class Extended(Cpu):
        extend = True
    ext = Extended()
    if when == 'later':
        more(ext)
    for asm in (first, other, Cpu(), Extended() if sub and when == 'later' else Cpu(), na.Assembler()):
        try:
            asm.assemble('.org 8\n.fill ' + lit)
        except Exception:
            continue
        fail('%r: %s is known to an instance that did not extend its %s' % (case, lit, table))
    ext.assemble('.db ' + lit)
    if bytes(ext.assembled_bytes) != want:
        fail('%r: %s gives %s, expected %s' % (case, lit, hexs(ext.assembled_bytes), hexs(want)))
    return True
