"""C16 command line tools.  Oracle: the image the API gives for the same sources (and, for the wrappers that add a header, the published format)."""
import ast
import importlib
import os
import random
import subprocess
import sys
from hypothesis import strategies as st
from harness.core import Registry
from harness.linkcheck import *
from harness import slots as S
from harness.checks import c34

REG = Registry('C16', 'generated programs split over one to four source files, run through every entry point (class mains, platform mains, declared console scripts, modules run as programs), '
               'successful and failing. Non-trivial: the program assembles to at least one byte and has several sources or a label, or it fails as expected.',
               ['the API result is the reference here; that the API result is right is what the other properties check'])

# tool -> (module, attribute path, cpu used for program texts, kind)
TOOLS = {
    '6502': ('cpu.mos6502', 'AssemblerMOS6502.main', '6502', 'many'),
    'lr35902': ('cpu.lr35902', 'AssemblerLR35902.main', 'lr35902', 'many'),
    'z80': ('cpu.z80', 'AssemblerZ80.main', 'z80', 'many'),
    '8086': ('cpu.intel8086', 'AssemblerIntel8086.main', '8086', 'many'),
    'x86': ('cpu.x86', 'AssemblerX86.main', 'x86', 'many'),
    '68000': ('cpu.mc68000', 'AssemblerMC68000.main', '68000', 'many'),
    'mips32': ('cpu.mips32', 'AssemblerMIPS32.main', 'mips32', 'many'),
    'thumb': ('cpu.thumb', 'AssemblerThumb.main', 'thumb', 'many'),
    'ppc': ('cpu.powerpc', 'AssemblerPowerPC.main', 'ppc', 'many'),
    'gameboy': ('platforms.gameboy', 'AssemblerGameboy.main', 'gameboy', 'many'),
    'sms': ('platforms.sms', 'AssemblerSegaMasterSystem.main', 'sms', 'many'),
    'nes': ('platforms.nes', 'main', 'nes', 'plain'),
    'gba': ('platforms.gba', 'main', 'thumb', 'plain'),
    'genesis': ('platforms.genesis', 'main', '68000', 'plain'),
    'psx': ('platforms.psx', 'main', 'psx', 'plain'),
    'i386_elf32': ('platforms.i386_elf32', 'main', '8086', 'elf'),
    'ppc_elf32': ('platforms.ppc_elf32', 'main', 'ppc', 'elf'),
    'x86_64_elf64': ('platforms.x86_64_elf64', 'main', 'x86', 'elf'),
}
ELF_ARGS = {'i386_elf32': ((32, False, 1), dict(machine=3)), 'ppc_elf32': ((32, True, 1), dict(machine=0x14, alignment=4)), 'x86_64_elf64': ((64, False, 1), dict(machine=0x3e))}
SLOTS_OF = {'gameboy': 'lr35902', 'sms': 'z80', 'nes': '6502'}


def resolve(module, path):
    obj = load(module)
    for p in path.split('.'):
        obj = getattr(obj, p)
    return obj


def call(fn, argv, **kw):
    """run fn as a command; -> exception or None, printed text"""
    old, out = sys.argv, None
    sys.argv = ['tool'] + argv
    import io
    buf, so = io.StringIO(), sys.stdout
    sys.stdout = buf
    try:
        fn(**kw)
        return None, buf.getvalue()
    except SystemExit as exc:
        return (exc if exc.code else None), buf.getvalue()
    except Exception as exc:
        return exc, buf.getvalue()
    finally:
        sys.argv, sys.stdout = old, so


def api(tool, files):
    module, path, c, kind = TOOLS[tool]
    asm = new(cpu(c))
    try:
        with quiet():
            for f in files:
                asm.assemble_file(f)
            if kind == 'elf':
                a, k = ELF_ARGS[tool]
                asm.link(linker=load('linker').ELF(*a, **k))
            else:
                asm.link()
        img = bytes(asm.assembled_bytes)
        if tool in c34.WANT:
            f, size = c34.WANT[tool]
            if len(img) < size:
                return Res(False, exc=IndexError('too short'))
            img = f(img)
        return Res(True, img, asm=asm)
    except Exception as exc:
        return Res(False, exc=exc, asm=asm)


def files_in(d):
    out = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            out[os.path.relpath(p, d)] = content(p)
    return out


def extra(tool, dst):
    return {dst + '.0.nl', dst + '.ram.nl'} if tool == 'nes' else set()


BAD = ['this is_not an instruction', '.nosuchdirective 1', '.db 256', '.db nolabel_at_all', 'twice: \n twice: .db 1', '.org 16 8\n.org 8 4', '.incbin "nofile"', '.db "', '5: .db 1', '.dw 65536']


@st.composite
def cases(draw):
    tool = draw(st.sampled_from(sorted(TOOLS)))
    c = SLOTS_OF.get(TOOLS[tool][2], TOOLS[tool][2])
    if c == 'x86':
        p = {'prog': [x for x in draw(programs(['8086'], False))['prog'] if x[0] != 'ref' or x[1].startswith('.')]}
    else:
        p = draw(programs([c], draw(st.booleans())))
    prog = p['prog']
    if tool in c34.WANT and draw(st.integers(0, 5)):
        prog = [['fill', c34.WANT[tool][1], 0]] + prog if c34.WANT[tool][1] else prog
    if tool == 'gameboy':
        prog = [['fill', 0x150, 0]] + prog if draw(st.integers(0, 3)) else prog
    lines = text_of(prog).split('\n')
    bad = draw(st.integers(0, 3)) == 0
    if bad:
        lines.insert(draw(st.integers(0, len(lines))), draw(st.sampled_from(BAD)))
    n = draw(st.integers(1, 4))
    cuts = sorted(draw(st.integers(0, len(lines))) for _ in range(n - 1))
    parts = [lines[a:b] for a, b in zip([0] + cuts, cuts + [len(lines)])]
    eol = draw(st.sampled_from(['\n', '\n', '\r\n']))
    texts = [eol.join(x) + draw(st.sampled_from([eol, ''])) for x in parts]
    again = draw(st.integers(0, n - 1)) if n > 1 and draw(st.integers(0, 3)) == 0 else None
    if again is None and n > 1 and draw(st.integers(0, 4)) == 0:
        # a part without labels, to be given twice
        again = draw(st.integers(0, n - 1))
        texts[again] = eol.join(['.db 1', '.fill 3 2', '']) 
    return {'tool': tool, 'texts': texts, 'again': again, 'old': draw(st.sampled_from([None, None, 'left over from an earlier run'])), 'sub': draw(st.booleans())}


@REG.given(cases(), quick=1300)
def tool_is_api(case):
    """the destination holds exactly the API image; failures leave it as it was"""
    tool = case['tool']
    module, path, c, kind = TOOLS[tool]
    fn = resolve(module, path)
    with scratch() as d:
        srcs, dst = [], 'out/rom.bin' if case['sub'] else 'rom.bin'
        os.mkdir('out')
        os.mkdir('src')
        for i, t in enumerate(case['texts']):
            # names whose order differs from the command line order
            n = 'src/%d.S' % ((7 - i * 3) % 10)
            with open(n, 'w', newline='') as f:
                f.write(t)
            srcs.append(n)
        if case['again'] is not None:
            srcs.append(srcs[case['again']])
        if case['old'] is not None:
            with open(dst, 'w') as f:
                f.write(case['old'])
        before = files_in(d)
        want = api(tool, srcs)
        if files_in(d) != before:
            fail('%s: the API changed files' % tool)
        exc, out = call(fn, srcs + [dst])
        after = files_in(d)
        where = '%s %s' % (tool, [t[:200] for t in case['texts']])
        for n in before:
            if n != dst and after.get(n) != before[n]:
                fail('%s: source %s changed' % (where, n))
        if want.ok:
            if exc is not None:
                fail('%s: the API gives %s, the tool raises %r' % (where, hexs(want.image), exc))
            if after.get(dst) != want.image:
                fail('%s: the API gives %s, the tool writes %s' % (where, hexs(want.image), hexs(after.get(dst))))
            more = set(after) - set(before) - {dst} - extra(tool, dst)
            if more:
                fail('%s: unexpected files %s' % (where, sorted(more)))
            return len(want.image) > 0 and (len(srcs) > 1 or bool(want.asm.labels))
        if exc is None:
            fail('%s: the API raises %r, the tool does not' % (where, want.exc))
        if not isinstance(want.exc, IndexError) and (type(exc) is not type(want.exc) or str(exc) != str(want.exc)):
            fail('%s: the API raises %r, the tool %r' % (where, want.exc, exc))
        if after != before:
            fail('%s: the tool fails with %r but files changed: %s' % (where, exc, sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))))
        return True


@REG.given(st.fixed_dictionaries({'tool': st.sampled_from([t for t in sorted(TOOLS) if TOOLS[t][3] != 'elf']), 'seed': st.integers(0, 1 << 30), 'n': st.integers(0, 2900).map(lambda v: 3000 - v),
                                  'parts': st.integers(1, 40)}), quick=25)
def large(case):
    """large sources, and many of them"""
    r = random.Random(case['seed'])
    lines = ['.org 0', '.fill 1024']
    for i in range(case['n']):
        k = r.random()
        if k < .2:
            lines.append('n%d:' % i)
            lines.append('.dw n%d' % i)
        elif k < .9:
            lines.append('.db ' + ', '.join(str(r.randint(0, 255)) for _ in range(r.randint(1, 12))) + ' ; ' + 'x' * r.randint(0, 120))
        else:
            lines.append('')
    n = case['parts']
    cut = sorted(r.randint(0, len(lines)) for _ in range(n - 1))
    texts = ['\n'.join(lines[a:b]) + '\n' for a, b in zip([0] + cut, cut + [len(lines)])]
    fn = resolve(*TOOLS[case['tool']][:2])
    with scratch() as d:
        srcs = []
        for i, t in enumerate(texts):
            srcs.append('%d.S' % ((i * 17) % 41))
            with open(srcs[-1], 'w') as f:
                f.write(t)
        want = api(case['tool'], srcs)
        exc, _ = call(fn, srcs + ['dst'])
        if not want.ok:
            if exc is None or os.path.exists('dst'):
                fail('%s: the API fails (%r), the tool %r' % (case, want, exc))
            return False
        if exc is not None or files_in(d).get('dst') != want.image:
            fail('%s: the destination differs from the API image (%r)' % (case, exc))
    return len(want.image) > 5000


def usage_cases(tier):
    for t in sorted(TOOLS):
        yield [t, []]
        yield [t, ['a.S']]
        yield [t, ['nofile.S', 'dst']]
        yield [t, ['a.S', 'nofile.S', 'dst']]
        yield [t, ['a.S', 'a.S', 'nofile.S', 'dst']]


@REG.enum(usage_cases)
def usage(case):
    """missing arguments and missing sources write nothing"""
    tool, argv = case
    fn = resolve(*TOOLS[tool][:2])
    with scratch() as d:
        with open('a.S', 'w') as f:
            f.write('.fill 1024 1\n')
        before = files_in(d)
        exc, out = call(fn, list(argv))
        if files_in(d) != before:
            fail('%s %r changed files: %s' % (tool, argv, sorted(files_in(d))))
        if len(argv) > 1 and exc is None:
            fail('%s %r: no error for a missing source' % (tool, argv))
        if len(argv) < 2 and exc is None and not out.strip():
            fail('%s %r: neither an error nor a usage message' % (tool, argv))
    return True


@REG.enum(lambda tier: [[t, a, b] for t in sorted(TOOLS) if TOOLS[t][3] == 'many' for a in range(3) for b in range(3)])
def passes(case):
    """the given passes run once each, in order, around the linking, on the assembler that is saved; nothing stays for the next run"""
    tool, a, b = case
    module, path, c, kind = TOOLS[tool]
    fn = resolve(module, path)
    log = []

    def pre(i):
        def f(asm):
            log.append(('pre', i, type(asm) is cpu(c), bytes(asm.assembled_bytes[0x200:0x206])))
            asm.assembled_bytes[0x204 + i] = 0x40 + i
        return f

    def post(i):
        def f(asm):
            log.append(('post', i, type(asm) is cpu(c), bytes(asm.assembled_bytes[0x200:0x206])))
            asm.assembled_bytes[0x208 + i] = 0x80 + i
        return f
    text = '.fill 512 0\n.dw there\n.fill 14 0\n.fill 16 0\nthere: .db 1\n'
    addr = (512 + 32).to_bytes(2, 'big' if S.BIG[c] else 'little')
    with scratch():
        with open('a.S', 'w') as f:
            f.write(text)
        base = api(tool, ['a.S'])
        if not base.ok:
            fail('%s: %r' % (tool, base))
        exc, _ = call(fn, ['a.S', 'dst'], pre_link_passes=[pre(i) for i in range(a)], post_link_passes=[post(i) for i in range(b)])
        if exc is not None:
            fail('%s: main with passes raises %r' % (tool, exc))
        want = bytearray(base.image)
        for i in range(a): want[0x204 + i] = 0x40 + i
        for i in range(b): want[0x208 + i] = 0x80 + i
        expect = [('pre', i, True, b'\0\0\0\0' + bytes([0x40] if i else [0]) + b'\0') for i in range(a)]
        x = b''.join(bytes([0x40 + i]) for i in range(a)) + bytes(2 - a)
        expect += [('post', i, True, addr + b'\0\0' + x) for i in range(b)]
        if log != expect:
            fail('%s: passes ran as %r, expected %r' % (tool, log, expect))
        got = content('dst')
        # the header checksums of the Game Boy are the last pass of its own
        if tool == 'gameboy':
            want[0x14e:0x150] = got[0x14e:0x150]
        if got != bytes(want):
            fail('%s: image after passes %s, expected %s' % (tool, hexs(got[0x200:]), hexs(want[0x200:])))
        log.clear()
        exc, _ = call(fn, ['a.S', 'dst2'])
        if exc is not None or log or content('dst2') != base.image:
            fail('%s: a later run without passes is not clean: %r %r' % (tool, exc, log))
    return a + b > 0


@REG.enum(lambda tier: [[c, own, given] for c in ('6502', '68000', 'mips32', 'x86', 'gameboy') for own in range(3) for given in range(3)])
def passes_of_the_class(case):
    """an assembler that has passes of its own: the given ones follow them, as when they are added to the assembler"""
    c, own, given = case
    base = cpu(c)
    na_ = load('')
    log = []

    def member(kind, i):
        def f(self):
            log.append((kind, 'own', i, len(self.assembled_bytes)))
            self.assembled_bytes[i] += 1
            self.assembled_bytes[i] *= 3
        return f

    def extra_pass(kind, i):
        def f(asm):
            log.append((kind, 'given', i, len(asm.assembled_bytes)))
            asm.assembled_bytes[i] += 2
            asm.assembled_bytes[i] *= 2
        return f
    body = {}
    for i in range(own):
        body['a%d' % i] = na_.pre_link(member('pre', i))
        body['b%d' % i] = na_.post_link(member('post', i))
    cls = type('Own', (base,), body)
    pre, post = [extra_pass('pre', i) for i in range(given)], [extra_pass('post', i) for i in range(given)]
    with scratch():
        with open('a.S', 'w') as f:
            f.write('.db 1 2 3\nx: .dw x\n')
        asm = new(cls)
        asm.pre_link_passes += pre
        asm.post_link_passes += post
        asm.assemble_file('a.S')
        asm.link()
        want, order = bytes(asm.assembled_bytes), list(log)
        kinds = [x[:2] for x in order]
        if sorted(kinds) != sorted([(k, w) for k in ('pre', 'post') for w, n in (('own', own), ('given', given)) for _ in range(n)]):
            fail('%s: passes of the class and added ones ran as %r' % (c, order))
        log.clear()
        exc, _ = call(cls.main, ['a.S', 'dst'], pre_link_passes=pre, post_link_passes=post)
        got = None if exc else content('dst')
        if got != want or log != order:
            fail('%s with %d passes of its own, %d given: %r, image %s, passes ran as %r; through the API %s, %r' % (c, own, given, exc, hexs(got or b''), log, hexs(want), order))
    return own + given > 0


@st.composite
def sessions(draw):
    steps = []
    for _ in range(draw(st.integers(2, 5))):
        kind = st.lists(st.sampled_from([1, 2]), max_size=2)
        steps.append({'cls': draw(st.integers(0, 2)), 'pre': draw(st.none() | kind), 'post': draw(st.none() | kind), 'linker': draw(st.booleans()), 'src': draw(st.integers(0, 1)), 'bad': draw(st.integers(0, 4)) == 0})
    return {'own': [[draw(st.integers(0, 2)), draw(st.integers(0, 2))] for _ in range(3)], 'base': draw(st.sampled_from(['6502', '68000', 'x86', 'gameboy'])), 'steps': steps}


@REG.given(sessions(), quick=150)
def runs_in_one_process(case):
    """the mains of several assembler classes, one after the other in one process: each run is as if it were the only one"""
    na_ = load('')
    log = []

    def make(k, npre, npost):
        def member(kind, i):
            def f(self):
                log.append((k, type(self).__name__, kind, i))
                self.assembled_bytes[i] = (self.assembled_bytes[i] * 3 + k + 1) & 0xff
            return f
        body = {'a%d' % i: na_.pre_link(member('pre', i)) for i in range(npre)}
        body.update({'b%d' % i: na_.post_link(member('post', i)) for i in range(npost)})
        return type('Own%d' % k, (cpu(case['base']),), body)

    def added(kind, i):
        def f(asm):
            log.append((type(asm).__name__, kind, 'given', i))
            asm.assembled_bytes[i] = (asm.assembled_bytes[i] * 5 + 7) & 0xff
        return f

    class Flat(load('linker').Dummy):
        def link(self, assembler):
            log.append('linker of %s' % type(assembler).__name__)
            return super().link(assembler) + b'end'

    given = {(kind, i): added(kind, i) for kind in ('pre', 'post') for i in (1, 2)}
    classes = [make(k, *case['own'][k]) for k in range(3)]
    shared = {}
    ran = 0
    with scratch():
        for name, text in (('s0', '.db 1 2 3 4\nx: .dw x\n'), ('s1', '.db 9 8 7 6 5\ny: .dw y\n'), ('bad', '.db 1\nnot an instruction\n')):
            with open(name, 'w') as f:
                f.write(text)
        for n, s in enumerate(case['steps']):
            src = 'bad' if s['bad'] else 's%d' % s['src']
            cls = classes[s['cls']]
            kw, lists = {}, []
            for kind in ('pre', 'post'):
                if s[kind] is not None:
                    # the same list is handed to several runs
                    lst = shared.setdefault((kind, tuple(s[kind])), [given[kind, i] for i in s[kind]])
                    kw[kind + '_link_passes'] = lst
                    lists.append((kind, lst, list(lst)))
            if s['linker']:
                kw['linker'] = Flat()
            log.clear()
            exc, _ = call(cls.main, [src, 'out%d' % n], **kw)
            got, order = None if exc else content('out%d' % n), list(log)
            for kind, lst, was in lists:
                if lst != was:
                    fail('%r: the list of %s passes changed in step %d' % (case, kind, n))
            log.clear()
            asm = new(cls)
            asm.pre_link_passes += [given['pre', i] for i in s['pre'] or []]
            asm.post_link_passes += [given['post', i] for i in s['post'] or []]
            want = None
            try:
                with quiet():
                    asm.assemble_file(src)
                    asm.link(linker=kw.get('linker'))
                want = bytes(asm.assembled_bytes)
            except Exception:
                pass
            if got != want or order != log:
                fail('%r: step %d gives %s with passes %r (%r); alone %s with %r' % (case, n, hexs(got or b''), order, exc, hexs(want or b''), log))
            npre, npost = case['own'][s['cls']]
            if want is not None and sum(x != 'linker of %s' % cls.__name__ for x in order) != npre + npost + len(s['pre'] or []) + len(s['post'] or []):
                fail('%r: step %d ran the passes %r' % (case, n, order))
            ran += want is not None
    return ran > 1


def scripts():
    src = open(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'setup.py')).read()
    for node in ast.walk(ast.parse(src)):
        if isinstance(node, ast.Call) and getattr(node.func, 'id', getattr(node.func, 'attr', '')) == 'setup':
            for k in node.keywords:
                if k.arg == 'entry_points':
                    return ast.literal_eval(k.value)['console_scripts']
    return []


SCRIPT_TOOL = {'necro_6502': '6502', 'necro_thumb': 'thumb', 'necro_mips32': 'mips32', 'necro_nes': 'nes', 'necro_gb': 'gameboy', 'necro_sms': 'sms', 'necro_gba': 'gba', 'necro_psx': 'psx',
               'necro_z80': 'z80', 'necro_m68k': '68000', 'necro_8086': '8086', 'necro_genesis': 'genesis'}


@REG.enum(lambda tier: [s.replace(' ', '') for s in scripts()])
def console_scripts(entry):
    """every declared command starts the assembler it is named after"""
    name, target = entry.split('=')
    module, path = target.split(':')
    sig = 'entry-point-%s' % target if name == 'necro_mips32' and target == 'necroassembler.cpu.thumb:AssemblerMIPS32.main' else None
    try:
        fn = importlib.import_module(module)
        for p in path.split('.'):
            fn = getattr(fn, p)
    except Exception as exc:
        fail('console script %s: %s does not exist (%r)' % (name, target, exc), sig)
    tool = SCRIPT_TOOL.get(name)
    if tool is None:
        return True
    c = SLOTS_OF.get(TOOLS[tool][2], TOOLS[tool][2])
    t = S.keys(c, False)
    with scratch():
        with open('a.S', 'w') as f:
            f.write('.fill 1024 0\n.org 16\nlab:\n' + ''.join(x.replace('{L}', '9') + '\n' for x in t[:1]) + '.dw lab\n')
        want = api(tool, ['a.S'])
        exc, _ = call(fn, ['a.S', 'dst'])
        if want.ok != (exc is None) or want.ok and content('dst') != want.image:
            fail('console script %s: %r, expected %r' % (name, exc, want))
    return True


@REG.enum(lambda tier: [[t, ok] for t in sorted(TOOLS) for ok in (True, False)])
def as_program(case):
    """python -m: exit status and destination"""
    tool, ok = case
    module = TOOLS[tool][0]
    repo = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
    with scratch() as d:
        with open('a.S', 'w') as f:
            f.write('start: .fill 1024 0\n.dw start\nend:\n')
        with open('b.S', 'w') as f:
            f.write('.db 1,2,3\n' if ok else '.db 1\n.db 256\n')
        srcs = ['a.S', 'b.S']
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run([sys.executable, '-m', 'necroassembler.' + module] + srcs + ['dst'], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        if ok:
            want = api(tool, srcs)
            if r.returncode != 0:
                fail('%s: exit status %d, %s' % (tool, r.returncode, r.stderr[-200:]))
            if not os.path.exists('dst') or content('dst') != want.image:
                fail('%s: destination differs from %r' % (tool, want))
        else:
            if r.returncode == 0 or os.path.exists('dst'):
                fail('%s: a failing assembly ends with status %d and%s a destination' % (tool, r.returncode, '' if os.path.exists('dst') else ' without'))
    return True
