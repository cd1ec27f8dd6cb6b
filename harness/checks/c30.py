"""C30 ELF output.  Oracle: an independent reader of the ELF format and a model of the sections."""
import sys
from hypothesis import strategies as st
from harness.core import Registry
from harness.lib import *

REG = Registry('C30', 'the object holds at least one section with content or one exported symbol',
               ['ELF structure as in the System V ABI; objects are relocatable (type 1), so symbol values are relative to their section'])
ELF = load('linker').ELF
Base = Assembler


def read_elf(blob):
    """-> dict; raises Violation when the file is not well formed"""
    def need(c, what):
        if not c:
            fail('malformed ELF: ' + what)
    need(len(blob) >= 52 and blob[:4] == b'\x7fELF', 'magic')
    cl, da, ver = blob[4], blob[5], blob[6]
    need(cl in (1, 2) and da in (1, 2) and ver == 1, 'ident %s' % blob[4:7].hex())
    need(blob[7:16] == bytes(9), 'OS ABI and padding')
    en = 'little' if da == 1 else 'big'
    w = 4 if cl == 1 else 8

    class R:
        def __init__(s, o):
            s.o = o

        def __call__(s, n):
            need(s.o + n <= len(blob), 'truncated at %d' % s.o)
            v = int.from_bytes(blob[s.o:s.o + n], en)
            s.o += n
            return v
    r = R(16)
    h = dict(type=r(2), machine=r(2), version=r(4), entry=r(w), phoff=r(w), shoff=r(w), flags=r(4), ehsize=r(2),
             phentsize=r(2), phnum=r(2), shentsize=r(2), shnum=r(2), shstrndx=r(2))
    need(h['version'] == 1, 'version')
    need(h['ehsize'] == r.o == (52 if cl == 1 else 64), 'header size %d' % h['ehsize'])
    need(h['phnum'] == 0 and h['phoff'] == 0, 'program headers in a relocatable object')
    need(h['shentsize'] == (40 if cl == 1 else 64), 'section header size')
    need(h['shnum'] >= 1 and 0 < h['shstrndx'] < h['shnum'], 'section count')
    need(h['shoff'] + h['shnum'] * h['shentsize'] <= len(blob), 'section table outside of the file')
    need(h['shoff'] >= h['ehsize'], 'section table over the header')
    secs = []
    for i in range(h['shnum']):
        r = R(h['shoff'] + i * h['shentsize'])
        s = dict(name=r(4), type=r(4), flags=r(w), addr=r(w), offset=r(w), size=r(w), link=r(4), info=r(4), align=r(w), entsize=r(w))
        secs.append(s)
    need(all(v == 0 for v in secs[0].values()), 'first section is not null')
    used = [(0, h['ehsize'], 'header'), (h['shoff'], h['shoff'] + h['shnum'] * h['shentsize'], 'section table')]
    for i, s in enumerate(secs[1:], 1):
        if s['type'] != 8 and s['size']:
            need(s['offset'] + s['size'] <= len(blob), 'section %d outside of the file' % i)
            used.append((s['offset'], s['offset'] + s['size'], 'section %d' % i))
        s['data'] = blob[s['offset']:s['offset'] + s['size']] if s['type'] != 8 else b''
    used.sort()
    for a, b in zip(used, used[1:]):
        need(a[1] <= b[0], '%s overlaps %s' % (a[2], b[2]))

    def string(tab, off):
        need(off < len(tab) or (off == 0 and not tab), 'name outside of the string table')
        end = tab.find(b'\0', off)
        need(end >= 0, 'unterminated name')
        return tab[off:end].decode('utf-8', 'replace')
    st_ = secs[h['shstrndx']]
    need(st_['type'] == 3, 'section name table is not a string table')
    for s in secs[1:]:
        s['n'] = string(st_['data'], s['name'])
        if s['type'] == 3:
            need(s['data'][:1] == b'\0' and s['data'][-1:] == b'\0', 'string table %s not delimited by null bytes' % s['n'])
    symbols = []
    for i, s in enumerate(secs[1:], 1):
        if s['type'] != 2:
            continue
        size = 16 if cl == 1 else 24
        need(s['entsize'] == size and s['size'] % size == 0 and s['size'], 'symbol table entry size')
        need(0 < s['link'] < h['shnum'] and secs[s['link']]['type'] == 3, 'symbol table link')
        tab = secs[s['link']]['data']
        n = s['size'] // size
        need(0 < s['info'] <= n, 'first global symbol %d of %d' % (s['info'], n))
        for k in range(n):
            r = R(s['offset'] + k * size)
            if cl == 1:
                name, value, sz, info, other, shndx = r(4), r(4), r(4), r(1), r(1), r(2)
            else:
                name, info, other, shndx, value, sz = r(4), r(1), r(1), r(2), r(8), r(8)
            if k == 0:
                need((name, value, sz, info, other, shndx) == (0,) * 6, 'first symbol is not null')
                continue
            need((info >> 4 == 0) == (k < s['info']), 'local and global symbols are not in order')
            need(shndx < h['shnum'] or shndx >= 0xff00, 'symbol section')
            symbols.append(dict(name=string(tab, name), value=value, size=sz, bind=info >> 4, type=info & 15, other=other, shndx=shndx))
    return dict(cls=32 if cl == 1 else 64, big=da == 2, h=h, secs=secs, symbols=symbols)


def text_of(prog):
    out = []
    for s in prog:
        k = s[0]
        if k == 'section':
            out.append('.section %s %s%s' % (s[1] if not s[4] else '"%s"' % s[1], s[2], '' if s[3] is None else ' 0x%x' % s[3]))
        elif k == 'bytes':
            out.append('.db ' + ' '.join(str(b) for b in s[1]))
        elif k == 'label':
            out.append(s[1] + ':')
        elif k in ('ram', 'org'):
            out.append('.%s %d' % (k, s[1]))
        elif k == 'export':
            out.append('.export ' + s[1])
        elif k == 'ref':
            out.append('.dd ' + s[1])
    return '\n'.join(out) + '\n'


def model(prog, big):
    secs, img, pc, labels, refs, exports = [], bytearray(), 0, {}, [], []
    for s in prog:
        k = s[0]
        if k == 'section':
            if s[3] is not None:
                pc = s[3]
            secs.append(dict(name=s[1], perms=s[2], start=pc, off=len(img)))
        elif k == 'bytes':
            img += bytes(s[1])
            pc += len(s[1])
        elif k == 'label':
            labels[s[1]] = (len(secs) - 1, pc)
        elif k == 'ram':
            pc += s[1]
        elif k == 'org':
            pc = s[1]
        elif k == 'export':
            exports.append(s[1])
        elif k == 'ref':
            refs.append((len(img), s[1]))
            img += bytes(4)
            pc += 4
    und = []
    for off, name in refs:
        if name in labels:
            img[off:off + 4] = (labels[name][1] & 0xffffffff).to_bytes(4, 'big' if big else 'little')
        else:
            und.append((off, name))
    ends = [x['off'] for x in secs[1:]] + [len(img)]
    for x, e in zip(secs, ends):
        x['data'] = bytes(img[x['off']:e])
    syms = {n: (labels[n][0] + 1 if labels[n][0] >= 0 else 0xfff1,
                labels[n][1] - (secs[labels[n][0]]['start'] if labels[n][0] >= 0 else 0)) for n in exports if n in labels}
    return secs, bytes(img), syms, und


def flags_of(perms):
    f = 0
    for c in perms:
        f |= {'R': 2, 'W': 1, 'X': 4, 'E': 4}[c]
    return f


def compare(blob, cfg, prog, big, what=''):
    e = read_elf(blob)
    secs, img, syms, und = model(prog, big)
    bits = cfg['bits']
    if (e['cls'], e['big'], e['h']['type'], e['h']['machine']) != (bits, big, cfg['type'], cfg['machine']):
        fail('header says %r' % ((e['cls'], e['big'], e['h']['type'], e['h']['machine']),))
    if e['h']['entry'] != 0 or e['h']['flags'] != 0:
        fail('entry point or flags in a relocatable object')
    progbits = [s for s in e['secs'][1:] if s['type'] in (1, 8)]
    if e['secs'][1:len(secs) + 1] != progbits:
        fail('program sections are not the first ones, in order')
    if len(progbits) != len(secs):
        fail('%d program sections, expected %d' % (len(progbits), len(secs)))
    for got, want in zip(progbits, secs):
        if got['n'] != want['name']:
            fail('section %r named %r' % (want['name'], got['n']))
        if got['flags'] != flags_of(want['perms']):
            fail('section %s %s has flags %x' % (want['name'], want['perms'], got['flags']))
        if got['addr'] != want['start']:
            fail('section %s starts at %x, expected %x' % (want['name'], got['addr'], want['start']))
        if got['size'] != len(want['data']) or got['data'] != want['data']:
            fail('section %s holds %s (size %d), expected %s' % (want['name'], hexs(got['data']), got['size'], hexs(want['data'])))
        if want['data'] and got['type'] != 1:
            fail('section %s with content has type %d' % (want['name'], got['type']))
        if got['link'] or got['info'] or got['entsize']:
            fail('section %s says link %d, info %d, entries of %d' % (want['name'], got['link'], got['info'], got['entsize']))
        if got['align'] != cfg['align']:
            fail('section %s alignment %d' % (want['name'], got['align']))
    rest = [(s['type'], s['n']) for s in e['secs'][1 + len(secs):]]
    if sorted(rest) != [(2, '.symtab'), (3, '.shstrtab'), (3, '.strtab')]:
        fail('other sections: %r' % rest)
    got = sorted((s['name'], s['shndx'], s['value']) for s in e['symbols'])
    if got != sorted((n, i, v) for n, (i, v) in syms.items()):
        fail('symbols %r, expected %r' % (got, sorted((n, i, v) for n, (i, v) in syms.items())))
    for s in e['symbols']:
        if s['bind'] != 1 or s['other'] != 0:
            fail('exported symbol %s is not global' % s['name'])
    return bool(syms) or any(s['data'] for s in secs)


SEC_NAMES = ['.text', '.data', '.bss', 'a', 'CODE', '.rodata.str1', '.t', 'x_very_long_section_name_indeed', '.text2', '\xe9t\xe9', '.\u65e5\u672c']
LABELS = ['start', 'Start', 'main', '_end', 'x', 'l1', 'l10', 'a.very.long.symbol_name', 'text', 'loop']


@st.composite
def progs(draw, max_addr):
    n = draw(st.integers(0, 14))
    secs = draw(st.lists(st.sampled_from(SEC_NAMES), unique=True, max_size=5))
    labs = draw(st.lists(st.sampled_from(LABELS), unique=True, max_size=6))
    todo, exps = list(labs), list(labs) + ['nowhere']
    refs = labs + ['extern1', 'extern2']
    out = []
    if secs and draw(st.integers(0, 3)):
        secs_left = secs[1:]
        first = secs[0]
    else:
        secs_left, first = list(secs), None

    def section(name):
        perms = ''.join(draw(st.lists(st.sampled_from('RWXE'), min_size=1, max_size=4, unique=True)))
        start = draw(st.one_of(st.none(), st.sampled_from([0, 0x10, 0x1000, 0x8000, 0x08048000]), st.integers(0, max_addr)))
        return ['section', name, perms, start, draw(st.booleans())]
    if first:
        out.append(section(first))
    elif draw(st.integers(0, 2)) == 0:
        # the code before the first section is anywhere
        out.append(['org', draw(st.one_of(st.sampled_from([1, 0x8000, 0x7ffffff0, 0x80000000, 0xfffffe00]).filter(lambda v: v <= max_addr), st.integers(0, max_addr)))])
    for _ in range(n):
        k = draw(st.integers(0, 9))
        if k < 3:
            out.append(['bytes', draw(st.lists(st.integers(0, 255), min_size=1, max_size=9))])
        elif k < 5 and todo:
            out.append(['label', todo.pop()])
        elif k < 7 and secs_left:
            out.append(section(secs_left.pop(0)))
        elif k == 7 and exps:
            out.append(['export', exps.pop(draw(st.integers(0, len(exps) - 1)))])
        elif k == 8:
            out.append(['ref', draw(st.sampled_from(refs))])
        else:
            out.append(['ram', draw(st.integers(1, 20))])
    for n in todo:
        out.append(['label', n])
    return out


CFG = st.fixed_dictionaries({'bits': st.sampled_from([32, 64]), 'big': st.booleans(), 'type': st.just(1),
                             'machine': st.sampled_from([3, 0x3e, 0x14, 0x28, 8, 0xffff, 0x102]), 'align': st.sampled_from([0, 1, 4, 16])})


def make(big_):
    class T(Base):
        big_endian = big_
        hex_prefixes = ('0x',)
    return T


def linker_of(cfg, cls=ELF):
    if cfg['align']:
        return cls(cfg['bits'], cfg['big'], cfg['type'], cfg['machine'], alignment=cfg['align'])
    return cls(cfg['bits'], cfg['big'], cfg['type'], cfg['machine'])


@REG.given(st.tuples(CFG, progs(0xffff0000)).map(lambda t: {'cfg': t[0], 'prog': t[1]}), quick=1500)
def objects(case):
    """well-formed object with exactly the model's sections and symbols"""
    cfg, prog = case['cfg'], case['prog']
    asm = new(make(cfg['big']))
    linker = linker_of(cfg)
    try:
        asm.assemble(text_of(prog))
        asm.link(linker=linker)
    except Exception as exc:
        fail('%r: %r' % (text_of(prog), exc))
    return compare(bytes(asm.assembled_bytes), cfg, prog, cfg['big'])


@REG.given(st.tuples(CFG, progs(0xffff0000), st.integers(0, 0xffffffff)).map(lambda t: {'cfg': t[0], 'prog': t[1], 'v': t[2]}), quick=400)
def relocation(case):
    """undefined symbols go to the linker with their place, defined ones do not, its answer fills the field"""
    cfg, prog = case['cfg'], case['prog']
    calls = []

    class Rec(ELF):
        def resolve_unknown_symbol(self, assembler, address, symbol_data):
            calls.append((address, symbol_data.label, symbol_data.size))
            ELF.resolve_unknown_symbol(self, assembler, address, symbol_data)
            return case['v']
    asm = new(make(cfg['big']))
    linker = linker_of(cfg, Rec)
    try:
        asm.assemble(text_of(prog))
        n = len(asm.assembled_bytes)
        asm.link(linker=linker)
    except Exception as exc:
        fail('%r: %r' % (text_of(prog), exc))
    secs, img, syms, und = model(prog, cfg['big'])
    if sorted(calls) != sorted((o, n_, 4) for o, n_ in und):
        fail('relocation asked for %r, undefined are %r' % (sorted(calls), und))
    if {k: v.label for k, v in linker.relocations.items()} != dict(und):
        fail('relocations %r, undefined are %r' % (linker.relocations, und))
    want = bytearray(img)
    for o, _ in und:
        want[o:o + 4] = case['v'].to_bytes(4, 'big' if cfg['big'] else 'little')
    e = read_elf(bytes(asm.assembled_bytes))
    for got, s in zip(e['secs'][1:], secs):
        w = bytes(want[s['off']:s['off'] + len(s['data'])])
        if got['data'] != w:
            fail('section %s holds %s, expected %s' % (s['name'], hexs(got['data']), hexs(w)))
    return bool(und)


@REG.given(st.tuples(CFG, st.lists(progs(0xfffff), min_size=2, max_size=3)).map(lambda t: {'cfg': t[0], 'progs': t[1]}), quick=150)
def linker_reuse(case):
    """one linker object used for several programs"""
    cfg = case['cfg']
    linker = linker_of(cfg)
    nt = False
    for p in case['progs']:
        asm = new(make(cfg['big']))
        try:
            asm.assemble(text_of(p))
            asm.link(linker=linker)
        except Exception as exc:
            fail('%r: %r' % (text_of(p), exc))
        nt |= compare(bytes(asm.assembled_bytes), cfg, p, cfg['big'])
    return nt


@REG.given(st.tuples(CFG, progs(0xfffff), st.integers(0, 20)).map(lambda t: {'cfg': t[0], 'prog': t[1], 'cut': t[2]}), quick=200)
def incremental(case):
    """an object built by several assemble() calls is the one built by one call"""
    cfg, prog = case['cfg'], case['prog']
    cut = case['cut'] % (len(prog) + 1)
    asm = new(make(cfg['big']))
    try:
        for part in (prog[:cut], prog[cut:]):
            asm.assemble(text_of(part))
        asm.link(linker=linker_of(cfg))
    except Exception as exc:
        fail('%r: %r' % (text_of(prog), exc))
    return compare(bytes(asm.assembled_bytes), cfg, prog, cfg['big']) and 0 < cut < len(prog)


WRAP = {'i386_elf32': dict(bits=32, big=False, type=1, machine=3, align=0),
        'x86_64_elf64': dict(bits=64, big=False, type=1, machine=0x3e, align=0),
        'ppc_elf32': dict(bits=32, big=True, type=1, machine=0x14, align=4)}


@REG.given(st.tuples(st.sampled_from(sorted(WRAP)), progs(0xfffff)).map(lambda t: {'w': t[0], 'prog': t[1]}), quick=200)
def wrappers(case):
    """the three ELF command line tools"""
    cfg, prog = WRAP[case['w']], case['prog']
    mod = load('platforms.' + case['w'])
    with scratch():
        with open('a.S', 'w') as f:
            f.write(text_of(prog))
        old = sys.argv
        sys.argv = ['tool', 'a.S', 'a.o']
        try:
            with quiet():
                mod.main()
        except Exception as exc:
            fail('%s on %r: %r' % (case['w'], text_of(prog), exc))
        finally:
            sys.argv = old
        with open('a.o', 'rb') as f:
            return compare(f.read(), cfg, prog, cfg['big'])


BAD = [('.section a R\n.section a W\n', 'duplicate section'), ('.section a Q\n', 'unknown permission'), ('.section a RZ\n', 'unknown permission'),
       ('.section a\n', 'no permissions'), ('.section\n', 'no name'), ('.section a R 0 1\n', 'extra argument'),
       ('.section a R nolabel\n', 'start is not a number'), ('.export x\n.export x\n', 'double export'), ('.export\n', 'no symbol'),
       ('.export a b\n', 'two symbols')]


@REG.enum(lambda tier: [[i] for i in range(len(BAD))])
def rejected(case):
    """bad section and export directives"""
    text, what = BAD[case[0]]
    expect_error(run(make(False), text, link=False), what + ' ' + repr(text))
    return True


@REG.given(st.fixed_dictionaries({'cfg': CFG, 'seed': st.integers(0, 1 << 30), 'n': st.integers(5, 60)}), quick=60)
def large_objects(case):
    """dozens and hundreds of sections and exports, contents of any size"""
    import random
    r = random.Random(case['seed'])
    prog, labs = [], []
    for i in range(case['n']):
        perms = ''.join(r.sample('RWXE', r.randint(1, 4)))
        prog.append(['section', 's%d' % i if r.random() < .7 else '.sec%d.%s' % (i, r.choice('xxx\xe9\u20ac') * r.randint(1, 200)), perms, r.choice([None, 0, 0x1000 * i, 0x08048000, 0xfffffff0 if case['cfg']['bits'] == 64 else 0x100]), r.random() < .5])
        for k in range(r.randint(0, 4)):
            w = r.random()
            if w < .5:
                prog.append(['bytes', [(j * 7 + i) & 255 for j in range(r.choice([1, 3, 255, 256, 4096, 20000]) if r.random() < .3 else r.randint(1, 30))]])
            elif w < .6:
                prog.append(['ram', r.randint(1, 300)])
            else:
                labs.append('l%d_%d' % (i, k))
                prog.append(['label', labs[-1]])
        if labs and r.random() < .5 and prog[-1][0] != 'export':
            n = r.choice(labs)
            if ['export', n] not in prog:
                prog.append(['export', n])
    cfg = case['cfg']
    asm = new(make(cfg['big']))
    try:
        asm.assemble(text_of(prog))
        asm.link(linker=linker_of(cfg))
    except Exception as exc:
        fail('%r: %r' % (text_of(prog)[:2000], exc))
    return compare(bytes(asm.assembled_bytes), cfg, prog, cfg['big'])


@REG.enum(lambda tier: [[n, bits, big, k] for n in ((256, 300) if tier == 'quick' else (254, 255, 256, 257, 300, 511, 513, 1000, 5000)) for bits in (32, 64) for big in (False, True) for k in (0, 1)])
def many_sections(case):
    """hundreds of sections, with exported labels in the first ones and the last ones"""
    n, bits, big, k = case
    prog = []
    for i in range(n):
        prog.append(['section', 's%d' % i, ['RX', 'RW', 'R', 'RWX'][i % 4], None if i % 3 else 0x1000 * i, False])
        prog.append(['bytes', [i & 255, i >> 8] * (1 + i % 3)])
        prog.append(['label', 'l%d' % i])
    for i in sorted({0, 1, n // 2, 250, 253, 254, n - 2, n - 1, 255, 252} if k else range(n)):
        if i < n:
            prog.append(['export', 'l%d' % i])
    cfg = {'bits': bits, 'big': big, 'type': 1, 'machine': 0x3e, 'align': 4 * k}
    asm = new(make(big))
    try:
        asm.assemble(text_of(prog))
        asm.link(linker=linker_of(cfg))
    except Exception as exc:
        fail('%d sections: %r' % (n, exc))
    return compare(bytes(asm.assembled_bytes), cfg, prog, big)


@REG.enum(lambda tier: [[bits, big, v, base] for bits in (32, 64) for big in (False, True) for base in (0, 0x400000, 0x7fffffff, 0x80000000, 0xfffffff0, 1 << 32, 1 << 40, (1 << 63) - 1, 1 << 63, (1 << 64) - 512)
                        for v in (0, 1, 5, 255) if base + v < 1 << bits])
def any_address(case):
    """labels and sections at any address of the address space"""
    bits, big, v, base = case
    cfg = {'bits': bits, 'big': big, 'type': 1, 'machine': 3, 'align': 0}
    for prog in ([['org', base], ['ram', v], ['label', 'lab'], ['export', 'lab'], ['bytes', [7]]], [['section', '.text', 'RX', base, False], ['bytes', [9]], ['ram', v], ['label', 'lab'], ['export', 'lab'], ['bytes', [7]]]):
        prog = [s for s in prog if s != ['ram', 0]]
        if base + v + 2 >= 1 << bits:
            continue
        asm = make(big)()
        asm.assemble(text_of(prog))
        asm.link(linker_of(cfg))
        compare(bytes(asm.assembled_bytes), cfg, prog, big)
    return True
