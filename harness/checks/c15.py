from hypothesis import strategies as st
from harness.core import Registry
from harness.lib import *
from harness import model as M

na_utils = load('utils')

REG = Registry('C15', 'generated assembler subclasses (instruction kinds, names, fixup parameters, passes, linkers) and statement sequences; calls are recorded and '
               'fixups recomputed bit by bit. Non-trivial: at least one fixup applied, or at least two registered names used.',
               ['two fixups that start at the same byte are outside the domain'])
opcode, directive, pre_link, post_link = na.opcode, na.directive, na.pre_link, na.post_link
FILTERS = {'none': None, 'shr1': lambda v: v >> 1, 'shr2': lambda v: v >> 2, 'inc': lambda v: v + 1, 'low8': lambda v: v & 0xff, 'neg': lambda v: -v}


@st.composite
def fixup(draw):
    size = draw(st.sampled_from([1, 2, 3, 4]))
    use_bits = draw(st.booleans())
    start = draw(st.integers(0, size * 8 - 1)) if use_bits else 0
    end = draw(st.integers(start, size * 8 - 1)) if use_bits else size * 8 - 1
    rel = draw(st.booleans())
    return {'size': size, 'bits': [end, start] if use_bits else None, 'rel': draw(st.integers(-4, 8)) if rel else None,
            'bits_size': draw(st.one_of(st.just(size * 8), st.integers(4, 34))), 'align': draw(st.sampled_from([1, 1, 1, 2, 4])),
            'filter': draw(st.sampled_from(sorted(FILTERS) + ['none'] * 5)), 'hook': draw(st.integers(0, 6)) == 0}


@st.composite
def fix_case(draw):
    fx = []
    pos = draw(st.integers(0, 2))
    for _ in range(draw(st.integers(1, 3))):
        f = draw(fixup())
        f['offset'] = pos
        pos += f['size'] + draw(st.integers(0, 2))
        fx.append(f)
    total = pos + draw(st.integers(0, 2))
    base = draw(st.lists(st.integers(0, 255), min_size=total, max_size=total))
    return {'be': draw(st.booleans()), 'fx': fx, 'base': base, 'org': draw(st.sampled_from([0x10, 0x100, 0x8000])), 'pre': draw(st.integers(0, 3)),
            'labels': draw(st.lists(st.one_of(st.integers(0, 60), st.integers(0, 300), st.integers(0, 70000), st.sampled_from([127, 128, 255, 256, 4095, 65535, 65536])), min_size=3, max_size=3)),
            'near': draw(st.booleans()), 'after': draw(st.booleans())}


@REG.given(fix_case(), quick=2000)
def fixups(case):
    """each fixup lands in exactly its bytes and bits, or is rejected"""
    be, fx = case['be'], case['fx']
    order = 'big' if be else 'little'
    hooked = []
    # clear the fields in the emitted bytes, keep everything around them
    base = bytearray(case['base'])
    for f in fx:
        end, start = f['bits'] or (f['size'] * 8 - 1, 0)
        if f['hook']:
            continue
        v = int.from_bytes(base[f['offset']:f['offset'] + f['size']], order)
        v &= ~(((1 << end - start + 1) - 1) << start)
        base[f['offset']:f['offset'] + f['size']] = v.to_bytes(f['size'], order)

    class Cpu(Assembler):
        big_endian = be

        @opcode('FIX')
        def fix(self, instr):
            for i, f in enumerate(fx):
                kw = {}
                if f['bits']:
                    kw['bits'] = tuple(f['bits'])
                if FILTERS[f['filter']]:
                    kw['filter'] = FILTERS[f['filter']]
                if f['rel'] is not None:
                    kw['relative'] = self.pc + f['rel']
                if f['hook']:
                    kw['hook'] = lambda address, value, i=i: hooked.append([i, address, value])
                r = self.parse_integer_or_label(label=instr.tokens[1 + i], size=f['size'], bits_size=f['bits_size'], offset=f['offset'], alignment=f['align'], **kw)
                if r != 0:
                    fail('a label operand yields %r before linking' % r)
            return bytes(base)
    labels = list(case['labels'])
    pc = case['org'] + case['pre']
    if case['near']:
        labels = [max(0, pc + l % 300 - 150) for l in labels]
    labs = ''.join('.org %d\nl%d:\n' % (a, i) for i, a in enumerate(labels))
    use = '.org %d\n.fill %d 7\nFIX %s\n.fill 2 8\n' % (case['org'], case['pre'], ' '.join('l%d' % i for i in range(len(fx))))
    want = bytearray(b'\x07' * case['pre'] + base + b'\x08\x08')
    want_hook = []
    reject = None
    for i, f in enumerate(fx):
        a = labels[i]
        idx = case['pre'] + f['offset']
        v = a if f['rel'] is None else a - (pc + f['rel'])
        if f['hook']:
            want_hook.append([i, idx, v])
            continue
        if a % f['align']:
            reject = 'alignment'
            break
        n = f['bits_size']
        if f['rel'] is None and not 0 <= v < (1 << n) or f['rel'] is not None and not -(1 << n - 1) <= v < (1 << n - 1):
            reject = 'range'
            break
        if FILTERS[f['filter']]:
            v = FILTERS[f['filter']](v)
        if f['bits']:
            end, start = f['bits']
            w = end - start + 1
            if not -(1 << w - 1) <= v < (1 << w):
                reject = 'field'
                break
            v = (v % (1 << w)) << start
        word = int.from_bytes(want[idx:idx + f['size']], order) | v % (1 << f['size'] * 8)
        want[idx:idx + f['size']] = word.to_bytes(f['size'], order)
    r = run(Cpu, use + labs if case['after'] else labs + use)
    if reject:
        expect_error(r, 'fixups %r (%s)' % (case, reject))
        if not isinstance(r.exc, AssemblerException):
            fail('fixups %r raised %r' % (case, r.exc))
        return False
    expect_image(r, want, 'fixups %r' % case)
    if sorted(hooked) != sorted(want_hook):
        fail('fixups %r: hooks called with %r, expected %r' % (case, hooked, want_hook))
    return True


@REG.given(st.fixed_dictionaries({'stmts': st.lists(st.tuples(st.sampled_from(['one', 'ONE', 'uno', 'two', 'three', 'const', 'CONST', '.d1', '.D1', '.alias', '.reg']), st.lists(st.sampled_from(['a', '1', 'b+2', '(', 'X']), max_size=3)), min_size=1, max_size=8)}), quick=600)
def registration(case):
    """every registered name is called once per statement with its tokens"""
    calls = []

    class Cpu(Assembler):
        def register_instructions(self):
            self.register_instruction('three', lambda instr: self.log_call('three', instr, b'\x03\x33\x03'))
            self.register_instruction('const', b'\xc0\xc1')

        def register_directives(self):
            self.register_directive('reg', lambda instr: self.log_call('reg', instr, None))

        def log_call(self, who, instr, blob):
            calls.append([who] + list(instr.tokens))
            return blob

        @opcode('one', 'uno')
        def op_one(self, instr):
            return self.log_call('one', instr, b'\x01')

        @opcode('TWO')
        def op_two(self, instr):
            return self.log_call('two', instr, b'')

        @directive('d1', 'alias')
        def dir_one(self, instr):
            self.log_call('d1', instr, None)
            self.append_assembled_bytes(b'\xdd')
    want, image, bad = [], b'', False
    who = {'one': ('one', b'\x01'), 'uno': ('one', b'\x01'), 'two': ('two', b''), 'three': ('three', b'\x03\x33\x03'), '.d1': ('d1', b'\xdd'), '.alias': ('d1', b'\xdd'), '.reg': ('reg', b'')}
    for nm, args in case['stmts']:
        if nm.lower() == 'const':
            if args:
                bad = True
                break
            image += b'\xc0\xc1'
            continue
        w, blob = who[nm.lower()]
        want.append([w, nm] + args)
        image += blob
    text = '\n'.join(' '.join([n] + a) for n, a in case['stmts'])
    r = run(Cpu, text)
    if bad:
        expect_error(r, repr(text))
    else:
        expect_image(r, image, repr(text))
    if calls != want:
        fail('%r: handlers saw %r, expected %r' % (text, calls, want))
    if bytes(r.asm.assembled_bytes) != image:
        fail('%r: image %s, expected %s' % (text, hexs(r.asm.assembled_bytes), hexs(image)))
    return len(want) >= 2


KINDS = ['function', 'own', 'other', 'twin', 'callable', 'partial', 'static']


@REG.given(st.fixed_dictionaries({'pre': st.lists(st.sampled_from(KINDS), max_size=4), 'post': st.lists(st.sampled_from(KINDS), max_size=4), 'deco': st.booleans(), 'linker': st.booleans(), 'unknown': st.booleans(),
                                  'value': st.integers(0, 65535), 'links': st.integers(1, 2), 'poke': st.booleans()}), quick=400)
def passes(case):
    """pre passes, resolution, post passes, linker: in this order and once per link, whatever kind of callable a pass is"""
    import functools
    log = []
    twins = []

    def snap(asm):
        return bytes(asm.assembled_bytes).hex()

    def saw(what, a):
        if case['poke'] and what.startswith('post'):
            a.assembled_bytes[-1] ^= 1 << int(what[4:])
        log.append([what, snap(a), a is twins[0]])

    class Cpu(Assembler):
        if case['deco']:
            @pre_link
            def my_pre(self):
                log.append(['dpre', snap(self), self is twins[0]])

            @post_link
            def my_post(self):
                log.append(['dpost', snap(self), self is twins[0]])

    class Linker:
        def resolve_unknown_symbol(self, asm, address, data):
            log.append(['unknown', address, data.label])
            return case['value']

        def link(self, asm):
            log.append(['link', snap(asm), asm is twins[0]])
            return b'HEAD' + bytes(asm.assembled_bytes)

    class Other:
        def __init__(self, what):
            self.what = what

        def method(self, a):
            saw(self.what, a)

        __call__ = method

    def make(kind, what):
        if kind == 'own':            # a method of the assembler itself takes nothing else
            def own(self):
                saw(what, self)
            return own.__get__(asm)
        if kind == 'twin':           # a method of another assembler takes this one
            def by_twin(self, a):
                if self is not twins[1]:
                    fail('%s: another self' % what)
                saw(what, a)
            return by_twin.__get__(twins[1])
        if kind == 'static':
            class Holder:
                run = staticmethod(lambda a: saw(what, a))
            return Holder.run
        return {'function': lambda a: saw(what, a), 'other': Other(what).method, 'callable': Other(what), 'partial': functools.partial(saw, what)}[kind]
    asm = new(Cpu)
    twins += [asm, new(Cpu)]
    for i, kind in enumerate(case['pre']):
        asm.pre_link_passes.append(make(kind, 'pre%d' % i))
    for i, kind in enumerate(case['post']):
        asm.post_link_passes.append(make(kind, 'post%d' % i))
    unknown = case['unknown'] and case['linker']
    asm.assemble('.org 16\nx: .dw x' + (', ext' if unknown else '') + '\n.db 0')
    before = b'\0\0' + (b'\0\0' if unknown else b'') + b'\0'
    after = b'\x10\0' + (case['value'].to_bytes(2, 'little') if unknown else b'') + b'\0'
    for turn in range(1 if case['linker'] else case['links']):
        try:
            asm.link(Linker()) if case['linker'] else asm.link()
        except Exception as e:
            fail('%r raised %r' % (case, e))
        want = ([['dpre', before.hex(), True]] if case['deco'] else []) + [['pre%d' % i, before.hex(), True] for i in range(len(case['pre']))]
        if unknown:
            want.append(['unknown', 2, 'ext'])
        want += [['dpost', after.hex(), True]] if case['deco'] else []
        for i in range(len(case['post'])):
            if case['poke']:
                after = after[:-1] + bytes([after[-1] ^ 1 << i])
            want.append(['post%d' % i, after.hex(), True])
        if case['linker']:
            want.append(['link', after.hex(), True])
        if log != want:
            fail('%r: link ran %r, expected %r' % (case, log, want))
        final = (b'HEAD' if case['linker'] else b'') + after
        if bytes(asm.assembled_bytes) != final:
            fail('%r: image %s, expected %s' % (case, hexs(asm.assembled_bytes), hexs(final)))
        before = after
        del log[:]
    return len(case['pre']) + len(case['post']) > 1


@REG.given(st.fixed_dictionaries({'seed': st.integers(0, 1 << 30), 'n': st.integers(1, 300), 'be': st.booleans()}), quick=60)
def large_programs(case):
    """hundreds of statements with fixups of several sizes, among constant bytes"""
    import random
    r = random.Random(case['seed'])
    order = 'big' if case['be'] else 'little'

    class Cpu(Assembler):
        big_endian = case['be']

        def register_instructions(self):
            self.register_instruction('const', b'\xc0\xc1')

        @opcode('far', 'FARTHER')
        def far(self, instr):
            self.parse_integer_or_label(label=instr.tokens[1], size=4, bits_size=32, offset=1)
            return b'\xfa\0\0\0\0'

        @opcode('near')
        def near(self, instr):
            self.parse_integer_or_label(label=instr.tokens[1], size=2, bits_size=16, offset=2, relative=self.pc + 4)
            return b'\x11\x22\0\0'

        @opcode('field')
        def field(self, instr):
            self.parse_integer_or_label(label=instr.tokens[1], size=2, bits_size=16, bits=(11, 0), filter=lambda v: v >> 4)
            return (0xa000).to_bytes(2, order)
    lines, labels, fix, img, org = [], {}, [], bytearray(), 0
    names = ['n%d' % i for i in range(80)]
    todo = list(names)
    for i in range(case['n']):
        k = r.randint(0, 6)
        if k < 2 and todo:
            n = todo.pop(r.randrange(len(todo)))
            labels[n] = org + len(img)
            lines.append(n + ':')
        elif k == 2:
            lines.append('const')
            img += b'\xc0\xc1'
        else:
            w = r.choice(['far', 'near', 'field', 'FARTHER', 'Near'])
            n = r.choice(names)
            fix.append((w.lower(), len(img), n))
            lines.append(w + ' ' + n)
            img += {'f': b'\xfa\0\0\0\0', 'n': b'\x11\x22\0\0', 'i': (0xa000).to_bytes(2, order)}['i' if w == 'field' else w[0].lower()]
    for n in todo:
        labels[n] = org + len(img)
        lines += [n + ':', 'const']
        img += b'\xc0\xc1'
    for w, at, n in fix:
        a = labels[n]
        if w.startswith('far'):
            img[at + 1:at + 5] = a.to_bytes(4, order)
        elif w == 'near':
            img[at + 2:at + 4] = ((a - (at + 4)) & 0xffff).to_bytes(2, order)
        else:
            img[at:at + 2] = (0xa000 | a >> 4).to_bytes(2, order)
    expect_image(run(Cpu, '\n'.join(lines)), img, 'program\n' + '\n'.join(lines)[:2000])
    return len(fix) > 20


ATOMS = ['a', 'A', 'b', 'Ab', 'aB', 'x1', '(', ')', '+', '#5', '7', 'b+2']
PATTERNS = {'any': None, 'a': 'a', 'AB': 'AB', 'x1': 'X1', 'open': '(', 'one': ('a', 'B'), 'list': ['x1', '7', 'AB'], 'none': (), 'number': lambda t: t.isdigit(),
            'short': lambda t: len(t) == 1, 'never': lambda t: False, 'upper': lambda t: t[:1].isupper()}


def satisfies(pattern, token):
    if pattern is None:
        return True
    if callable(pattern):
        return bool(pattern(token))
    if isinstance(pattern, str):
        return token.lower() == pattern.lower()
    return any(token.lower() == p.lower() for p in pattern)


@REG.given(st.one_of(st.tuples(st.lists(st.sampled_from(ATOMS), max_size=6), st.lists(st.sampled_from(sorted(PATTERNS)), min_size=1, max_size=6), st.integers(0, 3), st.booleans()),
                     st.tuples(st.lists(st.sampled_from(ATOMS), min_size=5, max_size=24), st.lists(st.sampled_from(sorted(PATTERNS)), min_size=1, max_size=12), st.integers(0, 24), st.just(True))), quick=2500)
def matching(case):
    """operand patterns accept exactly the operand lists that satisfy them"""
    ops, pats, start, aim = case
    if aim:
        # patterns that the operands satisfy, at `start`
        rest = (['op'] + ops)[start:]
        pats = [next((k for k in pats[i % len(pats):] + sorted(PATTERNS) if satisfies(PATTERNS[k], t)), 'any') for i, t in enumerate(rest)]
        if not pats:
            return False
    got = []

    class Cpu(Assembler):
        def register_instructions(self):
            self.register_instruction('op', self.op)

        def op(self, instr):
            args = [PATTERNS[k] for k in pats]
            got.append([instr.match(*args, start=start), instr.unbound_match(*args, start=start), na_utils.match(instr.tokens[start:], *args),
                        instr.match(*args), instr.unbound_match(*args)])
            if len(pats) <= len(instr.tokens) - start:
                got.append(instr.apply(*[None if k == 'any' else (lambda t, k=k: (k, t)) for k in pats], start=start))
            return b'\1'
    text = ' '.join(['op'] + ops)
    r = run(Cpu, text)
    expect_image(r, b'\1', text)

    def want(start):
        rest = (['op'] + ops)[start:]
        fit = [satisfies(PATTERNS[k], t) for k, t in zip(pats, rest)]
        return len(pats) == len(rest) and all(fit), (True, start + len(pats)) if len(pats) <= len(rest) and all(fit) else (False, None)
    a, b = want(start), want(1)
    exp = [[a[0], a[1], a[0], b[0], b[1]]]
    rest = (['op'] + ops)[start:]
    if len(pats) <= len(rest):
        exp.append([(k, t) for k, t in zip(pats, rest) if k != 'any'])
    got[0] = [tuple(x) if isinstance(x, (tuple, list)) else bool(x) for x in got[0]]
    got[0] = [(bool(x[0]), x[1]) if isinstance(x, tuple) else x for x in got[0]]
    if got != exp:
        fail('patterns %r at %d of %r: [match, unbound_match, utils.match, from 1] and apply give %r, expected %r' % (pats, start, text, got, exp))
    return a[1][0]


@REG.given(st.fixed_dictionaries({'names': st.lists(st.sampled_from(['aa', 'Aa', 'AA', 'bb', 'cC']), min_size=1, max_size=3, unique=True), 'sub': st.lists(st.sampled_from(['aa', 'Aa', 'bB', 'cc', 'zz']), max_size=2, unique=True),
                                  'late': st.lists(st.tuples(st.sampled_from(['AA', 'bb', 'Cc', 'ee']), st.booleans()), max_size=3), 'sensitive': st.booleans(), 'kind': st.booleans(),
                                  'uses': st.lists(st.sampled_from(['aa', 'Aa', 'AA', 'aA', 'bb', 'bB', 'cC', 'cc', 'Cc', 'zz', 'ZZ', 'ee', 'Ee']), min_size=1, max_size=6)}), quick=800)
def overriding(case):
    """a subclass replaces the methods it overrides, a later registration the earlier one, and other instances and classes are not touched"""
    deco = directive if case['kind'] else opcode
    dot = '.' if case['kind'] else ''

    def emit(self, blob):
        if case['kind']:
            self.append_assembled_bytes(blob)
            return None
        return blob

    class Base(Assembler):
        case_sensitive = case['sensitive']

        @deco(*case['names'])
        def method(self, instr):
            return emit(self, b'B')

    class Sub(Base):
        pass
    if case['sub']:
        Sub.method = deco(*case['sub'])(lambda self, instr: emit(self, b'S'))
    key = (lambda n: n) if case['sensitive'] else str.lower
    table = {key(n): b'B' for n in case['names']}
    sub = {key(n): b'S' for n in case['sub']} if case['sub'] else dict(table)
    late = dict(sub)
    for cls, names in ((Base, table), (Sub, sub), (Sub, late), (Sub, sub), (Base, table)):
        asm = cls()
        if names is late:
            for i, (n, const) in enumerate(case['late']):
                blob = b'0123'[i:i + 1]
                late[key(n)] = blob
                if case['kind']:
                    asm.register_directive(n, lambda instr, blob=blob, asm=asm: asm.append_assembled_bytes(blob))
                else:
                    asm.register_instruction(n, blob if const else lambda instr, blob=blob: blob)
        for use in case['uses']:
            before = bytes(asm.assembled_bytes)
            r = assemble_more(asm, dot + use)
            want = before + names.get(key(use), b'')
            if (r is None) != (key(use) in names) or bytes(asm.assembled_bytes) != want:
                fail('%s of %r: %r gives %s (%r), expected %s' % (cls.__name__, case, use, hexs(asm.assembled_bytes), r, hexs(want)))
    return bool(case['sub'] or case['late'])


def assemble_more(asm, text):
    try:
        asm.assemble(text)
    except AssemblerException as exc:
        return exc
    return None


CONSTS = st.tuples(st.integers(0, 40), st.sampled_from(['bytes', 'bytearray', 'bytes', 'bytearray', 'tuple']), st.sampled_from(['class', 'instance', 'instance']))


@REG.given(st.fixed_dictionaries({'consts': st.lists(CONSTS, min_size=1, max_size=5), 'uses': st.lists(st.integers(0, 9), min_size=1, max_size=6), 'times': st.integers(1, 4), 'org': st.sampled_from([0, 0, 0x1234])}), quick=300)
def constants(case):
    """constant instructions of any length, given as any bytes, used any number of times"""
    blobs = [bytes((i * 37 + j * 11 + 1) % 256 for j in range(n)) for i, (n, kind, at) in enumerate(case['consts'])]
    made = [(bytearray if kind == 'bytearray' else bytes)(b) for b, (n, kind, at) in zip(blobs, case['consts'])]

    class Cpu(Assembler):
        def register_instructions(self):
            for i, (n, kind, at) in enumerate(case['consts']):
                if at == 'class':
                    self.register_instruction('k%d' % i, made[i])

    def prepare(asm):
        for i, (n, kind, at) in enumerate(case['consts']):
            if at != 'class':
                asm.register_instruction('K%d' % i, made[i])
    uses = [u % len(blobs) for u in case['uses']]
    body = ''.join('k%d\n' % u for u in uses)
    one = b''.join(blobs[u] for u in uses)
    text = '.org %d\n%s.repeat %d\n%s.endrepeat\n.macro all\n%s.endmacro\nall\nend:\nALL\n' % (case['org'], body, case['times'], body, body)
    want = one * (case['times'] + 3)
    for again in range(2):
        r = run(Cpu, text, prepare=prepare)
        expect_image(r, want, 'constants %r: %r' % (blobs, text))
        if labels_of(r.asm) != {'end': case['org'] + len(one) * (case['times'] + 2)} or [bytes(m) for m in made] != blobs:
            fail('constants %r: %r gives labels %r and leaves %r' % (blobs, text, labels_of(r.asm), made))
        for u in uses[:1]:
            expect_error(run(Cpu, 'k%d 1' % u, prepare=prepare), 'argument of a constant')
    return len(one) > 0


@REG.given(st.fixed_dictionaries({'deco': st.lists(st.sampled_from(['opcode', 'directive', 'pre', 'post']), min_size=1, max_size=4), 'second': st.lists(st.sampled_from(['opcode', 'directive', 'pre', 'post']), max_size=3),
                                  'sub': st.booleans(), 'uses': st.lists(st.integers(0, 7), min_size=1, max_size=6), 'links': st.integers(1, 2)}), quick=300)
def several_roles(case):
    """one method can be an instruction, a directive, a pre-link and a post-link pass"""
    log = []

    def method(tag, deco):
        def handler(self, *args):
            if not args:
                log.append([tag, len(self.labels)])
                return None
            t = args[0].tokens
            log.append([tag] + list(t))
            if t[0].startswith('.'):
                self.append_assembled_bytes(b'd')
                return None
            return b'o'
        # as many names for each time it is decorated
        for i, d in enumerate(deco):
            handler = {'opcode': lambda: opcode('i%s%d' % (tag, i)), 'directive': lambda: directive('d%s%d' % (tag, i)), 'pre': lambda: pre_link, 'post': lambda: post_link}[d]()(handler)
        return handler
    Cpu = type('Cpu', (Assembler,), dict([('one', method('a', case['deco']))] + ([('two', method('b', case['second']))] if case['second'] else [])))
    if case['sub']:
        Cpu = type('Sub', (Cpu,), {})
    names = {}
    for tag, deco in (('a', case['deco']), ('b', case['second'])):
        last = {}
        for i, d in enumerate(deco):
            if d in ('opcode', 'directive'):
                last[d] = ('.d%s%d' if d == 'directive' else 'i%s%d') % (tag, i)
        for n in last.values():
            names[n] = tag
    keys = sorted(names)
    lines, want, img = ['x: .db 7'], [], b'\7'
    for i, u in enumerate(case['uses']):
        if keys:
            n = keys[u % len(keys)]
            lines.append('%s %d' % (n, i))
            want.append([names[n], n, str(i)])
            img += b'd' if n[0] == '.' else b'o'
    asm = new(Cpu)
    asm.assemble('\n'.join(lines))
    for _ in range(case['links']):
        asm.link()
    if log[:len(want)] != want or bytes(asm.assembled_bytes) != img:
        fail('%r: %r called %r (image %s), expected %r (%s)' % (case, lines, log, hexs(asm.assembled_bytes), want, hexs(img)))
    rest = log[len(want):]
    for _ in range(case['links']):
        for d in ('pre', 'post'):
            exp = sorted([t, 1] for t, deco in (('a', case['deco']), ('b', case['second'])) if d in deco)
            if sorted(rest[:len(exp)]) != exp:
                fail('%r: passes called %r, expected %r' % (case, log[len(want):], exp))
            rest = rest[len(exp):]
    if rest:
        fail('%r: passes called too often: %r' % (case, log[len(want):]))
    return len(case['deco']) > 1


PART = st.sampled_from(['.db 1', '.dw lab', 'far end', 'near lab', '.dw lab2+1', 'late: .db 2', '.dw late', '.define VV 3', '.db VV', 'const', '.fill 3', '.dd tail', '.dw <lab', '.db_to_ascii end'])


@REG.given(st.fixed_dictionaries({'body': st.lists(PART, max_size=5, unique=True), 'passes': st.lists(st.lists(PART, min_size=1, max_size=4, unique=True), min_size=1, max_size=3), 'deco': st.booleans(), 'org': st.sampled_from([0, 5, 0x1234]),
                                  'after': st.lists(st.integers(0, 255), max_size=3)}), quick=600)
def assembling_passes(case):
    """what a pre-link pass assembles is linked like the rest of the program; what a post-link pass appends follows the resolved bytes"""
    class Base(Assembler):
        def register_instructions(self):
            self.register_instruction('const', b'\xc0\xc1')

        @opcode('far')
        def far(self, instr):
            self.parse_integer_or_label(label=instr.tokens[1], size=4, bits_size=32, offset=1)
            return b'\xfa\0\0\0\0'

        @opcode('near')
        def near(self, instr):
            self.parse_integer_or_label(label=instr.tokens[1], size=2, bits_size=16, offset=2, relative=self.pc + 4)
            return b'\x11\x22\0\0'
    start = '.org %d\nlab: .db 9\nlab2:\nend:\n' % case['org'] + '\n'.join(case['body']) + '\n'
    parts = ['\n'.join(p) + '\n' for p in case['passes']]
    parts[-1] += 'tail: .db 4\n'
    seen = []

    def more(i):
        def run_(asm):
            seen.append(i)
            asm.assemble(parts[i])
        return run_
    class Cpu(Base):
        if case['deco']:
            @pre_link
            def first(self):
                more(0)(self)

        @post_link
        def last(self):
            seen.append(bytes(self.assembled_bytes))
            self.append_assembled_bytes(bytes(case['after']))

    def prepare(asm):
        for i in range(1 if case['deco'] else 0, len(parts)):
            asm.pre_link_passes.append(more(i))
    a = run(Cpu, start, prepare=prepare)
    b = run(Base, [start] + parts)
    what = '%r and then in passes %r' % (start, parts)
    if a.ok != b.ok:
        fail('%s: %r; assembled before linking: %r' % (what, a, b))
    if not a.ok:
        return False
    expect_image(a, b.image + bytes(case['after']), what)
    if seen != list(range(len(parts))) + [b.image] or labels_of(a.asm) != labels_of(b.asm):
        fail('%s: passes ran %r, labels %r, expected %r' % (what, seen, labels_of(a.asm), labels_of(b.asm)))
    return True
