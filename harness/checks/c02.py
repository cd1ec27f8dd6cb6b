import json
import os
import random
from hypothesis import strategies as st
from harness.core import Registry
from harness.lib import *
from harness import model as M, gen as G
from harness import scale

REG = Registry('C02', 'generated operand lists (numbers in every literal style, quoted strings, label references) and generated file contents, '
               'against an independent evaluator; non-trivial: at least two bytes emitted by at least one multi-operand or multi-byte item.',
               ['strings in .dw/.dd use the utf-16/utf-32 encoding of Python on this host (with byte order mark), as the directive does today'])


def model_run(case, what):
    cfg, prog = case['cfg'], case['prog']
    text = M.render(prog)
    r = run(M.make_cpu(cfg['be'], cfg['fill'], cfg['suffixes']), text)
    try:
        m = M.evaluate(prog, cfg['be'], cfg['fill'])
    except M.Reject as e:
        expect_error(r, '%s (%s) for\n%s' % (what, e, text))
        return None
    expect_image(r, m.bytes, '%s for\n%s' % (what, text))
    if labels_of(r.asm) != m.labels:
        fail('%s: labels %r, expected %r for\n%s' % (what, labels_of(r.asm), m.labels, text))
    if r.asm.pc != m.pc:
        fail('%s: location counter %d, expected %d for\n%s' % (what, r.asm.pc, m.pc, text))
    return m


@REG.given(G.program(layout=False, kinds=('data', 'data', 'data', 'ascii', 'fill'), keep_bad=10, undefined=False, max_stmts=8), quick=700)
def data_directives(case):
    m = model_run(case, 'data directives')
    return m is not None and len(m.bytes) >= 2


UNI = st.text(alphabet=st.one_of(st.characters(min_codepoint=32, max_codepoint=126), st.sampled_from('\u00e9\u20ac\u4e2d\U0001f600')),
              min_size=1, max_size=8)


@REG.given(st.fixed_dictionaries({'size': st.sampled_from([1, 2, 4]), 'd': st.integers(0, 2), 'text': UNI, 'be': st.booleans(),
                                  'n': st.integers(0, 255), 'q': st.sampled_from('"\'')}), quick=400)
def strings(case):
    """strings are encoded whole and keep their place between numbers"""
    size, t = case['size'], case['text']
    d = G.DIRS[size][case['d'] % len(G.DIRS[size])]
    text = '.%s %d, %s, %d' % (d, case['n'], M.escape(case['q'], t), case['n'])
    r = run(M.make_cpu(case['be']), text)
    n = case['n'].to_bytes(size, 'big' if case['be'] else 'little')
    if size == 1 and not t.isascii():
        expect_error(r, 'non ascii text in %r' % text)
        return False
    expect_image(r, n + t.encode({1: 'ascii', 2: 'utf-16', 4: 'utf-32'}[size]) + n, repr(text))
    return True


@REG.given(st.fixed_dictionaries({'data': st.binary(max_size=300).map(lambda b: b.hex()), 'pre': st.integers(0, 3), 'q': st.sampled_from(['"', "'", ''])}), quick=200)
def incbin(case):
    data = bytes.fromhex(case['data'])
    with scratch():
        with open('some.bin', 'wb') as f:
            f.write(data)
        q = case['q']
        text = '.fill %d 9\n.incbin %ssome.bin%s\nafter: .dw after' % (case['pre'], q, q)
        r = run(M.make_cpu(), text)
    n = case['pre'] + len(data)
    expect_image(r, b'\x09' * case['pre'] + data + n.to_bytes(2, 'little'), '.incbin of %s' % data.hex())
    return len(data) > 1


CELL = lambda bits: G.number({'suffixes': False}, bits)


@st.composite
def table(draw, bits):
    rows = draw(st.lists(st.lists(CELL(bits), min_size=1, max_size=5), min_size=1, max_size=5))
    bad = draw(st.integers(0, 19)) == 0
    if bad:
        rows[draw(st.integers(0, len(rows) - 1))].append(draw(st.sampled_from([M.num(1 << bits), M.num(-(1 << bits - 1) - 1), {'v': [['l', 'foo'], []]}])))
    return rows


@REG.given(st.fixed_dictionaries({'r8': table(8), 'r16': table(16), 'be': st.booleans(), 'eol': st.sampled_from(['\n', '\r\n']), 'which': st.sampled_from([8, 16]),
                                  'quoted': st.one_of(st.just(0), st.integers(0, 1 << 20)), 'empty': st.one_of(st.just(64), st.integers(0, 255))}), quick=400)
def inccsv(case):
    """every cell of every row, in order"""
    bits = case['which']
    rows = case['r8'] if bits == 8 else case['r16']
    # cells in quotes and empty rows (also at the end) are part of the format
    body = case['eol'].join(','.join('"%s"' % M.r_expr(e) if (case['quoted'] >> (3 * i + j)) & 1 else M.r_expr(e) for j, e in enumerate(row)) + case['eol'] * ((case['empty'] >> i) & 1)
                            for i, row in enumerate(rows)) + case['eol'] * (case['empty'] >> 6)
    m = M.Model()
    try:
        want = b''.join(m.directive_num(e, bits).to_bytes(bits // 8, 'little') for row in rows for e in row)
    except M.Reject:
        want = None
    with scratch():
        with open('t.csv', 'w', newline='') as f:
            f.write(body)
        r = run(M.make_cpu(case['be']), '.db 1\n.inccsv%s "t.csv"\nend: .dd end' % ('' if bits == 8 else '_le16'))
    if want is None:
        expect_error(r, 'csv %r' % body)
        return False
    expect_image(r, b'\x01' + want + (len(want) + 1).to_bytes(4, 'big' if case['be'] else 'little'), 'csv %r' % body)
    return len(want) > 2


@REG.given(st.fixed_dictionaries({'path': st.lists(st.sampled_from(['a', 'layers', 'data', 'x_1', 'A', 'Map', 'k2', 'two words', 'x-y', '7', 'é']), min_size=1, max_size=3),
                                  'items': st.lists(st.one_of(st.integers(0, 255), CELL(8)), max_size=12), 'other': st.lists(st.integers(0, 255), max_size=3),
                                  'quoted': st.booleans()}), quick=300)
def incjson(case):
    """the listed values of the named key"""
    m = M.Model()
    want = bytes(v if isinstance(v, int) else m.directive_num(v, 8) for v in case['items'])
    obj = [v if isinstance(v, int) else M.r_expr(v) for v in case['items']]
    for k in reversed(case['path']):
        # keys that are nearly the one asked for, before and after it
        near = [k.swapcase(), k.upper(), k.lower(), k + ' ', k[:-1], k + 's', ' ' + k, k + '.0', '0', '']
        first = {n: case['other'] for n in near[:5] if n != k}
        last = {n: case['other'] for n in near[5:] if n != k and n not in first}
        obj = dict(first, zz=case['other'], **{k: obj}, **last)
    key = '.'.join(case['path'])
    with scratch():
        with open('t.json', 'w') as f:
            json.dump(obj, f)
        r = run(M.make_cpu(), '.db 1\n.incjson "t.json" %s\nend: .dw end' % ('"%s"' % key if case['quoted'] or ' ' in key else key))
    expect_image(r, b'\x01' + want + (len(want) + 1).to_bytes(2, 'little'), 'json %r' % obj)
    return len(want) > 1


@st.composite
def files(draw):
    """contents of a few files, and the directives reading them"""
    ints = st.lists(st.integers(0, 255), max_size=draw(st.sampled_from([3, 3, 40, 700])))
    names = ['a.bin', 'A.bin', 'sub/a.bin', 'a.csv', 'a.json', 'sub/a.csv', 'b c.bin']
    return {'rounds': draw(st.lists(st.tuples(st.lists(st.tuples(st.sampled_from(names), ints), min_size=1, max_size=4), st.lists(st.tuples(st.sampled_from(names), st.integers(0, 2)), min_size=1, max_size=5)),
                                    min_size=1, max_size=3))}


@REG.given(files(), quick=250)
def file_content_is_read_each_time(case):
    """files of similar names, read several times and changed between the reads, in one program"""
    cls = M.make_cpu()
    have = {}
    want = b''
    with scratch():
        os.mkdir('sub')
        asm = new(cls)
        for writes, reads in case['rounds']:
            for name, data in writes:
                have[name] = data
                with open(name, 'wb') as f:
                    if name.endswith('.csv'):
                        f.write(b''.join(b'%d%s' % (v, b'\n' if i % 3 == 2 else b',' if i < len(data) - 1 else b'') for i, v in enumerate(data)))
                    elif name.endswith('.json'):
                        f.write(json.dumps({'k': data, 'n': {'k': data[::-1]}}).encode())
                    else:
                        f.write(bytes(data))
            for name, how in reads:
                if name not in have:
                    continue
                data = have[name]
                if name.endswith('.csv'):
                    text = '.inccsv_le16 "%s"' if how == 1 else '.inccsv "%s"'
                    want += b''.join(v.to_bytes(2, 'little') for v in data) if how == 1 else bytes(data)
                elif name.endswith('.json'):
                    text = '.incjson "%s" n.k' if how == 1 else '.incjson "%s" k'
                    want += bytes(data[::-1] if how == 1 else data)
                else:
                    text = '.incbin "%s"'
                    want += bytes(data)
                try:
                    asm.assemble(text % name + '\n')
                except Exception as exc:
                    fail('%r with content %r: %r' % (text % name, data, exc))
                if bytes(asm.assembled_bytes) != want or asm.pc != len(want):
                    fail('%r with content %r: image %s pc %d, expected %s' % (text % name, data, hexs(asm.assembled_bytes), asm.pc, hexs(want)))
    return len(want) > 2


@REG.given(scale.case(10, 120), quick=40)
def large_programs(case):
    """long operand lists and texts, many statements"""
    return scale.verdict(case, 'many data directives', layout=0, refs=0.1, repeats=0)


@REG.enum(lambda tier: [0, 1, 255, 256, 257, 65535, 65536, 65537, 200000])
def large_binaries(n):
    """binary files of any size"""
    data = bytes((i * 7 + i // 251) & 255 for i in range(n))
    with scratch():
        with open('some.bin', 'wb') as f:
            f.write(data)
        r = run(M.make_cpu(), '.db 1\n.incbin "some.bin"\nafter: .dd after')
    expect_image(r, b'\1' + data + (n + 1).to_bytes(4, 'little'), '.incbin of %d bytes' % n)
    return True


@REG.given(st.fixed_dictionaries({'size': st.sampled_from([1, 2, 4]), 'n': st.sampled_from([200, 255, 256, 257, 300, 511, 513, 1025, 5000]), 'd': st.integers(0, 5), 'seed': st.integers(0, 1 << 30), 'be': st.booleans()}), quick=60)
def long_lists(case):
    """hundreds and thousands of operands in one directive"""
    r = random.Random(case['seed'])
    size, order = case['size'], 'big' if case['be'] else 'little'
    toks, want = [], b''
    for i in range(case['n']):
        k = r.randrange(8)
        if k == 0 and size > 1:
            toks.append('lab')
            v = 2
        elif k == 1:
            toks.append("'%s'" % r.choice('ABCxyz'))
            v = ord(toks[-1][1])
            if size > 1:
                toks[-1] = str(v)
        else:
            v = r.choice([0, 1, (1 << 8 * size) - 1, r.getrandbits(8 * size)])
            toks.append(r.choice(['%d', '0x%x', '$%x']) % v)
        want += v.to_bytes(size, order)
    name = G.DIRS[size][case['d'] % len(G.DIRS[size])]
    text = 'NOP\nNOP\nlab: .%s %s\nafter: .dd after' % (name, r.choice([', ', ' ', ' , ']).join(toks))
    expect_image(run(M.make_cpu(case['be']), text), b'\xea\xea' + want + (2 + len(want)).to_bytes(4, order), '%s of %d operands' % (name, case['n']))
    return True


@REG.given(st.fixed_dictionaries({'size': st.sampled_from([1, 2, 4]), 'd': st.integers(0, 2), 'be': st.booleans(), 'n': st.sampled_from([1, 2, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 257, 511, 512, 1000, 2049, 5000]),
                                  'head': st.sampled_from(['', ' ', '   ', '\t', ';', ',', '$', "'", '"', '0', '\xe9']), 'tail': st.sampled_from(['', ' ', '  ', ';', ', ', ':', '"', '\\', '\t', '0']),
                                  'mid': st.sampled_from(['ab', 'a', '  ', 'a b;', 'x,', 'Ab"', "q'", '\u20ac', '0']), 'q': st.sampled_from('"\''), 'times': st.integers(1, 3)}), quick=400)
def long_strings(case):
    """strings of any length, with any characters at their ends"""
    size, n = case['size'], case['n']
    t = (case['head'] + (case['mid'] * n)[:n] + case['tail'])
    d = G.DIRS[size][case['d'] % len(G.DIRS[size])]
    text = '.%s %s' % (d, ', '.join([M.escape(case['q'], t)] * case['times']))
    r = run(M.make_cpu(case['be']), text)
    if size == 1 and not t.isascii():
        expect_error(r, 'non ascii text in %r' % text)
        return False
    if len(t) == 1:
        # a quoted character
        return False
    expect_image(r, t.encode({1: 'ascii', 2: 'utf-16', 4: 'utf-32'}[size]) * case['times'], repr(text)[:300])
    return True


# how classes write numbers: attributes, then ways to write a value
WAYS = {
    'zero': (dict(oct_prefixes=('0',)), ['%d', '0%o', '-%d']),
    'c': (dict(hex_prefixes=('0x',), bin_prefixes=('0b',), oct_prefixes=('0o',)), ['%d', '0x%x', '0b{:b}', '0o%o', '-%d']),
    'intel': (dict(hex_suffixes=('h',), bin_suffixes=('b', 'y'), oct_suffixes=('o', 'q'), dec_suffixes=('d',)), ['%d', '0%xh', '{:b}b', '{:b}y', '%oo', '%oq', '%dd', '-%d']),
    'motorola': (dict(hex_prefixes=('$',), bin_prefixes=('%',), oct_prefixes=('@',)), ['%d', '$%x', '%{:b}', '@%o', '-%d']),
    'digits': (dict(hex_prefixes=('1x', '9'), bin_suffixes=('2',), dec_prefixes=()), ['9%x', '1x%x']),
    'decimal': (dict(dec_prefixes=('0d', '&'), hex_prefixes=('0x',)), ['0d%d', '&%d', '0x%x', '%d']),
}


def write_number(way, v):
    p = WAYS[way[0]][1][way[1] % len(WAYS[way[0]][1])]
    if p[0] == '-':
        v, p = -v, p[1:]
        if not 0 <= v <= 128:
            return None
        p = '-' + p
    elif v < 0:
        return None
    if '{:b}' in p:
        return p.replace('{:b}', format(v, 'b'))
    return p.replace('%%', '%') % v


@REG.given(st.fixed_dictionaries({'ways': st.sampled_from(sorted(WAYS)), 'items': st.lists(st.tuples(st.integers(0, 8), st.one_of(st.integers(-128, 255), st.integers(-9, 20))), min_size=1, max_size=12),
                                  'ints': st.lists(st.integers(0, 255), max_size=3), 'wide': st.booleans()}), quick=600)
def listed_values(case):
    """csv cells and json items are the numbers that `.db` (`.dw`) makes of them, however the class writes numbers"""
    class Cpu(Assembler):
        pass
    for k, v in WAYS[case['ways']][0].items():
        setattr(Cpu, k, v)
    cells = [write_number((case['ways'], k), v) for k, v in case['items']]
    cells = [c for c in cells if c and c != '0']      # (a lone 0 is an empty number after the prefix 0)
    if not cells:
        return False
    direct = run(Cpu, ''.join('.db %s\n' % c for c in cells))
    words = run(Cpu, ''.join('.dw %s\n' % c for c in cells))
    if not direct.ok or not words.ok:
        fail('%s: %r is %r, %r' % (case['ways'], cells, direct, words))
    with scratch():
        with open('a.json', 'w') as f:
            json.dump({'k': list(cells) + list(case['ints'])}, f)
        with open('a.csv', 'w') as f:
            f.write(','.join(cells) + '\n' + '\n'.join(cells) + '\n')
        expect_image(run(Cpu, '.incjson "a.json" k'), direct.image + bytes(case['ints']), '%s json %r' % (case['ways'], cells))
        expect_image(run(Cpu, '.inccsv "a.csv"'), direct.image * 2, '%s csv %r' % (case['ways'], cells))
        expect_image(run(Cpu, '.inccsv_le16 "a.csv"'), words.image * 2, '%s csv of words %r' % (case['ways'], cells))
    return len(cells) > 1
