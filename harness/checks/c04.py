import re
from hypothesis import strategies as st
from harness.core import Registry
from harness.lib import *
from harness import model as M, gen as G, slots as S
from harness.cpulib import cpu
from harness.checks.c02 import model_run

REG = Registry('C04', 'generated expression chains over literals in all styles and labels placed before or after the use at generated addresses, in data '
               'directives, the instruction operands of the test CPU and every absolute operand slot of every CPU; the oracle folds left to right with Python integers. Non-trivial: accepted and at '
               'least one operator or selector applied.', [])

LN = ['one', 'two', 'Three', 'f.our']


@st.composite
def term(draw, cfg, names, label=None):
    use = label if label is not None else (bool(names) and draw(st.booleans()))
    if use:
        return ['l', draw(st.sampled_from(names))]
    sty = draw(st.sampled_from(G.styles(cfg)))
    return ['n', draw(st.one_of(st.integers(0, 20), G.ints(16))), sty]


@st.composite
def expression(draw, cfg, names, label_first, ops='+-*/&|', max_ops=5):
    e = {'v': [draw(term(cfg, names, label_first)), []]}
    for _ in range(draw(st.integers(0, max_ops))):
        t = draw(st.one_of(st.none(), term(cfg, names), term(cfg, names), term(cfg, names)))
        e['v'][1].append([draw(st.sampled_from(ops)), t])
    if draw(st.integers(0, 2)) == 0:
        e['drop'] = draw(st.integers(0, 2))
        e['keep'] = draw(st.integers(0, 3))
    return e


@st.composite
def expr_case(draw):
    cfg = draw(G.config)
    n = draw(st.integers(1, 4))
    names = LN[:n]
    addr = draw(st.lists(st.one_of(st.integers(0, 40), G.ints(16), st.integers(0, 1 << 24)), min_size=n, max_size=n))
    size = draw(st.sampled_from([1, 2, 4, 4]))
    label_first = draw(st.booleans())
    where = 'before' if not label_first else draw(st.sampled_from(['before', 'after', 'split']))
    e = draw(expression(cfg, names + (['nowhere'] if draw(st.integers(0, 40)) == 0 else []), label_first))
    # bring the result into range most of the time
    if draw(st.integers(0, 9)) < 8:
        env = dict(zip(names, addr))
        try:
            val = M.fold(e['v'][0][1] if e['v'][0][0] == 'n' else env[e['v'][0][1]], e, lambda t: t[1] if t[0] == 'n' else env[t[1]])
            if val < 0:
                k = draw(st.integers(0, 1))
                e['v'][1].append(['+', ['n', -val + draw(st.integers(0, 200)), 'dec']] if k else ['&', ['n', draw(G.ints(size * 8 if size < 4 else 32)), 'dec']])
            elif val >= 1 << size * 8:
                e['v'][1].append(['&', ['n', (1 << size * 8) - 1, 'dec']])
        except (M.Reject, KeyError):
            pass
    labs = [x for nm, a in zip(names, addr) for x in (['org', M.num(a), None], ['label', nm])]
    use = draw(st.sampled_from([['data', G.DIRS[size][0], size, [M.num(1), e]], ['data', G.DIRS[size][-1], size, [e, M.num(2)]],
                                ['op', {1: 'LD8', 2: 'LD16', 4: 'LD32'}[size], [e]]]))
    if where == 'before':
        prog = labs + [use]
    elif where == 'after':
        prog = [use] + labs
    else:
        prog = labs[:2] + [use] + labs[2:]
    return {'cfg': cfg, 'prog': prog}


@REG.given(expr_case(), quick=2500)
def expressions(case):
    m = model_run(case, 'expression')
    use = [s for s in case['prog'] if s[0] in ('data', 'op')][0]
    es = [o for o in use[3 if use[0] == 'data' else 2] if isinstance(o, dict)]
    return m is not None and any(e['v'][1] or e.get('keep') or e.get('drop') for e in es)


@st.composite
def wide_case(draw):
    cfg = draw(G.config)
    big = st.one_of(st.integers(0, 40), G.ints(32), G.ints(64), st.integers(0, (1 << 64) - 1), st.builds(lambda k, d: (1 << k) + d, st.integers(40, 63), st.integers(-3, 3)))
    lit = st.builds(lambda v, s: ['n', v, s], big, st.sampled_from(G.styles(cfg)))
    lab = draw(st.booleans())
    addr = draw(st.one_of(G.ints(16), st.integers(1 << 40, 1 << 62)))
    e = {'v': [['l', 'spot'] if lab else draw(lit), [[draw(st.sampled_from('+-*/*/&|')), draw(st.one_of(lit, lit, lit, st.just(['l', 'spot'])))] for _ in range(draw(st.integers(1, 6)))]]}
    if draw(st.integers(0, 3)) == 0:
        e['drop'] = draw(st.integers(0, 9))
        e['keep'] = draw(st.sampled_from([0, 0, 1, 4, 8]))
    size = draw(st.sampled_from([1, 2, 4, 4]))
    try:
        val = M.fold(addr if lab else e['v'][0][1], e, lambda t: t[1] if t[0] == 'n' else addr)
        if not 0 <= val < 1 << size * 8:
            e['v'][1].append(['&', ['n', (1 << size * 8) - 1, 'dec']])
    except M.Reject:
        pass
    use = ['data', G.DIRS[size][0], size, [e]]
    here = [['org', M.num(addr), None], ['label', 'spot']]
    return {'cfg': cfg, 'prog': [use] + here if lab and draw(st.booleans()) and all(t[0] == 'n' for _, t in e['v'][1]) else here + [use]}


@REG.given(wide_case(), quick=700)
def wide_values(case):
    """intermediate values of any width are exact"""
    return model_run(case, 'wide expression') is not None


@st.composite
def rel_case(draw):
    cfg = draw(G.config)
    e = {'v': [['l', 'target'], [[draw(st.sampled_from('+-')), draw(st.one_of(st.none(), st.builds(lambda v: ['n', v, 'dec'], st.integers(0, 60))))] for _ in range(draw(st.integers(1, 3)))]]}
    body = [['org', M.num(draw(G.ints(16))), None], ['fill', M.num(draw(st.integers(0, 60))), None]]
    use = ['op', draw(st.sampled_from(['BR8', 'BR16'])), [e]]
    if draw(st.booleans()):
        body += [['label', 'target'], ['fill', M.num(draw(st.integers(0, 90))), None], use]
    else:
        body += [use, ['fill', M.num(draw(st.integers(0, 90))), None], ['label', 'target']]
    return {'cfg': cfg, 'prog': body}


@REG.given(rel_case(), quick=500)
def label_offset_in_branch(case):
    """label+n in a branch reaches n bytes after the label"""
    return model_run(case, 'branch to an expression') is not None


@REG.given(st.fixed_dictionaries({'k': st.integers(0, 3), 'v': st.lists(st.integers(0, 30), min_size=2, max_size=4), 'ops': st.lists(st.sampled_from('+-*/&|'), min_size=3, max_size=3),
                                  'd': st.sampled_from(['fill', 'org', 'goto', 'align', 'ram', 'upto', 'repeat'])}), quick=500)
def in_directive_arguments(case):
    """directive arguments are expressions too"""
    e = {'v': [['n', case['v'][0], 'dec'], [[o, ['n', v, '0x']] for o, v in zip(case['ops'], case['v'][1:])]]}
    try:
        val = M.fold(e['v'][0][1], e, lambda t: t[1])
    except M.Reject:
        val = None
    if val is not None and not 0 <= val < 3000:
        return False
    d = case['d']
    st_ = {'fill': ['fill', e, M.num(7)], 'org': ['org', e, None], 'goto': ['goto', e, None], 'align': ['align', e], 'ram': ['ram', e], 'upto': ['upto', e, None],
           'repeat': ['repeat', e, [['op', 'NOP', []]]]}[d]
    prog = [['data', 'db', 1, [M.num(1)]], st_, ['label', 'x'], ['op', 'LD16', [M.lab('x')]]]
    if val is None:
        return model_run({'cfg': {'be': False, 'fill': 0, 'suffixes': False}, 'prog': prog}, 'directive expression') is not None
    return model_run({'cfg': {'be': False, 'fill': 0, 'suffixes': False}, 'prog': prog}, 'directive expression') is not None


@REG.given(st.fixed_dictionaries({'seed': st.integers(0, 1 << 30), 'n': st.integers(5, 60), 'far': st.sampled_from([0, 300, 70000]), 'first': st.booleans()}), quick=150)
def long_chains(case):
    """chains of dozens of operators over numbers and labels, near and far"""
    import random
    r = random.Random(case['seed'])
    env = {'l%d' % i: (i + case['far']) * 4 for i in range(12)}
    terms = [r.choice(list(env)) if r.random() < .4 or not i else str(r.randint(1, 99)) for i in range(case['n'] + 1)]
    val = lambda t: env.get(t) if t in env else int(t)
    v, text = val(terms[0]), terms[0]
    for t in terms[1:]:
        ops = [o for o in '+-*/&|+-' if not (o == '*' and abs(v) > 1 << 20) and not (o == '-' and v < val(t))]
        o = r.choice(ops)
        text += o + t
        v = {'+': v + val(t), '-': v - val(t), '*': v * val(t), '/': v // val(t) if val(t) else None, '&': v & val(t), '|': v | val(t)}[o]
        if v is None:
            return False
    labels = ''.join('.org %d\n%s:\n' % (a, n) for n, a in env.items())
    use = '.org 16777216\nwhere: .dd %s\n' % text
    res = run(M.make_cpu(), labels + use if case['first'] else use + labels)
    if not 0 <= v < 1 << 32:
        expect_error(res, text)
        return False
    expect_image(res, v.to_bytes(4, 'little'), text)
    return True


LABELS = ['lab_a', 'tbl.end', 'Start', 'x7']


def chain(r, bits, labels):
    """a random expression whose value is mostly within a field of that width -> (text, value or None)"""
    env = {n: r.choice([r.randrange(1, 60), r.randrange(1 << min(bits, 24)), r.randrange(1 << max(bits // 2, 1))]) for n in LABELS[:3]}
    first = r.random() < (.6 if labels else 0)
    terms = [r.choice(list(env)) if first else r.choice([r.randrange(40), r.randrange(1 << bits), r.randrange(1 << bits)])]
    v = env.get(terms[0], terms[0])
    text = str(terms[0])
    for _ in range(r.randint(0 if first else 1, 4)):
        t = r.choice(list(env)) if labels and r.random() < .35 else r.choice([r.randrange(30), r.randrange(1 << bits)])
        x = env.get(t, t)
        ops = [o for o in '++-*/&|' if not (o == '/' and not x) and not (o == '*' and v * x >= 1 << bits and r.random() < .9)
               and not (o == '-' and v < x and r.random() < .9) and not (o == '+' and v + x >= 1 << bits and r.random() < .9)]
        o = r.choice(ops)
        text += o + str(t)
        v = {'+': v + x, '-': v - x, '*': v * x, '/': v // x if x else None, '&': v & x, '|': v | x}[o]
    if r.random() < .2:
        m = r.choice([(1 << bits) - 1, r.randrange(1 << bits)])
        text, v = '%s&%d' % (text, m), v & m
    return env, first, text, v


@REG.given(st.fixed_dictionaries({'cpu': st.sampled_from(S.CPUS), 'slot': st.integers(0, 1 << 20), 'n': st.just(6), 'labels': st.booleans(), 'seed': st.integers(0, 1 << 30)}), quick=1200)
def in_every_operand(case):
    """chains of constants and labels as the operand of any instruction form of any CPU"""
    import random
    r = random.Random(case['seed'])
    c = case['cpu']
    names = S.keys(c, False)
    done = 0
    for k in range(case['n']):
        t = names[(case['slot'] + k * 37) % len(names)]
        s = S.table(c, False)[t]
        env, first, text, v = chain(r, s.bits, case['labels'])
        # the labels all before the statement, all after it, or on both sides of it: later[i] for a label defined after
        how = r.choice('aaabbc') if first else 'a'
        head = text.split('+')[0].split('-')[0].split('*')[0].split('/')[0].split('&')[0].split('|')[0]
        later = {n: how == 'b' or how == 'c' and (n != head if case['seed'] & 1 else r.random() < .5) for n in env}
        if not first:
            # a label that is not the first term has to be known
            later = dict.fromkeys(env, False)
        fwd = any(later[n] for n in env if re.search(r'(?<![\w.])%s(?![\w.])' % re.escape(n), text))
        at = r.choice([0, 64, 0x8000])
        org = lambda ns: ''.join('.org %d\n%s:\n' % (env[n], n) for n in ns)
        before, after = org(n for n in env if not later[n]), org(n for n in env if later[n])
        use = '.org %d\n%s\n' % (at, t.replace('{L}', text))
        if v < 0:
            # a negative result in an unsigned field: as the negative number itself, where constants alone give it
            if any(n in text for n in LABELS):
                continue
            lit = run(cpu(c), '.org %d\n%s\n' % (at, t.replace('{L}', str(v))))
            want = [lit.image.hex() if lit.ok else '!']
        else:
            want = s.outcomes(v, at, not fwd)
        res = run(cpu(c), before + use + after)
        got = res.image.hex() if res.ok else '!'
        if got not in want:
            fail('%s %r with %r, %s after it: %r, expected %s' % (c, use, env, [n for n in env if later[n]], res, '|'.join(want)))
        done += res.ok and text != str(v)
    return done > 0


CHAINS = [['5+3', 8], ['100-20/4', 20], ['lab+5+3', 20], ['2*3+1', 7], ['lab*2-4', 20], ['16|3&7', 3], ['lab/4+1', 4], ['1+lab', 13], ['lab-4&9', 8], ['7-5', 2]]


def slots_and_chains(tier):
    for c in S.CPUS:
        for i, t in enumerate(S.keys(c, False)):
            # the two plain ones for each form, the others in turn
            yield [c, t, CHAINS if tier != 'quick' else [CHAINS[0], CHAINS[2 if i % 2 else 1], CHAINS[3 + i % 7]]]


@REG.enum(slots_and_chains)
def fixed_chains(case):
    """the same few expressions in each of the operand forms"""
    c, t, chains = case
    s = S.table(c, False)[t]
    for e, v in chains:
        res = run(cpu(c), '.org 12\nlab:\n.org 64\n%s\n' % t.replace('{L}', e))
        got = res.image.hex() if res.ok else '!'
        if got not in s.outcomes(v, 64, True):
            fail('%s %r: %r, expected the encoding of %d, %s' % (c, t.replace('{L}', e), res, v, '|'.join(s.outcomes(v, 64, True))))
    return True


@REG.enum(lambda tier: [[know, other, form, fwd] for know, other in [('base', 'BASE'), ('BASE', 'base'), ('Base', 'bASE'), ('base', 'base1'), ('base1', 'base'), ('a.b', 'a_b'), ('base', 'bas'), ('_b', 'b'), ('base', 'ba.se')]
                        for form in ('{}', '{}+1', '>{}', '<{}-2', 'one+{}', 'one-{}', 'one*{}', 'one/{}', 'one&{}', 'one|{}', 'one+one+{}', 'one+{}+one', '<one+{}', '{}+one', '{}+{}') for fwd in (0, 1)])
def similar_names(case):
    """a name that differs from those of the defined labels is undefined, in any place of an expression"""
    know, other, form, fwd = case
    labels = '.org 3\none:\n.org 5\n%s:\n.org 100\n' % know
    for d, size in (('.db', 1), ('.dd', 4), ('LD16', 2)):
        for name in (know, other):
            use = '%s %s\n' % (d, form.format(name, name))
            r = run(M.make_cpu(), use + labels if fwd else labels + use)
            if name == other:
                expect_error(r, use)
                continue
            v = {'{}': 5, '{}+1': 6, '>{}': 0, '<{}-2': 3, 'one+{}': 8, 'one-{}': -2, 'one*{}': 15, 'one/{}': 0, 'one&{}': 1, 'one|{}': 7, 'one+one+{}': 11, 'one+{}+one': 11, '<one+{}': 8, '{}+one': 8, '{}+{}': 10}[form]
            if v < 0:
                if r.ok and r.image[-size:] != (v & (1 << 8 * size) - 1).to_bytes(size, 'little'):
                    fail('%s gives %s' % (use, hexs(r.image)))
            else:
                expect_image(r, (b'\x20' if d == 'LD16' else b'') + v.to_bytes(size, 'little'), use)
    return True
