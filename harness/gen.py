"""Hypothesis strategies for framework level programs (ASTs of harness.model)."""
from hypothesis import strategies as st
from harness import model as M

NAMES = ['start', 'end', 'Loop', 'loop', 'LOOP', 'a', 'A', 'x1', 'data.tbl', '.local', '_under', 'nop', 'db',
         'label_with_a_long_name_42', 'l0', 'l00', 'l1', 'end2', 'hl', 'org', 'Z9.z']

config = st.fixed_dictionaries({'be': st.booleans(), 'fill': st.sampled_from([0, 0, 0xff, 0x5a]),
                                'suffixes': st.booleans()})


def styles(cfg):
    return M.SUFFIX_STYLES if cfg['suffixes'] else M.PREFIX_STYLES


BOUND = {b: sorted({v for k in range(b + 1) for v in ((1 << k) - 1, 1 << k, (1 << k) + 1) if 0 <= v < (1 << b)})
         for b in (3, 4, 5, 8, 10, 11, 12, 15, 16, 20, 26, 32, 64)}


def ints(bits):
    """0 .. 2^bits-1 with boundary values favoured"""
    return st.one_of(st.sampled_from(BOUND[bits]), st.integers(0, (1 << bits) - 1), st.integers(0, min((1 << bits) - 1, 300)))


@st.composite
def number(draw, cfg, bits, neg=True):
    """an expression that is a single literal fitting `bits`"""
    style = draw(st.sampled_from(styles(cfg)))
    v = draw(ints(bits))
    if neg and style == 'dec' and v <= (1 << (bits - 1)) and draw(st.booleans()):
        v = -v
    return M.num(v, style)


def small_text(extra=''):
    alphabet = 'abzAZ09 ,;:()[]{}\t.#$%<>+-*/&|!?=@~^_`' + extra
    return st.text(alphabet=alphabet, min_size=1, max_size=12)


@st.composite
def string(draw):
    q = draw(st.sampled_from(['"', "'"]))
    return ['s', q, draw(small_text('"\'\\'))]


@st.composite
def label_expr(draw, cfg, size, names, ops=True):
    e = {'v': [['l', draw(st.sampled_from(names))], []]}
    if ops and draw(st.integers(0, 3)) == 0:
        n = draw(st.integers(1, 3))
        for _ in range(n):
            op = draw(st.sampled_from(['+', '-', '&', '+', '*', '|', '/']))
            k = draw(st.integers(0, 9))
            if k == 0:
                t = None
            elif k < 4:
                t = ['l', draw(st.sampled_from(names))]
            else:
                t = ['n', draw(st.integers(1, 40)), draw(st.sampled_from(styles(cfg)))]
            e['v'][1].append([op, t])
    if draw(st.integers(0, 99)) < (80 if size == 1 else 20):
        e['keep'] = draw(st.integers(1, size)) if size > 1 else 1
        e['drop'] = draw(st.integers(0, 1))
    return e


@st.composite
def operand(draw, cfg, size, names, strings=True):
    k = draw(st.integers(0, 9))
    if strings and k == 0:
        return draw(string())
    if k < 6 or not names:
        return draw(number(cfg, size * 8))
    return draw(label_expr(cfg, size, names))


DIRS = {1: ['db', 'byte'], 2: ['dw', 'word'], 4: ['dd', 'dl', 'dword']}


@st.composite
def simple_stmt(draw, cfg, names, kinds=('data', 'op', 'fill', 'ascii')):
    k = draw(st.sampled_from(kinds))
    if k == 'data':
        size = draw(st.sampled_from([1, 2, 4]))
        ops = draw(st.lists(operand(cfg, size, names), min_size=1, max_size=4))
        return ['data', draw(st.sampled_from(DIRS[size])), size, ops]
    if k == 'op':
        m = draw(st.sampled_from(['NOP', 'WIDE', 'LD8', 'LD16', 'LD32', 'BR8', 'BR16'] + (['LD16', 'BR16', 'BR8'])))
        if m in ('NOP', 'WIDE'):
            return ['op', m, []]
        _, size, rel = M.OPS[m]
        if rel:
            if names and draw(st.integers(0, 4)):
                return ['op', m, [M.lab(draw(st.sampled_from(names)))]]
            return ['op', m, [M.num(draw(st.integers(-(1 << size * 8 - 1), (1 << size * 8 - 1) - 1)))]]
        return ['op', m, [draw(operand(cfg, size, names, strings=False))]]
    if k == 'fill':
        v = draw(st.one_of(st.none(), number(cfg, 8)))
        return ['fill', M.num(draw(st.integers(0, 40)), draw(st.sampled_from(styles(cfg)))), v]
    if k == 'ascii':
        size = draw(st.sampled_from([1, 2]))
        ops = []
        for _ in range(draw(st.integers(1, 3))):
            if names and draw(st.booleans()):
                ops.append(draw(label_expr(cfg, size, names, ops=False)))
            else:
                ops.append(draw(number(cfg, size * 8, neg=False)))
        return ['ascii', size, draw(st.booleans()), ops]
    raise AssertionError(k)


@st.composite
def layout_stmt(draw, cfg, m, bounded=True):
    """a layout statement that is valid in the state of model m"""
    sty = draw(st.sampled_from(styles(cfg)))
    n = lambda v: M.num(v, sty)
    vv = lambda: draw(st.one_of(st.none(), number(cfg, 8)))
    kinds = ['fill', 'align', 'goto', 'upto', 'ram', 'org', 'org']
    if not bounded:
        kinds = ['fill', 'align', 'goto', 'upto', 'ram']
    k = draw(st.sampled_from(kinds))
    room = m.org_end + 1 - m.pc if m.org_end else 200
    room = max(0, min(200, room))
    if k == 'fill':
        return ['fill', n(draw(st.integers(0, min(40, room)))), vv()]
    if k == 'align':
        a = draw(st.one_of(st.sampled_from([1, 2, 4, 8, 16, 64]), st.integers(1, 40)))
        if -m.pc % a > room:
            a = 1
        return ['align', n(a)]
    if k == 'goto':
        return ['goto', n(m.pc + draw(st.integers(0, room))), vv()]
    if k == 'upto':
        return ['upto', n(m.cnt + draw(st.integers(0, room))), vv()]
    if k == 'ram':
        return ['ram', n(draw(st.integers(1, 40)))] if room >= 40 else ['fill', n(0), None]
    lo = 0
    if m.org_end:
        lo = max(m.pc, m.org + 1)
        s = draw(st.one_of(st.integers(lo, m.org_end + 1) if lo <= m.org_end + 1 else st.just(lo),
                           st.integers(max(lo, m.org_end + 1), m.org_end + 5000)))
    else:
        s = draw(st.one_of(st.integers(0, 300), st.sampled_from([0, 0x80, 0x100, 0x8000, 0xc000, 0xff00]), ints(16)))
    e = None
    if draw(st.booleans()):
        e = n(max(s, 1) + draw(st.one_of(st.integers(0, 8), st.integers(0, 300))))
    return ['org', n(s), e]


@st.composite
def program(draw, layout=True, bounded=True, max_stmts=14, repeat=False, keep_bad=15, kinds=None, undefined=True):
    """-> {'cfg':..., 'prog': [...]}; mostly valid, sometimes rejected for a reason the model knows"""
    cfg = draw(config)
    names = draw(st.lists(st.sampled_from(NAMES), min_size=0, max_size=5, unique=True))
    pool = names + (['missing'] if undefined and draw(st.integers(0, 30)) == 0 else [])
    m = M.Model(cfg['be'], cfg['fill'])
    prog = []
    todo = list(names)
    total = draw(st.integers(1, max_stmts))
    kk = kinds or ('data', 'op', 'fill', 'ascii', 'data', 'op')
    for i in range(total):
        c = draw(st.integers(0, 99))
        if todo and c < 35:
            s = ['label', todo.pop(0)]
        elif layout and c < 60:
            s = draw(layout_stmt(cfg, m, bounded))
        elif repeat and c < 70:
            body = draw(st.lists(simple_stmt(cfg, pool, ('data', 'op', 'fill')), min_size=1, max_size=3))
            if todo and draw(st.booleans()):
                body.insert(draw(st.integers(0, len(body))), ['label', todo.pop(0)])
            s = ['repeat', M.num(draw(st.integers(1, 5)), draw(st.sampled_from(styles(cfg)))), body]
        else:
            s = draw(simple_stmt(cfg, pool, kk))
        snap = (bytes(m.bytes), m.org, m.org_end, m.cnt, dict(m.labels), list(m.fixups))
        try:
            m.stmt(s)
            over = m.org_end and m.pc > m.org_end + 1
        except M.Reject:
            over = False
            if draw(st.integers(0, 99)) < keep_bad:
                prog.append(s)
                return {'cfg': cfg, 'prog': prog}
            over = True
        if over:
            m.bytes, m.org, m.org_end, m.cnt, m.labels, m.fixups = bytearray(snap[0]), snap[1], snap[2], snap[3], snap[4], snap[5]
            continue
        prog.append(s)
    for nme in todo:
        prog.append(['label', nme])
    # references that cannot be linked are mostly removed
    keep = draw(st.integers(0, 99)) < keep_bad
    if not keep:
        prog = prune(prog, cfg)
    return {'cfg': cfg, 'prog': prog}


def has_ref(s):
    if s[0] == 'repeat':
        return any(has_ref(x) for x in s[2])
    ops = {'data': 3, 'op': 2, 'ascii': 3}.get(s[0])
    if ops is None:
        return False
    for o in s[ops]:
        if isinstance(o, dict) and (o['v'][0][0] == 'l' or any(t and t[0] == 'l' for _, t in o['v'][1])):
            return True
    return False


def prune(prog, cfg):
    """drop the statements whose references do not link (addresses shift, so repeat)"""
    for _ in range(30):
        m = M.Model(cfg['be'], cfg['fill'])
        bad = None
        owner = {}
        try:
            for i, s in enumerate(prog):
                n0 = len(m.fixups)
                try:
                    m.stmt(s)
                except M.Reject:
                    bad = i
                    break
                for f in range(n0, len(m.fixups)):
                    owner[f] = i
            if bad is None:
                m.finish()
                fx = m.fixups
                for f in range(len(fx)):
                    m.fixups = [fx[f]]
                    try:
                        m.link()
                    except M.Reject:
                        bad = owner[f]
                        break
        except M.Reject:
            pass
        if bad is None:
            return prog
        prog = prog[:bad] + prog[bad + 1:]
    return prog
