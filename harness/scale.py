"""Programs of a size that small generated cases do not reach: hundreds of statements and labels, blocks of tens of thousands of bytes.

A case is {'seed', 'n', ...}; the program is derived from it, and the first n statements do not depend on n, so a failure shrinks to a short program."""
import random
from hypothesis import strategies as st
from harness import model as M
from harness.gen import DIRS


def case(lo=30, hi=300, **more):
    return st.fixed_dictionaries(dict({'seed': st.integers(0, 1 << 30), 'n': st.integers(0, hi - lo).map(lambda v: hi - v), 'be': st.booleans(), 'fill': st.sampled_from([0, 255, 90])}, **more))


def program(c, layout=0.2, refs=0.4, big=0.1, repeats=0.05):
    """-> AST; always accepted by the model"""
    r = random.Random(c['seed'])
    m = M.Model(c['be'], c['fill'])
    prog = []
    nl = r.randint(1, 120)
    todo = ['L%d' % i for i in range(nl)]
    r.shuffle(todo)
    names = list(todo)
    num = M.num

    def ref(size):
        e = M.lab(r.choice(names))
        for _ in range(r.choice([0, 0, 0, 1, 2, 12])):
            e['v'][1].append([r.choice('+-&|+'), ['l', r.choice(names)] if r.random() < .3 else ['n', r.randint(0, 70), 'dec']])
        if size < 8:
            e['keep'] = min(size, 4)
        return e
    for _ in range(c['n']):
        k = r.random()
        if todo and k < .3:
            s = ['label', todo.pop()]
        elif k < .3 + layout:
            large = r.random() < big
            w = r.choice(['fill', 'align', 'goto', 'upto', 'ram', 'org', 'org'])
            v = None if r.random() < .5 else num(r.randint(0, 255))
            if w == 'fill':
                s = ['fill', num(r.choice([256, 1000, 4096, 65535, 65536, 70001]) if large else r.randint(0, 300)), v]
            elif w == 'align':
                s = ['align', num(r.choice([256, 512, 0x1000, 0x4000, 0x10000, 1000]) if large else r.choice([1, 2, 4, 8, 32, 100, 128]))]
            elif w == 'goto':
                s = ['goto', num(m.pc + (r.randint(256, 70000) if large else r.randint(0, 300))), v]
            elif w == 'upto':
                s = ['upto', num(m.cnt + (r.randint(256, 70000) if large else r.randint(0, 300))), v]
            elif w == 'ram':
                s = ['ram', num(r.choice([256, 0x2000, 0x10000, 0x7fffffff]) if large else r.randint(1, 300))]
            else:
                st_ = m.pc + (r.choice([0, 1, 255, 256, 0x8000, 0xfff0, 0x10000, 1 << 24]) if large else r.randint(0, 300))
                if not m.org_end:
                    st_ = r.choice([st_, r.randint(0, 0x8000), 0, 0x100, 0x8000])
                st_ = max(st_, m.org_end + 1 if m.org_end else 0)
                e = st_ + (r.choice([0xff, 0x3fff, 0x7fff, 0xffff]) if large else r.randint(0, 500))
                s = ['org', num(st_), num(e) if r.random() < .5 and e else None]
        elif k < .3 + layout + repeats:
            body = [['data', 'db', 1, [num(r.randint(0, 255))]], ['op', 'NOP', []]][:r.randint(1, 2)]
            if r.random() < .5:
                body.append(['data', 'dw', 2, [ref(2) if r.random() < .5 else num(r.randint(0, 65535))]])
            s = ['repeat', num(r.choice([255, 256, 257, 300, 1000]) if r.random() < big else r.randint(1, 20)), body]
        else:
            size = r.choice([1, 2, 4])
            if r.random() < .1:
                s = ['data', 'db', 1, [['s', r.choice('"\''), ''.join(r.choice('abcXYZ 0189;:,.()') for _ in range(r.randint(1, 400)))]]]
            else:
                ops = []
                for _ in range(r.choice([1, 1, 2, 3, 8, 100])):
                    ops.append(ref(size) if names and r.random() < refs else num(r.randint(0, (1 << 8 * size) - 1), r.choice(M.PREFIX_STYLES)))
                s = ['data', r.choice(DIRS[size]), size, ops]
        keep = bytes(m.bytes[:0]), len(m.bytes), m.org, m.org_end, m.cnt, len(m.fixups)
        try:
            m.stmt(s)
            ok = not (m.org_end and m.pc > m.org_end + 1) and len(m.bytes) < 400000
        except M.Reject:
            ok = False
        if not ok:
            del m.bytes[keep[1]:]
            m.org, m.org_end, m.cnt = keep[2:5]
            del m.fixups[keep[5]:]
            if s[0] == 'org' or s[0] == 'label' and s[1] in m.labels:
                pass
            continue
        prog.append(s)
    # drop what does not link: expressions with a negative or too large result
    env = dict(m.labels)
    end = [['label', n] for n in reversed(todo)]
    for s in end:
        m.stmt(s)
    env = m.labels

    def fine(o, size):
        if isinstance(o, list) or M.is_num(o):
            return True

        def term(t):
            return t[1] if t[0] == 'n' else env[t[1]]
        return 0 <= M.fold(term(o['v'][0]), o, term) < 1 << 8 * size

    def clean(s):
        if s[0] == 'data':
            # replaced by a number of the same size
            return ['data', s[1], s[2], [o if fine(o, s[2]) else num(1) for o in s[3]]]
        if s[0] == 'repeat':
            return ['repeat', s[1], [clean(x) for x in s[2]]]
        return s
    return [clean(s) for s in prog] + end


def verdict(c, what, **kw):
    """assemble and compare with the model; True when the program is large"""
    from harness.checks.c02 import model_run
    prog = program(c, **kw)
    m = model_run({'cfg': {'be': c['be'], 'fill': c['fill'], 'suffixes': False}, 'prog': prog}, what)
    return m is not None and (len(prog) > 50 or len(m.bytes) > 1000)
