from hypothesis import strategies as st
from harness.core import Registry
from harness.lib import *
from harness import forms as F, model as M
import random

REG = Registry('C08', 'generated macro definitions (parameters used as whole tokens and inside composite tokens, as mnemonics, nested calls, defines) and '
               'call sequences; the program with macros must give the image of the program expanded by the harness on structured tokens. '
               'Non-trivial: the expansion is accepted and contains at least two calls or a composite use.',
               ['directives inside a macro body are executed at definition time today; macro bodies are restricted to instructions'])

PARAMS = ['x', 'yy', 'Z', 'arg0', 'arg1', 'a.b', '_p']
MN = ['mcA', 'load_all', 'Blit', 'x.y', 'zz9']
DEFS = {'DONE': '3', 'DTWO': '0x21', 'DADR': 'lab1'}
LITS = ['1', '2', '7', '0x10', '%101', 'lab1', 'lab2', 'DONE', 'lab2+1']
# token templates: list of pieces, None = slot
SHAPES = [[None], [None], [None], [None, '+1'], ['1+', None], [None, '+', None], ['<', None], [None, '&0xff|', None], ['<', None, '+2'], [None, '/', '2'], ['99/', None], [None, '*', '3-', None], ['>', None, '&', None]]


@st.composite
def token(draw, params):
    shape = draw(st.sampled_from(SHAPES))
    out = []
    for p in shape:
        if p is not None:
            out.append(['t', p])
        elif params and draw(st.integers(0, 3)):
            out.append(['p', draw(st.sampled_from(params))])
        else:
            out.append(['t', draw(st.sampled_from(LITS))])
    return out


@st.composite
def macros_case(draw):
    n = draw(st.integers(1, 4))
    names = draw(st.permutations(MN))[:n]
    macros = []
    for i, nm in enumerate(names):
        params = draw(st.lists(st.sampled_from(PARAMS), max_size=3, unique=True))
        body = []
        for _ in range(draw(st.integers(0, 4))):
            k = draw(st.integers(0, 9))
            if k < 5:
                body.append([[['t', draw(st.sampled_from(['LD8', 'LD16', 'LD32', 'ld32', 'LD32']))]], draw(token(params))])
            elif k == 5:
                body.append([[['t', 'NOP']]])
            elif k == 6:
                body.append([[['t', 'BR16']], [['t', draw(st.sampled_from(['lab1', 'lab2']))]]])
            elif k == 7 and params:
                body.append([[['p', draw(st.sampled_from(params))]]])     # mnemonic or whole statement given as argument
            elif i:
                callee = draw(st.integers(0, i - 1))
                args = [draw(token(params)) for _ in macros[callee]['params']]
                body.append([[['t', macros[callee]['name']]]] + args)
        # a parameter used as mnemonic needs such an argument
        mn = {t[0][0][1] for t in body if len(t) == 1 and t[0][0][0] == 'p'}
        macros.append({'name': nm, 'params': params, 'body': [[t] if 0 else t for t in body], 'mn': sorted(mn)})
    calls = []
    for _ in range(draw(st.integers(1, 5))):
        i = draw(st.integers(0, n - 1))
        args = []
        for p in macros[i]['params']:
            if p in macros[i]['mn']:
                args.append(draw(st.sampled_from(['NOP', 'WIDE'])))
            else:
                args.append(draw(st.sampled_from(LITS + PARAMS[:2] + ['x'])))
        calls.append([i, args, draw(st.booleans())])
    return {'macros': macros, 'calls': calls, 'be': draw(st.booleans()), 'defs_first': draw(st.booleans()), 'late': draw(st.integers(0, 2)), 'sens': draw(st.sampled_from([False, False, True]))}


def flat(tok, env):
    return ''.join(env.get(v, v) if k == 'p' else v for k, v in tok)


def expand(macros, i, args, out, depth=0):
    mac = macros[i]
    if len(args) < len(mac['params']):
        raise M.Reject('few')
    env = dict(zip(mac['params'], args))
    byname = {m['name']: j for j, m in enumerate(macros)}
    for stmt in mac['body']:
        toks = [flat(t, env) for t in stmt]
        if toks[0] in byname:
            expand(macros, byname[toks[0]], toks[1:], out, depth + 1)
        else:
            out.append(' '.join(toks))


def tail():
    # labels that arguments may name, including names that are also parameter names
    return ['.org 0x40', 'lab1: NOP', 'lab2: NOP', 'x: NOP', 'yy: NOP', 'Z: NOP', '_p: NOP', 'arg0: NOP']


@REG.given(macros_case(), quick=1500)
def expansion(case):
    macros = case['macros']
    if case['sens']:
        macros = [dict(m, body=[[[[k, 'LD32' if v == 'ld32' else v] for k, v in t] for t in s] for s in m['body']]) for m in macros]
    if any(p in m['mn'] and any(['p', p] in t for s in m['body'] if len(s) > 1 for t in s) for m in macros for p in m['params']):
        return False
    defs = ['.define %s %s' % kv for kv in DEFS.items()]
    src = []
    for m in macros:
        src.append('.macro ' + ' '.join([m['name']] + m['params']))
        for stmt in m['body']:
            src.append('  ' + ' '.join(''.join(v for _, v in t) for t in stmt))
        src.append('.endmacro')
    calls, flatc = [], []
    ncalls = 0
    for i, args, up in case['calls']:
        nm = macros[i]['name']
        calls.append(' '.join([nm.upper() if up and not case['sens'] else nm] + args))
        expand(macros, i, args, flatc)
        ncalls += 1
        calls.append('.db 99')
        flatc.append('.db 99')
    # an argument equal to a parameter name must not be substituted again
    cls = M.make_cpu(case['be'], sensitive=case['sens'])
    pre, post = (defs, []) if case['defs_first'] else ([], defs)
    a = '\n'.join(pre + src + post + calls + tail())
    b = '\n'.join(defs + flatc + tail())
    ra, rb = run(cls, a), run(cls, b)
    if ra.ok != rb.ok or ra.ok and ra.image != rb.image:
        fail('macro program\n%s\ngives %r, its expansion\n%s\ngives %r' % (a, ra, b, rb))
    if ra.ok and labels_of(ra.asm) != labels_of(rb.asm):
        fail('macro program\n%s\nhas other labels than its expansion' % a)
    return rb.ok and (ncalls >= 2 and len(flatc) > ncalls)


@REG.given(st.fixed_dictionaries({'n': st.integers(1, 4), 'given': st.one_of(st.integers(0, 4), st.integers(3, 40)), 'names': st.permutations(PARAMS), 'use': st.booleans()}), quick=150)
def argument_count(case):
    """a call with too few arguments is rejected and emits nothing"""
    ps = case['names'][:case['n']]
    body = ' '.join(['LD8', ps[0]]) + '\n' + (' '.join(['LD8', ps[-1]]) if case['use'] else 'NOP')
    head = '.macro foo %s\n%s\n.endmacro\n' % (' '.join(ps), body)
    call = 'foo ' + ' '.join(str(i + 1) for i in range(case['given']))
    r = run(M.make_cpu(), head + '.db 1\n' + call)
    if case['given'] < case['n']:
        expect_error(r, head + call)
        if bytes(r.asm.assembled_bytes) != b'\x01':
            fail('%s: rejected call emitted %s' % (head + call, hexs(r.asm.assembled_bytes)))
    elif r.ok or case['given'] == case['n']:
        # arguments beyond the parameters may be refused, but the parameters have theirs
        expect_image(r, bytes([1, 0x10, 1] + ([0x10, case['n']] if case['use'] else [0xea])), head + call)
    return True


@REG.given(st.fixed_dictionaries({'kind': st.sampled_from(['nested', 'label', 'end']), 'pre': st.integers(0, 3), 'case': st.booleans(), 'outer': st.sampled_from(MN), 'inner': st.sampled_from(MN)}), quick=60)
def invalid_definitions(case):
    pre = 'NOP\n' * case['pre']
    d = '.MACRO' if case['case'] else '.macro'
    text = {'nested': '%s %s a\n%s%s %s\nNOP\n.endmacro\n.endmacro' % (d, case['outer'], pre, d, case['inner']),
            'label': '%s %s a\n%slabel:\nNOP\n.endmacro' % (d, case['outer'], pre),
            'end': '%s.endmacro\nNOP' % pre}[case['kind']]
    expect_error(run(M.make_cpu(), text), text)
    return True


TPL = ['LDA #@', 'LDA #<@', 'STA @', 'STA @,X', 'LDA (@),Y', 'STA @+1', 'LDA #>@', 'LDX #@', 'JMP (@+$200)', 'CMP (@,X)']


@REG.given(st.fixed_dictionaries({'body': st.lists(st.tuples(st.sampled_from(TPL), st.booleans()), min_size=1, max_size=5),
                                  'calls': st.lists(st.tuples(st.integers(0, 250), st.sampled_from(['$%x', '%d'])), min_size=2, max_size=4)}), quick=300)
def on_6502(case):
    """composite operands with brackets and selectors"""
    body = '\n'.join(t.replace('@', 'p1' if f else 'p2') for t, f in case['body'])
    vals = [f % v for v, f in case['calls']]
    src = '.macro both p1 p2\n%s\n.endmacro\n' % body
    exp = ''
    for a, b in zip(vals, vals[1:]):
        src += 'both %s,%s\n' % (a, b)
        exp += '\n'.join(t.replace('@', a if f else b) for t, f in case['body']) + '\n'
    ra, rb = run(cpu('6502'), src), run(cpu('6502'), exp)
    if ra.ok != rb.ok or ra.ok and ra.image != rb.image:
        fail('macro program\n%s\ngives %r, its expansion\n%s\ngives %r' % (src, ra, exp, rb))
    return rb.ok


@st.composite
def history_case(draw):
    n = draw(st.integers(1, 3))
    macros = []
    for i in range(n):
        params = draw(st.one_of(st.just([]), st.lists(st.sampled_from(['x', 'yy']), max_size=2, unique=True)))
        body = []
        for _ in range(draw(st.integers(1, 3))):
            if i and draw(st.integers(0, 2)) == 0:
                c = draw(st.integers(0, i - 1))
                body.append([MN[c]] + [draw(st.sampled_from(params + ['V', '4', 'W'])) for _ in macros[c]['params']])
            else:
                body.append(['LD32', draw(st.sampled_from(['V', 'W', 'V+1', 'V+W', '2*V', 'lab1+V'] + params + [p + '+V' for p in params]))])
        macros.append({'params': params, 'body': body})
    steps = []
    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.integers(0, 4))
        if k < 2:
            steps.append(['def', draw(st.sampled_from(['V', 'W'])), draw(st.sampled_from(['1', '2', '0x30', 'lab1', 'x', '7']))])
        elif k == 2 and draw(st.integers(0, 1)) == 0:
            steps.append(['redef', draw(st.integers(0, n - 1)), [['LD32', draw(st.sampled_from(['V', 'W+1', '9']))] for _ in range(draw(st.integers(0, 2)))] or [['NOP']]])
        else:
            i = draw(st.integers(0, n - 1))
            steps.append(['call', i, [draw(st.sampled_from(['1', '5', 'V', 'lab1', 'x', 'yy'])) for _ in macros[i]['params']]])
    return {'macros': macros, 'steps': steps}


@REG.given(history_case(), quick=1500)
def call_histories(case):
    """calls interleaved with redefinition of the defines (and macros) their bodies use"""
    macros = [dict(m) for m in case['macros']]
    src, exp = [], []
    for i, m in enumerate(macros):
        src += ['.macro %s %s' % (MN[i], ' '.join(m['params']))] + [' '.join(s) for s in m['body']] + ['.endmacro']

    def go(i, args):
        env = dict(zip(macros[i]['params'], args))
        for stmt in macros[i]['body']:
            toks = ['+'.join(env.get(p, p) for p in t.split('+')) for t in stmt]
            if toks[0] in MN:
                # the arguments of a nested call are read after the defines have been applied, like any statement
                go(MN.index(toks[0]), toks[1:])
            else:
                exp.append(' '.join(toks))
    for s in case['steps']:
        if s[0] == 'def':
            src.append('.define %s %s' % (s[1], s[2]))
            exp.append(src[-1])
        elif s[0] == 'redef':
            macros[s[1]] = {'params': macros[s[1]]['params'], 'body': s[2]}
            src += ['.macro %s %s' % (MN[s[1]], ' '.join(macros[s[1]]['params']))] + [' '.join(x) for x in s[2]] + ['.endmacro']
        else:
            src.append(' '.join([MN[s[1]]] + s[2]))
            go(s[1], s[2])
    pre = '.org 0x40\nlab1: NOP\nx: NOP\nyy: NOP\nV: NOP\nW: NOP\n'
    a, b = pre + '\n'.join(src), pre + '\n'.join(exp)
    ra, rb = run(M.make_cpu(), a), run(M.make_cpu(), b)
    if ra.ok != rb.ok or ra.ok and ra.image != rb.image:
        fail('program\n%s\ngives %r, its expansion\n%s\ngives %r' % (a, ra, b, rb))
    return rb.ok and sum(s[0] == 'call' for s in case['steps']) > 1


@REG.given(st.fixed_dictionaries({'seed': st.integers(0, 1 << 30), 'n': st.integers(1, 60)}), quick=80)
def large_programs(case):
    """many macros with many parameters and long bodies, called many times through several levels"""
    r = random.Random(case['seed'])
    macros, src, exp = [], [], []
    nums = ['1', '0x21', '%110', '99', '6']
    vals = ['lab1', 'lab2', 'lab1+3', 'p0', 'p1', 'm1'] + nums
    # parameters q* are only given numbers, so that they may stand after a +
    value = lambda p, more: r.choice([x for x in more if x[0] == 'q'] + nums) if p[0] == 'q' else r.choice(more + vals)
    for i in range(r.randint(2, 12)):
        params = [r.choice('ppq') + '%d' % k for k in range(r.randint(0, 14) if r.random() < .9 else r.randint(15, 40))]
        r.shuffle(params)
        body = []
        for _ in range(r.choice([1, 2, 5, 30])):
            if i and r.random() < .3 and len(macros) > 0:
                j = r.randrange(len(macros))
                if macros[j][2] < 4 and macros[j][3] < 60:
                    body.append(['m%d' % j] + [value(p, params) for p in macros[j][0]])
                    continue
            body.append(['LD32', r.choice(params or ['5']) if r.random() < .7 else r.choice(params or ['5']) + '+' + r.choice([p for p in params if p[0] == 'q'] or ['6'])])
        depth = 1 + max([macros[int(b[0][1:])][2] for b in body if b[0] != 'LD32'] or [0])
        size = sum(1 if b[0] == 'LD32' else macros[int(b[0][1:])][3] for b in body)
        macros.append((params, body, depth, size))
        src += ['.macro m%d %s' % (i, ' '.join(params))] + [' '.join(b) for b in body] + ['.endmacro']

    def go(i, args):
        env = dict(zip(macros[i][0], args))
        for b in macros[i][1]:
            toks = ['+'.join(env.get(p, p) for p in t.split('+')) for t in b]
            if b[0] == 'LD32':
                exp.append(' '.join(toks))
            else:
                go(int(b[0][1:]), toks[1:])
    for _ in range(case['n']):
        i = r.randrange(len(macros))
        args = [value(p, []) for p in macros[i][0]]
        src.append(r.choice(['m%d', 'M%d']) % i + ' ' + ', '.join(args))
        go(i, args)
        if len(exp) > 3000:
            break
    tail = '\n'.join(['lab1: NOP', 'lab2: NOP', 'p0: NOP', 'p1: NOP', 'm1: NOP'])
    ra, rb = run(M.make_cpu(), '\n'.join(src) + '\n' + tail), run(M.make_cpu(), '\n'.join(exp) + '\n' + tail)
    if ra.ok != rb.ok or ra.ok and ra.image != rb.image:
        fail('program\n%s\ngives %r, its expansion %r' % ('\n'.join(src)[:3000], ra, rb))
    return rb.ok and len(exp) > 20


@REG.enum(lambda tier: F.batches(tier, 2, directives=False))
def every_form(case):
    """each instruction form of each CPU in a macro, every name of it an argument"""
    c, ts = case
    done = 0
    for k, t in enumerate(ts):
        head, stmt = F.layout(c, t, F.S.all_slots(c)[t])
        ws = F.words(stmt)
        names = [['q%d', 'Arg_%d', 'x.%d', '_%d_'][(k + len(c)) % 4] % i for i in range(len(ws))]
        params, args = list(zip(ws, names)), ws
        if k % 2:
            # only the operands
            params, args = params[1:], ws[1:]
        body = F.rename(stmt, dict(params), k % 2)
        if k % 3 == 0:
            params.reverse()
            args = args[::-1]
        a = '%s.macro form_%d %s\n%s\n.endmacro\nform_%d %s\n' % (head, k, ', '.join(n for _, n in params), body, k, ' '.join(args))
        done += F.compare(c, a, head + stmt + '\n', 'the macro')
    return len(ts), done


@REG.enum(lambda tier: F.shapes(tier, 3))
def every_statement(case):
    """one statement of each shape of each CPU in a macro, with its mnemonic, registers and numbers as arguments"""
    c, at, texts = case
    macros, calls, plain = '', '', ''
    for k, t in enumerate(texts):
        if "'" in t:
            continue
        ws = F.words(t)
        names = [['q%d', 'Arg_%d', 'x.%d', '_%d_'][(k + at // 12) % 4] % i for i in range(len(ws))]
        if (k + at) % 3 == 1:
            ws, names = ws[1:], names[1:]
        elif (k + at) % 3 == 2:
            ws, names = ws[::-1], names[::-1]
        macros += '.macro form_%d %s\n%s\n.endmacro\n' % (k, ', '.join(names), F.rename(t, dict(zip(ws, names))))
        calls += 'form_%d %s\n' % (k, ' '.join(ws))
        plain += t + '\n'
    return len(texts), len(texts) * F.compare(c, macros + calls * 2, plain * 2, 'the macros')


@REG.given(st.tuples(st.sampled_from(F.S.CPUS), st.lists(st.integers(0, 1 << 20), min_size=1, max_size=6), st.integers(1, 3), st.booleans()), quick=400)
def bodies_of_several_forms(case):
    """macros of several statements of a CPU with one label argument, called several times"""
    c, picks, times, fwd = case
    ts = [t for t in F.statements(c, False) if '{L}.' not in t[0]]
    body = [ts[p % len(ts)][0] for p in picks]
    define, use = '.org 288\nlab:\n.db 1\n', '.org 256\n'
    call = use + '.macro body_of where\n' + '\n'.join(t.replace('{L}', 'where') for t in body) + '\n.endmacro\n' + 'body_of lab\n' * times
    plain = use + '\n'.join(t.replace('{L}', 'lab') for t in body * times) + '\n'
    return F.compare(c, define + call if not fwd else call + define, define + plain if not fwd else plain + define, 'macro calls')


@REG.given(st.tuples(st.lists(st.tuples(st.sampled_from(['two', 'TWO', 'Two', 'tWo', 'other']), st.integers(0, 255)), min_size=1, max_size=6), st.booleans()), quick=200)
def names_that_differ_by_case(case):
    """one macro, or several when the assembler is case sensitive"""
    defs, sens = case
    fold = str if sens else str.lower
    known, text, want = {}, '', b''
    for i, (n, v) in enumerate(defs):
        text += '.macro %s x\nLD8 %d\nLD8 x\n.endmacro\n' % (n, v)
        known[fold(n)] = v
        m = defs[i // 2][0]
        text += '%s %d\n' % (m if sens else m.swapcase(), i)
        want += bytes([0x10, known[fold(m)], 0x10, i])
    expect_image(run(M.make_cpu(sensitive=sens), text), want, '%s assembler: %s' % ('case sensitive' if sens else 'plain', text))
    return len(defs) > 1


@st.composite
def namesake_case(draw):
    pool = ['two', 'SIX', 'TEN', 'NOP', 'LD8', 'lab1', 'WIDE', 'a']
    macros = []
    for nm in draw(st.permutations(['two', 'SIX', 'TEN', 'NOP2']))[:draw(st.integers(2, 4))]:
        params = draw(st.lists(st.sampled_from(pool), min_size=draw(st.integers(0, 1)), max_size=2, unique=True))
        body = []
        for _ in range(draw(st.integers(1, 3))):
            k = draw(st.integers(0, 3))
            if k == 0:
                body.append([draw(st.sampled_from(params + ['NOP', 'WIDE']))])
            elif k == 1:
                body.append(['LD8', draw(st.sampled_from(params + ['5']))])
            elif k == 2:
                body.append([draw(st.sampled_from(params + ['LD16'])), draw(st.sampled_from(params + ['lab1', '7']))])
            else:
                body.append([draw(st.sampled_from(params + [m['name'] for m in macros] + ['WIDE'])), draw(st.sampled_from(params + ['3'])), '9'])
        macros.append({'name': nm, 'params': params, 'body': body})
    calls = []
    for _ in range(draw(st.integers(1, 5))):
        i = draw(st.integers(0, len(macros) - 1))
        args = []
        for k in range(3):
            p = macros[i]['params'][k] if k < len(macros[i]['params']) else None
            n = [len(b) - 1 for b in macros[i]['body'] if b[0] == p]
            fit = [m['name'] for m in macros if n and len(m['params']) <= n[0]] + (['NOP', 'WIDE'] if n and n[0] == 0 else ['LD8', 'LD32'] if n and n[0] == 1 else [])
            args.append(draw(st.sampled_from(fit or (['1', 'KD', '9', 'lab1'] if draw(st.integers(0, 3)) else ['LD8', 'NOP', 'two', 'SIX', 'TEN', 'WIDE', 'KD']))))
        calls.append([i, args])
    return {'macros': macros, 'calls': calls}


@REG.given(namesake_case(), quick=1500)
def namesakes(case):
    """parameters called like a macro, a mnemonic or a label, arguments that are names of macros (of the one called, too)"""
    macros, src = {}, ['.define KD 4']
    for m in case['macros']:
        src += ['.macro ' + ' '.join([m['name']] + m['params'])] + [' '.join(b) for b in m['body']] + ['.endmacro']
        macros[m['name'].lower()] = m
    out, used = [], [0]

    def go(m, args, depth):
        if depth > 6:
            raise M.Reject('deep')
        if len(args) < len(m['params']):
            raise M.Reject('few')
        env = dict(zip(m['params'], args))
        for b in m['body']:
            toks = [env.get(t, t) for t in b]
            used[0] += b[0] in env
            toks = ['4' if t == 'KD' else t for t in toks]
            if toks[0].lower() in macros:
                go(macros[toks[0].lower()], toks[1:], depth + 1)
            else:
                out.append(' '.join(toks))
            if len(out) > 300:
                raise M.Reject('long')
    ok, calls = True, []
    for i, args in case['calls']:
        m = case['macros'][i]
        # arguments without a parameter are ignored
        args = args[:len(m['params'])] if len(calls) % 2 else args
        calls.append(' '.join([m['name']] + args))
        args = ['4' if t == 'KD' else t for t in args]
        try:
            go(m, args, 0)
        except M.Reject as exc:
            if str(exc) != 'few':
                return False
            ok = False
            break
    tail = ['.org 0x40', 'lab1: .db 1']
    a, b = '\n'.join(src + calls + tail), '\n'.join(out + tail)
    ra, rb = run(M.make_cpu(), a), run(M.make_cpu(), b)
    if not ok:
        expect_error(ra, a)
        return True
    if ra.ok != rb.ok or ra.ok and ra.image != rb.image:
        fail('macro program\n%s\ngives %r, its expansion\n%s\ngives %r' % (a, ra, b, rb))
    return rb.ok and used[0] > 0 and len(out) > 1


@REG.given(st.fixed_dictionaries({'n': st.integers(2, 6), 'through': st.lists(st.sampled_from(['go', 'Via']), max_size=4), 'between': st.booleans(), 'leaf': st.sampled_from(['one', 'Pair', 'one']), 'k': st.integers(1, 99)}), quick=200)
def macros_given_to_themselves(case):
    """a macro whose body calls what it is given, given itself: every level has arguments of its own"""
    n, k = case['n'], case['k']
    ps = ['p%d' % i for i in range(n)]
    # go p0 p1 .. -> p0 p1 .. k; Via passes it on through another macro
    extra = 'LD8 %d\n' % k if case['between'] else ''
    src = '.macro pair a b\nLD8 b\nLD8 a\n.endmacro\n.macro one go\nLD32 go\n.endmacro\n'
    bodies = {'go': ps + [str(k)], 'via': ps + [str(k + 1)]}
    src += '.macro go %s\n%s%s\n%s.endmacro\n' % (' '.join(ps), extra, ' '.join(bodies['go']), extra)
    src += '.macro Via %s\n%s\n.endmacro\n' % (' '.join(ps), ' '.join(bodies['via']))
    toks = ['go'] + case['through'] + [case['leaf']] + [str(9 + i) for i in range(n)]
    toks = toks[:n + 1]
    out = []

    def go(t, depth):
        if t[0].lower() not in bodies:
            if len(t) < {'Pair': 3, 'one': 2}.get(t[0], 99):
                raise M.Reject('few')
            out.extend(['LD8 ' + t[2], 'LD8 ' + t[1]] if t[0] == 'Pair' else ['LD32 ' + t[1]])
            return
        if len(t) - 1 < n:
            raise M.Reject('few')
        if depth > 20:
            raise M.Reject('endless')
        env = dict(zip(ps, t[1:]))
        if t[0].lower() == 'go' and extra:
            out.append(extra.strip())
        go([env.get(x, x) for x in bodies[t[0].lower()]], depth + 1)
        if t[0].lower() == 'go' and extra:
            out.append(extra.strip())
    try:
        go(toks, 0)
    except M.Reject:
        return False
    a, b = src + ' '.join(toks) + '\n.db 7\n' + ' '.join(toks), '\n'.join(out + ['.db 7'] + out)
    ra, rb = run(M.make_cpu(), a), run(M.make_cpu(), b)
    if ra.ok != rb.ok or ra.ok and ra.image != rb.image:
        fail('macro program\n%s\ngives %r, its expansion\n%s\ngives %r' % (a, ra, b, rb))
    return rb.ok and len(case['through']) > 0


@REG.enum(lambda tier: [[k, n] for k in ('body', 'macros', 'depth', 'calls', 'params') for n in ((40, 130, 300, 1300, 5000) if tier == 'quick' else (64, 128, 256, 512, 1024, 1025, 4097, 9000)) if n < {'depth': 60, 'params': 2000}.get(k, 9999)])
def large_scale(case):
    """a long body, many macros, a deep chain of calls, many calls, many parameters"""
    k, n = case
    le = lambda v: (v & 0xffff).to_bytes(2, 'little')
    if k == 'body':
        src = '.macro long a b\n' + ''.join('.macro_word %s\n' % 'ab'[i % 3 % 2] for i in range(n)) + '.endmacro\nlong 700 lab\nlong 5 6\nlab:\n'
        src = src.replace('.macro_word', 'LD16')
        one = lambda a, b: b''.join(b'\x20' + (a, b)[i % 3 % 2] for i in range(n))
        want = one(le(700), le(6 * n)) + one(le(5), le(6))
    elif k == 'macros':
        src = ''.join('.macro name_%d v\nLD16 v\nLD16 %d\n.endmacro\n' % (i, i) for i in range(n)) + ''.join('name_%d %d\n' % (i, 3 * i) for i in range(0, n, 7)) + 'name_%d 1\nname_0 2' % (n - 1)
        want = b''.join(b'\x20' + le(v) + b'\x20' + le(i) for i, v in [(i, 3 * i) for i in range(0, n, 7)] + [(n - 1, 1), (0, 2)])
    elif k == 'depth':
        src = '.macro lev_0 v w\nLD16 v\nLD16 w\n.endmacro\n' + ''.join('.macro lev_%d w v\nlev_%d v w\n.endmacro\n' % (i, i - 1) for i in range(1, n)) + 'lev_%d 7 lab\nlab:' % (n - 1)
        a, b = (le(7), le(6)) if n % 2 else (le(6), le(7))
        want = b'\x20' + a + b'\x20' + b
    elif k == 'calls':
        src = '.macro one v\nLD16 v\n.endmacro\n' + ''.join('one %d\n' % i for i in range(n))
        want = b''.join(b'\x20' + le(i) for i in range(n))
    else:
        src = '.macro wide %s\n%s.endmacro\nwide %s\n' % (' '.join('p%d' % i for i in range(n)), ''.join('LD16 p%d\n' % i for i in reversed(range(n))), ' '.join(str(3 * i) for i in range(n)))
        want = b''.join(b'\x20' + le(3 * i) for i in reversed(range(n)))
    expect_image(run(M.make_cpu(), src), want, '%d: %s' % (n, k))
    return True


TAKEN = {'6502': ['NOP', 'LDA', 'INX', 'BRK', 'JMP'], 'lr35902': ['NOP', 'LD', 'RET', 'DI', 'CALL'], 'z80': ['NOP', 'LD', 'RET', 'EXX', 'DJNZ'], '8086': ['NOP', 'MOV', 'RET', 'CLC', 'INT'], '68000': ['NOP', 'MOVE.B', 'RTS', 'BRA.B', 'RTE'],
         'mips32': ['addu', 'jr', 'lw'], 'thumb': ['MOV', 'ADD', 'LSL', 'B'], 'ppc': ['b', 'blr', 'add'], 'x86': ['NOP', 'MOV', 'RET', 'CLC', 'INT']}


@REG.enum(lambda tier: [[c, m, p, case] for c in sorted(TAKEN) for m in TAKEN[c] for p in (0, 1, 3) for case in range(3)])
def called_like_an_instruction(case):
    """a macro may have the name of an instruction, which it then stands for"""
    from harness.corpus import CORPUS
    c, name, p, k = case
    body = [' '.join(s) for s in CORPUS[c] if s[0].upper() not in [n.upper() for n in TAKEN[c]]][:6][k * 2:k * 2 + 2]
    params = ['pa', 'pb', 'pc'][:p]
    sensitive = cpu(c).case_sensitive
    written = [name, name if sensitive else name.lower(), name if sensitive else name.title()]
    head = '.org 256\n'
    text = head + '.macro %s\n%s\n.endmacro\n' % (' '.join([written[k]] + params), '\n'.join(body))
    text += '%s\n' % ' '.join([written[k - 1]] + ['1', '2', '3'][:p]) + '.repeat 2\n%s\n.endrepeat\n' % ' '.join([written[k - 2]] + ['lab', '2', '3'][:p]) + 'lab: .db 1\n'
    return F.compare(c, text, head + ('\n'.join(body) + '\n') * 3 + 'lab: .db 1\n', 'a macro called %s' % name) > 0
