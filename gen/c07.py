"""C07: expressions, against InkExpr.tla."""
import random, re
from vlib import *

ECFG = """SPECIFICATION Spec
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
"""
# ------------------------------------------------------------------ the store
DEFS = [('L', [('a', 1, 1), ('b', 5, 0), ('c', 6, 0)]),            # item, value, initially in the list
        ('M', [('x', 5, 0), ('y', 6, 1), ('a', 7, 0), ('z', 0, 1)]),
        ('E', [('p', 1, 0), ('q', 1, 1), ('r', 2, 1)]),            # equal values
        ('N', [('k', 3, 0), ('l', 4, 0)])]                          # empty to begin with
DEFN = {n: {i: v for i, v, _ in it} for n, it in DEFS}
DEFJ = [{'name': n, 'items': [{'n': i, 'v': v} for i, v, _ in it]} for n, it in DEFS]


def item(o, n):
    return [o, n, DEFN[o][n]]


def lit(t, v, o=()):
    if t == 'f':
        n, e = v, o
        return {'k': 'lit', 'v': {'t': 'f', 'n': n, 'e': e}, 'ty': 'f'}
    if t == 'l':
        return {'k': 'lit', 'v': {'t': 'l', 'v': [item(*x.split('.')) for x in v], 'o': list(o)}, 'ty': 'l'}
    return {'k': 'lit', 'v': {'t': t, 'v': v}, 'ty': t}


def var(n, t):
    return {'k': 'var', 'n': n, 'ty': t}


VARS = {   # name -> (type, source of the initial value, value)
    'vi': ('i', '6', lit('i', 6)), 'vn': ('i', '-3', lit('i', -3)), 'vz': ('i', '0', lit('i', 0)), 'vm': ('i', '-2147483647', lit('i', -2147483647)),
    'vx': ('i', '2147483647', lit('i', 2147483647)),
    'vf': ('f', '2.5', lit('f', 5, 1)), 'vg': ('f', '-0.25', lit('f', -1, 2)), 'vh': ('f', '3.0', lit('f', 3, 0)),
    'vt': ('b', 'true', lit('b', True)), 'vu': ('b', 'false', lit('b', False)),
    'vs': ('s', '"ab"', lit('s', 'ab')), 've': ('s', '""', lit('s', '')), 'v5': ('s', '"5"', lit('s', '5')),
    'w': ('l', '(L.a, M.x)', lit('l', ['L.a', 'M.x'])), 'w0': ('l', '()', lit('l', [])), 'wb': ('l', '(b, c)', lit('l', ['L.b', 'L.c'])),
    'we': ('l', '(E.p, E.r)', lit('l', ['E.p', 'E.r'])),
}
LVARS = {n: lit('l', [f'{n}.{i}' for i, _, s in it if s], [n]) for n, it in DEFS}

HEAD = ''.join(f"LIST {n} = {', '.join((f'({i}={v})' if s else f'{i}={v}') for i, v, s in it)}\n" for n, it in DEFS) + \
    ''.join(f'VAR {n} = {s}\n' for n, (_, s, _) in VARS.items())
STORE = {n: v['v'] for n, (_, _, v) in VARS.items()} | {n: v['v'] for n, v in LVARS.items()}
STORE = {n: STORE[n] for n in STORE}
# a variable initialised with a list knows no other lists than its items'
VTYPE = {n: t for n, (t, _, _) in VARS.items()} | {n: 'l' for n in LVARS}
ATOMS = [lit('i', x) for x in (0, 1, 2, -1, 3, 7, -7, 12, 46341, 65536, 2147483647, -2147483647)] + \
    [lit('f', *x) for x in ((0, 0), (1, 1), (3, 1), (-9, 2), (3, 0), (403, 2), (-2, 0))] + \
    [lit('b', True), lit('b', False)] + [lit('s', x) for x in ('', 'a', 'ab', 'b', '5', 'true', 'a b')] + \
    [lit('l', x) for x in ([], ['L.a'], ['L.b', 'M.x'], ['M.y', 'L.c', 'L.a'], ['E.p', 'E.q'], ['L.a', 'M.a'], ['N.k'])] + \
    [lit('l', [], ['L']), lit('l', [], ['E'])] + [var(n, t) for n, t in VTYPE.items()]
OPS = ['+', '-', '*', '/', '%', '==', '!=', '<', '>', '<=', '>=', '&&', '||', '?', '!?', '^']
CALLS2 = ['MIN', 'MAX', 'POW']
UN = ['neg', '!', 'FLOOR', 'CEILING', 'INT', 'FLOAT', 'LIST_COUNT', 'LIST_MIN', 'LIST_MAX', 'LIST_ALL', 'LIST_INVERT', 'LIST_VALUE']
UNIQ = {}
for n_, it_ in DEFS:
    for i_, _, _ in it_:
        UNIQ[i_] = None if i_ in UNIQ else n_


def f2s(n, e):
    from decimal import Decimal
    s = format(Decimal(n) / Decimal(2 ** e), 'f')
    return s if '.' in s else s + '.0'


def src(e, r, top=False):
    """Ink text of an expression; r picks among the spellings"""
    k = e['k']
    sp = r.choice(('', ' ', ' '))
    if k == 'lit':
        v = e['v']
        t = v['t']
        if t == 'i':
            return str(v['v'])
        if t == 'f':
            return f2s(v['n'], v['e'])
        if t == 'b':
            return 'true' if v['v'] else 'false'
        if t == 's':
            return f'"{v["v"]}"'
        if v['o'] and not v['v']:
            return v['o'][0] + '()'
        names = [(i if UNIQ.get(i) == o and r.random() < .5 else f'{o}.{i}') for o, i, _ in v['v']]
        r.shuffle(names)
        if len(names) == 1 and r.random() < .4:
            return names[0]
        return '(' + (',' + sp).join(names) + ')'
    if k == 'var':
        return e['n']
    if k == 'bin':
        op = e['op']
        if op in CALLS2:
            return f"{op}({src(e['a'], r)},{sp}{src(e['b'], r)})"
        return par(e['a'], r) + spell(op, r) + par(e['b'], r)
    if k == 'un':
        op = e['op']
        if op == 'neg':
            return '-' + par(e['a'], r)
        if op == '!':
            return r.choice(('!', 'not ')) + par(e['a'], r)
        return f"{op}({src(e['a'], r)})"
    if k == 'range':
        return f"LIST_RANGE({src(e['a'], r)},{sp}{src(e['b'], r)},{sp}{src(e['c'], r)})"
    if k == 'int':
        return f"{e['n']}({src(e['a'], r)})"
    if k == 'rnd':
        return f"LIST_RANDOM({src(e['a'], r)})"
    if k == 'cat':
        return '"' + ''.join(x['v']['v'] if x['k'] == 'lit' and x['ty'] == 's' else '{' + inbraces(src(x, r)) + '}' for x in e['ps']) + '"'
    if k == 'flat':
        o = par(e['xs'][0], r)
        for op, x in zip(e['ops'], e['xs'][1:]):
            o += spell(op, r) + par(x, r)
        return o
    raise Exception(k)


WORDS = {'&&': 'and', '||': 'or', '?': 'has', '!?': 'hasnt', '%': 'mod'}


def spell(op, r):
    if op in WORDS and r.random() < .4:
        return f' {WORDS[op]} '
    return f' {op} ' if r.random() < .8 or op in '-?' else op


def par(e, r):
    if e['k'] in ('bin', 'flat') and e.get('op') not in CALLS2:
        return '(' + src(e, r) + ')'
    if e['k'] == 'un' and e['op'] in ('neg', '!') and r.random() < .5:
        return '(' + src(e, r) + ')'
    s = src(e, r)
    return f'({s})' if s.startswith('-') and r.random() < .7 else s


def typ(op, a, b):
    """type of a binary operation, or None if it is not well typed"""
    if op in ('&&', '||'):
        if 's' in (a, b):
            return 'b' if 'l' in (a, b) else None
        return 'b'
    if 'l' in (a, b):
        if a == b == 'l':
            return {'+': 'l', '-': 'l', '^': 'l'}.get(op) or ('b' if op in ('==', '!=', '<', '>', '<=', '>=', '?', '!?') else None)
        return 'l' if op in '+-' and a == 'l' and b == 'i' else None
    if 's' in (a, b):
        return {'+': 's'}.get(op) or ('b' if op in ('==', '!=', '?', '!?') else None)
    if op in ('?', '!?', '^'):
        return None
    if op in ('==', '!=', '<', '>', '<=', '>='):
        return 'b'
    return 'f' if op == 'POW' or 'f' in (a, b) else 'i'


def utyp(op, a):
    if op.startswith('LIST'):
        return None if a != 'l' else 'i' if op in ('LIST_COUNT', 'LIST_VALUE') else 'l'
    if op == '!':
        return {'s': None, 'l': 'i'}.get(a, 'b')
    if a in 'sl':
        return None
    return {'FLOAT': 'f', 'INT': 'i'}.get(op) or ('i' if a == 'b' else a)


def tree(r, t, d):
    """a well-typed tree of type t"""
    if d == 0 or r.random() < .12:
        return r.choice([a for a in ATOMS if a['ty'] == t])
    c = []
    for op in OPS + CALLS2:
        for a in 'ifbsl':
            for b in 'ifbsl':
                if typ(op, a, b) == t:
                    c.append((op, a, b))
    k = r.random()
    if t == 'l' and k < .12:
        return {'k': 'range', 'a': tree(r, 'l', d - 1), 'b': tree(r, r.choice('iil'), d - 1), 'c': tree(r, r.choice('iil'), d - 1), 'ty': 'l'}
    if t == 'l' and k < .2:
        return {'k': 'int', 'n': r.choice(DEFS)[0], 'a': tree(r, 'i', d - 1), 'ty': 'l'}
    if t == 'l' and k < .23:
        return {'k': 'rnd', 'a': tree(r, 'l', d - 1), 'ty': 'l'}
    if t == 's' and k < .3:
        return {'k': 'cat', 'ps': [lit('s', r.choice(('x', 'u', ''))), tree(r, r.choice('ifbsl'), d - 1), lit('s', r.choice(('', ' t')))], 'ty': 's'}
    us = [(o, a) for o in UN for a in 'ifbsl' if utyp(o, a) == t]
    if us and k > .75:
        o, a = r.choice(us)
        return {'k': 'un', 'op': o, 'a': tree(r, a, d - 1), 'ty': t}
    # every operator equally often
    op = r.choice(sorted({x[0] for x in c}))
    _, a, b = r.choice([x for x in c if x[0] == op])
    return {'k': 'bin', 'op': op, 'a': tree(r, a, d - 1), 'b': tree(r, b, d - 1), 'ty': t}


def flat(r):
    """operands and operators in a row"""
    n = r.randrange(2, 6)
    kind = r.choice('nnnls')
    if kind == 'n':
        xs = [r.choice([a for a in ATOMS if a['ty'] in 'iibf' and (a['k'] == 'var' or a['v']['t'] != 'i' or abs(a['v']['v']) < 20)]) for _ in range(n)]
        ops = [r.choice(('+', '-', '*', '/', '%', '==', '!=', '<', '>', '<=', '>=', '&&', '||')) for _ in range(n - 1)]
    elif kind == 'l':
        xs = [r.choice([a for a in ATOMS if a['ty'] == 'l']) for _ in range(n)]
        ops = [r.choice(('+', '-', '^', '^', '?', '!?', '==', '!=', '<', '>', '>=', '<=', '&&', '||')) for _ in range(n - 1)]
    else:
        xs = [r.choice([a for a in ATOMS if a['ty'] in 'si']) for _ in range(n)]
        ops = [r.choice(('+', '+', '?', '!?', '==', '!=')) for _ in range(n - 1)]
    return {'k': 'flat', 'xs': xs, 'ops': ops}


def strip(e):
    """the JSON TLC sees"""
    if isinstance(e, dict):
        return {k: strip(v) for k, v in e.items() if k != 'ty'}
    if isinstance(e, list):
        return [strip(x) for x in e]
    return e


def zero(s):
    return re.sub(r'(?<![\d.])-0(?![\d.])', '0', s)


# ------------------------------------------------------------------ single expressions
def evaluate(rep, exprs, binary, label, per=200):
    """each expression as the value of a function, from the initial store"""
    r = random.Random(f'{SEED}/c07/{label}')
    texts = [src(e, r) for e in exprs]
    jobs, groups = [], [list(range(i, min(i + per, len(exprs)))) for i in range(0, len(exprs), per)]

    def job(g):
        return {'src': HEAD + 'Text.\n-> END\n' + ''.join(f'=== function e{i}() ===\n~ return {texts[i]}\n' for i in g), 'full': True,
                'ops': [o for i in g for o in ({'op': 'reset', 'q': True}, {'op': 'eval', 'fn': f'e{i}', 'q': True})]}
    got = [None] * len(exprs)
    todo = groups
    while todo:
        res = run_jobs(binary, [job(g) for g in todo], timeout=60)
        again = []
        for g, x in zip(todo, res):
            if x['r'] in ('ok', 'dead') and len(x.get('ops', [])) == 2 * len(g):
                for n, i in enumerate(g):
                    o = x['ops'][2 * n + 1]
                    got[i] = zero(o['v']['v']) if o['r'] == 'ok' else '!' if o['r'] == 'err' else None
                    if got[i] is None:
                        rep.violate(f'{label}:{texts[i]}', {'expression': texts[i], 'head': HEAD, 'result': o}, f"{texts[i]}: {o['r']} {o.get('msg')} {o.get('at')}")
            elif len(g) == 1:
                rep.violate(f'{label}:{texts[g[0]]}', {'expression': texts[g[0]], 'head': HEAD, 'result': str(x)[:500]}, f"{texts[g[0]]}: {str(x)[:200]}")
            else:
                h = max(1, len(g) // 8)
                again += [g[i:i + h] for i in range(0, len(g), h)]
        todo = again
    ids = [i for i in range(len(exprs)) if got[i] is not None]
    docs, B = [], 400
    for i in range(0, len(ids), B):
        docs.append({'defs': DEFJ, 'vars': STORE, 'stmts': [{'k': 'ret', 'e': strip(exprs[j]), 'got': got[j]} for j in ids[i:i + B]]})
    t, ds, us = tlc_docs(docs, label)
    for d in ds:
        j = ids[(d['p'] - 1) * B + d['i'] - 1]
        rep.violate(f'{label}:{texts[j]}', {'expression': texts[j], 'head': HEAD, 'got': got[j], 'expected': d['want'], 'tree': strip(exprs[j])},
                    f"{texts[j]} is {got[j]}, expected {d['want']}")
    errs = sum(got[j] == '!' for j in ids)
    log(label, 'expressions', len(ids), 'errors', errs, 'left open', len(us), 'wrong', len(ds), f'tlc {t.secs:.0f}s')
    samples = [{'expression': texts[j], 'value': got[j]} for j in ids[::max(1, len(ids) // 2)]][:2]
    return dict(states=t.distinct, transitions=t.generated, traces_validated_against_impl=len(ids) - len(ds), expressions=len(ids), left_open=len(us)), samples


def tlc_docs(docs, label):
    fn = os.path.join(BUILD, f'expr-{label}-{os.getpid()}.json')
    json.dump(docs, open(fn, 'w'))
    t = tlc('InkExpr', ECFG, env={'EXPR_DOCS': fn}, timeout=900, tag='expr-' + label)
    os.remove(fn)
    tlc_must(t, 'InkExpr ' + label)
    ps = sorted(set(t.prints))
    return t, [json.loads(l[2:]) for l in ps if l.startswith('D ')], [json.loads(l[2:]) for l in ps if l.startswith('U ')]


# ------------------------------------------------------------------ statements
def statements(rep, n, length, binary, label):
    progs = []
    for k in range(n):
        r = random.Random(f'{SEED}/c07s/{label}/{k}')
        lines, st = [], []
        for i in range(length):
            c = r.random()
            v = r.choice(sorted(VTYPE))
            ty = VTYPE[v]
            if c < .35:
                # assignments keep the type (as the generator's trees rely on it)
                e = tree(r, ty, r.choice((1, 1, 2)))
                lines.append(f'~ {v} = {src(e, r)}')
                st.append({'k': 'set', 'n': v, 'e': e})
            elif c < .5:
                sg = r.choice('+-')
                u = r.choice([x for x in 'ifbsl' if typ(sg, ty, x) == ty] or ['-'])
                if u == '-':
                    continue
                e = tree(r, u, 1)
                if e['k'] == 'lit' and e['v'].get('v') == 1 and u == 'i' and r.random() < .5:
                    lines.append(f'~ {v}{sg}{sg}')
                else:
                    lines.append(f'~ {v} {sg}= {src(e, r)}')
                st.append({'k': 'inc', 'n': v, 'e': e, 'sg': sg})
            elif c < .85:
                e = tree(r, r.choice('ifbsl'), 2)
                t = src(e, r)
                t = inbraces(t)
                lines.append(f'R{i}[{{{t}}}]')
                st.append({'k': 'show', 'e': e, 'line': i})
            else:
                e = tree(r, r.choice('ifbl'), 2)
                lines.append(f'R{i}[{{{inbraces(src(e, r))}:yes|no}}]')
                st.append({'k': 'if', 'e': e, 'line': i})
        progs.append((f'{label}/{k}', HEAD + '\n'.join(lines) + '\nEnd.\n-> END\n', st))
    names = sorted(VTYPE)
    jobs = [{'src': s, 'full': True, 'watch': {'vars': names, 'visits': []}, 'ops': [{'op': 'cont'}] * (length + 2)} for _, s, _ in progs]
    res = run_jobs(binary, jobs, timeout=60)
    docs, back = [], []
    for (name, s, st), x in zip(progs, res):
        if 'ops' not in x:
            rep.violate(f'{label}:{name}', {'source': s, 'result': str(x)[:500]}, f'{name}: {str(x)[:200]}')
            continue
        shown, stop, why = {}, None, None
        last = None
        for o in x['ops']:
            if o['r'] in ('panic', 'fuel'):
                rep.violate(f'{label}:{name}', {'source': s, 'result': o}, f"{name}: {o['r']} {o.get('msg')} {o.get('at')}")
                stop = 'panic'
                break
            if o['r'] == 'err':
                if o['o'] and not last_end(last):
                    stop, why = 'err', o.get('v')
                break
            m = re.match(r'R(\d+)\[(.*)\]\n?$', o['v'] if isinstance(o.get('v'), str) else '', re.S)
            last = o
            if m:
                shown[int(m.group(1))] = (zero(m.group(2)), {k: zero(v) for k, v in o['o']['vars'].items()})
        if stop == 'panic':
            continue
        out, n = [], 0
        # what a variable holds after an assignment is seen on the next line shown
        for q in st:
            q = dict(q)
            line = q.pop('line', None)
            if line is None:
                q['got'], q['st'] = '', {}
            elif line in shown:
                q['got'], q['st'] = shown[line]
            else:
                q['got'], q['st'] = '!', {}
            out.append(strip(q))
        if stop == 'err':
            # the statement that failed comes after the last line shown; a line is shown only
            # after what follows it, up to the next, has run too
            idx = [i for i, q in enumerate(out) if q['k'] in ('show', 'if')]
            lastshown = max([i for i in idx if out[i]['got'] != '!'] + [-1])
            tail = [i for i in idx if i > lastshown]
            out = out[:lastshown + 1] + [dict(q, may=1) for q in out[lastshown + 1:(tail[1] + 1 if len(tail) > 1 else len(out))]]
            docs.append({'defs': DEFJ, 'vars': STORE, 'stmts': out})
        else:
            docs.append({'defs': DEFJ, 'vars': STORE, 'stmts': out})
        back.append((name, s, st, x, why))
    t, ds, us = tlc_docs(docs, label)
    for d in ds:
        name, s, st, x, why = back[d['p'] - 1]
        q = docs[d['p'] - 1]['stmts'][d['i'] - 1]
        rep.violate(f'{label}:{name}', {'source': s, 'statement': q, 'expected': d['want'], 'error': why, 'lines': s.split('\n')[len(HEAD.split('\n')) - 1:][d['i'] - 1:d['i']]},
                    f"{name} statement {d['i']}: {s.split(chr(10))[len(HEAD.split(chr(10))) - 1:][d['i'] - 1]}: got {q['got']!r} {why or ''}, expected {d['want']}")
    log(label, 'programs', len(docs), 'statements', sum(len(d['stmts']) for d in docs), 'left open', len(us), 'wrong', len(ds), f'tlc {t.secs:.0f}s')
    return dict(states=t.distinct, transitions=t.generated, traces_validated_against_impl=len(docs) - len(ds), programs=len(docs), statements=sum(len(d['stmts']) for d in docs), left_open=len(us)), [{'program': progs[0][1][-600:]}]


def inbraces(t):
    """an expression that stands alone in braces"""
    return f'({t})' if re.search(r'\||^not |:|"[^"]*\{', t) or t[:1] in '!&~->' else t


def last_end(o):
    return o is not None and not o['o']['can']


# ------------------------------------------------------------------ families
def bin_(op, a, b):
    return {'k': 'bin', 'op': op, 'a': a, 'b': b}


def un_(op, a):
    return {'k': 'un', 'op': op, 'a': a}


def level1(r):
    """every operator over every pair of atoms, well typed or not"""
    out = [bin_(op, a, b) for op in OPS + CALLS2 for a in ATOMS for b in ATOMS]
    if not THOROUGH:   # every operator with every pair of literals; variables with a sample
        out = [e for e in out if r.random() < (.35 if e['a']['k'] == e['b']['k'] == 'lit' else .1)]
    return out


def level0(r):
    out = list(ATOMS) + [un_(op, a) for op in UN for a in ATOMS] + [un_(o, un_(p, a)) for o in UN for p in UN for a in ATOMS if a['k'] == 'var']
    ls = [a for a in ATOMS if a['ty'] == 'l']
    bs = [lit('i', x) for x in (-2, 0, 1, 2, 5, 6, 99)] + ls
    out += [{'k': 'range', 'a': a, 'b': b, 'c': c} for a in ls for b in bs for c in bs if THOROUGH or r.random() < .25]
    out += [{'k': 'range', 'a': r.choice(ATOMS), 'b': r.choice(ATOMS), 'c': r.choice(ATOMS)} for _ in range(100)]
    out += [{'k': 'int', 'n': n, 'a': lit('i', x)} for n, _ in DEFS for x in range(-2, 9)] + [{'k': 'int', 'n': n, 'a': a} for n, _ in DEFS for a in ATOMS if a['ty'] in 'ifb']
    out += [{'k': 'rnd', 'a': a} for a in ATOMS]
    out += [{'k': 'cat', 'ps': [lit('s', 'x'), a, lit('s', ' y')]} for a in ATOMS if a['ty'] != 's' or a['k'] == 'var']
    return out


def built(r, n):
    """a list built one item at a time, in random order, then used"""
    items = [f'{o}.{i}' for o, it in DEFS for i, _, _ in it]
    out = []
    for _ in range(n):
        e = r.choice((lit('l', []), lit('l', [], ['L']), var('M', 'l'), var('N', 'l'), var('w', 'l')))
        for x in r.sample(items, r.randrange(1, 6)):
            e = bin_(r.choice('++++-'), e, lit('l', [x]))
        k = r.random()
        if k < .3:
            e = un_(r.choice([u for u in UN if u.startswith('LIST')]), e)
        elif k < .6:
            e = bin_(r.choice(('==', '!=', '<', '>', '<=', '>=', '?', '!?', '^', '-')), e, lit('l', r.sample(items, r.randrange(0, 4))))
        elif k < .7:
            e = {'k': 'range', 'a': e, 'b': lit('i', r.randrange(-1, 7)), 'c': lit('i', r.randrange(1, 8))}
        elif k < .8:
            e = bin_(r.choice('+-'), e, lit('i', r.randrange(-1, 4)))
        out.append(e)
    return out


def check():
    rep = Report('C07', 'model_checking')
    binary = build('debug')
    log('built')
    k = 12 if THOROUGH else 1
    tot, samples = {}, []

    def add(x):
        c, s = x
        for n, v in c.items():
            tot[n] = tot.get(n, 0) + v
        samples.extend(s[:1])
    r = random.Random(f'{SEED}/c07')
    add(evaluate(rep, level0(r), binary, 'one'))
    add(evaluate(rep, level1(r), binary, 'two'))
    add(evaluate(rep, [tree(r, r.choice('ifbsl'), r.choice((2, 2, 3, 4))) for _ in range(5000 * k)], binary, 'trees'))
    add(evaluate(rep, [flat(r) for _ in range(4000 * k)], binary, 'flat'))
    add(evaluate(rep, built(r, 3000 * k), binary, 'built'))
    add(statements(rep, 400 * k, 14, binary, 'stmts'))
    rep.finish(samples=samples, **tot)


if __name__ == '__main__':
    main(check)
