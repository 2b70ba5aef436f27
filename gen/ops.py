"""the operator table of InkOps.tla evaluated by the real engine"""
from host import *

INTS = [0, 1, -1, 2, 3, -7, 10, 31, 255, 46340, 46341, -46341, 65535, 65536, -65536, 16777216, 1000000007, 2147483646, 2147483647, -2147483647, -2147483648]
FLOATS = [(1, 1), (-5, 1), (3, 0), (0, 0), (1, 3), (-7, 0), (65535, 2)]
STRS = ['', 'a', '3', 'ba', 'true']
DEFS = [('L', [('la', 1), ('lb', 2), ('lc', 5)]), ('M', [('ma', 1), ('mb', 7)])]
LISTS = [[], ['L.la'], ['L.lc'], ['M.mb'], ['L.la', 'L.lb'], ['L.la', 'M.ma'], ['L.lb', 'L.lc', 'M.mb']]
BIN = {'+': '+', '-': '-', '*': '*', '/': '/', '%': '%', '==': '==', '!=': '!=', '<': '<', '>': '>', '<=': '<=', '>=': '>=', '&&': '&&', '||': '||',
       '?': '?', '!?': '!?', '^': '^', 'MIN': None, 'MAX': None, 'POW': None}
UN = ['neg', '!', 'FLOOR', 'CEILING', 'INT', 'FLOAT', 'LIST_COUNT', 'LIST_MIN', 'LIST_MAX', 'LIST_ALL', 'LIST_INVERT', 'LIST_VALUE']


def story():
    """-> source, values for the specification, their names"""
    vals, decl = [], []
    num = {f'{l}.{i}': (l, i, v) for l, its in DEFS for i, v in its}
    for n in INTS:
        vals.append({'t': 'i', 'v': n})
        decl.append(str(n) if n > -2**31 else '(-2147483647)')
    for n, e in FLOATS:
        vals.append({'t': 'f', 'n': n, 'e': e})
        decl.append(inkgen.fstr(n, e))
    for b in (True, False):
        vals.append({'t': 'b', 'v': b})
        decl.append(str(b).lower())
    for s in STRS:
        vals.append({'t': 's', 'v': s})
        decl.append(f'"{s}"')
    for l in LISTS:
        vals.append({'t': 'l', 'v': [num[x] for x in l], 'o': []})
        decl.append('(' + ', '.join(l) + ')')
    vals.append({'t': 'd', 'v': 'k'})
    decl.append('-> k')
    vals.append({'t': 'd', 'v': 'fun'})
    decl.append('-> fun')
    src = ''.join(f'LIST {l} = ' + ', '.join(f'{i} = {v}' for i, v in its) + '\n' for l, its in DEFS)
    src += ''.join(f'VAR x{i} = {d}\n' for i, d in enumerate(decl)) + 'Start {x0}.\n-> k\n=== k ===\nDone.\n-> END\n=== function fun ===\n~ return 1\n'
    for i, (o, s) in enumerate(BIN.items()):
        src += f'=== function b{i}(a, p, b, q) ===\n~ a = pick(a, p)\n~ b = pick(b, q)\n~ return ' + (f'(a {s} b)' if s else f'{o}(a, b)') + '\n'
    for i, o in enumerate(UN):
        src += f'=== function u{i}(a, p) ===\n~ a = pick(a, p)\n~ return ' + ('-a' if o == 'neg' else '(not a)' if o == '!' else f'{o}(a)') + '\n'
    # a host cannot pass divert targets: these are picked by number
    src += '=== function pick(a, p) ===\n' + ''.join(f'{{p == {i}:\n  ~ return x{i}\n}}\n' for i, v in enumerate(vals) if v['t'] == 'd') + '~ return a\n'
    return src, vals, [f'x{i}' for i in range(len(vals))]


def table(rep, binaries):
    """binaries: {name: path}; -> (evaluations, TlcResult)"""
    src, vals, names = story()
    fn = os.path.join(BUILD, f'ops-{os.getpid()}.json')
    json.dump({'defs': [{'name': l, 'items': [{'n': i, 'v': v} for i, v in its]} for l, its in DEFS], 'vals': vals, 'bin': list(BIN), 'un': UN}, open(fn, 'w'))
    t = tlc('InkOps', 'SPECIFICATION Spec\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n', env={'OPS_DOC': fn}, tag='ops', timeout=600)
    os.remove(fn)
    tlc_must(t, 'InkOps')
    exp = {}
    for l in t.prints:
        if l[:2] == 'O ':
            d = json.loads(l[2:])
            for b, r in enumerate(d['r']):
                exp[d['o'], d['a'] - 1, b] = r
        elif l[:2] == 'U ':
            d = json.loads(l[2:])
            exp[d['o'], d['a'] - 1, None] = d['r']
    fns = {o: f'b{i}' for i, o in enumerate(BIN)}
    fns.update({('u', o): f'u{i}' for i, o in enumerate(UN)})

    def arg(k):   # the smallest integer cannot be written in a story
        t = vals[k]['t']
        return ['i:0', f'i:{k}'] if t == 'd' else [f"i:{vals[k]['v']}" if t == 'i' else 'g:' + names[k], 'i:0']
    keys = sorted(exp, key=str)
    chunks = [keys[i:i + 150] for i in range(0, len(keys), 150)]
    jobs = []
    for c in chunks:
        ops = []
        for o, a, b in c:
            ops.append({'op': 'eval', 'fn': fns[('u', o) if b is None else o], 'args': arg(a) + ([] if b is None else arg(b)), 'q': True})
            ops.append({'op': 'reset', 'iferr': True, 'q': True})
        jobs.append({'src': src, 'ops': ops})
    n = 0
    seen = {}
    for who, binary in binaries.items():
        for c, r in zip(chunks, run_jobs(binary, jobs, timeout=60)):
            ops = r.get('ops') or []
            for i, (o, a, b) in enumerate(c):
                x = ops[2 * i] if len(ops) > 2 * i else {'r': r['r'], 'v': str(r)[:300]}
                n += 1
                e = exp[o, a, b]
                what = f"{o} of {vals[a]}" + ('' if b is None else f' and {vals[b]}')
                got = x['r'] if x['r'] != 'ok' else x['v']['v'] if x.get('v') else None
                got = 'f:0' if got == 'f:-0' else got   # the sign of zero is left open
                data = {'operator': o, 'a': vals[a], 'b': None if b is None else vals[b], 'expected': e, 'got': x, 'build': who}
                if x['r'] not in ('ok', 'err'):
                    rep.violate(f'ops:{o}:{a}:{b}', data, f'{what} in the {who} build: {x}')
                    break
                if (e == 'e') != (x['r'] == 'err') if e not in ('u', 'o') else False:
                    rep.violate(f'ops:{o}:{a}:{b}', data, f'{what} in the {who} build: {got}, expected {"an error" if e == "e" else e}')
                elif e not in ('e', 'u', 'o') and got != e:
                    rep.violate(f'ops:{o}:{a}:{b}', data, f'{what} in the {who} build: {got}, expected {e}')
                if seen.setdefault((o, a, b), got) != got:
                    rep.violate(f'ops-builds:{o}:{a}:{b}', data, f'{what}: {got} in the {who} build, {seen[o, a, b]} in another')
    return n, t
