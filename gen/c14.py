"""C14: the two loaders. JsonLex.tla gives every spelling of strings and numbers and its
meaning; InkProduct.tla compares the plays of stories loaded by either of them."""
import copy, struct
from decimal import Decimal
from product import *
from fractions import Fraction

LCFG = 'SPECIFICATION Spec\nINVARIANT RoundTrip\nINVARIANT Refused\nCONSTANTS Mode = "%s" MaxLen = %d Wrong = %s\nCHECK_DEADLOCK FALSE\n'


def lexed(mode, n, wrong):
    t = tlc('JsonLex', LCFG % (mode, n, 'TRUE' if wrong else 'FALSE'), timeout=800, tag=f'lex-{mode}')
    tlc_must(t, 'JsonLex ' + mode)
    return [json.loads(l[2:]) for l in t.prints if l.startswith('J ')], t


def story(globals_, lists='{}'):
    return ('{"inkVersion":21,"root":[["^Text.","\\n",["done",{"#n":"g-0"}],null],"done",{"global decl":["ev",'
            + ''.join(f'{v},{{"VAR=":"v{i}"}},' for i, v in enumerate(globals_)) + '"/ev","end",null]}],"listDefs":' + lists + '}')


def text(cps):
    return ''.join(map(chr, cps))


def gets(n):
    return [{'op': 'get', 'n': f'v{i}'} for i in range(n)]


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


def number_value(v):
    """the value ReadNumber gives the parts: ('i', n), ('f', x) or None when this text has no 32 bit value"""
    whole = int(text(v['int']))
    if v['whole']:
        if v['neg'] and whole == 0:
            return None
        n = -whole if v['neg'] else whole
        return ('i', n) if -2**31 <= n < 2**31 else None
    e = int(text(v['exp']) or '0') * (-1 if v['nexp'] else 1)
    x = Fraction(int(text(v['int']) + text(v['frac']))) * Fraction(10) ** (e - len(v['frac']))
    try:
        x = float(-x if v['neg'] else x)
        return ('f', f32(x))
    except OverflowError:
        return None


def shown(op):
    return op.get('v') if op['r'] == 'ok' else f"{op['r']}:{op.get('v')}"


def lexical(rep, bins):
    cov = {'lexical_ok': 0, 'lexical_wrong': 0}
    strs, t1 = lexed('string', 3 if THOROUGH else 2, True)
    nums, t2 = lexed('number', 1, True)
    if THOROUGH and len(strs) > 60000:
        random.Random(SEED).shuffle(strs)
        strs = strs[:60000]
    good = [s for s in strs if s['ok']]
    bad = [s for s in strs if not s['ok']]
    # values of strings, names of variables and of list items
    group, jobs, want = 150, [], []
    for i in range(0, len(good), group):
        g = good[i:i + group]
        jobs.append({'json': story(['"^' + text(s['t']) + '"' for s in g]), 'ops': gets(len(g))})
        want.append([('string', text(s['t']), 's:' + text(s['v'])) for s in g])
    keys = [s for s in good if 0 < len(s['v']) < 2]
    for s in keys:
        k = '"' + text(s['t']) + '"'
        li = '"L.' + text(s['t']) + '"'
        jobs.append({'json': story(['{"list":{' + li + ':1},"origins":["L"]}', '0'], '{"L":{' + k + ':1}}'), 'ops': gets(1)})
        want.append([('item', text(s['t']), 'l:' + text(s['v']))])
        jobs.append({'json': story([]).replace('"ev",', '"ev",4,{"VAR=":' + k + '},'), 'ops': [{'op': 'get', 'n': text(s['v'])}]})
        want.append([('name', text(s['t']), 'i:4')])
    for s in nums:
        if not s['ok']:
            continue
        jobs.append({'json': story([text(s['t'])]), 'ops': gets(1)})
        want.append([('number', text(s['t']), number_value(s['v']))])
    rs = {k: run_jobs(b, jobs) for k, b in bins.items()}
    for j, w in enumerate(want):
        outs = {}
        for k in bins:
            r = rs[k][j]
            outs[k] = [shown(o) for o in r['ops']] if r['r'] == 'ok' else [r['r']] * len(w)
        for i, (what, t, v) in enumerate(w):
            cov['lexical_ok'] += 1
            a, b = outs['default'][i], outs['stream'][i]
            if a != b:
                rep.violate(f'lex:{what}:{t!a}', {'json': jobs[j]['json'][:2000], 'text': t, 'default': a, 'stream': b}, f'{what} spelled {t!a}: default loader {a!a}, stream loader {b!a}')
            elif what == 'number':
                if v is not None:
                    ok = a == f'i:{v[1]}' if v[0] == 'i' else a.startswith('f:') and f32(float(a[2:])) == v[1]
                    if not ok:
                        rep.violate(f'lex:{what}:{t!a}', {'text': t, 'default': a, 'spec': v}, f'{what} spelled {t!a}: both loaders {a!a}, JsonLex {v}')
            elif a != v:
                rep.violate(f'lex:{what}:{t!a}', {'text': t, 'default': a, 'spec': v}, f'{what} spelled {t!a}: both loaders {a!a}, JsonLex {v!a}')
    # what the grammar refuses: the loaders agree
    jobs = [{'json': story(['"^' + text(s['t']) + '"']), 'ops': gets(1)} for s in bad] + [{'json': story([text(s['t'])]), 'ops': gets(1)} for s in nums if not s['ok']]
    rs = {k: run_jobs(b, jobs) for k, b in bins.items()}
    refused = 0
    for j, a, b in zip(jobs, rs['default'], rs['stream']):
        cov['lexical_wrong'] += 1
        x, y = [[shown(o) for o in r['ops']] if r['r'] == 'ok' else r['r'] for r in (a, b)]
        refused += x == 'new_err'
        # not a well-formed story: only crashes count (C15 judges refusal)
        for k, z in (('default', x), ('stream', y)):
            if z not in ('new_err',) and not isinstance(z, list):
                rep.violate(f'lexbad:{k}:{j["json"]!a}', {'json': j['json']}, f'{k} loader: {z} on {j["json"][:200]!a}')
    cov['lexical_wrong_refused'] = refused
    return cov, good, t1, t2


class Respell:
    """another spelling of the same JSON document"""

    def __init__(self, good, seed):
        self.t = {}
        for s in good:
            if len(s['v']) == 1:
                self.t.setdefault(s['v'][0], []).append(text(s['t']))
        self.r = random.Random(seed)
        self.p = self.r.choice((0.05, 0.3, 1))

    def ws(self):
        return self.r.choice(('', '', '', ' ', '\n', '\t', '\r\n', '  \n ')) if self.p < 1 else self.r.choice((' ', '\n', '\t', '\r'))

    def ch(self, c):
        n = ord(c)
        u = '\\u%04x' % n if n < 65536 else '\\u%04x\\u%04x' % (0xD800 + ((n - 65536) >> 10), 0xDC00 + ((n - 65536) & 1023))
        if self.r.random() < self.p:
            return self.r.choice(self.t.get(n) or [c, u, u.upper().replace('U', 'u')])
        return c if n >= 32 and c not in '"\\' else u

    def num(self, x):
        if isinstance(x, int):
            return str(x)
        d = Decimal(repr(x))
        s = format(d, 'f')
        if '.' not in s:
            s += '.0'
        k = self.r.choice((0, 1, 2, 3))
        if k == 0:
            return s + '0'
        if k == 1:
            return s + self.r.choice(('e0', 'E+0', 'e-0', 'E00'))
        e = self.r.choice((1, 2, 3))
        t = format(d.scaleb(e if k == 2 else -e), 'f')
        return t + (f'e-{e}' if k == 2 else f'E+0{e}' if self.r.random() < .5 else f'e{e}')

    def out(self, v):
        w = self.ws
        if isinstance(v, str):
            return '"' + ''.join(map(self.ch, v)) + '"'
        if v is None or isinstance(v, bool):
            return json.dumps(v)
        if isinstance(v, (int, float)):
            return self.num(v)
        if isinstance(v, list):
            return '[' + w() + (w() + ',' + w()).join(self.out(x) for x in v) + w() + ']'
        return '{' + w() + (w() + ',' + w()).join(self.out(k) + w() + ':' + w() + self.out(x) for k, x in v.items()) + w() + '}'

    def doc(self, j):
        return self.ws() + self.out(json.loads(j)) + self.ws()


def side_of(p, j, name):
    q = copy.copy(p)
    q.json, q.name, q.setup = j, p.name + name, list(p.setup)
    return q


def check():
    rep = Report('C14', 'model_checking')
    bins = {'default': build('debug'), 'stream': build('debug', 'stream')}
    log('built')
    cov, good, t1, t2 = lexical(rep, bins)
    log('lexical', cov)
    k = 6 if THOROUGH else 1
    progs = compile_all([scenario(n) for n in SCENARIOS + ['keys']] + generated('c14a', 40 * k, 3) + generated('c14b', 20 * k, 4), bins['default']) + corpus()
    progs += compile_all(corpus_sources(), bins['default'])
    orig = {p: p.json for p in progs}
    spelled = {p: Respell(good, f'{SEED}/{p.name}').doc(p.json) for p in progs}
    # the content trees
    jobs = {}
    for kind, js in (('original', orig), ('respelled', spelled)):
        for n, b in bins.items():
            jobs[kind, n] = run_jobs(b, [{'json': js[p], 'audit': {'tree': True}} for p in progs])
    trees = 0
    for i, p in enumerate(progs):
        base = jobs['original', 'default'][i]
        for (kind, n), rs in jobs.items():
            trees += 1
            if base['r'] == 'ok' and (rs[i]['r'] != 'ok' or rs[i]['tree'] != base['tree']):
                rep.violate(f'tree:{p.name}:{kind}:{n}', {'name': p.name, 'json': (orig if kind == 'original' else spelled)[p], 'result': str(rs[i])[:500] if rs[i]['r'] != 'ok' else rs[i]['tree'][:3000], 'default': base['tree'][:3000]},
                            f"{p.name}: {kind} text, {n} loader: {'another content tree' if rs[i]['r'] == 'ok' else rs[i]['r'] + ' ' + str(rs[i].get('e'))[:200]}")
    log('content trees', trees)
    # play
    depth, nodes = (8, 400) if THOROUGH else (5, 60)
    A = [side_of(p, orig[p], '') for p in progs]
    tot = dict(states=t1.distinct + t2.distinct, transitions=t1.generated + t2.generated)
    ra = set(learn(A, bins['default'], depth, nodes))
    for kind, js, n in (('original', orig, 'stream'), ('respelled', spelled, 'default'), ('respelled', spelled, 'stream')):
        B = [side_of(p, js[p], '') for p in progs]
        rb = set(learn(B, bins[n], depth, nodes))
        for a, b in zip(A, B):
            if a in ra and b not in rb:
                rep.violate(f'play:{b.name}:{kind}:{n}', {'name': b.name, 'json': b.json, 'bad': str(b.bad)}, f'{b.name}: {kind} text, {n} loader: {str(b.bad)[:300]}')
        c = compare(rep, [(a, b) for a, b in zip(A, B) if a in ra and b in rb], f'c14-{kind}-{n}', fields=OBS + ('visits', 'errs', 'warns'), what=('default', n))
        log(kind, n, c)
        for x, v in c.items():
            tot[x] = tot.get(x, 0) + v
    rep.finish(samples=[{'text': text(s['t']), 'value': text(s['v'])} for s in good[5:400:150]] + [{'program': p.name, 'respelled': spelled[p][:160]} for p in progs[:2]],
               content_trees=trees, **cov, **tot)


def corpus_sources():
    """the corpus as this compiler compiles it"""
    import c05
    return [a for a, _ in c05.corpus_pairs() if not a.name.startswith('TheIntercept')]


if __name__ == '__main__':
    main(check)
