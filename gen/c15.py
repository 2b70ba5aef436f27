"""C15: malformed stories and saves (InkFormat.tla says what is well formed and everything that
can be wrong with a document; the real loaders must return)"""
from host import *

CFG = 'SPECIFICATION Spec\nINVARIANT Sane\nCONSTANTS Mode = "%s" Most = %d\nCHECK_DEADLOCK FALSE\n'
SET = [{'op': 'fallbacks', 'v': True, 'q': True}]
DEPTHS = [1, 3, 100, 130, 5000, 100000]
I32 = range(-2**31, 2**31)

# every kind of token, in a story of a few lines
TOKENS = '''{"inkVersion":21,"root":[["^Start ","ev",{"VAR?":"v"},"out",1,2.5,"+","out",true,"!","out","str","^s","/str","out",{"list":{"L.a":1},"origins":["L"]},
"LIST_COUNT","out",{"^->":"k"},"pop",{"^var":"v","ci":-1},"pop",{"CNT?":"k"},"out","turn","out","choiceCnt","out","void","pop",{"x()":"ext","exArgs":0},"out",{"f()":"fn"},"out",3,"du","==","out","/ev","<>","#","^tag","/#",{"#":"legacy"},"\\n",
"ev",4,{"temp=":"t"},5,{"temp=":"t","re":true},6,{"VAR=":"v","re":true},"/ev",{"->t->":"tun"},"thread",{"->":".^.thr"},"ev","str","^A","/str",{"VAR?":"v"},"/ev",{"*":".^.c-0","flg":5},
"ev",true,"/ev",{"->":".^.g","c":true},{"thr":["done",{"#f":1}],"c-0":["^A\\n",{"->":"0.g"},{"#f":5}],"g":["nop",{"->":"d","var":true},["^inner",{"#n":"in","#f":3}],"end",null]}],"done",
{"k":["^K","end",{"#f":7,"#n":"k"}],"tun":["ev","void","/ev","->->",null],"fn":["ev",7,"/ev","~ret",null],"ext":["ev",8,"/ev","~ret",null],
"global decl":["ev",1,{"VAR=":"v"},{"^->":"k"},{"VAR=":"d"},{"list":{},"origins":["L"]},{"VAR=":"l"},"/ev","end",null]}],"listDefs":{"L":{"a":1,"b":2}}}'''


# ------------------------------------------------------------------ documents as node tables
def encode(j):
    nodes, up = [], []

    def add(v, p, i):
        x = len(nodes)
        n = {'t': 'null', 'n': 0, 's': '', 'k': [], 'c': []}
        nodes.append(n)
        up.append([p, i])
        if v is None:
            pass
        elif isinstance(v, bool):
            n.update(t='bool', n=int(v))
        elif isinstance(v, int):
            n.update(t='int' if v in I32 else 'big', n=v if v in I32 else 0, s='' if v in I32 else str(v))
        elif isinstance(v, float):
            n.update(t='flt', s=repr(v))
        elif isinstance(v, str):
            n.update(t='str', s=v)
        elif isinstance(v, list):
            n['t'] = 'arr'
            n['c'] = [add(e, x + 1, k + 1) for k, e in enumerate(v)]
        else:
            n['t'] = 'obj'
            n['k'] = list(v)
            n['c'] = [add(e, x + 1, k + 1) for k, e in enumerate(v.values())]
        return x + 1
    add(j, 0, 0)
    return nodes, up


def decode(m, deep=None):
    """text of the node table; deep: {node: (open, close, n)} around its text"""
    deep = deep or {}

    def out(x):
        n = m[x - 1]
        t = n['t']
        if t == 'null':
            s = 'null'
        elif t == 'bool':
            s = 'true' if n['n'] else 'false'
        elif t == 'int':
            s = str(n['n'])
        elif t in ('big', 'flt'):
            s = n['s']
        elif t == 'str':
            s = json.dumps(n['s'], ensure_ascii=False)
        elif t == 'arr':
            s = '[' + ','.join(map(out, n['c'])) + ']'
        else:
            s = '{' + ','.join(json.dumps(k, ensure_ascii=False) + ':' + out(c) for k, c in zip(n['k'], n['c'])) + '}'
        if x in deep:
            a, b, k = deep[x]
            s = a * k + s + b * k
        return s
    return out(1)


WRONG = None


def wrong_values():
    """the values InkFormat puts in, in its order"""
    s = open(os.path.join(V, 'spec', 'InkFormat.tla')).read()
    body = s[s.index('Wrong == <<') + 11:]
    body = body[:body.index('\nKeys ==')]
    out = []
    for m in re.finditer(r'Null|Val\("(\w+)", (-?\d+), ("(?:[^"\\]|\\.)*")\)', body):
        out.append({'t': m[1] or 'null', 'n': int(m[2] or 0), 's': json.loads(m[3]) if m[3] else '', 'k': [], 'c': []})
    keys = json.loads('[' + re.search(r'Keys == << (.*?) >>', s)[1] + ']')
    return out, keys


def damage(m, qs):
    """what InkFormat's Apply does; -> text"""
    W, K = WRONG
    m = [dict(n, k=list(n['k']), c=list(n['c'])) for n in m]
    deep = {}
    for q in qs:
        f, x, i, p, j = q['f'], q['x'], q['i'], q['p'], q['j']
        if f == 'put':
            m[x - 1] = dict(W[i - 1], k=[], c=[])
        elif f == 'nestA':
            deep[x] = ('[', ']', DEPTHS[i - 1])
        elif f == 'nestO':
            deep[x] = ('{"a":', '}', DEPTHS[i - 1])
        else:
            n = m[p - 1]
            for l in ('k', 'c'):
                s = n[l]
                if not s and l == 'k':
                    continue
                if f == 'drop':
                    del s[j - 1]
                elif f == 'twice':
                    s.insert(j - 1, s[j - 1])
                elif f == 'swap':
                    s[j - 1], s[j] = s[j], s[j - 1]
            if f == 'key':
                n['k'][j - 1] = K[i - 1]
    return decode(m, deep)


def damage_text(s, q):
    i, f, c = q['x'], q['f'], q['c']
    return {'cut': lambda: s[:i], 'lose': lambda: s[:i] + s[i + 1:], 'twice': lambda: s[:i] + s[i:i + 1] + s[i:],
            'put': lambda: s[:i] + c + s[i + 1:], 'insert': lambda: s[:i] + c + s[i:]}[f]()


def bases(binary):
    """[(kind, text, program, ops that lead to where the save was made)]"""
    p = scenario('format')
    p.setup = SET
    p = compile_all([p], binary)[0]
    out = [('story', json.dumps(json.loads(TOKENS), ensure_ascii=False), None, None), ('story', p.json, p, None)]
    cont, ch = {'op': 'cont', 'q': True}, lambda i: {'op': 'choose', 'i': i, 'q': True}
    mx = {'op': 'maximally', 'q': True}
    ways = [[cont], [mx], [mx, ch(1)], [mx, ch(1), mx, ch(0), cont],
            [mx, {'op': 'switch', 'f': 'other', 'q': True}, {'op': 'jump', 'p': 'tun', 'reset': False, 'args': ['i:1'], 'q': True}, cont]]
    rs = run_jobs(binary, [{'json': p.json, 'setup': SET, 'ops': SET + w + [{'op': 'savejson'}]} for w in ways])
    for w, r in zip(ways, rs):
        out.append(('save', r['ops'][-1]['v'], p, w))
    return out


def tlc_faults(docs, mode, most, simulate=0, timeout=800):
    fn = os.path.join(BUILD, f'format-{mode}-{os.getpid()}.json')
    json.dump(docs, open(fn, 'w'))
    args, cfg = (), CFG % (mode, most)
    if simulate:
        args = ('-simulate', f'num={max(1, simulate // 8)}', '-depth', str(most + 3), '-seed', str(SEED))
    t = tlc('InkFormat', cfg, env={'FORMAT_DOCS': fn}, timeout=timeout, tag='format-' + mode, args=args)
    os.remove(fn)
    tlc_must(t, 'InkFormat ' + mode)
    return [json.loads(l[2:]) for l in sorted(set(t.prints)) if l[:2] in ('M ', 'X ')], t


def check():
    global WRONG
    WRONG = wrong_values()
    rep = Report('C15', 'fault_enumeration')
    bins = {'default': build('debug'), 'stream': build('debug', 'stream')}
    log('built')
    bs = bases(bins['default'])
    docs = []
    for kind, text, p, w in bs:
        m, up = encode(json.loads(text))
        assert json.loads(decode(m)) == json.loads(text)
        docs.append({'kind': kind, 'm': m, 'up': up, 'len': len(text)})
    log('documents', [(d['kind'], len(d['m']), d['len']) for d in docs])
    single, t1 = tlc_faults(docs, 'single', 1)
    log('single faults', len(single), f'{t1.secs:.0f}s')
    many, t2 = tlc_faults(docs, 'many', 3, simulate=60000 if THOROUGH else 800)
    many = [q for q in many if len(q['qs']) > 1]
    log('several faults', len(many), f'{t2.secs:.0f}s')
    chars, t3 = tlc_faults([dict(d, m=[], up=[]) for d in docs], 'text', 1)
    log('text faults', len(chars), f'{t3.secs:.0f}s')
    rng = random.Random(SEED)
    if not THOROUGH:
        single = [q for q in single if q['qs'][0]['f'] not in ('nestA', 'nestO') or rng.random() < .15]
        single = [q for q in single if rng.random() < .4]
        many = rng.sample(many, min(len(many), 3000))
        chars = rng.sample(chars, min(len(chars), 5000))
    cases = []
    for q in single + many:
        d = q['d'] - 1
        cases.append((d, q['qs'], q['fits'], damage(docs[d]['m'], q['qs'])))
    for q in chars:
        d = q['d'] - 1
        cases.append((d, q['qs'], False, damage_text(bs[d][1], q['qs'][0])))
    # documents that never were one, and documents of the other kind
    strays = ['', ' ', '\ufeff', '\0', 'null', '""', '0', '[]', '{}', '[' * 200000, '{"a":' * 100000, '"' + 'x' * 300000, '{"inkVersion":' + '9' * 400, '{"inkVersion":21,"root":' + '[' * 5000 + ']' * 5000 + '}',
              '\ufeff' + bs[0][1], bs[0][1] + ' ', bs[0][1] + '{}', '-' * 10, '1e999999999', '{"inkVersion":21,"root":[[["\\ud800"]]],"listDefs":{}}'] + [b[1] for b in bs]
    for d in (0, 2):
        cases += [(d, [{'f': 'stray', 'x': i, 'p': 0, 'j': 0, 'i': 0}], False, t) for i, t in enumerate(strays)]
    log('cases', len(cases))
    # what plain play from the start shows, to be seen again after a reset
    after = [{'op': 'maximally'}, {'op': 'choose', 'i': 1}, {'op': 'maximally'}, {'op': 'choose', 'i': 0}, {'op': 'maximally'}]
    prog = bs[1][2]
    fresh = {}
    watch = {'vars': ['L', 'n', 'f', 'b', 't', 's'], 'visits': ['th', 'tun', 'kb', 'kc'], 'path': True}
    for n, b in bins.items():
        r = run_jobs(b, [{'json': prog.json, 'watch': watch, 'ops': SET + after}])[0]
        fresh[n] = [shown(o) for o in r['ops'][1:]]
    cov = dict(evaluations=0, accepted=0, refused=0, still_in_format=0, played_after_reset=0, played_after_accepting=0)
    interesting = set()
    jobs, meta = {n: [] for n in bins}, []
    for d, qs, fits, text in cases:
        kind, base, p, w = bs[d]
        cov['still_in_format'] += fits
        for n in bins:
            if kind == 'story':
                jobs[n].append({'json': text, 'new': 1})
            else:
                # in a story under way; refused: reset and play, accepted: play on a little and reset
                jobs[n].append({'json': p.json, 'watch': watch, 'ops': SET + w + [{'op': 'load_text', 'text': text, 'q': True},
                               {'op': 'reset', 'iferr': True, 'q': True}] + after})
        meta.append((kind, d, qs, text, len(w or [])))
    for n, b in bins.items():
        for r, (kind, d, qs, text, k) in zip(run_jobs(b, jobs[n], timeout=20), meta):
            cov['evaluations'] += 1
            key = f'{n}:{d}:' + ';'.join(f"{q['f']}{q['x']}.{q.get('i', '')}{q.get('c', '')}" for q in qs)
            data = {'kind': kind, 'loader': n, 'faults': qs, 'text': text[:20000], 'result': str(r)[:2000]}
            if kind == 'story':
                if r['r'] not in ('ok', 'new_err'):
                    rep.violate(key, data, f"constructing a story ({n} loader): {r['r']} {r.get('msg')} {r.get('at')} on {excerpt(text, qs, docs[d])}")
                else:
                    cov['accepted' if r['r'] == 'ok' else 'refused'] += 1
                    interesting.add((d, r['r'], re.sub(r'\d+|\'.*\'|".*"', '', r.get('msg') or '')[:80]))
                continue
            ops = r.get('ops') or []
            i = 1 + k
            if len(ops) <= i or ops[i]['r'] not in ('ok', 'err'):
                rep.violate(key, data, f"loading a save: {r['r']} {str(ops[-1:])[:300]} on {excerpt(text, qs, docs[d])}")
                continue
            cov['accepted' if ops[i]['r'] == 'ok' else 'refused'] += 1
            interesting.add((d, ops[i]['r'], re.sub(r'\d+|\'.*\'|".*"', '', str(ops[i].get('v') or ''))[:80]))
            if ops[i]['r'] == 'err':
                got = [shown(o) for o in ops[i + 2:]]
                if got != fresh[n]:
                    x = next((x for x in range(len(fresh[n])) if x >= len(got) or got[x] != fresh[n][x]), 0)
                    rep.violate('reset:' + key, dict(data, fresh=fresh[n], got=got), f"after a refused load ({excerpt(text, qs, docs[d])}) and a reset, step {x}: {str(got[x:x + 1])[:300]}; in a fresh story {str(fresh[n][x])[:300]}")
                cov['played_after_reset'] += 1
            else:
                cov['played_after_accepting'] += 1
                if any(o['r'] == 'panic' for o in ops) or r['r'] in ('crash', 'hang'):
                    rep.violate('play:' + key, data, f"after an accepted load ({excerpt(text, qs, docs[d])}): {str(ops[-1])[:300]}")
    log(cov)
    rep.finish(distinct_nontrivial=len(interesting), rule='distinct by document, outcome and error message (numbers and quoted names removed)', spec_states=t1.distinct + t2.distinct + t3.distinct,
               single_faults=len(single), several_faults=len(many), text_faults=len(chars), samples=[{'faults': c[1], 'text': c[3][:200]} for c in cases[7::len(cases) // 4]][:4], **cov)


def shown(o):
    return (o['r'], o.get('v'), {k: v for k, v in (o.get('o') or {}).items() if k != 'steps'})


def excerpt(text, qs, d):
    q = qs[0]
    if q['f'] == 'stray':
        return repr(text[:60])
    if q['f'] in ('cut', 'lose', 'twice', 'put', 'insert') and 'c' in q:
        return f"{q['f']} {q['c']!r} at {q['x']}: ...{text[max(0, q['x'] - 40):q['x'] + 20]!r}"

    def name(x):
        p, j = d['up'][x - 1]
        if not p:
            return '$'
        n = d['m'][p - 1]
        return name(p) + (f"[{j - 1}]" if n['t'] == 'arr' else '.' + n['k'][j - 1])
    return '; '.join(f"{q['f']} {WRONG[0][q['i'] - 1]['t'] + ' ' + str(WRONG[0][q['i'] - 1]['n']) + WRONG[0][q['i'] - 1]['s'] if q['f'] == 'put' else q['i']} at {name(q['x'])}" for q in qs)


if __name__ == '__main__':
    main(check)
