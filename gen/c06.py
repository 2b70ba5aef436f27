"""C06: the compiler answers any text with a story or an error, and its stories are well formed.
  InkEdits.tla  what may become of a text: TLC enumerates single edits of sources at every place, sequences of
                tokens, and draws sequences of edits; the real compiler is given the outcomes, twice and in two builds
  InkRefs.tla   whether what a compiled story refers to is there, on the compiled JSON itself"""
from calls import *
import hashlib

ECFG = 'SPECIFICATION Spec\nINVARIANT TypeOK\nCONSTANTS Mode = "%s" Most = %d\nCHECK_DEADLOCK FALSE\n'
RFCFG = 'SPECIFICATION Spec\nINVARIANT Tree\nCHECK_DEADLOCK FALSE\n'
WORDS = '''* + - = == === -> <- ->-> <> { } [ ] ( ) | & ! ~ # : , . / % ^ " \\ && || ? !? != < > >= += ++ -- // /* */ =\u3000
VAR CONST LIST EXTERNAL INCLUDE function temp ref return else not and or mod has hasnt stopping cycle shuffle once TODO: DONE END
x y k f L p 0 1 -1 1.5 true "s" ê 😀 TURNS_SINCE CHOICE_COUNT RANDOM'''.split() + ['\n', '\n\n', '    ', '\t', '\n* ', '\n- ', '\n== ', '\n~ ', '\n= ', '{x:', '-> k', '<- k', 'f(', '\n{', '- else:']
CHARS = list('*+-=<>{}[]()|&!~#:,./%^"\\?\n\t \r\'$@`;_0a9x') + ['\u00a0', '\u3000', 'é', '😀', '\u0301', '\u2028', '\x00', '\x0b', '\ufeff', '\ud7ff', 'İ']

# openings with what closes them, and what they are put in; <n> becomes the number of the repetition
PAIRS = [('{', '}'), ('{x:', '}'), ('{x==1:a|', '}'), ('{(', ')}'), ('{&a|', '}'), ('"', ''), ('\n{\n- x:\n', '\n}'), ('\n{x:\n', '\n}'), ('\n* a\n', ''),
         ('[', ']'), ('{"', '"}'), ('{!a|', '}'), ('{&\n', '}'), ('\n{stopping:\n- ', '\n}'), ('{x-', '}'), ('"{', '}"'), ('(', ')'), ('not ', ''), ('-', ''),
         ('f(', ')'), ('1+', ''), ('1-(', ')'), ('(x,', ')'), ('!', ''), ('x.', ''), ('1 && ', ''), ('L ? ', ''), ('x ', ''), ('* ', ''), ('*', ''), ('- ', ''), ('+', ''),
         ('=', ''), ('#', ''), ('|', ''), ('->', ''), ('-> k -> ', ''), ('<>', ''), ('~', ''), ('->-> ', ''), ('<- k ', ''), (': ', ''), ('/*', '*/'), ('//', ''), ('\\', ''),
         ('\t', ''), ('é', ''), ('-> k(', ')'), ('<- k(', ')'), ('{x:a} ', ''), ('\n- g', ''), ('\n* (a<n>) a', ''), ('\n- x == 1: a', ''), ('\n- else: ', ''),
         ('\n== s<n>\nx', ''), ('\n= s<n>\nx', ''), ('\nVAR v<n> = 1', ''), ('\nLIST w<n> = a<n>, b', ''), (', (a<n> = <n>)', ''), ('\nCONST c<n> = c<n-1> + c<n-1>', ''),
         ('\nCONST d<n> = d<n-1>\n', ''), ('\n~ temp t<n> = 1', ''), ('\nINCLUDE i.ink', ''), ('\nEXTERNAL e<n>(a)', ''), ('\n~ ', ''), ('\n{f(1)}', ''), ('|a', '')]
SETTINGS = [('VAR x = 1\nA ', ' b\n== k\n-> DONE\n== function f(a)\n~ return a\n'), ('VAR x = 1\n* ', 'b\n- c\n'), ('VAR x = 1\nA {', '}\n'), ('VAR x = 1\n~ x = ', '\n'),
            ('VAR x = 1\n{ ', ':\n a\n}\n'), ('VAR x = ', '\n{x}\n'), ('VAR x = 1\n* {', '} b\n'), ('VAR x = 1\n-> k(', ')\n== k(a)\n-> DONE\n'), ('CONST x = ', '\nA {x}\n'),
            ('LIST L = x', '\n{L}\n'), ('VAR x = 1\n{x:\n', '\n}\n'), ('VAR x = 1\n{ stopping:\n- ', '\n}\n'), ('EXTERNAL f(', ')\n'), ('VAR x = 1\n{\n', '\n}\n'), ('', ''),
            ('VAR x = 1\n== k\n', '\n-> DONE\n'), ('VAR x = 1\n-> ', '\n'), ('VAR x = 1\n{x:a|', '}\n')]
# values at the edges, and declarations that depend on each other
DECLS = ['''CONST a = b
CONST b = c + 1
CONST c = 2
VAR v = a
{a}{v}{"{a}"}
* {a} [{b}] -> k(c)
== k(z)
{z} # {a}
-> DONE
''', '''LIST l = (a = 3), b, (c = 10)
LIST m = a, (d)
VAR v = l.a
VAR w = (l.a, d)
VAR e = ()
CONST p = l.b
{l.a} {m.a} {p} {v == l.b} {LIST_VALUE(w)} {l(3)} {m(1)}
~ v += 1
~ w = LIST_ALL(l) ^ (l.a, b)
-> DONE
''', '''VAR x = 1
VAR y = x
VAR z = -> k
VAR s = "a {x} b"
EXTERNAL e(a, b)
~ e(1, x)
~ temp t = e(x, 2)
{z == -> k.st: {t}}
-> z
== k
= st
-> END
== function e(p, q)
~ return p + q
''']
VALUES = '''0 -0 1 -1 2147483647 -2147483647 2147483648 -2147483648 4294967295 9223372036854775808 0.5 -0.0 .5 5. 1e5 3.4e38 99999999999.0 1e400 0x10 1_000 "" "a" "{x}" "{"
"} true false () (x) (a,) (a, b) -> -> k -> k.st -> nowhere x y l.a l.z m.a a b nothing f(1) e(1) RANDOM(1,2) TURNS() CHOICE_COUNT() LIST_ALL(l) LIST_ALL(3) 1/0 1%0 POW(0,-1) FLOOR(x) INT("a") -x !x not
x+1 x++ "a"+1 1+ -> k == -> k l+1 l? SEED_RANDOM(1) READ_COUNT(->k) TURNS_SINCE(->k)'''.split()

BASES = ['''VAR x = 1
CONST c = 2
LIST L = (p), q
EXTERNAL e(a)
Hi {x} <> # t
-> k
== k
= s
* (l) [a] b -> m(1)
** {l} c
- - (g) {x:d|f}
+ -> END
- {L ? p} {k.s} -> s
== m(z)
~ temp t = z + c
~ x += f(t)
-> k.s
== function f(r)
~ return r * 2
''', '''-> a ->
<- b
{ x > 1:
    one
- else:
    {&i|j|{!u}}
}
{ x:
- 0: nil
- 1: -> DONE
}
{ stopping:
- s1
- s2 -> a ->
}
* w [y] v
    ~ x = -x
    * * deep -> b
- -> END
== a
In {TURNS_SINCE(-> b)} {e(1)}
->->
== b
{~r|{s|t}} {not a && (x == 2 or a > 1)}
+ [o] -> a -> b
-> DONE
VAR x = 0
EXTERNAL e(n)
== function e(n)
~ return "{n}"
''']


def toks(s):
    return re.findall(r'//|/\*|\*/|->->|->|<-|<>|&&|\|\||[=!<>+\-]=|\+\+|--|===+|==|\n[ \t]*|[ \t]+|\w+|.', s, re.S)


def edit(src, e, sources, soup):
    i = e['i'] - 1
    op = e['op']
    if op == 'del':
        del src[i]
    elif op == 'dup':
        src.insert(i, src[i])
    elif op == 'swap':
        src[i], src[i + 1] = src[i + 1], src[i]
    elif op == 'ins':
        src.insert(i, soup[e['t'] - 1])
    elif op == 'rep':
        src[i] = soup[e['t'] - 1]
    elif op == 'cut':
        del src[i:e['j']]
    elif op == 'many':
        src[i:i] = [soup[e['t'] - 1]] * e['k']
    elif op == 'splice':
        src[i:i] = sources[e['q'] - 1][e['a'] - 1:e['b']]


def edits(sources, soup, mode, most, tag, simulate=0, sep='', reps=(2, 5, 40)):
    """[(text, edits)], TlcResult"""
    fn = os.path.join(BUILD, f'edits-{tag}-{os.getpid()}.json')
    json.dump({'lens': [len(s) for s in sources], 'soup': len(soup), 'reps': list(reps)}, open(fn, 'w'))
    args = ('-simulate', f'num={max(1, simulate // 8)}', '-depth', str(most + 1), '-seed', str(SEED)) if simulate else ()
    t = tlc('InkEdits', ECFG % (mode, most), env={'EDITS_DOC': fn}, timeout=800, tag='edits-' + tag, args=args)
    os.remove(fn)
    tlc_must(t, 'InkEdits ' + tag)
    out = {}
    for l in t.prints:
        if l.startswith('E '):
            d = json.loads(l[2:])
            s = list(sources[d['s'] - 1]) if d['s'] else []
            for e in d['h']:
                edit(s, e, sources, soup)
            out[sep.join(s)] = d['h']
    t.generated, t.distinct = max(t.generated, len(out)), max(t.distinct, len(out))
    return sorted(out.items()), t


def nested(most, reps, bound, tag, simulate=0):
    fn = os.path.join(BUILD, f'edits-{tag}-{os.getpid()}.json')
    json.dump({'lens': [], 'soup': 0, 'pairs': len(PAIRS), 'settings': len(SETTINGS), 'reps': list(reps), 'bound': bound}, open(fn, 'w'))
    t = tlc('InkEdits', ECFG % ('nests' if simulate else 'nest', most), env={'EDITS_DOC': fn}, timeout=800, tag='edits-' + tag,
            args=('-simulate', f'num={max(1, simulate // 8)}', '-depth', str(most + 1), '-seed', str(SEED)) if simulate else ())
    os.remove(fn)
    tlc_must(t, 'InkEdits ' + tag)

    def times(s, k):
        if '<n' not in s:
            return s * k
        return ''.join(s.replace('<n-1>', str(i)).replace('<n>', str(i + 1)) for i in range(k))
    out = {}
    for l in t.prints:
        if l.startswith('E '):
            d = json.loads(l[2:])
            a, z = SETTINGS[d['s'] // 2]
            o = ''.join(times(PAIRS[e['q'] - 1][0], e['k']) for e in d['h'])
            c = '' if d['s'] % 2 else ''.join(PAIRS[e['q'] - 1][1] * e['k'] for e in d['h'][::-1])
            out[a + o + '1' + c + z] = d['h']
    t.generated, t.distinct = max(t.generated, len(out)), max(t.distinct, len(out))
    return sorted(out.items()), t


# ------------------------------------------------------------------ the references of a compiled story
def comps(path):
    rel = path.startswith('.')
    cs = [c for c in path.split('.') if c != '']
    return rel, [{'k': 'i', 'i': int(c), 'n': ''} if c.isdigit() and c.isascii() else {'k': 'n', 'i': 0, 'n': c} for c in cs]


def refs_of(js):
    """the document of InkRefs.tla"""
    doc = json.loads(js, parse_float=str)
    nodes, refs, temps = [], [], {}
    globals_, items = set(), set()
    for l, its in (doc.get('listDefs') or {}).items():
        for i in its:
            items |= {i, f'{l}.{i}'}

    def add(c, parent, flow):
        me = {'parent': parent, 'kids': [], 'named': {}, 'flow': flow, 'flags': 0}
        nodes.append(me)
        n = len(nodes)
        end = c[-1] if c and isinstance(c[-1], dict) else {}
        me['flags'] = end.get('#f', 0)
        for x in c[:-1]:
            if isinstance(x, list):
                k = add(x, n, flow)
                me['kids'].append(k)
                nm = x[-1].get('#n') if x and isinstance(x[-1], dict) else None
                if nm:
                    me['named'][nm] = k
            else:
                me['kids'].append(-1)
                if isinstance(x, dict):
                    look(x, n, flow)
        for m, x in end.items():
            if m[0:1] != '#' and isinstance(x, list):
                me['named'][m] = add(x, n, m if parent == 0 else flow)
        return n

    def ref(at, kind, path):
        rel, cs = comps(path)
        refs.append({'at': at, 'kind': kind, 'rel': rel, 'cs': cs, 'name': path})

    def name(at, kind, n):
        refs.append({'at': at, 'kind': kind, 'rel': False, 'cs': [], 'name': n})

    def look(x, at, flow):
        for key, kind in (('->', 'divert'), ('f()', 'call'), ('->t->', 'tunnel')):
            if key in x:
                if x.get('var'):
                    name(at, 'name', x[key])
                else:
                    ref(at, kind, x[key])
        for key, kind in (('*', 'choice'), ('CNT?', 'count'), ('^->', 'target')):
            if key in x:
                ref(at, kind, x[key])
        if isinstance(x.get('list'), dict):
            for it in x['list']:
                name(at, 'item', it)
        if 'VAR?' in x:
            name(at, 'name', x['VAR?'])
        if '^var' in x:
            name(at, 'name', x['^var'])
        if 'VAR=' in x:
            if x.get('re'):
                name(at, 'assigned', x['VAR='])
            else:
                globals_.add(x['VAR='])
        if 'temp=' in x:
            if x.get('re'):
                name(at, 'name', x['temp='])
            else:
                temps.setdefault(flow, set()).add(x['temp='])
    add(doc['root'], 0, '/')
    # the tags of InkRefs: numbers in names are their text
    return {'nodes': nodes, 'refs': refs, 'globals': sorted(globals_), 'items': sorted(items), 'whole': sorted(i for i in items if '.' in i), 'temps': {k: sorted(v) for k, v in temps.items()}}


def wellformed(rep, stories, tag):
    """stories: [(key, source, json)]"""
    docs, back, seen = [], [], set()
    for key, src, js in stories:
        if len(js) > (300000 if THOROUGH else 20000):
            continue
        try:
            d = refs_of(js)
        except (ValueError, RecursionError, AttributeError, KeyError) as e:
            rep.violate(f'json:{tag}:{key}', {'source': src, 'json': js[:3000]}, f'{key}: compiled to what is no story: {e}')
            continue
        h = hashlib.sha1(json.dumps(d, sort_keys=True).encode()).digest()
        if h not in seen:
            seen.add(h)
            docs.append(d)
            back.append((key, src, js))
    sts, refs = [0, 0], sum(len(d['refs']) for d in docs)
    step = 1500
    for lo in range(0, len(docs), step):
        fn = os.path.join(BUILD, f'refs-{tag}-{os.getpid()}.json')
        json.dump(docs[lo:lo + step], open(fn, 'w'))
        t = tlc('InkRefs', RFCFG, env={'REFS_DOCS': fn}, timeout=800, tag='refs-' + tag)
        os.remove(fn)
        tlc_must(t, 'InkRefs ' + tag)
        sts[0] += t.distinct
        sts[1] += t.generated
        n = 0
        for l in t.prints:
            if not l.startswith('R '):
                continue
            n += 1
            r = json.loads(l[2:])
            k = lo + r['d'] - 1
            key, src, js = back[k]
            for what, s in (('broken', r['bad']), ('uncounted', r['uncounted'])):
                if s:
                    x = docs[k]['refs'][s[0] - 1]
                    rep.violate(f"{what}:{x['kind']}:{hashlib.sha1(src.encode()).hexdigest()[:12]}", {'source': src, 'reference': x, 'json': js[:6000]},
                                f"{key}: a compiled story refers to {x['name']!r} as {x['kind']} ({what})")
        if n != len(docs[lo:lo + step]):
            raise RuntimeError(f'InkRefs answered {n} of {len(docs[lo:lo + step])}')
    return len(docs), refs, sts


def lines_of(text):
    return max(1, len(re.split(r'\r\n|\n|\r', text)))


def total(rep, texts, bins, tag):
    """compile every text; -> [(key, source, json)] of the stories"""
    out = []
    st = dict(inputs=len(texts), stories=0, errors=0, with_line=0)
    rs = run_jobs(bins['debug'], [{'src': s, 'files': f, 'want_json': True, 'compile': {'load': True}} for s, f, _ in texts], timeout=60)
    pick = [i for i in range(len(texts)) if i % 4 == 0]
    again = dict(zip(pick, run_jobs(bins['release'], [{'src': texts[i][0], 'files': texts[i][1], 'want_json': True, 'compile': {'load': True}} for i in pick][::-1], timeout=60)[::-1]))
    for i, ((s, f, how), r) in enumerate(zip(texts, rs)):
        key = f'{tag}#{i}'
        data = {'source': s, 'files': f, 'edits': how, 'result': str(r)[:2000]}
        h = hashlib.sha1(s.encode('utf-8', 'replace')).hexdigest()[:12]
        if r['r'] == 'compile_err':
            st['errors'] += 1
            ln = r['e'].get('line')
            if ln is not None:
                st['with_line'] += 1
                most = max([lines_of(s)] + [lines_of(x) for x in f.values()])
                if not 1 <= ln <= most:
                    rep.violate(f'line:{h}', data, f"{key}: an error names line {ln} of {most}: {r['e']['msg']}")
        elif r['r'] == 'ok':
            st['stories'] += 1
            if r['load'] != 'ok':
                rep.violate(f'load:{h}', data, f"{key}: the compiled story does not load: {r['load'][:200]}")
            else:
                out.append((key, s, r['json']))
        else:
            rep.violate(f'total:{h}', data, f"{key}: {({k: v for k, v in r.items() if k != 'id'})} for {s[:80]!r}")
        if i in again:
            a = again[i]
            x, y = [(q['r'], q.get('json'), q.get('e'), q.get('load')) for q in (r, a)]
            if x != y:
                rep.violate(f'same:{h}', dict(data, other=str(a)[:2000]), f'{key}: two compilations differ: {difference(list(x), list(y))}')
    return out, st


def check():
    rep = Report('C06', 'model_checking')
    bins = {'debug': build('debug'), 'release': build('release')}
    log('built')
    k = 6 if THOROUGH else 1
    r = random.Random(SEED)
    texts = []
    ts = []
    bases = [toks(b) for b in BASES]

    def take(l, t, n=None, what=''):
        ts.append(t)
        if n and len(l) > n:
            l = r.sample(l, n)
        log(what, len(l), f'{t.secs:.0f}s')
        return [(s, {}, h) for s, h in l]
    each = take(*edits(bases, WORDS, 'each', 1, 'each'), None if THOROUGH else 10000, 'single edits')
    soup = take(*edits([], WORDS, 'soup', 2, 'soup', sep=' '), None, 'words') + take(*edits([], CHARS, 'soup', 3 if THOROUGH else 2, 'chars'), None, 'characters')
    soup += [(s.replace(' ', ''), {}, h) for s, _, h in soup if ' ' in s]
    corp = [(n, s) for n, s, _, _ in corpus_programs() if len(s) < 3000] + [(n, s) for n, s, _, _ in wild.wild(f'{SEED}/c06', 60, faults=.05)] \
        + [(p.name, p.src) for p in generated('c06', 40, 3)]
    many = take(*edits([toks(s) for _, s in corp], WORDS, 'many', 6, 'many', simulate=2000 * k), 6000 * k, 'several edits')
    char = take(*edits([list(s) for _, s in corp], CHARS, 'many', 5, 'manychars', simulate=1000 * k), 2500 * k, 'several edits of characters')
    long = take(*edits([[]] + bases, WORDS, 'many', 2, 'long', simulate=800 * k, reps=(100, 1000, 6000)), 1500 * k, 'repetitions')
    nest = take(*nested(1, (3, 30, 150, 1000, 2000) if not THOROUGH else (3, 30, 75, 150, 500, 1000, 3000, 20000), 30000, 'nest'), None, 'nestings') \
        + take(*nested(3, (1, 2, 10, 40, 200, 700), 1500, 'nest2', simulate=1000 * k), 2500 * k, 'nestings of two kinds')
    decl = take(*edits([toks(b) for b in DECLS], VALUES, 'each', 1, 'decl'), 6000 * k, 'declarations') \
        + take(*edits([toks(b) for b in DECLS], VALUES, 'many', 4, 'manydecl', simulate=500 * k), 1500 * k, 'declarations, several edits')
    whole = [(s, {}, []) for _, s in corp] + [(s, {}, []) for _, s, _, _ in wild.wild(f'{SEED}/c06w', 350 * k, faults=.1)]
    inc = []
    for s, _, h in r.sample(each, 300) + r.sample(many, 300):
        c = s.count('\n')
        ls = s.split('\n')
        a = r.randrange(len(ls))
        inc.append(('\n'.join(ls[:a] + ['INCLUDE one.ink'] + ls[a:a + 2]), {'one.ink': '\n'.join(ls[a + 2:]) + '\nINCLUDE two.ink', 'two.ink': r.choice(['', 'Two.', 'INCLUDE one.ink', '/* x', '== kk\nx -> k', 'INCLUDE three.ink', 'INCLUDE '])}, h))
    stories, cov = [], {}
    for tag, l in (('each', each), ('soup', soup), ('many', many), ('char', char), ('long', long), ('nest', nest), ('declarations', decl), ('whole', whole), ('include', inc)):
        o, st = total(rep, l, bins, tag)
        log(tag, st)
        for a, b in st.items():
            cov[a] = cov.get(a, 0) + b
        stories += o
    # compiled so that only what is counted on is counted
    few = [(a, b) for a, b, _ in r.sample(stories, min(len(stories), 2000 * k))] + corp
    rs = run_jobs(bins['release'], [{'src': s, 'want_json': True, 'count_all': False, 'compile': {'load': True}} for _, s in few], timeout=60)
    for (key, s), q in zip(few, rs):
        if q['r'] not in ('ok', 'compile_err') or q['r'] == 'ok' and q['load'] != 'ok':
            rep.violate(f"total:{hashlib.sha1(s.encode('utf-8', 'replace')).hexdigest()[:12]}", {'source': s, 'result': str(q)[:2000]}, f'{key}: {q["r"]} {q.get("load")} without counting all visits')
        elif q['r'] == 'ok':
            stories.append((key + '/few', s, q['json']))
    cov['inputs'] += len(few)
    n, refs, sts = wellformed(rep, stories, 'all')
    log('well formed: stories', len(stories), 'different', n, 'references', refs)
    rep.finish(states=sum(t.distinct for t in ts) + sts[0], transitions=sum(t.generated for t in ts) + sts[1], traces_validated_against_impl=cov['inputs'],
               stories_walked=n, references=refs, samples=[{'source': s[:500], 'edits': h} for s, _, h in (each[5], many[7], char[9], long[2])], **cov)


if __name__ == '__main__':
    main(check)
