"""C20: the command-line tool speaks its protocol and shows what the library shows.
  InkCli.tla  the protocol: TLC chooses the input lines over what the library was recorded to show and prints what the
              tool must write in both modes; the tool is run with that input"""
from calls import *
import c06, hashlib, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

CFG = 'SPECIFICATION Spec\nINVARIANT Asked Ends\nCONSTANTS Most = %d Drawn = %s\nCHECK_DEADLOCK FALSE\n'
WORDS = ['say "hi"', "it's", 'a\\"b', 'back\\\\slash', 'tab\there', 'bell\x07', 'es\x1bc', 'nul\x01', 'del\x7f', 'ff\x0c', 'vt\x0b', 'bs\x08', 'é', '日本', '😀', 'z\u200bw', 'ls\u2028x', 'ps\u2029y',
         'n\u0085l', '\u00a0', '</b>', '%s', '&amp;', '\ufffd', 'A\u0301', '\U0010ffff', 'ok', 'plain words', 'two  spaces', '\\\\', '1: x', '?>', "#\\#", '"', '""', ': ', ',', '\x1f', '\x00']
STRS = ['q\\q', 'tab\tin', 'ctl\x01', 'é😀', "it's", 'x\x7f', '\x1b[0m', 'n', '\\', 'a\u2028b', '\x08']
PATHS = ['k1', 'K2', 'k1.St', 'k2', 'k1.st', 'K1', 'nowhere', 'k1.nope', '"', 'a"b', '\\', 'k\\', '\x01', 'ü', '😀.x', '{}', 'k1"]}', '->', '.^.^', '.', '0', '0.0', '%s', '\u200b', '\x7f', '\x1b[1m', 'f']
JUNKS = ['-> a b', '->k1', 'hello', '"', '\\', '\x01', '1.5', '-1', '99999999999999999999999', '1 2', '{}', 'é', '--> k1', 'helpp', '{"text": "x"}', '- > k1', '0x1', '١', 'quit now', '\x00', '<-', '->']
BLANKS = ['', '  ', '\t', '\u3000 ', ' \r']
HELPS = ['help', ' HELP ', 'Help']
QUITS = ['quit', 'exit', ' QUIT', 'Exit ']
NAMES = ['story.ink', 'sp ace.ink', 'qu"ote.ink', 'ünï.ink', 'a.b.ink', 'back\\slash.ink', "it's.ink", 'noext', 'UPPER.INK', 'x.json.ink', '-'.join('ab') + '.ink']


def hostile(r, safe=False):
    return ' '.join(r.choice(WORDS) for _ in range(r.randint(1, 3)))


def program(seed):
    """a source full of what a careless writer of JSON gets wrong"""
    r = random.Random(seed)
    w = lambda: hostile(r)
    tag = lambda: ''.join(' # ' + w() for _ in range(r.choice([0, 0, 1, 2])))
    v = lambda: '"' + r.choice(STRS) + '"'
    def line():
        return r.choice(bad if r.random() < .03 else fine)()
    fine = [lambda: 'T ' + w() + tag(), lambda: f'T {{s}} {{t + {v()}}}' + tag(), lambda: f'T {{{v()}}} {w()}', lambda: f'T # {w()} {{s}}',
                             lambda: '{e(s)} ' + w(), lambda: '~ s = s + t', lambda: '-> tun ->', lambda: 'T <>', lambda: '# ' + w(), lambda: '# {s} ' + w(), lambda: '{n > 1: ' + 'T|U}', lambda: '~ n += 1']
    bad = [lambda: '{s - t}', lambda: '{n / 0}', lambda: '{LIST_VALUE(s)}', lambda: '-> s', lambda: '{POW(s, 2)}', lambda: '{s * 2}', lambda: '{LIST_COUNT(t)}',
           lambda: '{s ? 3}', lambda: '{FLOOR(t)}', lambda: '<- s', lambda: '-> t ->', lambda: '{TURNS_SINCE(s)}', lambda: '->->']
    some = lambda a, b: '\n'.join(line() for _ in range(r.randint(a, b)))

    def choice(i, k):
        b = r.choice(['*', '+', '+'])
        if r.random() < .3:
            b += ' {n < 5}'
        t = f'c{i} ' + w()
        x = r.random()
        t = t + tag() if x < .5 else f'{t} [{w()}] {w()}' + tag() if x < .8 else f'[{t}{tag()}] after {{s}}'
        return f'{b} {t}\n    {some(1, 2)}\n    -> {k}\n'
    knots = ['k1', 'K2', 'k1.St', 'END', 'DONE']
    out = [f'VAR s = {v()}', f'VAR t = {v()}', 'VAR n = 0', 'EXTERNAL e(x)']
    out += ['# ' + w() for _ in range(r.choice([0, 1, 2]))] + [some(1, 4), '-> k1', '== k1', some(0, 3)]
    out += [choice(i, r.choice(knots)) for i in range(r.randint(1, 4))]
    out += ['+ -> K2' if r.random() < .3 else '+ [done]' + tag() + ' -> END', '= St', some(1, 2), choice(0, 'K2'), choice(1, 'END'), '== K2', some(1, 3), choice(0, r.choice(knots[:3])),
            choice(1, r.choice(knots)), '-> DONE', '== tun', some(1, 1), '->->', '== function e(x)', f'~ return x + {v()}', '== function f(x)', 'F {x}', '~ return 1']
    return '\n'.join(out) + '\n'


# ------------------------------------------------------------------ what the library shows
BASE = [{'op': 'handler', 'q': True}, {'op': 'fallbacks', 'v': True, 'q': True}, {'op': 'show'}]


def library(bins, progs, most, depth):
    """for every program: nodes [(lines, err, choices, choose, jump)]; breadth first, at most `most` nodes"""
    nodes = [[None] for _ in progs]
    seqs = [[[]] for _ in progs]
    todo = [[0] for _ in progs]
    for level in range(depth + 1):
        jobs, back = [], []
        for p, (name, js, paths) in enumerate(progs):
            for k in todo[p]:
                ops = list(BASE)
                for a in seqs[p][k]:
                    ops += [a, {'op': 'show'}]
                jobs.append({'json': js, 'ops': ops, 'watch': {}, 'fuel': 40000})
                back.append((p, k))
        todo = [[] for _ in progs]
        for (p, k), r in zip(back, run_jobs(bins['debug'], jobs, timeout=30)):
            ops = r.get('ops') or []
            if r['r'] != 'ok' or len(ops) < len(jobs[0]['ops']) or any(o['r'] not in ('ok', 'err') for o in ops):
                continue                     # panics are C04's
            a = ops[-2] if seqs[p][k] else None
            show = ops[-1]
            nodes[p][k] = dict(lines=show['v']['lines'], err=show['v']['err'], choices=show['o']['choices'], choose={}, jump={},
                               ok=a is None or a['r'] == 'ok', msg=a['v'] if a and a['r'] == 'err' else '')
            if level == depth or show['v']['err'] or not show['o']['choices']:
                continue
            acts = [('choose', i) for i in range(len(show['o']['choices']))] + [('jump', i) for i in range(len(progs[p][2]))]
            for kind, i in acts:
                if len(seqs[p]) >= most:
                    break
                seqs[p].append(seqs[p][k] + [{'op': 'choose', 'i': i} if kind == 'choose' else {'op': 'jump', 'p': progs[p][2][i], 'reset': True}])
                nodes[p].append(None)
                nodes[p][k][kind][i] = len(nodes[p]) - 1
                todo[p].append(len(nodes[p]) - 1)
    return nodes


class Texts:
    def __init__(self):
        self.l, self.d = [], {}

    def __call__(self, s):
        if s not in self.d:
            self.l.append(s)
            self.d[s] = len(self.l)
        return self.d[s]

    def all(self, l):
        return [self(s) for s in l]


def doc(nodes, npaths, tx, keep=False, source=True, ok=True, play=True, message=''):
    alive = lambda k: k + 1 if k is not None and nodes[k] is not None else 0
    out = []
    for n in nodes:
        if n is None:
            out.append({'lines': [], 'dead': True, 'err': tx(''), 'choices': [], 'choose': [], 'jump': []})
            continue
        out.append({'lines': [{'t': tx(l['t']), 'g': tx.all(l['g']), 'w': tx.all(m for k, m in l['m'] if k == 'warning'), 'e': tx.all(m for k, m in l['m'] if k != 'warning')} for l in n['lines']],
                    'dead': n['err'] is not None, 'err': tx(n['err'] or ''), 'choices': [{'t': tx(c['t']), 'g': tx.all(c['g'])} for c in n['choices']],
                    'choose': [alive(n['choose'].get(i)) for i in range(len(n['choices']))],
                    'jump': [] if not n['jump'] else [{'to': alive(n['jump'].get(i)), 'ok': nodes[n['jump'][i]]['ok'] if alive(n['jump'].get(i)) else True,
                                                       'msg': tx(str(nodes[n['jump'][i]]['msg']) if alive(n['jump'].get(i)) else '')} for i in range(npaths)]})
    return {'nodes': out, 'junk': len(JUNKS), 'keep': keep, 'source': source, 'ok': ok, 'play': play, 'message': tx(message)}


def scripts(docs, most, tag, simulate=0):
    fn = os.path.join(BUILD, f'cli-{tag}-{os.getpid()}.json')
    json.dump(docs, open(fn, 'w'))
    args = ('-simulate', f'num={max(1, simulate // 8)}', '-depth', '40', '-seed', str(SEED)) if simulate else ()
    t = tlc('InkCli', CFG % (most, 'TRUE' if simulate else 'FALSE'), env={'CLI_DOCS': fn}, timeout=800, tag='cli-' + tag, args=args)
    os.remove(fn)
    tlc_must(t, 'InkCli ' + tag)
    out = {l[2:]: json.loads(l[2:]) for l in t.prints if l.startswith('C ')}
    t.generated, t.distinct = max(t.generated, len(out)), max(t.distinct, len(out))
    return [out[k] for k in sorted(out)], t


# ------------------------------------------------------------------ the tool
def objects(out):
    """the JSON objects of the standard output"""
    s = out.decode('utf-8')
    dec, i, l = json.JSONDecoder(strict=True), 0, []
    while True:
        while i < len(s) and s[i] in ' \t\r\n':
            i += 1
        if i == len(s):
            return l
        x, i = dec.raw_decode(s, i)
        if not isinstance(x, dict):
            raise ValueError(f'not an object: {x!r}')
        l.append(x)


def record(e, tx, paths):
    """the object a record of the specification stands for; None when only its kind is settled"""
    t = lambda i: tx.l[i - 1]
    k = e['k']
    if k == 'text':
        return {'text': t(e['v'])}
    if k in ('tags', 'issues'):
        return {k: [t(x) for x in e['v']]}
    if k == 'choices':
        return {k: [{'text': t(c['t']), **({'tags': [t(x) for x in c['g']], 'tag_count': len(c['g'])} if c['g'] else {})} for c in e['v']]}
    if k in ('compile-success', 'export-complete'):
        return {k: e['b']}
    return {k: True} if k in ('needInput', 'end', 'close') else None


def fits(e, o, tx, paths):
    want = record(e, tx, paths)
    if want is not None:
        return o == want
    if e['k'] == 'cmdOutput':
        return set(o) == {'cmdOutput'} and isinstance(o['cmdOutput'], str) and o['cmdOutput'] != ''
    p, m = paths[e['p'] - 1], tx.l[e['v'] - 1]
    return set(o) == {'issues'} and len(o['issues']) == 1 and isinstance(o['issues'][0], str) and p in o['issues'][0] and m in o['issues'][0]


def judge_json(exp, out, tx, paths):
    """None or what is wrong"""
    try:
        got = objects(out)
    except ValueError as e:
        return f'the output is not a sequence of JSON objects: {e}: {out[-200:]!r}'
    for i, e in enumerate(exp):
        if i >= len(got):
            return f'record {i} is missing: {e["k"]} {record(e, tx, paths)}'
        if not fits(e, got[i], tx, paths):
            return f'record {i} is {json.dumps(got[i])[:300]}, expected {e["k"]} {json.dumps(record(e, tx, paths))[:300]}'
    if len(got) > len(exp):
        return f'another record: {json.dumps(got[len(exp)])[:300]}'


def judge_plain(exp, told, out, err, tx):
    rx = ''.join('[^\\n]+\\n' if x.get('help') else re.escape(x['s'] if 's' in x else tx.l[x['t'] - 1]) for x in exp)
    try:
        s, es = out.decode('utf-8'), err.decode('utf-8')
    except ValueError as e:
        return f'the output is no text: {e}'
    if not re.fullmatch(rx, s, re.S):
        want = ''.join('<help>' if x.get('help') else x['s'] if 's' in x else tx.l[x['t'] - 1] for x in exp)
        i = next((i for i, (a, b) in enumerate(zip(s, want)) if a != b), min(len(s), len(want)))
        return f'the output differs at {i}: {s[max(0, i - 40):i + 80]!r}, expected {want[max(0, i - 40):i + 80]!r}'
    at = 0
    for m in told:
        k = es.find(tx.l[m - 1], at)
        if k < 0:
            return f'{tx.l[m - 1]!r} was not reported: {es[-300:]!r}'
        at = k + len(tx.l[m - 1])


def spell(r, e, paths):
    if e['k'] == 'num':
        return r.choice(['%d', '%d', ' %d ', '%d\t']) % e['n']
    if e['k'] == 'divert':
        return r.choice(['-> %s', '  ->  %s', '->\t%s ']) % paths[e['n'] - 1]
    return {'help': r.choice(HELPS), 'blank': r.choice(BLANKS), 'quit': r.choice(QUITS), 'junk': JUNKS[e['n'] - 1]}[e['k']]


class Box:
    """scratch directories in which the tool runs"""

    def __init__(self, tool):
        self.tool, self.dir = tool, tempfile.mkdtemp(prefix='c20-')

    def run(self, args, cwd, inp=b'', timeout=30):
        try:
            p = subprocess.run(['/bin/sh', '-c', 'ulimit -v 3000000; exec "$0" "$@"', self.tool] + args, cwd=cwd, input=inp, capture_output=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None, b'', b''
        return p.returncode, p.stdout, p.stderr

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def play(rep, box, progs, cases, tx, tag):
    """progs: [(name, source, json, paths, source?, keep, files)]; cases of InkCli; -> runs"""
    for i, p in enumerate(progs):
        d = os.path.join(box.dir, f'{tag}{i}')
        os.mkdir(d)
        open(os.path.join(d, 'p.ink'), 'w', newline='').write(p[1])
        open(os.path.join(d, 'p.json'), 'w', newline='').write(p[2])
        for f, s in p[6].items():
            open(os.path.join(d, f), 'w', newline='').write(s)

    def one(ic):
        i, c = ic
        name, src, js, paths, source, keep, _ = progs[c['d'] - 1]
        r = random.Random(f'{SEED}/{tag}/{i}')
        lines = [spell(r, e, paths) for e in c['inp']]
        text = ''.join(l + r.choice(['\n', '\n', '\n', '\r\n']) for l in lines)
        if c['out'] and c['out'][-1]['k'] == 'close' and text and c['inp'][-1]['k'] != 'blank' and r.random() < .3:
            text = text[:-1]                 # the last line without its end
        bad = []
        for mode in ('json', 'plain'):
            args = ['-p'] * source + ['-j'] * (mode == 'json') + ['-k'] * keep
            r.shuffle(args)
            if args and r.random() < .5:
                args = ['-' + ''.join(a[1] for a in args)]
            rc, out, err = box.run(args + ['p.ink' if source else 'p.json'], os.path.join(box.dir, f'{tag}{c["d"] - 1}'), text.encode('utf-8'))
            what = None
            if rc is None:
                what = 'it hangs'
            elif rc < 0 or rc > 100 or b'panicked at' in err:
                what = f'it dies: {err[-300:]!r}'
            elif mode == 'json':
                what = judge_json(c['out'], out, tx, paths)
            else:
                what = judge_plain(c['plain'], c['told'], out, err, tx)
            if not what and (rc == 0) != (c['code'] == 0):
                what = f'exit status {rc}, expected {c["code"]}: {err[-200:]!r}'
            if what:
                bad.append((mode, what, {'source': src, 'input': text, 'arguments': args, 'stdout': out.decode('utf-8', 'replace')[-3000:], 'stderr': err.decode('utf-8', 'replace')[-1000:]}))
        return name, bad
    with ThreadPoolExecutor(NPROC) as ex:
        for name, bad in ex.map(one, enumerate(cases)):
            for mode, what, data in bad:
                rep.violate(f"play:{mode}:{hashlib.sha1((data['source'] + data['input']).encode('utf-8', 'replace')).hexdigest()[:12]}", data, f'{name} ({mode}): {what}')
    return 2 * len(cases)


def compile_tool(rep, box, items, cases, tx, bins):
    """items: [(source, files, result of the library, file name)]"""
    def one(ic):
        i, c = ic
        src, files, res, fn = items[c['d'] - 1]
        r = random.Random(f'{SEED}/compile/{i}')
        d = os.path.join(box.dir, f'c{i}')
        os.mkdir(d)
        try:
            for f, s in [(fn, src)] + list(files.items()):
                open(os.path.join(d, f), 'w', newline='').write(s)
            out = r.choice([None, 'out.json', 'ö "x".json', os.path.join(d, 'abs.json')])
            there = os.path.join(d, out or (fn.rsplit('.', 1)[0] if '.' in fn else fn) + '.ink.json')
            before = None
            if r.random() < .3 and not os.path.exists(there):
                before = 'old'
                open(there, 'w').write(before)
            bad = []
            for mode in ('json', 'plain'):
                args = ['-j'] * (mode == 'json') + ['-c'] * (r.random() < .3)
                if out and r.random() < .5 and args:
                    args = args[:-1] + [args[-1] + 'o', out]
                elif out:
                    args += ['-o', out]
                args = args + [fn] if r.random() < .5 or (args and args[-1] == 'o') else [fn] + args
                cwd = d
                if r.random() < .3:          # named from elsewhere: what is relative is relative to the source
                    cwd = box.dir
                    args = [os.path.join(f'c{i}', a) if a == fn else a for a in args]
                rc, so, se = box.run(args, cwd)
                what = None
                if rc is None:
                    what = 'it hangs'
                elif rc < 0 or rc > 100 or b'panicked at' in se:
                    what = f'it dies: {se[-300:]!r}'
                elif mode == 'json':
                    what = judge_json(c['out'], so, tx, [])
                else:
                    what = judge_plain(c['plain'], c['told'], so, se, tx)
                if not what and (rc == 0) != (c['code'] == 0):
                    what = f'exit status {rc}, expected {c["code"]}'
                now = open(there, newline='').read() if os.path.exists(there) else None
                want = res['json'] if res['r'] == 'ok' else before
                if not what and now != want:
                    what = f'{there[len(d) + 1:]} holds {str(now)[:100]!r}, expected {str(want)[:100]!r}'
                if what:
                    bad.append((mode, what, {'source': src, 'files': files, 'arguments': args, 'stdout': so.decode('utf-8', 'replace')[-2000:], 'stderr': se.decode('utf-8', 'replace')[-1000:]}))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return fn, bad
    with ThreadPoolExecutor(NPROC) as ex:
        for fn, bad in ex.map(one, enumerate(cases)):
            for mode, what, data in bad:
                rep.violate(f"compile:{mode}:{hashlib.sha1((data['source'] + fn).encode('utf-8', 'replace')).hexdigest()[:12]}", data, f'{fn!r} ({mode}): {what}')
    return 2 * len(cases)


BROKEN = ['* {1 +} a', '-> k(', '~ x = = 2', 'A {"x} b', '~ f(']


def placed(bins, srcs, r, n):
    """[(source, files, name, (file, line))]: one line that is broken, in a source that is otherwise fine"""
    cand = []
    for _ in range(2 * n):
        _, s, f = r.choice(srcs)
        ls = ['/* a', 'b */'] * (r.random() < .2) + s.rstrip('\n').split('\n')
        x = r.random()
        if f or x < .25:
            cand.append([('p.ink', ls)] + [(a, b.split('\n')) for a, b in f.items()])
            continue
        a = r.randrange(len(ls) + 1)
        b = r.randint(a, len(ls))
        if x < .6:
            cand.append([('p.ink', ls[:a] + ['INCLUDE one.ink'] + ls[b:]), ('one.ink', ls[a:b])])
        else:
            c = r.randint(a, b)
            cand.append([('p.ink', ls[:a] + ['INCLUDE one.ink'] + ls[b:]), ('one.ink', ls[a:c] + ['INCLUDE two.ink'] + ls[c:b]), ('two.ink', [])])
    job = lambda c: {'src': '\n'.join(c[0][1]) + '\n', 'files': {a: '\n'.join(b) + '\n' for a, b in c[1:]}, 'name': c[0][0], 'want_json': True, 'compile': {'load': True}}
    out = []
    for c, q in zip(cand, run_jobs(bins['debug'], [job(c) for c in cand])):
        if q['r'] != 'ok':
            continue
        i = r.randrange(len(c))
        at = r.randint(0, len(c[i][1]))
        if at and c[i][1][at - 1].rstrip().endswith(('{', ':')) or at and '*/' in ''.join(c[i][1][at:]):
            continue
        ind = re.match(r'[ \t]*', c[i][1][at]).group() if at < len(c[i][1]) else ''
        if at < len(c[i][1]) and c[i][1][at].lstrip()[:1] in ('*', '+', '-', '='):
            ind = ''
        c = [(a, b[:at] + [ind + r.choice(BROKEN)] + b[at:] if k == i else b) for k, (a, b) in enumerate(c)]
        j = job(c)
        out.append((j['src'], j['files'], 'p.ink', (c[i][0], at + 1)))
    return out[:n]


RANDOM = re.compile(r'"(rnd|lrnd|seq|srnd)"')


def check():
    rep = Report('C20', 'model_checking')
    bins = {'debug': build('debug')}
    tool = build_rinklecate()
    log('built')
    k = 8 if THOROUGH else 1
    r = random.Random(SEED)
    ts, cov = [], {}
    # programs
    srcs = [(f'hostile{i}', program(f'{SEED}/c20/{i}'), {}) for i in range(250 * k)]
    srcs += [(n, s, {}) for n, s, _, _ in corpus_programs() if len(s) < 4000]
    srcs += [(p.name, p.src, {}) for p in generated('c20', 40 * k, 3)] + [(n, s, {}) for n, s, _, _ in wild.wild(f'{SEED}/c20', 100 * k, faults=.05)]
    rs = run_jobs(bins['debug'], [{'src': s, 'files': f, 'want_json': True, 'compile': {'load': True}} for _, s, f in srcs])
    good = [(n, s, q['json'], f) for (n, s, f), q in zip(srcs, rs) if q['r'] == 'ok' and q['load'] == 'ok' and not RANDOM.search(q['json'])]
    log('programs', len(srcs), 'to play', len(good))
    progs = []
    for n, s, js, f in good:
        kn = re.findall(r'^==+ *(?!function)(\w+)', s, re.M)
        paths = r.sample(kn, min(2, len(kn))) + r.sample(PATHS, 3)
        progs.append((n, s, js, paths, r.random() < .6, r.random() < .5, f))
    nodes = library(bins, [(p[0], p[2], p[3]) for p in progs], 40 if not THOROUGH else 120, 4)
    keep = [i for i in range(len(progs)) if nodes[i][0] is not None]
    progs, nodes = [progs[i] for i in keep], [nodes[i] for i in keep]
    log('recorded', sum(len(n) for n in nodes), 'nodes')
    tx = Texts()
    docs = [doc(n, len(p[3]), tx, keep=p[5], source=p[4]) for p, n in zip(progs, nodes)]
    small = [i for i in range(len(progs)) if nodes[i][0]['choices']]
    small = r.sample(small, min(len(small), 40 * k))
    with Box(tool) as box:
        sd = [docs[i] for i in small]
        for x in sd:
            x['junk'] = min(x['junk'], 22)
        cs, t = scripts(sd, 1, 'each')
        ts.append(t)
        if len(cs) > 1500 * k:
            cs = r.sample(cs, 1500 * k)
        log('inputs, every line', len(cs), f'{t.secs:.0f}s')
        cov['runs'] = play(rep, box, [progs[i] for i in small], cs, tx, 'e')
        cs, t = scripts(docs, 6, 'drawn', simulate=6000 * k)
        ts.append(t)
        log('inputs, drawn', len(cs), f'{t.secs:.0f}s')
        cov['runs'] += play(rep, box, progs, cs, tx, 'd')
        log('played', cov)
        # compiling
        bases = [c06.toks(b) for b in c06.BASES]
        l, t = c06.edits(bases, c06.WORDS, 'many', 3, 'c20', simulate=600 * k)
        ts.append(t)
        items = [(s, {}) for s, _ in r.sample(l, min(len(l), 700 * k))] + [(s, f) for _, s, f in r.sample(srcs, min(len(srcs), 200 * k))]
        for s, _ in items[:150 * k]:
            ls = s.split('\n')
            a = r.randrange(len(ls))
            items.append(('\n'.join(ls[:a] + ['INCLUDE one.ink'] + ls[a:a + 2]), {'one.ink': '\n'.join(ls[a + 2:]) + '\nINCLUDE tw"o.ink', 'tw"o.ink': r.choice(['', 'Two.', '~ x = = 1', '== kk\nx -> k'])}))
        place = placed(bins, srcs, r, 500 * k)
        items = [(s.replace('\x00', '').lstrip('\ufeff'), f, r.choice(NAMES)) for s, f in items]
        rs = run_jobs(bins['debug'], [{'src': s, 'files': f, 'name': fn, 'want_json': True, 'compile': {'load': True}} for s, f, fn in items])
        items = [(s, f, q, fn) for (s, f, fn), q in zip(items, rs) if q['r'] in ('ok', 'compile_err')]
        named = 0
        for (s, f, fn, (file, line)), q in zip(place, run_jobs(bins['debug'], [{'src': s, 'files': f, 'name': fn, 'want_json': True, 'compile': {'load': True}} for s, f, fn, _ in place])):
            if q['r'] == 'compile_err':
                items.append((s, f, q, fn))
                e = q['e']
                if e['line'] is not None:
                    named += 1
                    if (e['file'], e['line']) != (file, line):
                        rep.violate(f"line:{hashlib.sha1((s + file).encode()).hexdigest()[:12]}", {'source': s, 'files': f, 'broken': [file, line], 'error': e},
                                    f"an error in line {line} of {file} is reported as {e['msg']}")
                    elif not e['msg'].startswith(f'{file}:{line}:'):
                        rep.violate(f"told:{hashlib.sha1((s + file).encode()).hexdigest()[:12]}", {'source': s, 'files': f, 'error': e}, f"an error in line {line} of {file} is worded {e['msg']}")
        cov['errors_with_lines'] = named
        docs = [doc([], 0, tx, ok=q['r'] == 'ok', play=False, message=q['e']['msg'] if q['r'] != 'ok' else '') for _, _, q, _ in items]
        cs, t = scripts(docs, 1, 'compile')
        ts.append(t)
        cov['compiled'] = compile_tool(rep, box, items, cs, tx, bins)
        # what is no compiled story
        n = 0
        for name, s, js, f in r.sample(good, min(len(good), 25 * k)):
            t = js[:r.randrange(len(js))] if r.random() < .5 else js.replace('"inkVersion":', r.choice(['"x":', '"inkVersion":"', '"inkVersion":[],"y":']), 1)
            q = run_jobs(bins['debug'], [{'json': t, 'ops': []}])[0]
            if q['r'] != 'new_err':
                continue
            open(os.path.join(box.dir, 'bad.json'), 'w', newline='').write(t)
            for args in (['-j', 'bad.json'], ['bad.json'], ['-p', '-j', 'bad.json']):
                n += 1
                rc, so, se = box.run(args, box.dir)
                if rc is None or rc <= 0 or rc > 100 or so.strip() or not se.strip() or b'panicked' in se:
                    rep.violate(f'bad:{hashlib.sha1(t.encode()).hexdigest()[:12]}', {'json': t[:3000], 'status': rc, 'stdout': so.decode('utf-8', 'replace'), 'stderr': se.decode('utf-8', 'replace')},
                                f'{name}: a file that is no story: status {rc}, {so[:80]!r}')
        cov['bad_files'] = n
        cov['compile_errors'] = sum(q['r'] != 'ok' for _, _, q, _ in items)
        log('compiled', cov)
    rep.finish(states=sum(t.distinct for t in ts), transitions=sum(t.generated for t in ts), traces_validated_against_impl=cov['runs'] + cov['compiled'], programs=len(progs), **cov)


if __name__ == '__main__':
    main(check)
