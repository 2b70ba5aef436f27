"""The host-protocol suite: programs, their recorded transition systems, histories enumerated by
TLC from InkHost.tla, and their replay in the real code. Used by c02, c08, c09, c10, c16, c17, c18."""
import json, os, re, random
from vlib import *
import inkgen

SCEN = os.path.join(V, 'gen', 'scen')
EXTB = [{'op': 'bind', 'n': 'safe', 'safe': True, 'ret': {'k': 'sum', 'v': 100}},
        {'op': 'bind', 'n': 'act', 'safe': False, 'ret': {'k': 'none'}}]


class Prog:
    """src, vars per flow, visits per flow, roots per flow (knot to jump to; None for the default flow)"""

    def __init__(self, name, src, gvars, visits, setup=(), roots=None, count_all=True, jumps=()):
        self.name, self.src, self.vars, self.visits = name, src, gvars, visits
        self.setup, self.roots, self.count_all = list(setup), roots or {'': None}, count_all
        self.evals, self.json, self.jumps, self.wanders = [], None, set(jumps), ()

    def allvars(self):
        return [v for f in self.roots for v in self.vars[f]]

    def allvisits(self):
        return [v for f in self.roots for v in self.visits[f]]

    def hooks(self):
        return self.setup + [{'op': 'observe', 'o': 'o1', 'n': n, 'q': True} for n in self.allvars()]

    def base(self):
        return {'json': self.json, 'watch': {'vars': self.allvars(), 'visits': self.allvisits()}}


def scenario(name):
    src = open(os.path.join(SCEN, name + '.ink')).read()
    gv = re.findall(r'^(?:VAR|LIST) (\w+)', src, re.M)
    kn = re.findall(r'^=== *(?:function +)?(\w+)', src, re.M)
    setup = [dict(o, q=True) for o in EXTB] + [{'op': 'fallbacks', 'v': True, 'q': True}] if name == 'ext' else []
    return Prog(name, src, {'': gv}, {'': kn}, setup)


SCENARIOS = ['lists', 'tunnels', 'threads', 'random', 'glue', 'vars', 'errors', 'ext', 'weave', 'types']

FUNCS = '''
=== function zf1(zx) ===
~ return zx * 3 + 1
=== function zf2(zx) ===
One {zx}
~ temp zy = zx + zx
Two {zy} #ftag
~ return zy
=== function zf3(zn) ===
{zn > 0:
    ~ return zn + zf3(zn - 1)
}
~ return 0
=== function zf4(zs) ===
<> glued "{zs}{zs}" <>
=== function zf5(zs) ===
~ temp zq = "<{zs}>"
{zs == "a": yes|no}
~ return zq + zq
=== function zf6() ===
~ return 1 > 2
'''
# (call, value, text): what the functions above are defined to return and print
FEVALS = [('zf1', ['i:4'], 'i:13', ''), ('zf2', ['i:5'], 'i:10', 'One 5\nTwo 10\n'), ('zf3', ['i:6'], 'i:21', ''),
          ('zf4', ['s:k'], '', 'glued "kk"'), ('zf5', ['s:a'], 's:<a><a>', 'yes\n'), ('zf6', [], 'b:false', '')]


def generated(tag, n, size, feats=None):
    out = []
    for i in range(n):
        p = inkgen.gen_program(f'{SEED}/{tag}/{i}', size, feats)
        sj = inkgen.spec_json(p)
        out.append(Prog(f'gen:{tag}/{i}', inkgen.source(p), {'': [g['n'] for g in sj['globals']]}, {'': list(sj['watch'])}))
    return out


def with_functions(p):
    p.src = p.src.rstrip('\n') + '\n' + FUNCS
    p.evals = [{'op': 'eval', 'fn': f, 'args': a} for f, a, _, _ in FEVALS]
    p.expect = [{'v': v, 't': t} for _, _, v, t in FEVALS]
    return p


RENAME = re.compile(r'\b((?:tt|la|[kthfvbspqwad])\d+|lcol|red|green|blue|cyan)\b')


def multiflow(tag, n, size, k=2):
    """k generated programs over disjoint knots and variables in one: the default flow plays the
    first, flow "f1" the second, ..."""
    out = []
    for i in range(n):
        heads, bodies, gv, vis, roots = [], [], {}, {}, {}
        for j in range(k):
            p = inkgen.gen_program(f'{SEED}/{tag}/{i}/{j}', size, {'turns': 0})
            sj = inkgen.spec_json(p)
            s = RENAME.sub(lambda m: f'x{j}{m.group(1)}', inkgen.source(p))
            f = '' if j == 0 else f'f{j}'
            head = [l for l in s.split('\n') if re.match(r'(VAR|CONST|LIST) ', l)]
            body = [l for l in s.split('\n') if not re.match(r'(VAR|CONST|LIST) ', l)]
            heads += head
            bodies.append(f'=== xr{j} ===\n' + '\n'.join(body))
            gv[f] = [f'x{j}' + g['n'] for g in sj['globals']]
            vis[f] = [f'x{j}' + w for w in sj['watch']] + [f'xr{j}']
            roots[f] = f'xr{j}' if j else None
        src = '\n'.join(heads) + '\n-> xr0\n' + '\n'.join(bodies)
        out.append(Prog(f'gen:{tag}/{i}', src, gv, vis, roots=roots))
    return out


# ------------------------------------------------------------------ learning the transition system
def start_ops(prog, f):
    if f == '':
        return []
    if f in prog.jumps:
        return [{'op': 'jump', 'p': prog.roots[f], 'reset': True, 'q': True}]
    return [{'op': 'switch', 'f': f, 'q': True}, {'op': 'jump', 'p': prog.roots[f], 'q': True}]


def compile_all(progs, binary):
    """sets .json; programs that do not compile are dropped (C01/C06 judge that)"""
    have, progs = [p for p in progs if p.json], [p for p in progs if not p.json]
    res = run_jobs(binary, [{'src': p.src, **({} if p.count_all is None else {'count_all': p.count_all}), 'compile': {}, 'want_json': True} for p in progs])
    out = have
    for p, r in zip(progs, res):
        if r['r'] == 'ok':
            p.json = r['json']
            out.append(p)
        else:
            log('not compiled:', p.name, str(r)[:200])
    return out


def learn(progs, binary, depth, nodes, lines=40, save=False, seed=42):
    """plain play of every flow of every program -> prog.tree (all flows' nodes in one list)"""
    progs = compile_all(progs, binary)
    jobs, back = [], []
    for p in progs:
        for f in p.roots:
            jobs.append(dict(p.base(), seed=seed, setup=p.hooks() + start_ops(p, f),
                             tree={'depth': depth, 'nodes': nodes, 'lines': lines, 'save': save}))
            back.append((p, f))
    res = run_jobs(binary, jobs, timeout=60)
    for p in progs:
        p.nodes, p.root, p.bad = [], {}, None
    for (p, f), r in zip(back, res):
        if r['r'] != 'ok' or any(n['r'] not in ('ok', 'err') for n in r['nodes']):
            p.bad = r['r'] if r['r'] != 'ok' else [n for n in r['nodes'] if n['r'] not in ('ok', 'err')][0]
            continue
        off = len(p.nodes)
        p.root[f] = off + 1
        for n in r['nodes']:
            par = n['p']
            p.nodes.append({'id': len(p.nodes) + 1, 'par': off + par + 1 if par >= 0 else 0, 'e': n['e'], 'r': n['r'],
                            'v': n.get('v'), 'o': n['o'], 'flow': f, 'save': n.get('save'), 'c': 0, 'k': []})
        for n in p.nodes[off:]:
            if n['r'] == 'ok' and not n['o']['can']:
                n['k'] = [0] * len(n['o']['choices'])
        for n in p.nodes[off:]:
            if n['par']:
                q = p.nodes[n['par'] - 1]
                if n['e'] == -1:
                    q['c'] = n['id']
                elif n['e'] >= 0:
                    q['k'][n['e']] = n['id']
    for p in progs:
        # an error is a matter of the whole story, not of one flow
        if not p.bad and len(p.roots) > len(p.jumps) + 1 and any(n['r'] == 'err' for n in p.nodes):
            p.bad = 'a flow with errors'
    good = [p for p in progs if not p.bad and len(p.nodes) > 1]
    for p in progs:
        if p.bad:
            log('not learned:', p.name, str(p.bad)[:200])
    return good


def path_ops(p, nid):
    """the plain calls that lead to node nid (within its flow)"""
    ops = []
    while p.nodes[nid - 1]['par']:
        n = p.nodes[nid - 1]
        ops.append({'op': 'cont', 'q': True} if n['e'] == -1 else {'op': 'choose', 'i': n['e'], 'q': True})
        nid = n['par']
    return start_ops(p, p.nodes[nid - 1]['flow']) + ops[::-1]


# ------------------------------------------------------------------ histories
def bad_calls(p=None):
    """calls that must be refused wherever they are made"""
    def b(when='any', **op):
        return {'when': when, 'op': op}
    return [
        b('end', op='cont'), b('end', op='slices', ks=[]), b('end', op='async', k=3),
        b('can', op='choose', i=0), b(op='choose', i=77),
        b(op='set', n='nosuch', v='i:1'), b(op='set', n='', v='s:x'), b(op='set', n='zznope', v='b:true'),
        b(op='observe', o='o1', n='nosuch'), b(op='observe', o='o2', n=''),
        b(op='unobserve', o='o9'), b(op='unobserve', o='o9', n='zzg'), b(op='unobserve', o='o1', n='nosuch'),
        b(op='eval', fn='nosuch'), b(op='eval', fn=''), b(op='eval', fn='  '), b(op='eval', fn='zf1', args=['g:zzd']),
        b(op='eval', fn='zf2', args=['i:1', 'g:zzd']), b(op='eval', fn='zf1.nosuch'),
        b(op='jump', p='nosuch'), b(op='jump', p='nosuch.more', reset=False), b(op='jump', p='zf6', args=['g:zzd']),
        b(op='jump', p='zf6', args=['i:1', 'g:zzd'], reset=False), b(op='jump', p='no such'),
        b(op='jump', p='99999'), b(op='jump', p='99999', reset=False), b(op='jump', p='zf6.99999'),
        b(op='remove', f='nosuch'), b(op='remove', f=''), b(op='remove', f='DEFAULT_FLOW'),
        b(op='bind', n='zzbound', safe=False, ret={'k': 'int', 'v': 8}), b(op='bind', n='zzbound', safe=True, ret={'k': 'none'}), b(op='unbind', n='zzunbound'),
        b(op='load_text', text=''), b(op='load_text', text='{'), b(op='load_text', text='[]'), b(op='load_text', text='{}'),
        b(op='load_text', text='{"inkSaveVersion":10}'), b(op='load_text', text='{"inkSaveVersion":3,"flows":{}}'),
        b(op='load_text', text='{"inkSaveVersion":10,"flows":{"DEFAULT_FLOW":{}},"currentFlowName":"DEFAULT_FLOW","variablesState":{},"evalStack":[],"visitCounts":{},"turnIndices":{},"turnIdx":5,"storySeed":1,"previousRandom":2}'),
    ]


ZZ = [{'op': 'bind', 'n': 'zzbound', 'safe': True, 'ret': {'k': 'int', 'v': 7}, 'q': True}]
DEFLIM = {k: 0 for k in ('slice', 'save', 'load', 'fresh', 'transfer', 'reset', 'flow', 'detour', 'remove', 'jump', 'bad', 'eval', 'wander')}


def doc(p, lim, need, length, slices=(), bad=(), evals=0, wanders=0, uniform=False):
    return {'tree': [{'c': n['c'], 'k': n['k'], 'can': n['o']['can'], 'sv': n['r'] == 'ok', 'fl': n['flow']} for n in p.nodes],
            'roots': p.root, 'flows': [f for f in p.roots if f not in p.jumps], 'jumps': sorted(p.jumps), 'lim': dict(DEFLIM, **lim), 'need': need, 'len': length,
            'slices': list(slices), 'bad': list(bad), 'evals': evals, 'wanders': wanders, 'uniform': uniform,
            'maxch': max([len(n['k']) for n in p.nodes] + [1])}


HCFG = """SPECIFICATION Spec
INVARIANT TypeOK
PROPERTY StutterOK
PROPERTY Independent
CHECK_DEADLOCK FALSE
"""


def histories(docs, tag, simulate=0, timeout=600, depth=80, cap=None):
    """[(program index, history)], TlcResult"""
    fn = os.path.join(BUILD, f'host-{tag}-{os.getpid()}.json')
    json.dump(docs, open(fn, 'w'))
    args, cfg = (), HCFG
    if simulate:
        args = ('-simulate', f'num={max(1, simulate // 8)}', '-depth', str(depth), '-seed', str(SEED))
        cfg = HCFG.replace('PROPERTY StutterOK\nPROPERTY Independent\n', '')
    t = tlc('InkHost', cfg, env={'HOST_DOCS': fn}, timeout=timeout, tag='host-' + tag, args=args)
    os.remove(fn)
    if t.timeout or any('violated' in e for e in t.errors) or (t.rc != 0):
        tlc_must(t, 'InkHost ' + tag)
    hs, seen = [], set()
    for l in t.prints:
        if l.startswith('H '):
            if l in seen:
                continue
            seen.add(l)
            h = json.loads(l[2:])
            hs.append((h['p'] - 1, h['h']))
    if simulate:
        m = re.findall(r'Progress: (\d+) states checked, (\d+) traces', t.out)
        t.generated = max(t.generated, sum(len(h) + 1 for _, h in hs))
        t.distinct = max(t.distinct, t.generated)
    hs.sort(key=lambda x: json.dumps(x))
    if cap and len(hs) > cap:
        hs = random.Random(SEED).sample(hs, cap)
    return hs, t


# ------------------------------------------------------------------ replay
def replay_job(p, h, slices=(), bad=(), wanders=(), mid=(), seed=42):
    """job, and for each history step the index of the op whose result is judged (and more indices)"""
    ops, at = [dict(o, q=True) for o in p.hooks()], []
    fresh = [{'op': 'fresh', 'seed': 1234567, 'q': True}] + [dict(o, q=True) for o in p.hooks()]

    def sw(f):
        return {'op': 'default_flow'} if f == '' else {'op': 'switch', 'f': f}
    if callable(mid):
        mid = mid(p)
    if mid:
        ops.append({'op': 'save', 'slot': 'mid', 'q': True})
    for s in h:
        a, x = s['a'], s['x']
        more = {}
        if a == 'cont':
            ops.append({'op': 'cont'})
        elif a == 'slices':
            ops.append({'op': 'slices', 'ks': slices[x - 1], 'mid': list(mid)})
        elif a == 'choose':
            ops.append({'op': 'choose', 'i': x - 1})
        elif a == 'save':
            ops.append({'op': 'save', 'slot': f's{x}'})
        elif a == 'load':
            ops.append({'op': 'load', 'slot': f's{x}'})
        elif a == 'fresh':
            ops += fresh + [{'op': 'load', 'slot': f's{x}'}]
        elif a == 'transfer':
            ops += [{'op': 'save', 'slot': 't', 'q': True}, {'op': 'savejson', 'q': True}]
            more['before'] = len(ops) - 1
            ops += fresh + [{'op': 'load', 'slot': 't'}]
            more['loaded'] = len(ops) - 1
            ops += [{'op': 'savejson'}]
            more['after'] = len(ops) - 1
        elif a == 'reset':
            ops.append({'op': 'reset'})
        elif a == 'start':
            ops += start_ops(p, x)
            ops[-1] = {k: v for k, v in ops[-1].items() if k != 'q'}
        elif a == 'jump':
            ops += [dict(o) for o in start_ops(p, x)]
            ops[-1].pop('q')
        elif a == 'switch':
            ops.append(sw(x))
        elif a == 'detour':
            ops += [dict(sw(x), q=True), sw(s['cur'])]
        elif a == 'remove':
            ops.append({'op': 'remove', 'f': x})
        elif a == 'bad':
            ops.append(bad[x - 1]['op'])
        elif a == 'eval':
            ops.append(p.evals[x - 1])
        elif a == 'wander':
            ops += [dict(o, q=True) for o in wanders[x - 1]]
        at.append((len(ops) - 1, more))
    return dict(p.base(), ops=ops, seed=seed), at


def strip_notes(ns):
    return [(n['o'], n['n'], n['v']) for n in ns]


def expected(p, s, prevpos):
    """the observation the specification prescribes after step s"""
    n = p.nodes[s['pos'][s['cur']] - 1]
    o = n['o']
    vs, vi = {}, {}
    for f in p.roots:
        q = p.nodes[(s['own'][f] or p.root['']) - 1]['o']
        for v in p.vars[f]:
            vs[v] = q['vars'][v]
        for v in p.visits[f]:
            vi[v] = q['visits'][v]
    return n, {'can': o['can'], 'text': o['text'], 'tags': o['tags'], 'choices': o['choices'], 'vars': vs, 'visits': vi}


FIELDS = ('can', 'text', 'tags', 'choices', 'vars', 'visits')


def judge(p, h, at, res, bad=(), errs=False, fields=FIELDS, notes=True):
    """None, or (step number, what differs)"""
    if res['r'] in ('crash', 'hang', 'compile_err', 'new_err') or 'ops' not in res:
        return 0, f"the run failed: {str(res)[:300]}"
    R = res['ops']
    prev = None
    for i, (s, (k, more)) in enumerate(zip(h, at)):
        a = s['a']
        if k >= len(R) or R[k]['r'] in ('panic', 'fuel'):
            last = R[-1]
            if a == 'wander' or (i and h[i - 1]['a'] == 'wander' and k - 1 >= len(R)):
                return None  # whether the calls of a wander fail is not judged here
            return i, f"{a}: {last.get('r')} {last.get('msg')} at {last.get('at')}"
        if a == 'wander':
            continue
        r = R[k]
        n, exp = expected(p, s, prev)
        if a == 'bad':
            if r['r'] != 'err':
                return i, f"a call that must be refused succeeded: {bad[s['x'] - 1]['op']} -> {r.get('v')}"
            if r['o']['notes'] or r['o']['calls']:
                return i, f"a refused call was noticed: {bad[s['x'] - 1]['op']} -> {r['o']['notes']} {r['o']['calls']}"
        elif a == 'eval':
            e = p.expect[s['x'] - 1] if not isinstance(p.expect, dict) else p.expect[n['id']][s['x'] - 1]
            if n['r'] == 'err':
                if r['r'] != 'err':
                    return i, f"a function was evaluated in a story stopped by an error: {r.get('v')}"
            elif r['r'] != 'ok' or r.get('v') != e:
                return i, f"eval {p.evals[s['x'] - 1]} gave {r['r']} {r.get('v')}, expected {e}"
        elif a in ('cont', 'slices', 'choose'):
            if r['r'] != n['r']:
                return i, f"{a} gave {r['r']} {r.get('v')}, plain play gives {n['r']}"
            rn, en = strip_notes(r['o']['notes']), strip_notes(n['o']['notes'])
            if notes and sorted(rn) != sorted(en):
                return i, f"{a}: observers were told {rn}, in plain play {en}"
            rc = [(c['n'], c['a']) for c in r['o']['calls']]
            ec = [(c['n'], c['a']) for c in n['o']['calls']]
            if rc != ec:
                return i, f"{a}: externals called {rc}, in plain play {ec}"
            if errs and a != 'choose' and (r['o']['errs'], r['o']['warns']) != (n['o']['errs'], n['o']['warns']):
                return i, f"{a}: errors {r['o']['errs']} {r['o']['warns']}, in plain play {n['o']['errs']} {n['o']['warns']}"
            if a == 'slices' and isinstance(r.get('v'), dict) and r['v'].get('mid'):
                ms = [m for m in r['v']['mid'] if m['r'] != 'err']
                if ms:
                    return i, f"while a time-limited continue was unfinished a call was accepted: {ms[0]}"
        elif r['r'] != 'ok':
            return i, f"{a} {s['x']} failed: {r.get('v')}"
        if a == 'transfer':
            for z in ('before', 'loaded', 'after'):
                if R[more[z]]['r'] != 'ok':
                    return i, f"{z}: {R[more[z]].get('v')}"
            if R[more['before']]['v'] != R[more['after']]['v']:
                return i, 'saving the loaded story again gives a different save: ' + sdiff(R[more['before']]['v'], R[more['after']]['v'])
        o = r.get('o')
        if o is None:
            return i, f'no observation after {a}'
        for f in fields:
            if f in ('text', 'tags') and not n['par'] and n['flow'] in p.jumps:
                continue  # what was shown before the jump
            if o[f] != exp[f]:
                if f in ('vars', 'visits'):
                    d = {v: (o[f].get(v), exp[f][v]) for v in exp[f] if o[f].get(v) != exp[f][v]}
                    return i, f"after {a} {s['x']}: {f} (got, expected) {d}"
                return i, f"after {a} {s['x']}: {f} is {o[f]!r}, expected {exp[f]!r}"
        prev = s
    if res['r'] != 'ok':
        return len(h), f"the run ended with {res.get('r')} {res.get('msg')}"
    return None


def sdiff(a, b):
    ja, jb = json.loads(a), json.loads(b)
    out = []

    def go(x, y, path):
        if x == y or len(out) > 3:
            return
        if isinstance(x, dict) and isinstance(y, dict):
            for k in sorted(set(x) | set(y)):
                go(x.get(k), y.get(k), path + '.' + k)
        elif isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
            for i, (m, n) in enumerate(zip(x, y)):
                go(m, n, f'{path}[{i}]')
        else:
            out.append(f'{path}: {str(x)[:80]} / {str(y)[:80]}')
    go(ja, jb, '')
    return '; '.join(out)


def replay(rep, progs, hs, binary, label, slices=(), bad=(), wanders=None, mid=(), errs=False, fields=FIELDS, timeout=30, notes=True):
    """replays every history; reports violations; returns the number that conform and some samples"""
    jobs, ats = [], []
    for pi, h in hs:
        p = progs[pi]
        j, at = replay_job(p, h, slices, bad, p.wanders if wanders is None else wanders, mid)
        jobs.append(j)
        ats.append(at)
    res = run_jobs(binary, jobs, timeout=timeout)
    ok, samples, seen = 0, [], {}
    for (pi, h), at, j, r in zip(hs, ats, jobs, res):
        p = progs[pi]
        d = judge(p, h, at, r, bad, errs, fields, notes)
        if d is None:
            ok += 1
            if len(samples) < 2 and len(h) > 3:
                samples.append({'program': p.name, 'history': [f"{s['a']} {s['x']}" for s in h]})
            continue
        i, what = d
        sig = (p.name, re.sub(r'\d+', '#', what)[:60])
        seen[sig] = seen.get(sig, 0) + 1
        if seen[sig] > 1:
            continue
        rep.violate(f"{label}:{p.name}:{'.'.join(s['a'][0:3] + str(s['x']) for s in h[:i + 1])}",
                    {'source': p.src, 'history': [(s['a'], s['x']) for s in h], 'step': i, 'what': what,
                     'ops': j['ops'], 'results': r.get('ops', r)}, f'{p.name} step {i}: {what}')
    return ok, samples


def corpus():
    """the stories of the conformance corpus, as the reference compiler wrote them"""
    root = os.path.join(REPO, 'conformance-tests', 'inkfiles')
    out = []
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if not f.endswith('.ink.json') or f.startswith('TheIntercept'):
                continue
            j = open(os.path.join(d, f), encoding='utf-8-sig').read()
            try:
                doc_ = json.loads(j)
            except ValueError:
                continue
            named = doc_['root'][-1] if isinstance(doc_['root'][-1], dict) else {}
            gd = json.dumps(named.get('global decl', []))
            gv = sorted(set(re.findall(r'"VAR=": "(\w+)"', gd)))
            knots = sorted(k for k in named if not k.startswith('#') and k != 'global decl')
            p = Prog('corpus:' + os.path.relpath(os.path.join(d, f), root), '(corpus)', {'': gv}, {'': knots},
                     [{'op': 'fallbacks', 'v': True, 'q': True}])
            p.json = j
            out.append(p)
    return out


def suite(prop, rep, groups, run):
    """groups: [(label, programs, learn(depth, nodes), make_doc, simulate, replay options)];
    learns, enumerates, replays; run(label, progs, hs) -> (ok, samples) is replay by default"""
    tot = dict(states=0, transitions=0, traces_validated_against_impl=0, histories=0, programs=0)
    samples = []
    for label, progs, (depth, nodes), mk, sim, opts in groups:
        b = opts.pop('binary')
        progs = learn(progs, b, depth, nodes)
        docs = [mk(p) for p in progs]
        hs, t = histories(docs, prop.lower() + label, simulate=sim, cap=opts.pop('cap', None), depth=opts.pop('sdepth', 80))
        tot['states'] += t.distinct
        tot['transitions'] += t.generated
        tot['programs'] += len(progs)
        tot['histories'] += len(hs)
        ok, s = replay(rep, progs, hs, b, label, **opts)
        tot['traces_validated_against_impl'] += ok
        samples += s
        log(label, 'programs', len(progs), 'states', t.distinct, f'tlc {t.secs:.0f}s', 'histories', len(hs), 'conform', ok)
    rep.finish(samples=samples[:4], **tot)
