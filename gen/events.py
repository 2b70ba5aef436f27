"""Generated programs played by the real code with observers, bound functions and an error handler,
against InkEvents.tla.  Used by C11, C12 and C13."""
import random
from vlib import *
from inkgen import *

CFG = """SPECIFICATION SpecEv
INVARIANT TypeOK
INVARIANT Settled
INVARIANT OnceOnly
INVARIANT InOrder
PROPERTY Monotone
CHECK_DEADLOCK FALSE
"""


def turns(nodes):
    """recorded tree (one node per continue or choice) -> one node per turn"""
    kids = {}
    for i, n in enumerate(nodes):
        kids.setdefault(n['p'], []).append(i)
    out = []

    def build(i, w0):
        o = nodes[i]['o']
        t = {'lines': [], 'chs': [], 'vars': [], 'visits': [], 'err': False, 'kids': [], 'cs': [], 'can': False, 'w0': w0,
             'pre': [str(x) for x in o['notes'] + o['calls'] + o['handler']] if o else []}
        out.append(t)
        me = len(out)
        cur = i
        while True:
            n = nodes[cur]
            o = n['o']
            if n['r'] not in ('ok', 'err'):
                t['bad'] = f"{n['r']} {n.get('msg', '')} {n.get('at', '')}"
                return me
            if cur != i:
                herr = any(k == 'error' for k, _ in o['handler'])
                x = o['text'] or ''
                nl = x.endswith('\n')
                if n['r'] == 'ok' and not herr or x:
                    t['lines'].append({'x': x[:-1] if nl else x, 'nl': nl, 'tg': o['tags'] or []})
                t['cs'].append({'notes': [{'o': y['o'], 'n': y['n'], 'v': y['v'], 'late': y['steps'] == o['steps']} for y in o['notes']],
                                'calls': [{'n': y['n'], 'a': y['a']} for y in o['calls']],
                                'err': n['r'] == 'err', 'errs': o['errs'], 'warns': o['warns'], 'hand': o['handler']})
                if n['r'] == 'err' or herr:
                    t['err'] = True
                    break
            nx = [k for k in kids.get(cur, []) if nodes[k]['e'] == -1]
            if o['can'] and nx:
                cur = nx[0]
                continue
            if o['can']:
                out[me - 1] = None
                return 0
            break
        t['can'] = o['can']
        t['chs'] = [{'x': c['t'], 'tg': c['g']} for c in o['choices']]
        t['vars'] = list(o['vars'].values())
        t['visits'] = list(o['visits'].values())
        for k in range(len(t['chs'])):
            c = [x for x in kids.get(cur, []) if nodes[x]['e'] == k]
            t['kids'].append(build(c[0], o['warns']) if c and not t['err'] else 0)
        return me
    build(0, [])
    new, kept = {0: 0}, []
    for i, t in enumerate(out):
        if t is not None:
            kept.append(t)
            new[i + 1] = len(kept)
    for t in kept:
        t['kids'] = [new[k] for k in t['kids']]
    return kept


def ret(x):
    return {'int': {'k': 'int', 'v': x['v']}, 'sum': {'k': 'sum', 'v': x['v']}, 'arg': {'k': 'arg', 'v': 0}, 'argS': {'k': 'arg', 'v': 0}, 'str': {'k': 'str', 'v': x['v']},
            'bool': {'k': 'bool', 'v': bool(x['v'])}, 'none': {'k': 'none'}}[x['ret']]


def run(rep, items, binary, tag, depth=4, nodes=40, observe=False, handler=False, bind='bound', timeout=800, fuel=20000):
    """items [(key, prog)]; prog['events'] is set.  bind: bound | fallback.  Reports violations; returns coverage"""
    jobs, sjs, metas = [], [], []
    for key, p in items:
        p = dict(p, events=True)
        sj = spec_json(p)
        vs = [g['n'] for g in sj['globals']]
        r = random.Random(f'{key}/obs')
        obs = []
        if observe:
            obs = [['o1', n] for n in vs if r.random() < .85] + [['o2', n] for n in vs if r.random() < .4]
        setup = [{'op': 'observe', 'o': o, 'n': n} for o, n in obs]
        if bind == 'bound':
            setup += [{'op': 'bind', 'n': n, 'safe': x['safe'], 'ret': ret(x)} for n, x in p['exts'].items()]
        elif p['exts']:
            setup.append({'op': 'fallbacks', 'v': True})
        if handler:
            setup.append({'op': 'handler'})
        r.shuffle(setup)
        jobs.append({'src': source(p), 'watch': {'vars': vs, 'visits': sj['watch']}, 'fuel': fuel, 'setup': setup,
                     'tree': {'depth': depth, 'nodes': nodes, 'lines': 60}})
        sjs.append(dict(sj, obs=obs, handler=handler))
    res = run_jobs(binary, jobs, timeout=30)
    docs, back = [], []
    tot = dict(programs=len(items), turns=0, events=0, continues=0, cut=0, out_of_fuel=0)
    for (key, p), sj, job, x in zip(items, sjs, jobs, res):
        if x['r'] != 'ok':
            rep.violate(f'{tag}:{key}', {'source': job['src'], 'setup': job['setup'], 'result': str(x)[:800]}, f"{key}: {str(x)[:250]}")
            continue
        t = turns(x['nodes'])
        bad = [y['bad'] for y in t if y.get('bad')]
        if bad:
            rep.violate(f'{tag}:{key}', {'source': job['src'], 'setup': job['setup'], 'result': bad[0]}, f'{key}: {bad[0][:250]}')
        elif not t:
            tot['cut'] += 1
        else:
            sj = dict(sj, nocalls=bind == 'fallback')
            if bind == 'fallback':    # nothing is bound: no calls are recorded, and what is due runs in Ink
                sj = dict(sj, exts={n: dict(y, safe=True) if y else y for n, y in sj['exts'].items()})
            docs.append(dict(sj, tree=t))
            back.append((key, job))
    fn = os.path.join(BUILD, f'ev-{tag}-{os.getpid()}.json')
    json.dump(docs, open(fn, 'w'))
    t = tlc('InkEvents', CFG, env={'INK_PROGS': fn}, timeout=timeout, tag=tag)
    os.remove(fn)
    samples = []
    for l in t.prints:
        if l.startswith('TURN '):
            d = json.loads(l[5:])
            tot['turns'] += 1
            tot['events'] += d['ev']
            tot['continues'] += d['k']
            if len(samples) < 2 and d['ev'] > 3:
                rec = docs[d['p'] - 1]['tree'][d['r'] - 1]
                samples.append({'program': back[d['p'] - 1][0], 'turn': d['r'], 'lines': [y['x'] for y in rec['lines']][:4], 'continues': [{k: v for k, v in c.items() if v} for c in rec['cs']][:3]})
        elif l.startswith('BAD '):
            d = json.loads(l[4:])
            key, job = back[d['p'] - 1]
            rep.violate(f'{tag}:{key}', {'source': job['src'], 'setup': job['setup'], 'why': d['why'], 'expected': d['exp'], 'got': d['got'], 'events': d['ev'], 'fatal': d['fatal']},
                        f"{key} turn {d['r']}: {d['why']} " + (json.dumps({'exp': d['exp'], 'got': {k: d['got'][k] for k in d['exp']}}) if d['why'] == 'play' else json.dumps({'ev': d['ev'], 'cs': d['got']['cs']}))[:400])
        elif l.startswith('FUEL '):
            tot['out_of_fuel'] += 1
    tlc_must(t, f'InkEvents {tag}')
    log(tag, tot, f'tlc {t.secs:.0f}s', 'violations', len(rep.violations))
    return dict(tot, states=t.distinct, transitions=t.generated, traces_validated_against_impl=tot['turns']), samples


def add(a, b):
    return {k: a.get(k, 0) + b.get(k, 0) for k in {**a, **b}}
