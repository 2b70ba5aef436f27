"""C11: variable observers, against InkEvents.tla (what a generated program's play must make heard)
and InkWatch.tla (the registry of observers over random host histories)."""
from events import *
import host

OBS = ['o1', 'o2', 'o3']


def with_setters(p):
    vs = p.allvars()
    p.src = p.src.rstrip('\n') + '\n'
    p.fns = []
    for i, n in enumerate(vs[:4]):
        p.src += (f'=== function zs{i}(zv) ===\n~ {n} = zv\n~ return zv\n=== function zt{i}(zv) ===\nText <>\n~ {n} = zv\nmore {{{n}}}\n'
                  f'~ zref({n}, zv)\n=== function zw{i}(zv) ===\n~ temp zk = {n}\n~ {n} = zv\n{{zv}}\n~ {n} = zk\n')
        p.fns += [f'zs{i}', f'zt{i}', f'zw{i}']
    p.src += '=== function zref(ref zy, zx) ===\n~ zy = zx\n~ return zy\n'
    return p


def history(p, r, n):
    """a random host history: observers come and go anywhere in it"""
    vs = p.allvars()
    kn = p.allvisits() or ['nowhere']
    flows = ['', 'wa', 'wb']
    vals = ['i:0', 'i:1', 'i:7', 'i:-3', 's:zz', 's:', 'b:true', 'f:0.5'] + [f'g:{v}' for v in vs[:3]]
    val = lambda: r.choice(vals)
    ops = []
    quiet = r.random() < .5     # many registrations first, or in between
    tried = set()

    def observe():
        o, n = r.choice(OBS), r.choice(vs + ['nowhere'] if r.random() < .2 else vs)
        if (o, n) not in tried or r.random() < .01:     # (registered twice: left open)
            ops.append({'op': 'observe', 'o': o, 'n': n})
            tried.add((o, n))
    for _ in range(r.randrange(2, 8) if quiet else 1):
        observe()
    slots = 0
    while len(ops) < n:
        c = r.random()
        if c < .40:
            ops.append({'op': 'cont'})
        elif c < .52:
            ops.append({'op': 'choose', 'i': r.randrange(3)})
        elif c < .60:
            ops.append({'op': 'set', 'n': r.choice(vs), 'v': val()})
        elif c < .66:
            observe()
        elif c < .72:
            o = {'op': 'unobserve', 'o': r.choice(OBS), **({'n': r.choice(vs)} if r.random() < .7 else {})}
            ops.append(o)
            if not ops[-2]['op'] == 'async':
                tried = {x for x in tried if x[0] != o['o'] or 'n' in o and x[1] != o['n']}
        elif c < .78:
            ops.append({'op': 'async', 'k': r.randrange(1, 5)})
        elif c < .80:
            ops.append({'op': 'slices', 'ks': [r.randrange(1, 5)]})
        elif c < .84:
            ops.append({'op': 'eval', 'fn': r.choice(p.fns), 'args': [val()]})
        elif c < .87:
            slots += 1
            ops.append({'op': 'save', 'slot': f's{slots}'})
        elif c < .90 and slots:
            ops.append({'op': 'load', 'slot': f's{r.randrange(1, slots + 1)}'})
        elif c < .92:
            ops.append({'op': 'reset'})
        elif c < .945:
            f = r.choice(flows)
            ops.append({'op': 'switch', 'f': f} if f else {'op': 'default_flow'})
        elif c < .95:
            ops.append({'op': 'remove', 'f': r.choice(flows[1:])})
        elif c < .975:
            ops.append({'op': 'jump', 'p': r.choice(kn), 'reset': r.random() < .7})
        elif c < .985:
            ops.append({'op': 'load_text', 'text': r.choice(['', '{}', '{"inkSaveVersion":10}'])})
        else:
            ops.append({'op': 'get', 'n': r.choice(vs)})
    return ops


KIND = {'cont': 'cont', 'async': 'cont', 'slices': 'cont', 'load': 'open', 'reset': 'open', 'load_text': 'open', 'eval': 'eval', 'set': 'set',
        'observe': 'observe', 'unobserve': 'unobserve', 'choose': 'choose'}


def registry(rep, progs, per, length, binary, tag):
    """random histories of every program, judged by InkWatch.tla"""
    progs = host.compile_all([with_setters(p) for p in progs], binary)
    jobs, back = [], []
    for p in progs:
        for k in range(per):
            r = random.Random(f'{SEED}/{tag}/{p.name}/{k}')
            ops = history(p, r, length)
            job = dict(p.base(), ops=[dict(o, q=True) for o in p.setup] + [{'op': 'obs'}] + ops)
            if r.random() < .4:
                job['ops'].insert(0, {'op': 'handler', 'q': True})
            jobs.append(job)
            back.append((p, k, ops))
    res = run_jobs(binary, jobs, timeout=60)
    docs, idx = [], []
    tot = dict(histories=0, calls=0, notifications=0)
    for (p, k, ops), job, x in zip(back, jobs, res):
        key = f'{tag}:{p.name}/{k}'
        data = {'source': p.src, 'ops': job['ops']}
        if x['r'] != 'ok':
            rep.violate(key, dict(data, result=str(x)[:600]), f'{key}: {str(x)[:200]}')
            continue
        rs = x['ops'][len(x['ops']) - len(ops):]
        init = x['ops'][len(x['ops']) - len(ops) - 1]['o']
        steps = []
        bad = None
        for o, y in zip(ops, rs):
            if y['r'] not in ('ok', 'err'):
                bad = (o, y)
                break
            ob = y['o']
            steps.append({'k': KIND.get(o['op'], 'still'), 'o': o.get('o', ''), 'n': o.get('n', ''), 'r': y['r'], 'fin': ob['text'] is not None,
                          'vars': ob['vars'], 'notes': [{'o': z['o'], 'n': z['n'], 'v': z['v'], 'late': z['steps'] == ob['steps']} for z in ob['notes']]})
        if bad and bad[1]['r'] == 'panic':
            # a panic elsewhere is C04's; one in a call about observers is this property's
            if bad[0]['op'] in ('observe', 'unobserve', 'set'):
                rep.violate(key, dict(data, at=bad[0], result=str(bad[1])[:400]), f'{key}: {bad[0]["op"]}: {str(bad[1])[:200]}')
        if steps:
            docs.append({'vars': sorted(init['vars']), 'obs': OBS, 'init': init['vars'], 'steps': steps})
            idx.append((key, data))
            tot['histories'] += 1
            tot['calls'] += len(steps)
            tot['notifications'] += sum(len(s['notes']) for s in steps)
    fn = os.path.join(BUILD, f'watch-{tag}-{os.getpid()}.json')
    json.dump(docs, open(fn, 'w'))
    t = tlc('InkWatch', 'SPECIFICATION Spec\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n', env={'WATCH_DOCS': fn}, timeout=600, tag=tag)
    os.remove(fn)
    tlc_must(t, f'InkWatch {tag}')
    ends = 0
    for l in t.prints:
        if l.startswith('BAD '):
            d = json.loads(l[4:])
            key, data = idx[d['h'] - 1]
            rep.violate(key, dict(data, **d), f"{key} call {d['i']}: {d['why']} {json.dumps(d['step'])[:300]} registered {d['reg']}")
        elif l.startswith('HIST '):
            ends += 1
    assert ends + len([1 for l in t.prints if l.startswith('BAD ')]) == len(docs), (ends, len(docs))
    log(tag, tot, f'tlc {t.secs:.0f}s', 'violations', len(rep.violations))
    return dict(tot, states=t.distinct, transitions=t.generated, traces_validated_against_impl=ends)


def check():
    rep = Report('C11', 'model_checking')
    b = build('debug')
    k = 6 if THOROUGH else 1
    items = [(f'{SEED}/c11/{i}', gen_program(f'{SEED}/c11/{i}', 2 + i % 3)) for i in range(150 * k)]
    c, s = run(rep, items, b, 'c11a', observe=True, nodes=40 * (2 if THOROUGH else 1), timeout=3000)
    items = [(f'{SEED}/c11e/{i}', gen_program(f'{SEED}/c11e/{i}', 2 + i % 3, {'ext': 'mix'})) for i in range(60 * k)]
    c2, _ = run(rep, items, b, 'c11b', observe=True, timeout=3000)
    c = add(c, c2)
    progs = [host.scenario(n) for n in host.SCENARIOS if host.scenario(n).allvars()]
    c = add(c, registry(rep, progs, 25 * k, 60, b, 'c11s'))
    c = add(c, registry(rep, [p for p in host.generated('c11g', 70 * k, 3) if p.allvars()], 6, 50, b, 'c11g'))
    rep.finish(samples=s, **c)


if __name__ == '__main__':
    main(check)
