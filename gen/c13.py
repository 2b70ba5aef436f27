"""C13: errors and warnings, against InkEvents.tla (what the play of a generated program must raise, in
which continue) and InkReport.tla (delivery over random host histories, with and without a handler)."""
from events import *
import host

FAULTY = '''
=== function zerr(zv) ===
~ return 10 / zv
=== function zwarn(zv) ===
Text {zlate}
~ temp zlate = zv
~ return zlate
=== function zboth(zv) ===
One {zlate}
Two {zlate}
~ temp zlate = 10 % zv
Three {zlate}
=== zknot ===
Zknot {zlater}.
~ temp zlater = 1
Zlast {zlater}.
* [z one] Zone.
* [z two] Ztwo {zlater / 0}.
- Zend.
-> DONE
'''


def history(p, r, n):
    vs = p.allvars()
    kn = [k for k in p.allvisits() if k in p.plain] + ['zknot']
    ops = []
    slots = 0
    while len(ops) < n:
        c = r.random()
        if c < .50:
            ops.append(('cont', {'op': 'cont'}))
        elif c < .68:
            ops.append(('other', {'op': 'choose', 'i': r.randrange(3)}))
        elif c < .76:
            ops.append(('reset', {'op': 'reset'}))
        elif c < .80 and vs:
            ops.append(('other', {'op': 'set', 'n': r.choice(vs), 'v': r.choice(['i:0', 'i:1', 's:zz', 'i:-1', 'b:true'])}))
        elif c < .87:
            ops.append(('eval', {'op': 'eval', 'fn': r.choice(['zerr', 'zwarn', 'zboth']), 'args': [r.choice(['i:0', 'i:3', 's:q'])]}))
        elif c < .94:
            ops.append(('jump', {'op': 'jump', 'p': r.choice(kn)}))
        elif c < .96:
            slots += 1
            ops.append(('other', {'op': 'save', 'slot': f's{slots}'}))
        elif c < .98 and slots:
            ops.append(('load', {'op': 'load', 'slot': f's{r.randrange(1, slots + 1)}'}))
        elif c < .99:
            ops.append(('flow', {'op': 'switch', 'f': r.choice(['wa', 'wb'])} if r.random() < .5 else {'op': 'default_flow'}))
        else:
            ops.append(('other', r.choice([{'op': 'load_text', 'text': '{}'}, {'op': 'unobserve', 'o': 'o1'}, {'op': 'visit', 'p': 'nowhere'}])))
    return ops


def delivery(rep, progs, per, length, binary, tag):
    for p in progs:
        p.src = p.src.rstrip('\n') + '\n' + FAULTY
        p.plain = set(re.findall(r'^=== *(\w+) *(?:===)?$', p.src, re.M))    # knots without parameters
    progs = host.compile_all(progs, binary)
    jobs, back = [], []
    for p in progs:
        for k in range(per):
            r = random.Random(f'{SEED}/{tag}/{p.name}/{k}')
            ops = history(p, r, length)
            old = r.random() < .25     # built for an earlier version: a warning before anything is played
            js = p.json.replace('"inkVersion":21', '"inkVersion":20', 1) if old else p.json
            cut = r.choice([[1], [2], [1, 3], [5], [1, 1, 8]])
            for mode in ('plain', 'taken', 'sliced'):
                seq = [dict(o, q=True) for o in p.setup] + ([{'op': 'handler', 'q': True}] if mode != 'plain' else []) + [{'op': 'obs'}]
                seq += [{'op': 'slices', 'ks': cut} if mode == 'sliced' and o['op'] == 'cont' else o for _, o in ops]
                jobs.append({'json': js, 'ops': seq, 'watch': {}})
            back.append((p, k, ops))
    res = list(run_jobs(binary, jobs, timeout=60))
    docs, idx = [], []
    tot = dict(histories=0, calls=0, messages=0, undecided=0)
    for q, (p, k, ops) in enumerate(back):
        key = f'{tag}:{p.name}/{k}'
        rs = res[3 * q:3 * q + 3]
        data = {'source': p.src, 'jobs': jobs[3 * q:3 * q + 3]}
        if any(x['r'] != 'ok' or any(y['r'] not in ('ok', 'err') for y in x['ops']) for x in rs):
            tot['undecided'] += 1      # panics and endless stories are C04's
            continue
        at = len(rs[0]['ops']) - len(ops)
        steps = []
        for j, (kind, o) in enumerate(ops):
            s = {'k': kind}
            for mode, x, off in zip(('plain', 'taken', 'sliced'), rs, (at, at + 1, at + 1)):
                off = len(x['ops']) - len(ops)
                y = x['ops'][off + j]
                ob = y['o']
                s[mode] = {'r': y['r'], 'errs': ob['errs'], 'warns': ob['warns'], 'can': ob['can'], 'n': len(ob['choices']), 'hand': ob['handler']}
            steps.append(s)
            tot['messages'] += len(s['taken']['hand'])
        docs.append({'warns': rs[0]['ops'][at - 1]['o']['warns'], 'steps': steps})
        idx.append((key, data))
        tot['histories'] += 1
        tot['calls'] += 3 * len(steps)
    fn = os.path.join(BUILD, f'report-{tag}-{os.getpid()}.json')
    json.dump(docs, open(fn, 'w'))
    t = tlc('InkReport', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', env={'REPORT_DOCS': fn}, timeout=900, tag=tag)
    os.remove(fn)
    tlc_must(t, f'InkReport {tag}')
    ends = solo = 0
    for l in t.prints:
        if l.startswith('BAD '):
            d = json.loads(l[4:])
            key, data = idx[d['h'] - 1]
            rep.violate(key, dict(data, **d), f"{key} call {d['i']}: {d['why']} {json.dumps(d['step'])[:500]} due {d['due']} errs {len(d['errs'])} warns {len(d['warns'])}")
        elif l.startswith('HIST '):
            ends += 1
            solo += json.loads(l[5:])['solo'] == 'solo'
    tot['redirected'] = solo
    log(tag, tot, f'tlc {t.secs:.0f}s', 'violations', len(rep.violations))
    return dict(tot, states=t.distinct, transitions=t.generated, traces_validated_against_impl=ends)


def check():
    rep = Report('C13', 'model_checking')
    b = build('debug')
    k = 6 if THOROUGH else 1
    c, samples = {}, []
    for hand, feats in [(False, {}), (True, {}), (True, {'ext': 'mix', 'strx': 1})]:
        tag = f'c13{"h" if hand else "p"}{"x" if feats else ""}'
        items = [(f'{SEED}/{tag}/{i}', gen_program(f'{SEED}/{tag}/{i}', 2 + i % 3, dict(feats, fault=(.04, .08, .15)[i % 3]))) for i in range((160 if not feats else 80) * k)]
        c2, s = run(rep, items, b, tag, handler=hand, timeout=3000)
        c = add(c, c2)
        samples += s[:1]
    progs = [host.scenario(n) for n in host.SCENARIOS]
    c = add(c, delivery(rep, progs, 20 * k, 40, b, 'c13s'))
    c = add(c, delivery(rep, host.generated('c13g', 90 * k, 3, {'fault': .08}), 4, 40, b, 'c13g'))
    rep.finish(samples=samples, **c)


if __name__ == '__main__':
    main(check)
