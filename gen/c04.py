"""C04: faults of a story are reported, the runtime never panics, arithmetic wraps alike in every build, and a
reset after an error is a new start.
  InkOps.tla     every operator on every pair of values, in the debug and the release build
  InkEvents.tla  programs with faults: what is raised, in which continue, by what play
  InkCalls.tla   sequences of host calls on programs with many kinds of faults (gen/wild.py), in both builds:
                 every call ends in a result or an error
  InkReplica.tla the two builds, and a story reset after its errors and a fresh one, in lockstep"""
from calls import *
import ops as optable
import events

PLAY = []
for _k in range(9):
    PLAY += [{'op': 'cont'}, {'op': 'cont'}, {'op': 'maximally'}, {'op': 'choose', 'i': (0, 1, 0, 2)[_k % 4]}]
WHO = ('debug build', 'release build')


def programs():
    k = 6 if THOROUGH else 1
    ws = wild.wild(f'{SEED}/c04', 200 * k, faults=.12, chance=True) + wild.wild(f'{SEED}/c04f', 160 * k, faults=.3, chance=True)
    for p in [scenario(n) for n in SCENARIOS] + generated('c04', 20 * k, 3, {'fault': .1}):
        ws.append((p.name, p.src, doc_of(p.src, p.allvars()), {'vars': p.allvars(), 'visits': p.allvisits(), 'path': True}))
    return ws + corpus_programs() + mutated(120 * k)


def mutated(n):
    """corpus sources with a line lost, doubled, moved or changed"""
    r = random.Random(f'{SEED}/c04m')
    base = [c for c in corpus_programs() if c[1].count('\n') < 400]
    out = []
    for i in range(n):
        name, src, _, w = r.choice(base)
        ls = src.split('\n')
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.randrange(len(ls))
            c = r.randrange(7)
            if c == 0:
                ls.pop(k)
            elif c == 1:
                ls.insert(k, r.choice(ls or ['']))
            elif c == 2:
                ls.insert(k, ls.pop(r.randrange(len(ls))))
            elif c == 3:
                ls[k] = re.sub(r'\b\d+\b', r.choice(['0', '2147483647', '-1', '1.5', '"s"']), ls[k])
            elif c == 4:
                ls[k] = re.sub(r'->\s*\w+', lambda m: '-> ' + r.choice(re.findall(r'^={2,}\s*(\w+)', src, re.M) + ['DONE', 'END', '->']), ls[k])
            elif c == 5:
                ls[k] = ls[k].replace(r.choice('+-*/=<>&|'), r.choice(['%', '/', '*', '-', '!=']), 1)
            else:
                ls[k] = r.choice(['* ', '+ ', '- ', '{', '}', '~ ', '->', '<>', '']) + ls[k]
            if not ls:
                ls = ['']
        s = '\n'.join(ls)
        gv = re.findall(r'^\s*(?:VAR|LIST)\s+(\w+)', s, re.M)
        out.append((f'mut:{name}#{i}', s, doc_of(s, gv), {'vars': sorted(set(gv) | set(w['vars'])), 'visits': w['visits'], 'path': True}))
    return out


def died(r):
    """how a job ended that must not end so"""
    if r['r'] in ('ok', 'fuel', 'endless', 'compile_err', 'new_err', 'nostory'):
        return None
    last = (r.get('ops') or [{}])[-1]
    if r['r'] == 'dead':
        return None if last.get('r') == 'fuel' else f"panic: {last.get('v') or last}"
    return f"{r['r']}: {str(r)[:300]}"


def tail(exts):
    return [{'op': 'cont', 'q': True}] + [{'op': 'unbind', 'n': e, 'q': True} for e in exts] + \
        [{'op': 'bind', 'n': e, 'safe': True, 'ret': {'k': 'arg', 'v': 0}, 'q': True} for e in exts] + \
        [dict(FALL[0]), {'op': 'reset'}, {'op': 'seed', 'v': 42, 'q': True}] + PLAY


def check():
    rep = Report('C04', 'model_checking')
    bins = {'debug': build('debug'), 'release': build('release')}
    log('built')
    n_ops, t_ops = optable.table(rep, bins)
    log('operators', n_ops)
    # what is raised
    k = 8 if THOROUGH else 1
    c = {}
    for h in (False, True):
        items = [(f'{SEED}/c04e{h}/{i}', inkgen.gen_program(f'{SEED}/c04e{h}/{i}', 2 + i % 3, {'fault': (.04, .08, .15)[i % 3]})) for i in range(50 * k)]
        for w, b in bins.items():
            c = events.add(c, events.run(rep, items, b, f'c04-{w}-{h}', handler=h)[0])
    log('faults of the specification', c)
    # no call panics
    ws = programs()
    jobs = [{'src': s, 'want_json': True, 'files': {}} for _, s, _, _ in ws]
    ok = []
    for w, r in zip(ws, run_jobs(bins['debug'], jobs)):
        if r.get('json'):
            ok.append((*w, r['json']))
    log('stories', len(ws), 'compiled', len(ok))
    hs, t1 = sequences([d for _, _, d, _, _ in ok], 'c04', 30, simulate=3000 * k)
    short, t2 = sequences([doc_of(SMALL, ['x', 'l'])], 'c04s', 2, cap=None if THOROUGH else 5000)
    log('sequences', len(hs), 'all short ones', len(short), f'{t1.secs:.0f}s {t2.secs:.0f}s')
    j0 = run_jobs(bins['debug'], [{'src': SMALL, 'want_json': True}])[0]['json']
    ok.append(('small', SMALL, doc_of(SMALL, ['x', 'l']), {'vars': ['x', 'l'], 'visits': ['a', 'b'], 'path': True}, j0))
    hs += [(len(ok) - 1, h) for _, h in short]
    jobs, back = [], []
    for i, (p, h) in enumerate(hs):
        n, s, d, w, j = ok[p]
        pre = FALL[:] if i % 3 else []
        jobs.append({'json': j, 'watch': w, 'full': True, 'fuel': 6000, 'ops': pre + h})
    res = [play(b, jobs) for b in bins.values()]
    log('played')

    groups, again, errors, fuel = [], [], 0, 0
    for i, ((p, h), j) in enumerate(zip(hs, jobs)):
        n, s, d, w, js = ok[p]
        data = {'source': s, 'seed': 42}
        bad = False
        for who, r in zip(bins, (res[0][i], res[1][i])):
            x = died(r)
            if x:
                bad = True
                o = j['ops'][:max(1, len(r.get('ops') or j['ops']))]
                rep.violate(f'panic:{n}#{i}', dict(data, ops=o, result=x, build=who), f'{n}#{i}, {who} build, {len(o)} calls, {o[-1]}: {x}')
        if bad:
            continue
        if 'endless' in (res[0][i]['r'], res[1][i]['r']):
            fuel += 1
            continue
        rs = [r[i].get('ops') or [r[i]] for r in res]
        groups.append((f'{n}#{i}', data, j['ops'], rs))
        err = any(x['r'] == 'err' for x in rs[0]) or any((x.get('o') or {}).get('handler') for x in rs[0])
        errors += sum(x['r'] == 'err' for x in rs[0])
        if res[0][i]['r'] == 'ok' and err:
            again.append((i, p, j))
        elif res[0][i]['r'] != 'ok':
            fuel += 1
    agree, t3 = lockstep(rep, groups, 'builds', WHO)
    log('sequences in both builds', len(groups), 'agree', agree, 'errors', errors, 'endless', fuel)
    # a reset after errors
    if not THOROUGH:
        again = random.Random(SEED).sample(again, min(len(again), 2200))
    jobs = []
    for i, p, j in again:
        t = tail(ok[p][2]['exts'])
        last = max([z for z, o in enumerate(j['ops']) if o['op'] == 'fresh'], default=0)
        hd = [{'op': 'handler', 'q': True}] if any(o['op'] == 'handler' for o in j['ops'][last:]) else []
        jobs += [dict(j, ops=j['ops'] + t), dict(j, ops=hd + t[1:])]
    res = play(bins['debug'], jobs)
    groups = []
    for k, (i, p, j) in enumerate(again):
        a, b = res[2 * k], res[2 * k + 1]
        n, s, d, w, js = ok[p]
        t = tail(d['exts'])
        at = next(z for z, o in enumerate(t) if o['op'] == 'reset')
        data = {'source': s, 'seed': 42, 'before': j['ops']}
        x = died(a)
        if x:
            rep.violate(f'panic-reset:{n}#{i}', dict(data, after=t, result=x), f'{n}#{i}, reset after errors: {x}')
            continue
        xs, ys = (a.get('ops') or [])[len(j['ops']) + at:], (b.get('ops') or [])[len(jobs[2 * k + 1]['ops']) - len(t) + at:]
        if 'endless' in (a['r'], b['r']) or not xs and a['r'] == 'dead':    # (the unfinished continue did not end)
            continue
        groups.append((f'{n}#{i}', data, t[at:], [ys, xs]))
    agree, t4 = lockstep(rep, groups, 'reset', ('a fresh story', 'the story reset after errors'))
    log('reset after errors', len(groups), 'agree', agree)
    ts = (t_ops, t1, t2, t3, t4)
    rep.finish(states=sum(t.distinct for t in ts) + c['states'], transitions=sum(t.generated for t in ts) + c['transitions'],
               traces_validated_against_impl=2 * len(hs) + len(groups) + c['turns'], operator_evaluations=n_ops, programs=len(ok), sequences=len(hs), errors_reported=errors, endless=fuel,
               resets_after_errors=len(groups), samples=[{'source': g[1]['source'], 'calls': [o['op'] for o in g[1]['before']]} for g in groups[:4]])


SMALL = '''LIST l = (p), q
VAR x = 1
EXTERNAL ext(a)
A {x}. # tag
-> a
=== a ===
One {10 / x}.
* [go] -> b
+ (lab) back {ext(x)} -> a
* -> tun -> b
=== b ===
{~ r|s} {l} {RANDOM(1, x)}
<- a
+ -> END
=== tun ===
Tunnel {zap}.
~ temp zap = 1
->->
=== function f(n) ===
~ x = x + n
F {x}
~ return l
'''

if __name__ == '__main__':
    main(check)
