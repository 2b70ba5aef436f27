"""C18: what a story used is released, against InkMem.tla over histories of InkHost.tla."""
from host import *
from c09 import prep
from c17 import wanders

MCFG = """SPECIFICATION Spec
CONSTANT MODE = "{mode}"
INVARIANT Complete
INVARIANT {inv}
CHECK_DEADLOCK FALSE
"""
DROP = dict(unit=1, warm=2)     # create-play-drop: epochs end after 3, 5, 9, 17 rounds
BACK = dict(unit=4, warm=4)     # on one story: 8, 16, 32, 64 repetitions
ROUNDS, REPS = 17, 64


def cycle(p, h, at, ops, r):
    """the calls of a history and then one that leads back: (calls, calls to repeat on one story)"""
    back = [{'op': 'reset', 'q': True}]
    n = [i for i, s in enumerate(h) if s['a'] == 'save']
    if n and r.random() < .5:
        back = [{'op': 'load', 'slot': f"s{h[n[0]]['x']}", 'q': True}]
    rep = []
    if r.random() < .3:
        rep.append({'op': 'load_text', 'text': r.choice(['', '{', '{"inkSaveVersion":10,"flows":{"DEFAULT_FLOW":{}},"currentFlowName":"DEFAULT_FLOW","variablesState":{}}']), 'q': True})
    body = [dict(o, q=True) for o in ops]
    return body, body[len(p.hooks()):] + rep + back


def leaks(series, tag):
    fn = os.path.join(BUILD, f'mem-{tag}-{os.getpid()}.json')
    json.dump(series, open(fn, 'w'))
    t = tlc('InkMem', MCFG.format(mode='trace', inv='Report'), env={'MEM_SERIES': fn}, timeout=600, tag='mem-' + tag)
    os.remove(fn)
    tlc_must(t, 'InkMem ' + tag)
    return [json.loads(l[2:]) for l in sorted(set(t.prints)) if l.startswith('L ')], t


def check():
    rep = Report('C18', 'model_checking')
    b = build('debug')
    bins = {'release': build('release'), 'stream': build('debug', 'stream')}
    log('built')
    t0 = tlc('InkMem', MCFG.format(mode='own', inv='Exact'), timeout=300, tag='mem-own')
    tlc_must(t0, 'InkMem own')
    k = 6 if THOROUGH else 1
    tot = dict(states=t0.distinct, transitions=t0.generated, traces_validated_against_impl=0, histories=0, programs=0, series=0)
    W = 8
    samples = []

    def wander(ps):
        for p in prep(ps):
            p.wanders = wanders(p, W)
        return ps
    plain = lambda p: doc(p, {'reset': 1}, {}, 26)
    many = lambda p: doc(p, {'reset': 1, 'wander': 2, 'eval': 2, 'save': 2, 'load': 1, 'fresh': 1, 'slice': 2, 'bad': 2}, {'save': 1}, 30, slices=[[1], [3, 1], [5]], bad=BADS, wanders=W, evals=len(p.evals))
    flow = lambda p: doc(p, {'flow': 5, 'remove': 1, 'detour': 1, 'save': 1, 'load': 1, 'reset': 1}, {'flow': 1}, 28)
    BADS = bad_calls()
    for label, progs, (depth, nodes), mk, sim, cap in [
        ('corpus', corpus(), (3, 40 * k), plain, 0, 900 * k),
        ('sources', wander([scenario(n) for n in SCENARIOS]), (3, 40 * k), plain, 0, 500 * k),
        ('random', wander([scenario(n) for n in SCENARIOS] + generated('c18r', 60 * k, 3)), (4, 60), many, 1500 * k, 1200 * k),
        ('flows', multiflow('c18f', 14 * k, 2, 2), (2, 30), flow, 500 * k, 400 * k),
    ]:
        progs = learn(progs, b, depth, nodes)
        hs, t = histories([mk(p) for p in progs], 'c18' + label, simulate=sim, cap=cap)
        tot['states'] += t.distinct
        tot['transitions'] += t.generated
        tot['programs'] += len(progs)
        jobs, who, series = [], [], []
        r = random.Random(f'{SEED}/c18/{label}')
        for pi, h in hs:
            p = progs[pi]
            j, at = replay_job(p, h, [[1], [3, 1], [5]], BADS, p.wanders)
            body, repeat = cycle(p, h, at, j['ops'], r)
            jobs.append({**j, 'ops': body, 'watch': {}, 'mem': {'rounds': ROUNDS, 'repeat': repeat, 'nrep': REPS}})
            who.append((p, h, jobs[-1]))
        tot['histories'] += len(jobs)
        src = []
        for kind, bn in bins.items():
            sub = list(zip(who, jobs))[::1 if kind == 'release' else 4]
            for (w, _), x in zip(sub, run_jobs(bn, [j for _, j in sub], timeout=60)):
                if x['r'] == 'dead':
                    continue    # a call panicked or did not end: not judged here
                if x['r'] != 'ok':
                    rep.violate(f'{label}:{w[0].name}', {'source': w[0].src, 'job': w[2], 'result': str(x)[:500]}, f"{w[0].name}: the run failed: {str(x)[:200]}")
                    continue
                for what, key, cfg in (('drop', 'after', DROP), ('return', 'inner', BACK)):
                    base = min(x[key])
                    series.append(dict(cfg, live=[min(v - base, 900000000) for v in x[key]]))
                    src.append((w, kind, what, x[key]))
        ls, t = leaks(series, 'c18' + label)
        tot['states'] += t.distinct
        tot['transitions'] += t.generated
        tot['series'] += len(series)
        tot['traces_validated_against_impl'] += len(series) - len(ls)
        told = set()
        for l in ls:
            (p, h, j), kind, what, xs = src[l['s'] - 1]
            if (p.name, what) in told:
                continue
            told.add((p.name, what))
            hist = [f"{s['a']} {s['x']}" for s in h]
            rep.violate(f'{label}:{p.name}:{what}', {'source': p.src, 'json': p.json, 'history': hist, 'ops': j['ops'], 'repeat': j['mem']['repeat'], 'driver': kind, 'live': xs},
                        f"{p.name} ({kind}): memory grows when {'the story is dropped and made again' if what == 'drop' else 'one story is led back'}: {xs[2:9]} … {xs[-1]} bytes; {hist[:12]}")
        if who:
            samples.append({'program': who[0][0].name, 'history': [f"{s['a']} {s['x']}" for s in who[0][1]], 'after': src[0][3][:5] if src else None})
        log(label, 'programs', len(progs), 'histories', len(hs), 'series', len(series), 'leaking', len(ls))
    rep.finish(samples=samples[:4], **tot)


if __name__ == '__main__':
    main(check)
