"""C03: play is a deterministic function of program, seed and host calls: the same calls in other processes,
profiles and instances, in lockstep (InkReplica.tla), along sequences of calls drawn by InkCalls.tla; the
whole plain play of each program by InkProduct.tla; the compiled bytes"""
from calls import *
from product import compare
import hashlib

WHO = ('debug process', 'release process', 'another instance in the debug process', 'a third process')


def programs():
    k = 4 if THOROUGH else 1
    ws = wild.wild(f'{SEED}/c03', 160 * k, faults=.02, chance=True) + wild.wild(f'{SEED}/c03f', 50 * k, faults=.12, chance=True)
    for p in [scenario(n) for n in SCENARIOS] + generated('c03', 20 * k, 3):
        ws.append((p.name, p.src, doc_of(p.src, p.allvars()), {'vars': p.allvars(), 'visits': p.allvisits(), 'path': True}))
    return ws + corpus_programs()


def check():
    rep = Report('C03', 'model_checking')
    dbg, rel = build('debug'), build('release')
    log('built')
    ws = programs()
    # compiled bytes: in two profiles, and over again in one process
    jobs = [{'src': s, 'want_json': True, 'files': {}} for _, s, _, _ in ws]
    outs = [run_jobs(b, jobs) for b in (dbg, rel, dbg)] + [run_jobs(dbg, jobs[::-1])[::-1]]
    groups, ok = [], []
    for i, (n, s, d, w) in enumerate(ws):
        rs = [[{'r': 'ok', 'v': hashlib.sha256((o[i].get('json') or str(o[i].get('e')) or o[i]['r']).encode()).hexdigest()}] for o in outs]
        groups.append((n, {'source': s, 'outputs': [(o[i].get('json') or str(o[i].get('e')))[:3000] for o in outs]}, [{'op': 'compile'}], rs))
        if outs[0][i].get('json'):
            ok.append((n, s, d, w, outs[0][i]['json']))
    agree, t0 = lockstep(rep, groups, 'bytes', WHO)
    log('compiled', len(ws), 'stories', len(ok), 'same bytes', agree)
    # sequences of calls
    k = 5 if THOROUGH else 1
    hs, t1 = sequences([d for _, _, d, _, _ in ok], 'c03', 30, simulate=2400 * k)
    log('sequences', len(hs), f'{t1.secs:.0f}s')
    jobs = []
    for p, h in hs:
        n, s, d, w, j = ok[p]
        ops = FALL[:]
        for o in h:
            ops.append(o)
            if o['op'] in ('cont', 'maximally', 'choose') and len(ops) % 5 == 0:
                ops.append({'op': 'savejson', 'q': True})
        jobs.append({'json': j, 'watch': w, 'full': True, 'seed': 42 + p % 7, 'ops': ops + [{'op': 'savejson'}]})
    res = [play(dbg, jobs), play(rel, jobs)]
    both = play(dbg, jobs[::-1])[::-1]
    res += [both, play(rel, jobs[::-1])[::-1]]
    log('played')
    groups = []
    rands = 0
    for i, ((p, h), j) in enumerate(zip(hs, jobs)):
        if any(r[i]['r'] == 'endless' for r in res):
            continue
        rs = [r[i].get('ops') or [r[i]] for r in res]
        if any(x.get('r') == 'panic' for r in rs for x in r[-1:]):
            continue   # another property's (C04)
        rands += '"previousRandom":0' not in str(rs[0][-1].get('v'))
        groups.append((ok[p][0] + f'#{i}', {'source': ok[p][1], 'seed': j['seed']}, j['ops'], rs))
    agree, t2 = lockstep(rep, groups, 'calls', WHO)
    log('in lockstep', len(groups), 'agree', agree, f'{t2.secs:.0f}s', 'that drew random numbers', rands)
    # all of plain play, product of two profiles
    sel = [Prog(n, s, {'': w['vars']}, {'': w['visits']}, FALL) for n, s, d, w, j in ok if n.startswith(('wild:', 'gen:')) or not THOROUGH or len(s) < 20000]
    sel = random.Random(SEED).sample(sel, min(len(sel), 400 if THOROUGH else 140))
    for p in sel:
        p.json = next(j for n, _, _, _, j in ok if n == p.name)
    two = [(p, Prog(p.name, p.src, p.vars, p.visits, FALL)) for p in sel]
    for a, b in two:
        b.json = a.json
    la, lb = learn([a for a, _ in two], dbg, 5, 80, lines=60, save=False), learn([b for _, b in two], rel, 5, 80, lines=60, save=False)
    pairs = [(a, b) for a, b in two if a in la and b in lb]
    c = compare(rep, pairs, 'c03play', fields=('can', 'text', 'tags', 'choices', 'vars', 'visits'), what=WHO[:2])
    log('plain play', c)
    rep.finish(states=t0.distinct + t1.distinct + t2.distinct + c['states'], transitions=t0.generated + t1.generated + t2.generated + c['transitions'],
               traces_validated_against_impl=4 * len(groups) + 4 * len(ws) + c['traces_validated_against_impl'], programs=len(ok), sequences=len(groups), drew_random_numbers=rands,
               samples=[{'source': g[0], 'calls': [o['op'] for o in g[2]]} for g in groups[:4]])


if __name__ == '__main__':
    main(check)
