"""C01: generated programs, compiled and played by the real code, against Ink.tla."""
import sys, json, os, random
from vlib import *
from inkgen import *


def turn_tree(nodes):
    """the recorded tree (one node per continue / choice) -> one node per turn.
    Returns (turns, note) where note is None or why the recording is unusable."""
    kids = {}
    for i, n in enumerate(nodes):
        kids.setdefault(n['p'], []).append(i)
    turns = []

    def build(i):
        """i: index of the node of an operation that starts a turn (start or choose)"""
        t = {'lines': [], 'chs': [], 'vars': [], 'visits': [], 'err': False, 'kids': []}
        turns.append(t)
        me = len(turns)
        cur = i
        while True:
            n = nodes[cur]
            if n['r'] not in ('ok', 'err'):
                t['bad'] = n['r']
                return me
            if n['e'] == -1 and n['r'] == 'ok':
                x = n['o']['text'] or ''
                nl = x.endswith('\n')
                t['lines'].append({'x': x[:-1] if nl else x, 'nl': nl, 'tg': n['o']['tags'] or []})
            if n['r'] == 'err':
                t['err'] = True
                x = n['o']['text'] or ''
                if x:     # the line during whose look-ahead the error was raised
                    nl = x.endswith('\n')
                    t['lines'].append({'x': x[:-1] if nl else x, 'nl': nl, 'tg': n['o']['tags'] or []})
                t['msg'] = n.get('v')
                break
            nx = [k for k in kids.get(cur, []) if nodes[k]['e'] == -1]
            if n['o']['can'] and nx:
                cur = nx[0]
                continue
            if n['o']['can']:      # the recording stopped inside this turn: not a turn
                turns[me - 1] = None
                return 0
            break
        o = nodes[cur]['o']
        t['chs'] = [{'x': c['t'], 'tg': c['g']} for c in o['choices']]
        t['vars'] = list(o['vars'].values())
        t['visits'] = list(o['visits'].values())
        for k in range(len(t['chs'])):
            c = [x for x in kids.get(cur, []) if nodes[x]['e'] == k]
            t['kids'].append(build(c[0]) if c and not t['err'] else 0)
        return me
    build(0)
    # renumber without the turns that were cut off
    new, kept = {0: 0}, []
    for i, t in enumerate(turns):
        if t is not None:
            kept.append(t)
            new[i + 1] = len(kept)
    for t in kept:
        t['kids'] = [new[k] for k in t['kids']]
    return kept


def programs(n, size, tag, feats=None):
    out = []
    for i in range(n):
        seed = f'{SEED}/{tag}/{i}'
        p = gen_program(seed, size, feats)
        out.append((seed, p))
    return out


def written(key, prog):
    """every other program is written in one of the other ways of writing it, some in several files"""
    files = {}
    return source(prog, key if int(key.split('/')[-1]) % 2 else None, files), files


def job_for(key, prog, sj, depth, nodes):
    vs = [g['n'] for g in sj['globals']]
    src, files = written(key, prog)
    return {'src': src, 'files': files, 'count_all': 1, 'watch': {'vars': vs, 'visits': sj['watch']},
            'tree': {'depth': depth, 'nodes': nodes, 'lines': 60}}


CFG = """SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT Settled
INVARIANT OnceOnly
PROPERTY Monotone
CHECK_DEADLOCK FALSE
"""


def validate(items, binary, depth, nodes, tag, timeout=600):
    """items: [(key, prog)]. Yields dict with per-program outcome."""
    sjs = [spec_json(p) for _, p in items]
    jobs = [job_for(key, p, sj, depth, nodes) for (key, p), sj in zip(items, sjs)]
    res = run_jobs(binary, jobs, timeout=30)
    docs, back, out = [], [], []
    for (key, p), sj, r in zip(items, sjs, res):
        rec = {'key': key, 'prog': p, 'r': r['r'], 'detail': None, 'turns': 0, 'ok': 0}
        out.append(rec)
        if r['r'] != 'ok':
            rec['detail'] = r
            continue
        tt = turn_tree(r['nodes'])
        badturn = [t for t in tt if t.get('bad')]
        if badturn:
            rec['r'] = 'bad-turn'
            rec['detail'] = badturn[0]['bad']
            continue
        if not tt:
            rec['r'] = 'cut'
            continue
        rec['turns'] = len(tt)
        rec['tree'] = tt
        docs.append(dict(sj, tree=tt))
        back.append(rec)
    # TLC
    fn = os.path.join(BUILD, f'ink-{tag}-{os.getpid()}.json')
    json.dump(docs, open(fn, 'w'))
    t = tlc('Ink', CFG, env={'INK_PROGS': fn}, timeout=timeout, tag=tag)
    os.remove(fn)
    for line in t.prints:
        if line.startswith('TURN '):
            _, a, b = line.split()
            back[int(a) - 1]['ok'] += 1
        elif line.startswith('BAD '):
            d = json.loads(line[4:])
            back[d['p'] - 1].setdefault('bad', []).append(d)
        elif line.startswith('FUEL '):
            _, a, b = line.split()
            back[int(a) - 1]['fuel'] = int(b)
    return out, t


# ------------------------------------------------------------------ the check
QUICK = [('q2', 2, 300, 4, 40), ('q3', 3, 300, 3, 40), ('q4', 4, 150, 3, 40)]
DEEP = [('t1', 1, 300, 6, 120), ('t2', 2, 700, 5, 80), ('t3', 3, 900, 4, 80), ('t4', 4, 600, 4, 60), ('t5', 5, 300, 3, 60)]


def check():
    rep = Report('C01', 'model_checking')
    b = build('debug')
    log('built')
    tot = dict(states=0, transitions=0, programs=0, turns=0, fuel=0, cut=0)
    samples, sizes = [], 0
    for tag, size, n, depth, nodes in (DEEP if THOROUGH else QUICK):
        for lo in range(0, n, 150):
            seeds = [(f'{SEED}/{tag}/{i}', gen_program(f'{SEED}/{tag}/{i}', size)) for i in range(lo, min(n, lo + 150))]
            out, t = validate(seeds, b, depth, nodes, tag, timeout=800)
            tlc_must(t, 'Ink.tla on recorded play')
            tot['states'] += t.distinct
            tot['transitions'] += t.generated
            for o in out:
                tot['programs'] += 1
                tot['turns'] += o['ok']
                src = written(o['key'], o['prog'])
                src = src[0] if not src[1] else dict(src[1], **{'': src[0]})
                if o['r'] == 'cut':
                    tot['cut'] += 1
                elif o['r'] != 'ok':
                    rep.violate(f"gen:{o['key']}", {'source': src, 'got': o['detail']},
                                f"a core-language program does not compile or play: {o['r']} {str(o['detail'])[:200]}")
                elif o.get('bad'):
                    rep.violate(f"gen:{o['key']}", {'source': src, 'mismatch': o['bad'][:3], 'played': o['tree']},
                                'play differs from the Ink rules: ' + json.dumps(o['bad'][0])[:400])
                elif o.get('fuel'):
                    tot['fuel'] += 1
                elif len(samples) < 2 and o['ok'] > 3:
                    samples.append({'source': src, 'turns_validated': o['ok']})
            log(tag, lo, 'programs', tot['programs'], 'turns', tot['turns'], 'violations', len(rep.violations))
    rep.assume = ['the supported core is what gen/inkgen.py writes (see DESIGN.md for the forms it avoids)',
                  'choice paths to the stated depth; every step of the specification is explored by TLC']
    rep.finish(states=tot['states'], transitions=tot['transitions'], traces_validated_against_impl=tot['turns'],
               programs_generated=tot['programs'], programs_cut=tot['cut'], programs_out_of_fuel=tot['fuel'], samples=samples)


if __name__ == '__main__':
    main(check)
