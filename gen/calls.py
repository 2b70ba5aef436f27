"""Sequences of host calls (InkCalls.tla) and lockstep replicas (InkReplica.tla)"""
from host import *
import wild

CCFG = 'SPECIFICATION Spec\nINVARIANT TypeOK\nCONSTANTS Mode = "%s" Length = %d\nCHECK_DEADLOCK FALSE\n'
RCFG = 'SPECIFICATION Spec\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n'
FALL = [{'op': 'fallbacks', 'v': True, 'q': True}]


def sequences(docs, tag, length, simulate=0, timeout=600, cap=None):
    """[(document index, [op])], TlcResult"""
    fn = os.path.join(BUILD, f'calls-{tag}-{os.getpid()}.json')
    json.dump(docs, open(fn, 'w'))
    args = ('-simulate', f'num={max(1, simulate // 8)}', '-depth', str(3 * length), '-seed', str(SEED)) if simulate else ()
    t = tlc('InkCalls', CCFG % ('random' if simulate else 'all', length), env={'CALLS_DOCS': fn}, timeout=timeout, tag='calls-' + tag, args=args)
    os.remove(fn)
    tlc_must(t, 'InkCalls ' + tag)
    hs = []
    for l in sorted(set(l for l in t.prints if l.startswith('H '))):
        d = json.loads(l[2:])
        hs.append((d['p'] - 1, d['h']))
    if cap and len(hs) > cap:
        hs = random.Random(SEED).sample(hs, cap)
    t.generated = max(t.generated, sum(len(h) for _, h in hs))
    t.distinct = max(t.distinct, t.generated)
    return hs, t


def play(binary, jobs, timeout=60):
    """results of sequences; a story that grows without end (strings doubled in a loop) ends for lack of time or
    memory, and is told from a call that does not return by running it over on little fuel"""
    rs = list(run_jobs(binary, jobs, timeout=timeout))
    for i, r in enumerate(rs):
        if r['r'] in ('crash', 'hang'):
            again = run_jobs(binary, [dict(jobs[i], fuel=200)], timeout=timeout)[0]
            last = (again.get('ops') or [{}])[-1]
            if again['r'] == 'dead' and last.get('r') == 'fuel':
                rs[i] = {'r': 'endless', 'ops': None}
            else:
                rs[i] = dict(r, little=again['r'])
    return rs


def names(x):
    """sorted-key text of what was shown or stored"""
    return json.dumps(x, sort_keys=True, ensure_ascii=False)


def saved(v):
    """a saved story, equal when equivalent"""
    if isinstance(v, dict):
        return {k: saved(x) for k, x in v.items()}
    if isinstance(v, list):
        return [saved(x) for x in v]
    return v


SHOWN = ('can', 'text', 'tags', 'choices', 'vars', 'visits', 'path')


def result(op, r):
    """everything an operation showed or stored, errors by their being errors"""
    if r is None:
        return 'nothing'
    o = r.get('o') or {}
    v = r.get('v') if r['r'] == 'ok' else None
    if op['op'] in ('savejson', 'saveraw') and isinstance(v, str):
        v = json.loads(v)
    return names([r['r'], v, {k: o.get(k) for k in SHOWN}, len(o.get('errs') or []), len(o.get('warns') or [])])


def lockstep(rep, groups, tag, describe, timeout=600):
    """groups: [(key, data, ops, [results of ops per replica])]; TLC steps the replicas together; -> (agreeing, TlcResult)"""
    docs, ids = [], {}
    for key, data, ops, rs in groups:
        docs.append({'n': max(len(r) for r in rs), 'r': [[ids.setdefault(result(o, x), f'r{len(ids)}') for o, x in zip(ops, r)] for r in rs]})
    fn = os.path.join(BUILD, f'replica-{tag}-{os.getpid()}.json')
    json.dump(docs, open(fn, 'w'))
    t = tlc('InkReplica', RCFG, env={'REPLICA_DOCS': fn}, timeout=timeout, tag='replica-' + tag)
    os.remove(fn)
    tlc_must(t, 'InkReplica ' + tag)
    bad = {}
    for l in t.prints:
        if l.startswith('D '):
            d = json.loads(l[2:])
            if d['d'] - 1 not in bad or bad[d['d'] - 1]['i'] > d['i']:
                bad[d['d'] - 1] = d
    for n, d in sorted(bad.items()):
        key, data, ops, rs = groups[n]
        i, k = d['i'] - 1, d['k'] - 1
        a, b = (json.loads(result(ops[i], x[i])) if i < len(x) else 'nothing' for x in (rs[0], rs[k]))
        rep.violate(f'{tag}:{key}', dict(data, ops=ops[:i + 1], left=rs[0][i:i + 1], right=rs[k][i:i + 1]),
                    f"{key} after {len(ops[:i])} calls, {ops[i]}, {describe[0]} / {describe[k]}: {difference(a, b)}")
    return len(groups) - len(bad), t


def difference(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return f'{k}: {difference(a.get(k), b.get(k))}'
    if isinstance(a, list) and isinstance(b, list):
        for i in range(max(len(a), len(b))):
            x, y = a[i] if i < len(a) else None, b[i] if i < len(b) else None
            if x != y:
                return f'[{i}] {difference(x, y)}'
    return f'{str(a)[:160]!r} / {str(b)[:160]!r}'


def corpus_programs():
    """corpus sources with what calls need"""
    out = []
    for p in corpus():
        w = {'vars': p.allvars(), 'visits': p.allvisits(), 'path': True}
        out.append((p.name, p.src, doc_of(p.src, p.allvars()), w))
    return out


def doc_of(src, gv):
    kn = re.findall(r'^={2,}\s*(?!function)(\w+)', src, re.M)
    fns = re.findall(r'^={2,}\s*function\s+(\w+)\s*\(([^)]*)\)', src, re.M)
    vals = ['i:0', 'i:-2147483648', 'i:2147483647', 'f:1.5', 'b:true', 's:é']
    return {'vars': gv + ['nosuch'], 'vals': vals, 'knots': kn + ['nosuch', '', '0'] + [x for k in kn[:1] for x in (k + '.0', k + '.99', k + '.c-0', '.' + k, k + '.^.' + k)] + ['.^.^', '0.0', '99', 'é', '.', '-1'], 'exts': re.findall(r'^EXTERNAL\s+(\w+)', src, re.M) + ['other'],
            'fns': [{'fn': f, 'args': ['i:3'] * len([x for x in a.split(',') if x.strip()])} for f, a in fns] + [{'fn': 'nosuch', 'args': []}] + [{'fn': k, 'args': []} for k in kn[:2]]}
