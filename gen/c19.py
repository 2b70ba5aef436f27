"""C19: every object of the content is addressed by its own path (InkTree.tla)"""
from host import *
from c14 import corpus_sources

CFG = 'SPECIFICATION Spec\nINVARIANT RoundTrip\nINVARIANT Addressable\nINVARIANT Distinct\nINVARIANT Related\nCONSTANTS Mode = "%s" Size = %d\nCHECK_DEADLOCK FALSE\n'


def run_tlc(mode, size, env=None, timeout=800):
    t = tlc('InkTree', CFG % (mode, size), env=env, timeout=timeout, tag='tree-' + mode)
    tlc_must(t, 'InkTree ' + mode)
    return t


# ------------------------------------------------------------------ texts
def comps(p):
    return [c['i'] if c['k'] == 'i' else c['n'] for c in p['cs']]


def texts(rep, bins):
    t = run_tlc('path', 6 if THOROUGH else 5)
    l = [json.loads(s[2:]) for s in t.prints if s.startswith('T ')]
    group = 2000
    jobs = [{'parse_paths': [x['t'] for x in l[i:i + group]]} for i in range(0, len(l), group)]
    rs = [x for r in run_jobs(bins['default'], jobs) for x in r['paths']]
    for x, r in zip(l, rs):
        want = {'relative': x['p']['rel'], 'components': comps(x['p']), 'text': x['s'], 'equal': True, 'hash_equal': True,
                'built_equal': True, 'built_text': x['s'], 'built_hash_equal': True}
        if r != want:
            rep.violate('text:' + x['t'], {'text': x['t'], 'spec': want, 'real': r}, f"path text {x['t']!r}: {[(k, want[k], r.get(k)) for k in want if r.get(k) != want[k]]} (specified, real)")
    return len(l), t


# ------------------------------------------------------------------ trees
def doc_of(t, rng):
    """the tree as a compiled story"""
    def box(i, name_inside):
        n = t[i - 1]
        out = [box(k, True) if t[k - 1]['c'] else '^' + 'n%d' % k for k in n['content']]
        extra = {m: box(k, rng.random() < .3) for m, k in n['named'] if k not in n['content']}
        if name_inside and n['name']:
            extra['#n'] = n['name']
        if rng.random() < .5:
            extra['#f'] = rng.randrange(1, 8)
        return out + [extra or None]
    return json.dumps({'inkVersion': 21, 'root': box(1, False), 'listDefs': {}})


def order(t):
    """the nodes in the order the audit lists them: content, then what is known only by name"""
    out = []

    def walk(i):
        out.append(i)
        for k in t[i - 1]['content']:
            walk(k)
        for m, k in sorted(t[i - 1]['named']):
            if k not in t[i - 1]['content']:
                walk(k)
    walk(1)
    return out


def grown(rep, bins):
    t = run_tlc('grow', 6 if THOROUGH else 5)
    l = [json.loads(s[2:]) for s in t.prints if s.startswith('G ')]
    rng = random.Random(SEED)
    if THOROUGH and len(l) > 120000:
        l = rng.sample(l, 120000)
    jobs = []
    for g in l:
        g['ord'] = order(g['t'])
        assert g['ord'] == list(range(1, len(g['t']) + 1)), g
        jobs.append({'json': doc_of(g['t'], rng), 'audit': {'pairs': [[p['x'] - 1, p['y'] - 1] for p in g['r']]}})
    n = 0
    for b, binary in bins.items():
        for g, j, r in zip(l, jobs, run_jobs(binary, jobs)):
            if r['r'] != 'ok':
                rep.violate(f'grown:{b}:{j["json"]}', {'json': j['json'], 'result': r}, f'{b} loader: {r}'[:400])
                continue
            for i, (o, p) in enumerate(zip(r['audit']['objects'], g['p'])):
                n += 1
                want = {'path': p, 'resolves': i, 'approximate': False, 'text_resolves': i, 'text_equal': True, 'text_again': p, 'hash_equal': True}
                if any(o[k] != want[k] for k in want):
                    rep.violate(f'grown:{b}:{p}:{j["json"]}', {'json': j['json'], 'object': o, 'spec': want}, f'{b}: object {p} of {j["json"]}: {[(k, want[k], o[k]) for k in want if want[k] != o[k]]} (specified, real)')
            for q, p in zip(r['pairs'], g['r']):
                n += 1
                leads = p['lead'] == p['y']
                want = {'relative': p['rel'], 'text': p['text'], 'back_relative': p['rel'], 'back_equal': True, 'back_text': p['text'], 'back_hash_equal': True,
                        'compact': p['compact'], 'joined': p['joined'], 'resolves': leads, 'back_resolves': leads}
                if p['x'] != p['y'] or g['t'][p['x'] - 1]['c']:
                    want['compact_resolves'] = True
                if any(q[k] != want[k] for k in want):
                    rep.violate(f'pair:{b}:{p["x"]}-{p["y"]}:{j["json"]}', {'json': j['json'], 'pair': q, 'spec': want}, f'{b}: from {g["p"][p["x"] - 1]!r} to {g["p"][p["y"] - 1]!r} in {j["json"]}: {[(k, want[k], q[k]) for k in want if want[k] != q[k]]} (specified, real)')
    return n, len(l), t


# ------------------------------------------------------------------ real stories
def split(text):
    rel = text.startswith('.')
    s = text[1:] if rel else text
    return [{'k': 'i', 'i': int(c), 'n': ''} if c.isdigit() else {'k': 'n', 'i': 0, 'n': c} for c in s.split('.')] if s else []


def positions(save):
    """what a save points at: (path text, place, any): place -1 the container itself, -2 not a place"""
    out = set()

    def el(e):
        if e.get('cPath') is not None:
            out.add((e['cPath'], e['idx'], False))

    def thread(t):
        for e in t['callstack']:
            el(e)
        if t.get('previousContentObject'):
            out.add((t['previousContentObject'], -2, False))

    def value(v):
        if isinstance(v, dict):
            if '^->' in v:
                out.add((v['^->'], -2, True))
            for x in v.values():
                value(x)
        elif isinstance(v, list):
            for x in v:
                value(x)
    for f in save['flows'].values():
        for t in f['callstack']['threads']:
            thread(t)
        for t in (f.get('choiceThreads') or {}).values():
            thread(t)
        for c in f.get('currentChoices', []):
            out.add((c['originalChoicePath'], -2, False))
            out.add((c['targetPath'], -2, False))
    for k in ('visitCounts', 'turnIndices'):
        for p in save.get(k, {}):
            out.add((p, -2, False))
    if save.get('currentDivertTarget'):
        out.add((save['currentDivertTarget'], -2, True))
    value(save.get('variablesState', {}))
    return out


def stories(rep, bins):
    k = 4 if THOROUGH else 1
    progs = compile_all([scenario(n) for n in SCENARIOS] + generated('c19a', 60 * k, 3) + generated('c19b', 30 * k, 4), bins['default']) + corpus()
    progs += compile_all(corpus_sources(), bins['default'])
    jobs = [{'json': p.json, 'audit': {'pairs': []}} for p in progs]
    rng = random.Random(SEED + 19)
    docs, used, bad = [], [], 0
    rs = run_jobs(bins['default'], jobs)
    for p, j, r in zip(progs, jobs, rs):
        if r['r'] != 'ok':
            bad += 1
            continue
        n = len(r['audit']['objects'])
        objs = r['audit']['objects']
        # pairs: near relatives and strangers
        ps = {(rng.randrange(n), rng.randrange(n)) for _ in range(min(3 * n, 400 if not THOROUGH else 3000))}
        for i, o in enumerate(objs):
            if 'parent' in o and rng.random() < .3:
                ps |= {(i, o['parent']), (o['parent'], i)}
        j['audit']['pairs'] = sorted(ps)
    rs = run_jobs(bins['default'], jobs, timeout=60)
    # jumps to containers
    kj, jj = [], []
    for p, r in zip(progs, rs):
        if r['r'] == 'ok':
            cs = [i for i, o in enumerate(r['audit']['objects']) if o['kind'] == 'container' and o['path']]
            cs = rng.sample(cs, min(len(cs), 400 if THOROUGH else 40))
            kj.append((r, cs))
            jj.append({'json': p.json, 'setup': p.setup, 'watch': {'path': True}, 'ops': [o for c in cs for o in ({'op': 'reset', 'q': True}, {'op': 'jump', 'p': r['audit']['objects'][c]['path'], 'reset': True})]})
    for (r, cs), q in zip(kj, run_jobs(bins['default'], jj, timeout=60)):
        r['jumps'] = {c: o['o'].get('path') if o['r'] == 'ok' else f"{o['r']}: {o.get('v')}" for c, o in zip(cs, q.get('ops', [])[1::2])}
    # saves along the play of each story
    depth, nodes = (10, 250) if THOROUGH else (6, 30)
    plays = run_jobs(bins['default'], [{'json': p.json, 'fuel': 20000, 'setup': p.setup, 'tree': {'depth': depth, 'nodes': nodes, 'save': True}, 'watch': {'path': True}} for p in progs], timeout=60)
    resave = []
    for p, r, play in zip(progs, rs, plays):
        if r['r'] != 'ok':
            continue
        objs = r['audit']['objects']
        tree = [{'c': o['kind'] == 'container', 'name': o.get('name') or '', 'content': [c + 1 for c in o.get('content', [])],
                 'named': [[m, c + 1] for m, c in o.get('named', [])], 'parent': o.get('parent', -1) + 1} for o in objs]
        obs = [{'path': o['path'], 'lead': (o['resolves'] if not o['approximate'] else -1) + 1, 'text_lead': o['text_resolves'] + 1, 'again': o['text_again'],
                'places': [], 'pairs': [], 'jumps': [r['jumps'][x]] if x in r['jumps'] else []} for x, o in enumerate(objs)]
        for o, ob in zip(objs, obs):
            if not (o['text_equal'] and o['hash_equal']):
                rep.violate(f'equal:{p.name}:{o["path"]}', {'name': p.name, 'json': p.json, 'object': o}, f'{p.name}: path {o["path"]} written and read again: equal {o["text_equal"]}, equal hashes {o["hash_equal"]}')
            for i, (t, c, ix) in enumerate(o.get('positions', [])):
                ob['places'].append([t, (c if ix < 0 else objs[c]['content'][ix] if c >= 0 and ix < len(objs[c]['content']) else -1) + 1])
        for q in r['pairs']:
            a, b = q['from'], q['to']
            leads = q['resolves'] and q['back_resolves']
            obs[a]['pairs'].append({'x': a + 1, 'y': b + 1, 'rel': q['relative'], 'text': q['text'], 'compact': q['compact'],
                                    'lead': b + 1 if leads else objs[a]['parent'] + 1 if a == b and 'parent' in objs[a] and q['resolves'] == q['back_resolves'] else 0, 'joined': q['joined']})
            ok = q['back_relative'] == q['relative'] and q['back_equal'] and q['back_hash_equal'] and q['back_text'] == q['text'] and (q['compact_resolves'] or a == b)
            if not ok:
                rep.violate(f'relative:{p.name}:{objs[a]["path"]}:{objs[b]["path"]}', {'name': p.name, 'json': p.json, 'pair': q}, f'{p.name}: from {objs[a]["path"]} to {objs[b]["path"]}: {q}'[:500])
        pos = set()
        if play['r'] == 'ok':
            for x, nd in enumerate(play['nodes']):
                nd['n'] = x
                if nd.get('save'):
                    s = json.loads(nd['save'])
                    pos |= positions(s)
                    resave.append((p, nd, s))
        docs.append({'tree': tree, 'obs': obs, 'pos': [{'cs': split(t), 'text': t, 'i': i, 'any': a} for t, i, a in sorted(pos)]})
        used.append(p)
    tot = dict(states=0, transitions=0)
    npos = sum(len(x['pos']) for x in docs)
    fn = os.path.join(BUILD, f'tree-docs-{os.getpid()}.json')
    json.dump(docs, open(fn, 'w'))
    t = run_tlc('audit', 0, env={'TREE_DOCS': fn})
    os.remove(fn)
    seen = set()
    for l in sorted(set(t.prints)):
        if l.startswith('D '):
            b = json.loads(l[2:])
            p = used[b['d'] - 1]
            if (p.name, b['what']) in seen:
                continue
            seen.add((p.name, b['what']))
            rep.violate(f"{b['what']}:{p.name}:{b['x']}", {'name': p.name, 'source': p.src, 'json': p.json, 'what': b}, f"{p.name}: {b['what']}: specified {b['want']}, real {b['got']}")
    return t, dict(stories=len(used), objects=sum(len(x['tree']) for x in docs), relative_pairs=sum(len(o['pairs']) for x in docs for o in x['obs']), positions=npos, jumps=sum(len(r['jumps']) for r, _ in kj), skipped=bad), resave, progs


def read_back(rep, bins, resave, progs):
    """a save loaded into a fresh story and saved again: the same positions, and the same current path"""
    rng = random.Random(SEED + 91)
    if len(resave) > (20000 if THOROUGH else 2500):
        resave = rng.sample(resave, 20000 if THOROUGH else 2500)
    jobs = [{'json': p.json, 'setup': p.setup, 'watch': {'path': True}, 'ops': [{'op': 'load_text', 'text': nd['save']}, {'op': 'savejson'}]} for p, nd, s in resave]
    for (p, nd, s), r in zip(resave, run_jobs(bins['default'], jobs)):
        key = f"readback:{p.name}:{nd['n']}"
        if r['r'] != 'ok' or any(o['r'] != 'ok' for o in r['ops']):
            rep.violate(key, {'name': p.name, 'json': p.json, 'save': nd['save'], 'result': r}, f'{p.name}: a save is not read back: {r}'[:400])
            continue
        again = json.loads(r['ops'][1]['v'])
        a, b = positions(s), positions(again)
        cur = r['ops'][0]['o'].get('path')
        if a != b or cur != nd['o'].get('path'):
            rep.violate(key, {'name': p.name, 'json': p.json, 'save': nd['save'], 'again': r['ops'][1]['v'], 'path': [nd['o'].get('path'), cur]},
                        f"{p.name} node {nd['n']}: positions saved {sorted(a - b)[:4]}, read back {sorted(b - a)[:4]}; current path {nd['o'].get('path')} / {cur}")
    return len(jobs)


def check():
    rep = Report('C19', 'model_checking')
    bins = {'default': build('debug'), 'stream': build('debug', 'stream')}
    log('built')
    ntext, t1 = texts(rep, bins)
    log('texts', ntext)
    ngrown, ntrees, t2 = grown(rep, bins)
    log('grown trees', ntrees, 'checks', ngrown)
    t3, cov, resave, progs = stories(rep, bins)
    log('stories', cov)
    nback = read_back(rep, bins, resave, progs)
    ts = (t1, t2, t3)
    rep.finish(states=sum(t.distinct for t in ts), transitions=sum(t.generated for t in ts), traces_validated_against_impl=ntrees * 2 + cov['stories'] + nback,
               path_texts=ntext, small_trees=ntrees, small_tree_checks=ngrown, saves_read_back=nback, **cov,
               samples=[{'program': p.name, 'node': nd['n'], 'positions': sorted(positions(s))[:6]} for p, nd, s in resave[5:2000:400]])


if __name__ == '__main__':
    main(check)
