"""Greedy structural shrinking of inkgen programs."""


def paths(x, pre=()):
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            yield from paths(y, pre + (i,))
        yield pre, x
    elif isinstance(x, dict):
        for k, y in x.items():
            yield from paths(y, pre + (k,))
        yield pre, x


def put(x, path, v):
    if not path:
        return v
    k = path[0]
    if isinstance(x, dict):
        y = dict(x)
        y[k] = put(x[k], path[1:], v)
        return y
    y = list(x)
    y[k] = put(x[k], path[1:], v)
    return tuple(y) if isinstance(x, tuple) else y


def candidates(p):
    ps = list(paths(p))
    ps.sort(key=lambda t: len(t[0]))
    for path, x in ps:
        if isinstance(x, list):
            if path and path[-1] in ('pars', 'ptypes', 'stitches'):
                continue
            if len(x) >= 4:
                h = len(x) // 2
                yield put(p, path, x[:h])
                yield put(p, path, x[h:])
            for i in range(len(x)):
                yield put(p, path, x[:i] + x[i + 1:])
        elif isinstance(x, tuple) and x and isinstance(x[0], str):
            if x[0] == 'op2':
                yield put(p, path, x[2])
                yield put(p, path, x[3])
            elif x[0] == 'op1':
                yield put(p, path, x[2])
            elif x[0] in ('call', 'ts', 'cnt', 'turns'):
                yield put(p, path, ('i', 1))
            elif x[0] == 'if' and len(x) == 4:
                if x[3] is not None:
                    yield put(p, path, ('if', x[1], x[2], None))
            elif x[0] == 'e' and x[1][0] not in ('i', 'var'):
                yield put(p, path, ('t', 'z'))
            elif x[0] == 'choice':
                c = x[1]
                for k, v in (('conds', []), ('label', None), ('only', None), ('inner', []), ('exit', None)):
                    if c.get(k):
                        yield put(p, path, ('choice', dict(c, **{k: v})))
            elif x[0] in ('if', 'seq'):
                pass
        elif isinstance(x, dict) and 'start' in x:
            pass


def shrink(p, pred, budget=400):
    n = 0
    improved = True
    while improved and n < budget:
        improved = False
        for c in candidates(p):
            n += 1
            if n > budget:
                break
            try:
                ok = pred(c)
            except Exception:
                ok = False
            if ok:
                p = c
                improved = True
                break
    return p


def valid(p):
    """names resolve, arities match, nothing is empty that Ink needs"""
    flows = {f['name']: f for f in p['flows']}
    gl = {v for v, _ in p['vars']} | {l['name'] for l in p['lists']} | {c for c, _ in p['consts']}
    labels = set()
    for fl in [dict(name='root', body=p['root'])] + p['flows']:
        for path, x in paths(fl['body']):
            q = '' if fl['name'] == 'root' else fl['name'] + '.'
            if isinstance(x, tuple) and x and x[0] == 'gather' and x[1]:
                labels.add(q + x[1])
            if isinstance(x, dict) and x.get('label'):
                labels.add(q + x['label'])
    for l in p['lists']:
        if not l['items']:
            return False
    lens = {'op2': 4, 'op1': 3, 'e': 2, 'i': 2, 'b': 2, 'var': 2, 'cnt': 3, 'ts': 3, 'call': 3, 'set': 4, 'temp': 3,
            'callst': 3, 'mseq': 3, 'seq': 3, 'line': 3, 'thread': 3, 'tag': 2, 't': 2, 'item': 3, 'gather': 3, 'choice': 2, 'div': 3, 'tun': 3}
    items = {(l['name'], i[0], i[1]) for l in p['lists'] for i in l['items']}

    def flow_ok(fl):
        temps = {x.replace('ref ', '') for x in fl.get('pars', [])}
        for path, x in paths(fl['body']):
            if isinstance(x, tuple) and x and x[0] == 'temp':
                temps.add(x[1])
        for path, x in paths(fl['body']):
            if isinstance(x, list) and any(isinstance(y, tuple) and y and y[0] == 'choice' for y in x):
                for y, z in zip(x, x[1:]):
                    if y[0] == 'choice' and z[0] not in ('choice', 'gather'):
                        return False
            if isinstance(x, dict):
                if not x.get('fallback') and not x['start'] and not x['only']:
                    return False
                continue
            if not (isinstance(x, tuple) and x and isinstance(x[0], str)):
                continue
            k = x[0]
            if k in lens and len(x) != lens[k]:
                return False
            if k == 'var' and x[1] not in gl | temps:
                return False
            if k == 'item' and tuple(x[2]) not in items:
                return False
            if k == 'set' and x[1] not in gl | temps:
                return False
            if k == 'ref' and x[1] not in gl | temps:
                return False
            if k == 'cnt' and x[2] not in labels and x[2] not in flows:
                return False
            if k == 'ts' and x[2] not in flows:
                return False
            if k in ('call', 'callst') and (x[1] not in flows or len(flows[x[1]]['pars']) != len(x[2])):
                return False
            if k in ('tun', 'div', 'thread') and (x[1] not in flows or len(flows[x[1]]['pars']) != len(x[2])):
                return False
            if k in ('divv', 'tunv') and x[1] not in gl | temps:
                return False
            if k == 'line' and not x[1] and not x[2]:
                return False
            if k == 'if' and (not x[2] or x[3] == []):
                return False
            if k in ('seq', 'mseq') and (len(x[2]) < 2 or any(not b for b in x[2])):
                return False
            if k == 'tag' and not x[1]:
                return False
            if k in ('cond',) and (not x[1] or any(not b[1] for b in x[1]) or x[1][0][0] is None or any(b[0] is None for b in x[1][:-1])):
                return False
            if k == 'switch' and (not x[2] or any(not b[1] for b in x[2]) or any(b[0] is None for b in x[2][:-1])):
                return False
        return True
    for fl in [dict(name='root', body=p['root'])] + p['flows']:
        if not fl['body'] or not flow_ok(fl):
            return False
    return True


def batch_shrink(p, preds, width=120, rounds=25):
    """like shrink, but preds judges a list of candidates at once"""
    for _ in range(rounds):
        cs, seen = [], set()
        for c in candidates(p):
            k = repr(c)
            if k in seen or not safe_valid(c):
                continue
            seen.add(k)
            cs.append(c)
        found = None
        cs.sort(key=lambda c: len(repr(c)))
        for i in range(0, len(cs), width):
            part = cs[i:i + width]
            oks = preds(part)
            for c, ok in zip(part, oks):
                if ok:
                    found = c
                    break
            if found is not None:
                break
        if found is None:
            return p
        p = found
    return p


def safe_valid(c):
    try:
        return valid(c)
    except Exception:
        return False
