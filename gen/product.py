"""the product of two recorded stories, explored by TLC (InkProduct.tla)"""
from host import *

PCFG = """SPECIFICATION Spec
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
"""
OBS = ('can', 'text', 'tags', 'choices', 'vars')


def side(p, fields):
    def o(n):
        d = {f: n['o'].get(f) for f in fields}
        if 'choices' in d:
            d['choices'] = [(c['t'], c['g']) for c in d['choices']]
        return json.dumps([n['r'], d], sort_keys=True, ensure_ascii=True)
    return [{'o': o(n), 'c': n['c'], 'k': n['k'], 't': 'end' if n['r'] == 'ok' and not n['o']['can'] and not n['k'] else ''} for n in p.nodes]


def product(pairs, tag, fields=OBS, timeout=600):
    """pairs: [(Prog a, Prog b)] learned; -> ([(pair index, node a, node b)], TlcResult, number cut)"""
    docs = []
    for a, b in pairs:
        u, v = side(a, fields), side(b, fields)
        ids = {}
        for n in u + v:   # short strings for TLC
            n['o'] = ids.setdefault(n['o'], f'o{len(ids)}')
        docs.append({'a': u, 'b': v})
    fn = os.path.join(BUILD, f'product-{tag}-{os.getpid()}.json')
    json.dump(docs, open(fn, 'w'))
    t = tlc('InkProduct', PCFG, env={'PRODUCT_DOCS': fn}, timeout=timeout, tag='product-' + tag)
    os.remove(fn)
    tlc_must(t, 'InkProduct ' + tag)
    out, cut = [], 0
    for l in sorted(set(t.prints)):
        if l.startswith('D '):
            d = json.loads(l[2:])
            out.append((d['p'] - 1, d['x'], d['y']))
        elif l.startswith('C '):
            cut += 1
    return out, t, cut


def node_diff(a, b, x, y, fields=OBS):
    m, n = a.nodes[x - 1], b.nodes[y - 1]
    if m['r'] != n['r']:
        return f"{m['r']} {str(m['v'])[:120]} / {n['r']} {str(n['v'])[:120]}"
    return '; '.join(f"{f}: {str(m['o'].get(f))[:150]} / {str(n['o'].get(f))[:150]}" for f in fields if m['o'].get(f) != n['o'].get(f)) or 'different ways on'


def calls(p, nid):
    return ['cont' if o['op'] == 'cont' else f"choose {o['i']}" for o in path_ops(p, nid)]


def compare(rep, pairs, tag, fields=OBS, what=('left', 'right')):
    """reports every pair of positions that differ; -> coverage"""
    diffs, t, cut = product(pairs, tag, fields)
    bad = {}
    for i, x, y in diffs:
        bad.setdefault(i, (x, y))
    for i, (x, y) in sorted(bad.items()):
        a, b = pairs[i]
        c = calls(a, x)
        rep.violate(f"{tag}:{a.name}:{'.'.join(c)}", {'name': a.name, 'source': a.src, 'calls': c, what[0]: a.nodes[x - 1], what[1]: b.nodes[y - 1]},
                    f"{a.name} after {c[-6:]} ({what[0]} / {what[1]}): {node_diff(a, b, x, y, fields)}")
    return dict(states=t.distinct, transitions=t.generated, pairs=len(pairs), traces_validated_against_impl=sum(len(a.nodes) + len(b.nodes) for a, b in pairs), cut=cut)
