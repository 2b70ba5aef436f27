"""C05: this compiler against the reference-compiled corpus, by InkProduct.tla."""
from product import *


def corpus_pairs():
    root = os.path.join(REPO, 'conformance-tests', 'inkfiles')
    out = []
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            s = os.path.join(d, f)
            if not f.endswith('.ink') or not os.path.exists(s + '.json'):
                continue
            src = open(s, encoding='utf-8-sig').read()
            j = open(s + '.json', encoding='utf-8-sig').read()
            gv = sorted(set(re.findall(r'^\s*(?:VAR|LIST)\s+(\w+)', src, re.M)))
            for gd in re.findall(r'"VAR=": ?"(\w+)"', j[j.find('"global decl"'):] if '"global decl"' in j else ''):
                gv = sorted(set(gv) | {gd})
            name = os.path.relpath(s, root)
            setup = [{'op': 'fallbacks', 'v': True, 'q': True}]
            a = Prog(name, src, {'': gv}, {'': []}, setup, count_all=None)
            b = Prog(name, src, {'': gv}, {'': []}, setup, count_all=None)
            b.json = j
            out.append((a, b))
    return out


def check():
    rep = Report('C05', 'model_checking')
    b = build('debug')
    log('built')
    pairs = corpus_pairs()
    comp = compile_all([a for a, _ in pairs], b)
    for a, r in pairs:
        if a not in comp:
            rep.violate(f'compile:{a.name}', {'source': a.src}, f'{a.name}: does not compile')
    pairs = [q for q in pairs if q[0] in comp]
    cov = {}
    big = [q for q in pairs if q[0].name.startswith('TheIntercept')]
    small = [q for q in pairs if q not in big]
    walks = []
    for a, r in big:   # from the positions that random walks reach
        for i in range(600 if THOROUGH else 60):
            rnd = random.Random(f'{SEED}/{i}')
            pre = [{'op': 'drain', 'max': 60, 'q': True}]
            for _ in range(rnd.randrange(1, 32)):
                pre += [{'op': 'choose', 'i': rnd.choice((0, 0, 1, 1, 2)), 'q': True}, {'op': 'drain', 'max': 60, 'q': True}]
            two = []
            for p in (a, r):
                q = Prog(f'{p.name}#{i}', p.src, p.vars, p.visits, p.setup + pre, count_all=None)
                q.json = p.json
                two.append(q)
            walks.append(tuple(two))
    for tag, ps, depth, nodes in (('corpus', small, 12 if THOROUGH else 8, 6000 if THOROUGH else 800), ('intercept', big, 40, 10000 if THOROUGH else 1000),
                                  ('walks', walks, 4, 150)):
        ra = learn([a for a, _ in ps], b, depth, nodes, lines=60)
        rb = learn([r for _, r in ps], b, depth, nodes, lines=60)
        for a, r in ps:
            if r in rb and a not in ra:
                rep.violate(f'play:{a.name}', {'source': a.src, 'bad': str(a.bad)}, f'{a.name}: {str(a.bad)[:200]} (the reference story plays)')
        both = [(a, r) for a, r in ps if a in ra and r in rb]
        c = compare(rep, both, 'c05' + tag, what=('compiled', 'reference'))
        log(tag, c)
        for k, v in c.items():
            cov[k] = cov.get(k, 0) + v
    rep.finish(samples=[{'source': a.name, 'nodes': len(a.nodes)} for a, _ in pairs[:3] if hasattr(a, 'nodes')], **cov)


if __name__ == '__main__':
    main(check)
