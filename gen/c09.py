"""C09: refused calls change nothing, against InkHost.tla."""
from host import *


def prep(ps):
    for p in ps:
        with_functions(p)
        # the bound function is called in every knot, so that it shows whose function it is
        p.src = 'EXTERNAL zzbound()\n' + re.sub(r'^(==+ *\w+ *(?:\(.*\))? *=*)$', lambda m: m[1] if 'function' in m[1] else m[1] + '\nzz {zzbound()}', p.src, flags=re.M)
        p.src += 'VAR zzg = 1\nVAR zzd = -> zzk\n=== zzk ===\n-> END\n'
        p.setup = p.setup + ZZ
    return ps


def check():
    rep = Report('C09', 'model_checking')
    b = build('debug')
    log('built')
    k = 6 if THOROUGH else 1
    bad = bad_calls()
    B = dict(bad=bad)
    o = lambda **kw: dict(binary=b, bad=bad, **kw)
    one = lambda p: doc(p, {'bad': 1}, {'bad': 1}, 22, **B)
    many = lambda p: doc(p, {'bad': 12, 'save': 2, 'load': 1, 'fresh': 2, 'reset': 1, 'eval': 2}, {'bad': 4}, 34, evals=len(p.evals), **B)
    flow = lambda p: doc(p, {'bad': 8, 'save': 1, 'fresh': 1, 'flow': 5, 'remove': 1}, {'flow': 1, 'bad': 2}, 28, **B)
    suite('C09', rep, [
        ('scenarios', prep([scenario(n) for n in SCENARIOS]), (3, 40 * k), one, 0, o(cap=6000 * k)),
        ('small', prep(generated('c09s', 20 * k, 2)), (3, 30), one, 0, o(cap=3000 * k)),
        ('random', prep([scenario(n) for n in SCENARIOS] + generated('c09r', 40 * k, 3)), (4, 100), many, 2500 * k, o(notes=False)),
        ('flows', prep(multiflow('c09f', 14 * k, 2, 2)), (2, 30), flow, 1500 * k, o(notes=False)),
    ], None)


if __name__ == '__main__':
    main(check)
