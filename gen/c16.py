"""C16: evaluating Ink functions from the host, against InkHost.tla."""
from host import *
from c09 import prep

BAD = [x for x in bad_calls() if x['op']['op'] == 'eval']


def check():
    rep = Report('C16', 'model_checking')
    b = build('debug')
    log('built')
    k = 6 if THOROUGH else 1
    o = lambda **kw: dict(binary=b, bad=BAD, **kw)
    B = dict(bad=BAD)
    one = lambda p: doc(p, {'eval': 1}, {'eval': 1}, 24, evals=len(p.evals))
    many = lambda p: doc(p, {'bad': 3, 'eval': 14, 'transfer': 1, 'save': 1, 'load': 1, 'fresh': 1, 'reset': 1}, {'eval': 4}, 40, evals=len(p.evals), **B)
    flow = lambda p: doc(p, {'bad': 1, 'eval': 9, 'save': 1, 'fresh': 1, 'flow': 5, 'remove': 1}, {'flow': 1, 'eval': 2}, 30, evals=len(p.evals), **B)
    suite('C16', rep, [
        ('scenarios', prep([scenario(n) for n in SCENARIOS]), (4, 60 * k), one, 0, o(cap=5000 * k)),
        ('small', prep(generated('c16s', 40 * k, 2)), (3, 40), one, 0, o(cap=4000 * k)),
        ('random', prep([scenario(n) for n in SCENARIOS] + generated('c16r', 60 * k, 3)), (4, 100), many, 2500 * k, o(notes=False)),
        ('flows', prep(multiflow('c16f', 14 * k, 2, 2)), (2, 30), flow, 1500 * k, o(notes=False)),
    ], None)


if __name__ == '__main__':
    main(check)
