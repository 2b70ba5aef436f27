"""C02: saving and loading, against InkHost.tla."""
from host import *


def check():
    rep = Report('C02', 'model_checking')
    b = build('debug')
    log('built')
    k = 6 if THOROUGH else 1
    o = lambda **kw: dict(binary=b, notes=False, **kw)
    one = lambda p: doc(p, {'transfer': 1}, {'transfer': 1}, 22)
    many = lambda p: doc(p, {'transfer': 3, 'save': 3, 'load': 2, 'fresh': 2, 'reset': 1}, {'save': 1}, 30)
    flow = lambda p: doc(p, {'transfer': 2, 'save': 2, 'fresh': 2, 'load': 1, 'flow': 5, 'remove': 1}, {'flow': 1}, 24)
    suite('C02', rep, [
        ('scenarios', [scenario(n) for n in SCENARIOS], (4, 120 * k), one, 0, o(cap=4000 * k)),
        ('corpus', corpus(), (3, 40 * k), one, 0, o(cap=3000 * k)),
        ('small', generated('c02s', 60 * k, 2), (4, 60), one, 0, o(cap=4000 * k)),
        ('large', generated('c02l', 40 * k, 4), (3, 60), one, 0, o(cap=4000 * k)),
        ('random', [scenario(n) for n in SCENARIOS] + generated('c02r', 40 * k, 3), (4, 100), many, 1500 * k, o()),
        ('flows', multiflow('c02f', 10 * k, 2, 2) + multiflow('c02g', 6 * k, 2, 3), (2, 30), flow, 2000 * k, o()),
    ], None)


if __name__ == '__main__':
    main(check)
