"""C10: flows, against InkHost.tla."""
from host import *


def check():
    rep = Report('C10', 'model_checking')
    b = build('debug')
    log('built')
    k = 6 if THOROUGH else 1
    o = lambda **kw: dict(binary=b, **kw)
    two = lambda p: doc(p, {'flow': 3}, {'flow': 2}, 9)
    three = lambda p: doc(p, {'flow': 9, 'detour': 4, 'remove': 1, 'save': 2, 'fresh': 2, 'load': 1, 'transfer': 2}, {'flow': 2}, 34)
    jump = lambda p: doc(p, {'flow': 6, 'detour': 2, 'remove': 1, 'jump': 1, 'transfer': 1}, {'flow': 1, 'jump': 1}, 30)
    jumps = multiflow('c10j', 12 * k, 2, 3)
    for p in jumps:
        p.jumps = {'f2'}
    suite('C10', rep, [
        ('two', multiflow('c10a', 14 * k, 2, 2), (2, 24), two, 0, o(cap=5000 * k)),
        ('deep', multiflow('c10b', 14 * k, 4, 2), (3, 40), three, 1800 * k, o(notes=False)),
        ('three', multiflow('c10c', 20 * k, 2, 3), (2, 24), three, 1800 * k, o(notes=False)),
        ('many', multiflow('c10d', 10 * k, 2, 5), (2, 24), three, 1200 * k, o(notes=False)),
        ('jumps', jumps, (2, 24), jump, 2000 * k, o(notes=False)),
    ], None)


if __name__ == '__main__':
    main(check)
