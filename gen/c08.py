"""C08: time-limited continues, against InkHost.tla."""
from host import *
from c09 import prep

BIG = 10 ** 6
PATS = [[1], [2], [3], [5], [8], [13], [21], [1, 4], [7, 1, 1], [BIG]]
FIRST = [[k, BIG] for k in range(1, 41)] + [[k] for k in (1, 2, 3, 5)]
MIXED = PATS + FIRST[:20]


def mid(p):
    """while a continue is unfinished these are refused"""
    v = p.allvars()[:1]
    ops = [{'op': 'choose', 'i': 0}, {'op': 'reset'}, {'op': 'switch', 'f': 'zz'}, {'op': 'remove', 'f': 'f1'}, {'op': 'load', 'slot': 'mid'},
           {'op': 'jump', 'p': 'zf6'}, {'op': 'jump', 'p': 'zf6', 'reset': False}, {'op': 'eval', 'fn': 'zf1', 'args': ['i:1']},
           {'op': 'bind', 'n': 'zznew', 'safe': True, 'ret': {'k': 'none'}}, {'op': 'unbind', 'n': 'zzbound'}, {'op': 'maximally'},
           {'op': 'set', 'n': 'zzg', 'v': 'i:7'}, {'op': 'observe', 'o': 'o2', 'n': 'zzg'}]
    return ops + [{'op': 'unobserve', 'o': 'o1', 'n': n} for n in v] + [{'op': 'unobserve', 'o': 'o1'}] + [{'op': 'set', 'n': n, 'v': 'i:7'} for n in v]


def check():
    rep = Report('C08', 'model_checking')
    b = build('debug')
    log('built')
    k = 6 if THOROUGH else 1
    o = lambda sl, **kw: dict(binary=b, slices=sl, mid=mid, **kw)
    first = lambda p: doc(p, {'slice': 1}, {'slice': 1}, 22, slices=FIRST)
    uni = lambda p: doc(p, {'slice': 99}, {'slice': 1}, 40, slices=PATS, uniform=True)
    many = lambda p: doc(p, {'slice': 30, 'save': 2, 'load': 1, 'fresh': 1, 'reset': 1, 'eval': 2}, {'slice': 5}, 34, slices=MIXED, evals=len(p.evals))
    flow = lambda p: doc(p, {'slice': 20, 'save': 1, 'fresh': 1, 'flow': 5, 'remove': 1}, {'flow': 1, 'slice': 2}, 28, slices=MIXED)
    suite('C08', rep, [
        ('uniform', prep([scenario(n) for n in SCENARIOS] + generated('c08u', 40 * k, 3)), (4, 50), uni, 0, o(PATS, cap=1200 * k)),
        ('corpus', corpus(), (3, 40 * k), uni, 0, dict(binary=b, slices=PATS, cap=2500 * k)),
        ('first', prep([scenario(n) for n in SCENARIOS] + generated('c08s', 20 * k, 3)), (3, 40 * k), first, 0, dict(binary=b, slices=FIRST, cap=4000 * k)),
        ('random', prep([scenario(n) for n in SCENARIOS] + generated('c08r', 40 * k, 3)), (4, 100), many, 1000 * k, o(MIXED, notes=False)),
        ('flows', prep(multiflow('c08f', 14 * k, 2, 2)), (2, 30), flow, 600 * k, o(MIXED, notes=False)),
    ], None)


if __name__ == '__main__':
    main(check)
