"""C17: reset and jumps, against InkHost.tla."""
from host import *
from c09 import prep


def wanders(p, n=8):
    """calls that throw the story off its recorded play in every way the host can"""
    out = []
    for i in range(n):
        r = random.Random(f'{SEED}/{p.name}/{i}')
        knots = [v for v in p.allvisits()] or ['zf6']
        var = p.allvars() or ['zzg']

        def one():
            c = r.randrange(15)
            if c < 3:
                return [{'op': 'cont'}]
            if c < 6:
                return [{'op': 'choose', 'i': r.randrange(3)}]
            return [[{'op': 'jump', 'p': r.choice(knots)}], [{'op': 'jump', 'p': r.choice(knots), 'reset': False}],
                    [{'op': 'switch', 'f': r.choice(['wa', 'wb'])}], [{'op': 'default_flow'}], [{'op': 'remove', 'f': 'wa'}],
                    [{'op': 'set', 'n': r.choice(var), 'v': r.choice(['i:77', 's:zz', 'b:true', 'f:0.5'])}],
                    [{'op': 'eval', 'fn': 'zf2', 'args': ['i:3']}], [{'op': 'save', 'slot': 'w'}, {'op': 'cont'}, {'op': 'load', 'slot': 'w'}],
                    [{'op': 'async', 'k': r.randrange(1, 6)}]][c - 6]
        ops = []
        for _ in range(r.randrange(2, 9)):
            ops += one()
        out.append([dict(o) for o in ops] + [{'op': 'slices', 'ks': []}])
    return out


def check():
    rep = Report('C17', 'model_checking')
    b = build('debug')
    log('built')
    k = 6 if THOROUGH else 1
    o = lambda **kw: dict(binary=b, **kw)
    W = 8

    def wander(ps):
        for p in prep(ps):
            p.wanders = wanders(p, W)
        return ps
    plain = lambda p: doc(p, {'reset': 1}, {'reset': 1}, 26)
    wand = lambda p: doc(p, {'reset': 2, 'wander': 3, 'eval': 1, 'save': 1, 'load': 1}, {'wander': 1}, 30, wanders=W, evals=len(p.evals))
    flow = lambda p: doc(p, {'reset': 2, 'wander': 2, 'flow': 5, 'remove': 1, 'save': 1, 'fresh': 1}, {'reset': 1, 'flow': 1}, 34, wanders=W)
    jump = lambda p: doc(p, {'jump': 1, 'transfer': 1, 'reset': 1}, {'jump': 1}, 30)
    jumps = multiflow('c17j', 30 * k, 3, 2)
    for p in jumps:
        p.jumps = {'f1'}
    suite('C17', rep, [
        ('scenarios', prep([scenario(n) for n in SCENARIOS]), (3, 50 * k), plain, 0, o(cap=3000 * k)),
        ('small', prep(generated('c17s', 40 * k, 2)), (3, 30), plain, 0, o(cap=2500 * k)),
        ('wander', wander([scenario(n) for n in SCENARIOS] + generated('c17w', 60 * k, 3)), (4, 60), wand, 3500 * k, o(notes=False)),
        ('flows', wander(multiflow('c17f', 14 * k, 2, 2)), (2, 30), flow, 1500 * k, o(notes=False)),
        ('jumps', jumps, (3, 40), jump, 2500 * k, o(notes=False)),
    ], None)


if __name__ == '__main__':
    main(check)
