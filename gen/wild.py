"""Random Ink sources over the whole language, faults included. Nothing here knows what they mean: they are
played where any play has to agree with itself (C03), survive (C04) or be compiled at all (C06)."""
import random

INTS = [0, 1, -1, 2, 3, 7, 10, 46341, 65536, 2147483647, -2147483647, 1000000007]
TEXT = ['ash', 'bay', 'é', 'cod', 'dim eel', '日本', 'x-ray', 'Zürich', '😀', 'it\'s', '...', '"quoted"', 'fox,', 'gnu;', '(hm)', '100%', 'a/b', 'end.']


WORDS = 'ash bay cod dim elk fog'.split()


class Wild:
    def __init__(self, key, faults=.1, size=3, chance=False):
        self.r = random.Random(key)
        self.faults, self.size, self.chance = faults, size, chance
        self.lists, self.vars, self.knots, self.funcs, self.exts = {}, {}, [], [], []
        self.labels, self.nl = [], 0

    def p(self, x):
        return self.r.random() < x

    def pick(self, s):
        return self.r.choice(list(s))

    # -------------------------------------------------------------- expressions, of kind n(umber) s(tring) b(ool) l(ist) d(ivert)
    def item(self):
        l = self.pick(self.lists)
        return f'{l}.{self.pick(self.lists[l])}'

    def var(self, k, tm):
        c = [v for v, t in self.vars.items() if t == k] + [v for v, t in tm.items() if t == k]
        return self.pick(c) if c else None

    def e(self, k, tm, d=2):
        r = self.r
        if self.p(self.faults * .3):
            k = self.pick('nsbld')
        if d <= 0 or self.p(.25):
            v = self.var(k, tm)
            if v and self.p(.6):
                return v
            if k == 'n':
                return str(self.pick(INTS)) if self.p(.7) else self.pick(['0.5', '1.25', '3.0', '100000.5', '-2.5'])
            if k == 's':
                return '"' + self.pick(TEXT).replace('"', '') + '"'
            if k == 'b':
                return self.pick(['true', 'false'])
            if k == 'd':
                return '-> ' + self.pick(self.knots)[0] if self.knots else 'true'
            n = r.randrange(4)
            return '(' + ', '.join(self.item() for _ in range(n)) + ')' if n != 1 else self.item()
        s = lambda k: self.e(k, tm, d - 1)
        z = r.random()
        if k == 'n':
            if z < .45:
                return f"({s('n')} {self.pick('+-*')} {s('n')})"
            if z < .55:
                return f"({s('n')} {self.pick(['/', 'mod', '%'])} {s('n') if self.p(self.faults * 2) else self.pick(['2', '3', '-7', '0.5'])})"
            if z < .6:
                return f"({self.pick(['-', ''])}{s('n')})"
            if z < .68:
                return f"{self.pick(['LIST_COUNT', 'LIST_VALUE'])}({s('l')})"
            if z < .76 or self.chance and z < .86:
                return f"RANDOM({s('n') if self.p(self.faults) else r.randrange(-3, 3)}, {s('n') if self.p(self.faults) else r.randrange(3, 40)})"
            if z < .82 and self.labels:
                return self.pick([f'TURNS_SINCE(-> {self.pick(self.labels)})', self.pick(self.labels), f'READ_COUNT(-> {self.pick(self.labels)})'])
            if z < .86:
                return self.pick(['TURNS()', 'CHOICE_COUNT()'])
            if z < .92:
                return f"{self.pick(['INT', 'FLOOR', 'CEILING', 'FLOAT'])}({s('n')})"
            if z < .95:
                return f"{self.pick(['MIN', 'MAX', 'POW'])}({s('n')}, {s('n') if self.p(self.faults) else r.randrange(4)})"
            return self.call(tm, d) or s('n')
        if k == 's':
            return f"({s('s')} + {s(self.pick('snb'))})" if z < .8 else (self.call(tm, d) or s('s'))
        if k == 'b':
            t = self.pick('nnsl')
            return f"({s(t)} {self.pick(['==', '!='] if t == 's' else ['==', '!=', '<', '>', '<=', '>='])} {s(t)})" if z < .55 else \
                f"({s('b')} {self.pick(['and', 'or', '&&'])} {s('b')})" if z < .75 else f"(not {s('b')})" if z < .85 else f"({s('l')} {self.pick(['?', '!?', 'has', 'hasnt'])} {s('l')})"
        if k == 'd':
            return '-> ' + self.pick(self.knots)[0] if self.knots else 'true'
        if z < .3:
            return f"({s('l')} {self.pick(['+', '-', '^'])} {s('l')})"
        if z < .45:
            return f"{self.pick(['LIST_MIN', 'LIST_MAX', 'LIST_ALL', 'LIST_INVERT'])}({s('l')})"
        if z < .6 or self.chance and z < .75:
            return f"LIST_RANDOM({s('l')})"
        if z < .8:
            a, b = (self.item(), self.item()) if self.p(.5) else (r.randrange(3), r.randrange(2, 6))
            return f"LIST_RANGE({s('l')}, {a}, {b})"
        if z < .9:
            return f"{self.pick(self.lists)}({r.randrange(0, 5) if self.p(.7) else s('n')})"
        return f"({s('l')} {self.pick('+-')} {r.randrange(1, 3)})"

    def call(self, tm, d):
        c = [f for f in self.funcs if f[3] < self.level] + [(x, n, [], 0) for x, n in self.exts]
        if not c:
            return None
        f, ks, refs, _ = self.pick(c)
        a = []
        for i, k in enumerate(ks):
            if i in refs:
                v = self.var(k, {}) if not tm or self.p(.5) else self.var(k, tm)
                if not v:
                    return None
                a.append(v)
            else:
                a.append(self.e(k, tm, d - 1))
        return f"{f}({', '.join(a)})"

    # -------------------------------------------------------------- text
    def text(self, tm, d=2, choice=False):
        out = [self.pick(WORDS)] if choice or self.p(.7) else []
        for _ in range(self.r.randrange(1, 4)):
            z = self.r.random()
            if z < .5 or choice and z < .7:
                out.append(self.pick(TEXT))
            elif z < .75:
                k = self.pick('nnslbl')
                x = self.e(k, tm, 1 if choice else 2)
                out.append('{' + (x if '||' not in x else self.pick('12')) + '}')
            elif z < .85 and d > 0:
                n = self.r.randrange(2, 5)
                out.append('{' + self.pick(['', '&', '!', '~', '~', '~' if self.chance else '']) + '|'.join(self.text(tm, 0) for _ in range(n)) + '}')
            elif d > 0:
                out.append('{' + self.e('b', tm, 1) + ':' + self.text(tm, 0) + ('|' + self.text(tm, 0) if self.p(.5) else '') + '}')
            else:
                out.append(self.pick(TEXT))
        return ' '.join(out)

    def target(self, tm, here):
        if self.p(self.faults * .5):
            v = self.var('d', tm)
            if v:
                return v
        k, ks = self.pick(self.knots)
        if self.labels and self.p(.15):
            return self.pick(self.labels)
        return k + ('(' + ', '.join(self.e(x, tm, 1) for x in ks) + ')' if ks else '')

    # -------------------------------------------------------------- statements
    def stmt(self, tm, ind, d, fn):
        z = self.r.random()
        out = []
        t = '    ' * ind
        if z < .34:
            l = self.text(tm)
            if self.p(.12):
                l += ' <>'
            if self.p(.06):
                l = '<> ' + l
            if self.p(.15):
                l += ' # ' + self.pick(['tag', 'ｔag 2', 'mood: {' + self.e('n', tm, 1) + '}'])
            if not fn and self.p(.08):
                l += f' -> {self.target(tm, ind)} ->'
            out.append(t + l)
        elif z < .52:
            v = self.pick(self.vars)
            k = self.vars[v]
            if k == 'n' and self.p(.3):
                out.append(t + f"~ {v}{self.pick(['++', '--'])}")
            elif k in 'nl' and self.p(.4):
                out.append(t + f"~ {v} {self.pick(['+=', '-='])} {self.e(k, tm)}")
            else:
                out.append(t + f"~ {v} = {self.e(k if not self.p(self.faults * .3) else self.pick('nsbl'), tm)}")
        elif z < .58 and ind == 0 and len(tm) < 4:
            k = self.pick('nsbl')
            n = f't{self.nl}'
            self.nl += 1
            out.append(t + f'~ temp {n} = {self.e(k, tm)}')
            tm[n] = k
        elif z < .68 and d > 0:
            out.append(t + '{ ' + self.e('b', tm) + ':')
            out += self.block(dict(tm), ind + 1, d - 1, fn)
            if self.p(.5):
                out.append(t + '- else:')
                out += self.block(dict(tm), ind + 1, d - 1, fn)
            out.append(t + '}')
        elif z < .73 and d > 0:
            out.append(t + '{ ' + self.e(self.pick('nl'), tm, 1) + ':')
            for _ in range(2):
                out.append(t + '- ' + (str(self.r.randrange(4)) if self.p(.6) else self.item()) + ':')
                out += self.block(dict(tm), ind + 1, 0, fn)
            out.append(t + '- else:')
            out += self.block(dict(tm), ind + 1, 0, fn)
            out.append(t + '}')
        elif z < .80 and d > 0:
            out.append(t + '{ ' + self.pick(['stopping', 'cycle', 'once', 'shuffle', 'shuffle', 'shuffle once']) + ':')
            for _ in range(self.r.randrange(2, 4)):
                b = self.block(dict(tm), ind + 1, 0, fn)
                out.append(t + '- ' + b[0].strip())
                out += b[1:]
            out.append(t + '}')
        elif z < .86:
            c = self.call(tm, 1)
            if c:
                out.append(t + '~ ' + c)
        elif z < .89:
            out.append(t + f'~ SEED_RANDOM({self.e("n", tm, 1)})')
        elif z < .93 and not fn:
            k, ks = self.pick(self.knots)
            if ks:
                out.append(t + f'-> {self.target(tm, 0)} ->')
            else:
                out.append(t + f'<- {k}')
        elif not fn:
            out.append(t + f'-> {self.target(tm, 0)} ->' if self.p(.7) else t + f'-> {self.target(tm, 0)}')
        return out or [t + self.pick(TEXT)]

    def block(self, tm, ind, d, fn):
        out = []
        for _ in range(self.r.randrange(1, 3)):
            out += self.stmt(tm, ind, d, fn)
        return out

    def weave(self, tm, lv, d):
        """choices at level lv, and a gather"""
        out = []
        t = '    ' * (lv - 1)
        for _ in range(self.r.randrange(1, 4)):
            h = self.pick('*++') * lv + ' '
            if self.p(.2):
                n = f'o{self.nl}'
                self.nl += 1
                h += f'({n}) '
            if self.p(.3):
                h += '{ ' + self.e('b', tm, 1) + ' } '
            if self.p(.08):
                out.append(t + h + '-> ' + self.target(tm, 0))
                continue
            c = self.text(tm, 1, True)
            z = self.r.random()
            h += f'[{c}]' if z < .3 else f'{c} [{self.pick(TEXT)}] {self.pick(TEXT)}' if z < .5 else c
            if self.p(.12):
                h += ' # ctag'
            if self.p(.25):
                h += ' -> ' + self.target(tm, 0)
            out.append(t + h)
            out += self.block(dict(tm), lv, 1, False)
            if d > 0 and self.p(.2):
                out += self.weave(dict(tm), lv + 1, d - 1)
        if self.p(.8):
            n = f'({"g%d" % self.nl}) ' if self.p(.3) else ''
            self.nl += 1
            out.append(t + '-' * lv + ' ' + n + self.text(tm, 2, True))
        return out

    def knot(self, tm):
        out = []
        for _ in range(self.r.randrange(1, self.size + 1)):
            out += self.stmt(tm, 0, 2, False)
            if self.p(.4):
                out += self.weave(tm, 1, 1)
        out.append('-> ' + self.pick(['DONE', 'END'] + [self.target(tm, 0) for _ in range(8)]) if self.p(.95) else '->->')
        return out

    def source(self):
        r = self.r
        head = []
        for i in range(r.randrange(2, 4)):
            items, v = [], 0
            for j in range(r.randrange(2, 5)):
                items.append(f"i{self.pick('abcdef')}{i if self.p(.5) else ''}")
            items = sorted(set(items), key=items.index)
            self.lists[f'L{i}'] = items
            head.append(f'LIST L{i} = ' + ', '.join(('(%s)' if self.p(.4) else '%s') % (x + (f' = {r.randrange(1, 4)}' if self.p(.3) else '')) for x in items))
            self.vars[f'L{i}'] = 'l'
        for i in range(r.randrange(4, 8)):
            k = self.pick('nnnsblld')
            if k == 'd':
                continue
            self.vars[f'v{i}'] = k
            head.append(f'VAR v{i} = ' + {'n': lambda: str(self.pick(INTS)) if self.p(.7) else '1.5', 's': lambda: '"%s"' % self.pick(TEXT).replace('"', ''),
                        'b': lambda: self.pick(['true', 'false']), 'l': lambda: '(' + ', '.join(self.item() for _ in range(r.randrange(4))) + ')'}[k]())
        if self.p(.5):
            self.knots_later = True
        for i in range(r.randrange(2, 4)):
            self.knots.append((f'k{i}', [self.pick('nsl') for _ in range(r.randrange(3))] if self.p(.3) else []))
        if self.p(.4):
            n = [k for k, ks in self.knots if not ks]
            if n:
                self.vars['w'] = 'd'
                head.append(f'VAR w = -> {self.pick(n)}')
        if self.p(.5):
            head.append('EXTERNAL ex(a)')
            self.exts.append(('ex', ['n']))
        self.labels = [k for k, _ in self.knots]
        funcs = []
        for i in range(r.randrange(1, 4)):
            ks = [self.pick('nsl') for _ in range(r.randrange(3))]
            refs = [j for j in range(len(ks)) if self.p(.25)]
            self.level = i
            tm = {f'p{i}{j}': k for j, k in enumerate(ks)}
            body = []
            pars = ', '.join(('ref ' if j in refs else '') + f'p{i}{j}' for j in range(len(ks)))
            for _ in range(r.randrange(1, 3)):
                body += self.stmt(tm, 0, 1, True)
            for j in refs:
                body.append(f'~ p{i}{j} = {self.e(ks[j], tm)}')
            if self.p(.8):
                body.append('~ return ' + self.e(self.pick('nslb'), tm))
            funcs.append(f'=== function f{i}({pars}) ===\n' + '\n'.join(body))
            self.funcs.append((f'f{i}', ks, refs, i))
        self.level = 99
        if self.exts:
            funcs.append('=== function ex(a) ===\n~ return a\n')
        bodies = []
        for k, ks in self.knots:
            tm = {f'q{k}{j}': x for j, x in enumerate(ks)}
            s = f'=== {k}' + ('(' + ', '.join(tm) + ')' if ks else '') + ' ===\n' + '\n'.join(self.knot(tm))
            if not ks and self.p(.4):
                st = f's{k}'
                s += f'\n= {st}\n' + '\n'.join(self.knot({}))
                self.labels.append(f'{k}.{st}')
            bodies.append(s)
        top = self.knot({})
        return '\n'.join(head + top + bodies + funcs) + '\n'

    def doc(self):
        vals = ['i:0', 'i:-2147483648', 'i:2147483647', 'f:1.5', 'b:true', 's:é']
        return {'vars': list(self.vars) + ['nosuch'], 'vals': vals, 'knots': self.labels + ['nosuch', '', 'k0.nosuch'],
                'fns': [{'fn': f, 'args': [self.pick({'n': vals[:4], 's': ['s:é', 's:'], 'l': ['i:1']}[k]) for k in ks][:len(ks) - self.p(.15)]} for f, ks, _, _ in self.funcs for _ in range(2)]
                + [{'fn': f, 'args': []} for f in ('nosuch', 'k0')], 'exts': [x for x, _ in self.exts] + ['other']}


def wild(tag, n, **kw):
    """[(name, source, doc for InkCalls, watch)]"""
    out = []
    for i in range(n):
        w = Wild(f'{tag}/{i}', **kw)
        s = w.source()
        out.append((f'wild:{tag}/{i}', s, w.doc(), {'vars': list(w.vars), 'visits': w.labels, 'path': True}))
    return out


if __name__ == '__main__':
    import sys
    print(wild(sys.argv[1], int(sys.argv[2]) + 1)[int(sys.argv[2])][1])
