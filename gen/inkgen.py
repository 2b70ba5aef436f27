"""Random Ink programs: one AST, two renderings (Ink source and the JSON read by Ink.tla).

The AST:
 expr  ('i',n) ('b',bool) ('f',n,e) ('s',parts) ('l',[(list,item,val)],[origins]) ('d',flow) ('var',x)
       ('cnt',src_name,counter) ('ts',src_name,counter) ('turns',) ('cc',) ('op2',op,a,b) ('op1',op,a)
       ('call',f,args) with args exprs or ('ref',x); ('lfi',list,e) ('rng',l,a,b)
 part  ('t',text) ('e',expr) ('if',cond,parts,parts|None) ('seq',kind,[parts]) ('glue',) ('tag',parts)
 stmt  ('line',parts,exit|None) ('set',x,op,expr) ('temp',x,expr) ('callst',f,args)
       ('cond',[(expr|None,stmts)]) ('switch',expr,[(expr|None,stmts)]) ('mseq',kind,[stmts])
       ('exit',exit) ('thread',f,args) ('choice',{..}) ('gather',label|None,stmt|None)
 exit  ('div',target,args) ('divv',x) ('tun',f,args) ('tunv',x) ('tret',) ('tretv',f) ('ret',expr|None) ('done',) ('end',)
"""
import random, re

SEQ = {'stop': '', 'cycle': '&', 'once': '!'}
MSEQ = {'stop': 'stopping', 'cycle': 'cycle', 'once': 'once'}
OPS = {'==', '!=', '<', '>', '<=', '>=', '&&', '||', '+', '-', '*', '/', '%', '?', '!?', '^'}
PREC = {'||': 1, '&&': 2, '==': 3, '!=': 3, '<': 4, '>': 4, '<=': 4, '>=': 4, '?': 4, '!?': 4, '^': 4,
        '+': 5, '-': 5, '*': 6, '/': 6, '%': 6}
WORDS = ("ash bay cod dim elk fog gum hay ivy jet kin log mud nut oak pea rye sod tar urn vat wax yam zip "
         "arc bin cup dew eel fir").split()


# ------------------------------------------------------------------ source
INDENT = '    '
SAME = {'&&': 'and', '||': 'or', '%': 'mod', '?': 'has', '!?': 'hasnt'}
STY = None          # a random source of ways of writing, or None for the plain one


def way(plain, *others, p=.3):
    return plain if STY is None or STY.random() > p else STY.choice(others)


def gap(p=.25):
    return way(' ', '', '  ', p=p)


def fstr(n, e):
    from fractions import Fraction
    x = Fraction(n, 2 ** e)
    neg, x = x < 0, abs(x)
    w = x.numerator // x.denominator
    r = x - w
    s = ''
    while r:
        r *= 10
        d = r.numerator // r.denominator
        s += str(d)
        r -= d
    return ('-' if neg else '') + f"{w}.{s or '0'}"


def esrc(e, full=False):
    k = e[0]
    if k == 'i':
        return str(e[1])
    if k == 'b':
        return 'true' if e[1] else 'false'
    if k == 'f':
        return fstr(e[1], e[2])
    if k == 's':
        return '"' + psrc(e[1]) + '"'
    if k == 'l':
        if not e[1]:
            return '()'
        return '(' + ', '.join((f'{o}.{i}' if q else i) for (o, i, v), q in zip(e[1], e[3] if len(e) > 3 else [False] * 99)) + ')'
    if k == 'item':   # a bare list item
        return e[1]
    if k == 'd':
        return '->' + gap(.1) + e[1]
    if k == 'var':
        return e[1]
    if k == 'cnt':
        return way(e[1], f'READ_COUNT(-> {e[1]})', p=.2)
    if k == 'ts':
        return way(f'TURNS_SINCE(-> {e[1]})', f'TURNS_SINCE(->{e[1]})', f'TURNS_SINCE( -> {e[1]} )')
    if k == 'turns':
        return 'TURNS()'
    if k == 'cc':
        return 'CHOICE_COUNT()'
    if k == 'op2':
        op, a, b = e[1:]
        if op in OPS:
            def side(x, right):
                t = esrc(x, full)
                if x[0] == 'op2' and x[1] in OPS:
                    if full or PREC[x[1]] < PREC[op] or (PREC[x[1]] == PREC[op] and right) or PREC[op] in (3, 4):
                        return f'({t})'
                elif t.startswith('-') and x[0] in ('i', 'f', 'op1'):
                    return f'({t})'
                return t
            w = way(op, SAME.get(op, op))
            plain_side, side = side, lambda x, right: way(plain_side(x, right), f'({esrc(x, full)})', p=.04)
            if w[0].isalpha():
                return f'{side(a, False)} {w} {side(b, True)}'
            g = gap(.15)
            return side(a, False) + g + w + g + side(b, True)
        return f'{op}({esrc(a)}, {esrc(b)})'
    if k == 'op1':
        op, a = e[1:]
        t = esrc(a)
        if a[0] == 'op2' and a[1] in OPS:
            t2 = f'({t})'
        else:
            t2 = t
        if op == 'neg':
            return f'-({t})' if t.startswith('-') else '-' + t2
        if op == '!':
            return 'not ' + t2 if not t2.startswith('(') else way('not ', 'not') + t2
        return f'{op}({t})'
    if k == 'call':
        return f'{e[1]}({way("", " ", p=.1)}{way(", ", ",", " , ").join(asrc(a) for a in e[2])})'
    if k == 'lfi':
        return f'{e[1]}({esrc(e[2])})'
    if k == 'rng':
        return f'LIST_RANGE({esrc(e[1])}, {esrc(e[2])}, {esrc(e[3])})'
    raise Exception(k)


def asrc(a):
    return a[1] if a[0] == 'ref' else esrc(a)


def psrc(parts):
    out = ''
    for x in parts:
        k = x[0]
        if k == 't':
            out += x[1]
        elif k == 'e':
            t = esrc(x[1])
            g = way('', ' ')
            out += '{(' + t + ')}' if '||' in t else '{' + g + t + g + '}'
        elif k == 'if':
            out += '{' + way('', ' ') + esrc(x[1]) + way('', ' ') + ':' + psrc(x[2]) + ('|' + psrc(x[3]) if x[3] is not None else '') + '}'
        elif k == 'seq':
            out += '{' + SEQ[x[1]] + '|'.join(psrc(b) for b in x[2]) + '}'
        elif k == 'glue':
            out += '<>'
        elif k == 'tag':
            out += ' #' + psrc(x[1])
    return out


def exitsrc(x):
    k = x[0]
    if k == 'div':
        return f'->{gap()}{x[1]}' + (f'({", ".join(asrc(a) for a in x[2])})' if x[2] else '')
    if k == 'divv':
        return f'->{gap()}{x[1]}'
    if k == 'tun':
        return f'->{gap()}{x[1]}' + (f'({", ".join(asrc(a) for a in x[2])})' if x[2] else '') + gap() + '->'
    if k == 'tunv':
        return f'->{gap()}{x[1]}{gap()}->'
    if k == 'tret':
        return '->->'
    if k == 'tretv':
        return f'->->{gap()}{x[1]}'
    if k == 'ret':
        return f'~{gap()}return' + (' ' + esrc(x[1]) if x[1] else '')
    if k == 'done':
        return f'->{gap()}DONE'
    if k == 'end':
        return f'->{gap()}END'
    raise Exception(k)


def ssrc(st, depth, ind, out):
    """depth: weave level (number of bullets); ind: indentation"""
    pad = INDENT * ind
    k = st[0]
    if k == 'line':
        s = psrc(st[1])
        if st[2]:
            s = (s + ' ' if s else '') + exitsrc(st[2])
        out.append(pad + s)
    elif k == 'set':
        op = st[2]
        if op in ('++', '--'):
            w = way(op, op[0] + '= 1', op[0] + '=1', ' ' + op[0] + '= 1', f' = {st[1]} {op[0]} 1')
            out.append(f'{pad}~{gap()}{st[1]}{w}')
        else:
            g = gap(.15)
            out.append(f'{pad}~{gap()}{st[1]}{g}{op}{g}{esrc(st[3])}')
    elif k == 'temp':
        g = gap(.15)
        out.append(f'{pad}~{gap()}temp {st[1]}{g}={g}{esrc(st[2])}')
    elif k == 'callst':
        out.append(f'{pad}~{gap()}{st[1]}({way(", ", ",", " , ").join(asrc(a) for a in st[2])})')
    elif k in ('cond', 'switch'):
        br = st[1]
        deep = way(0, 1)
        if k == 'switch':
            out.append(pad + '{' + way('', ' ') + esrc(st[1]) + ':')
            br = st[2]
        elif st[2:] and st[2] == 'ifelse':     # {c:\n a\n - else:\n b\n}
            out.append(pad + '{' + way('', ' ') + esrc(br[0][0]) + ':')
            for s in br[0][1]:
                ssrc(s, depth, ind + 1 + deep, out)
            br = br[1:]
        else:
            out.append(pad + '{')
        for c, b in br:
            head = pad + INDENT * deep + '-' + (' ' if c is not None else gap()) + ('else' if c is None else esrc(c)) + ':'
            at = len(out)
            for s in b:
                ssrc(s, depth, ind + 1 + deep, out)
            if b and b[0][0] == 'line' and way(False, True):
                out[at] = head + ' ' + out[at].lstrip()
            else:
                out.insert(at, head)
        out.append(pad + '}')
    elif k == 'mseq':
        out.append(pad + '{' + MSEQ[st[1]] + ':')
        for b in st[2]:
            first = True
            for s in b:
                o2 = []
                ssrc(s, depth, ind + 1, o2)
                if first:
                    o2[0] = pad + '- ' + o2[0].lstrip()
                    first = False
                out.extend(o2)
        out.append(pad + '}')
    elif k == 'exit':
        out.append(pad + exitsrc(st[1]))
    elif k == 'thread':
        out.append(f'{pad}<- {st[1]}' + (f'({", ".join(asrc(a) for a in st[2])})' if st[2] else ''))
    elif k == 'choice':
        c = st[1]
        m = '*' if c['once'] else '+'
        s = pad + way(' ', '').join([m] * (depth + 1)) + gap()
        if c.get('label'):
            s += f"({c['label']})" + gap()
        for cond in c.get('conds', []):
            s += '{' + way('', ' ') + esrc(cond) + way('', ' ') + '}' + gap()
        if c.get('fallback'):
            s += exitsrc(c['exit']) if c.get('exit') else '->'
        else:
            s += psrc(c['start'])
            if c['only'] is not None:
                s += '[' + psrc(c['only']) + ']'
            s += psrc(c['inner'])
            if c.get('exit'):
                s += ' ' + exitsrc(c['exit'])
        out.append(s)
        for b in c['body']:
            ssrc(b, depth + 1, ind + 1, out)
    elif k == 'gather':
        s = pad + way(' ', '').join(['-'] * (depth + 1)) + gap()
        if st[1]:
            s += f'({st[1]})' + gap()
        elif s.endswith('-') and st[2] and not psrc(st[2][1])[:1].isalpha():
            s += ' '
        if st[2]:
            o2 = []
            ssrc(st[2], depth, 0, o2)
            s += o2[0]
            out.append(s)
            out.extend(o2[1:])
        else:
            out.append(s.rstrip())
    else:
        raise Exception(k)


def source(prog, style=None, files=None):
    """style: a key for another way of writing the same program; files: takes what is moved into files it includes"""
    global STY, INDENT
    if style is None:
        return plain(prog)
    STY = random.Random('style/' + style)
    INDENT = STY.choice(['    ', '  ', '\t', '   '])
    try:
        return noise(plain(prog).split('\n'), STY, files)
    finally:
        STY, INDENT = None, '    '


def noise(lines, r, files=None):
    """what means nothing: comments, blank lines, trailing space, the end-of-line sign, where globals are declared"""
    decl = [l for l in lines if re.match(r'(VAR|LIST|CONST|EXTERNAL) ', l)]
    rest = [l for l in lines if l not in decl]
    if r.random() < .2 and decl:
        if any(l.startswith('=') for l in rest) and r.random() < .5:
            at = [i for i, l in enumerate(rest) if re.match('==', l)]
            at = r.choice(at)
            lines = rest[:at] + decl + rest[at:]
        else:
            lines = rest + decl
    # flows in another order
    if r.random() < .25:
        at = [i for i, l in enumerate(lines) if re.match('==', l)]
        ks = [lines[i:j] for i, j in zip(at, at[1:] + [len(lines)])]
        if ks:
            tail = ks[-1].pop() if ks[-1][-1] == '' else None
            r.shuffle(ks)
            lines = lines[:at[0]] + [l for b in ks for l in b] + ([tail] if tail is not None else [])
    if files is not None and r.random() < .35:
        at = [i for i, l in enumerate(lines) if re.match('==', l)]
        cut = sorted(r.sample(at, min(len(at), r.randint(1, 2))))
        parts = [lines[i:j] for i, j in zip(cut, cut[1:] + [len(lines)])]
        lines = lines[:cut[0]] if cut else lines
        decls = [i for i, l in enumerate(lines) if re.match(r'(VAR|LIST|CONST|EXTERNAL) ', l)]
        for i, b in enumerate(parts):
            name = r.choice(['part%d.ink', 'a part %d.ink', 'p%d', 'dir/p%d.ink', '%d.ink.ink']) % i
            if decls and r.random() < .5:
                b = [lines.pop(decls.pop())] + b
            files[name] = noise(b, r)
            top = next((i for i, l in enumerate(lines) if not re.match(r'(VAR|LIST|CONST|EXTERNAL|INCLUDE) ', l)), len(lines))
            at = r.choice([0, top])
            lines.insert(at, 'INCLUDE' + gap(0) + name)
            decls = [i for i, l in enumerate(lines) if re.match(r'(VAR|LIST|CONST|EXTERNAL) ', l)]
    # names within their own knot and stitch
    if r.random() < .5:
        here, out = ['', ''], []
        for l in lines:
            m = re.match(r'==+ *(?:function +)?(\w+)|= *(\w+)', l)
            if m:
                here = [m[1], ''] if m[1] else [here[0], m[2]]
            elif here[0]:
                for n in ([f'{here[0]}.{here[1]}.'] if here[1] else []) + [here[0] + '.']:
                    l = re.sub(r'(?<![\w.])' + re.escape(n) + r'(?=[a-z])', lambda x: x[0] if r.random() < .5 else '', l)
            out.append(l)
        lines = out
    # a gather and what follows it, on one line
    out = []
    for l in lines:
        if out and re.fullmatch(r'\s*(- ?)+(\(\w+\))?\s*', out[-1]) and re.match(r'\s*(->|~|<-|[*+] |[A-Za-z{])', l) and r.random() < .3 \
                and not (re.match(r'\s*[*+]', l) and len(re.match(r'\s*((?:[*+] ?)+)', l)[1].replace(' ', '')) != out[-1].split('(')[0].count('-')):
            out[-1] = out[-1].rstrip() + ' ' + l.lstrip()
        else:
            out.append(l)
    lines = out
    # a logic line with a call in it ends the line of text, one without does not
    lines = [re.sub(r'READ_COUNT\(-> ([\w.]+)\)', r'\1', l) if re.match(r'[- \t]*(\(\w+\))? *~', l) else l for l in lines]
    out = []
    for l in lines:
        # the conditions of a choice on lines of their own
        m = re.match(r'(\s*)([*+] ?)+(\(\w+\))? *(\{[^{}|"]*\}) *(\{[^{}|"]*\})', l)
        if m and r.random() < .3:
            out.append(l[:m.end(4)])
            l = m[1] + '      ' + l[m.start(5):]
        elif re.match(r'(VAR|LIST|CONST|EXTERNAL) ', l) and r.random() < .3:
            l = re.sub(r' *([=,]) *', r.choice([r'\1', r' \1 ', r'\1 ']), l)
        z = r.random()
        if z < .03:
            out.append(r.choice(['', '   ', '\t']))
        elif z < .05:
            out.append(r.choice(['// a note', '    // -> nowhere', '/* {a} */', '/* more', 'TODO: later', '// * not a choice']))
            if out[-1] == '/* more':
                out += ['* of it', '== not_a_knot', '*/']
        z = r.random()
        # white space at the end of a choice's line is part of its text
        more = [' // x', '//'] if re.match(r'\s*[*+]', l) else [' // x', '  ', '\t', ' /* -> y */', '//']
        out.append(l + (r.choice(more) if z < .06 and l.strip() else ''))
    return r.choice(['\n'] * 5 + ['\r\n']).join(out)


def plain(prog):
    out = []
    for n, v in prog['consts']:
        out.append(f'CONST {n} = {esrc(v)}')
    for l in prog['lists']:
        items = []
        nxt = 1
        for n, v, on in l['items']:
            t = n if v == nxt else f'{n} = {v}'
            nxt = v + 1
            items.append(f'({t})' if on else t)
        out.append(f'LIST {l["name"]} = ' + ', '.join(items))
    for n, v in prog['vars']:
        out.append(f'VAR {n} = {esrc(v)}')
    for e in prog.get('externals', []):
        out.append(f'EXTERNAL {e}')
    for n, x in prog.get('exts', {}).items():
        out.append(f'EXTERNAL {n}({", ".join(x["pars"])})')
    for s in prog['gtags']:
        out.append('# ' + s)
    for st in prog['root']:
        ssrc(st, 0, 0, out)
    for fl in prog['flows']:
        pars = ', '.join(fl['pars'])
        if fl['kind'] == 'function':
            out.append(way('===', '==') + f' function {fl["name"]}({pars})' + way(' ===', '', ' ==', '==='))
        elif fl['kind'] == 'stitch':
            out.append('=' + gap() + f'{fl["name"].split(".")[1]}' + (f'({pars})' if pars else ''))
        else:
            out.append(way('===', '==', '====') + gap() + fl["name"] + (f'({pars})' if pars else way('', '()', p=.1)) + way(' ===', '', ' ==', '==='))
        for st in fl['body']:
            ssrc(st, 0, 0, out)
    for n, x in prog.get('exts', {}).items():
        if x.get('fallback'):
            body = {'sum': ' + '.join(x['pars'] + [str(x['v'])]), 'int': str(x['v']), 'bool': 'true' if x['v'] else 'false', 'arg': x['pars'][0] if x['pars'] else '0', 'str': f'"{x["v"]}"'}.get(x['ret'].rstrip('S'))
            out.append(f'=== function {n}({", ".join(x["pars"])}) ===')
            out.append('~ return' + (' ' + body if body else ''))
    return '\n'.join(out) + '\n'


# ------------------------------------------------------------------ spec JSON
class Comp:
    def __init__(self, prog):
        self.p = prog
        self.N, self.B, self.flows, self.labels, self.cnts = [], [], {}, {}, []
        self.funcs = {f['name']: f for f in prog['flows']}
        self.consts = dict(prog['consts'])

    def block(self, role, own=0, pc=0):
        self.B.append({'kids': [], 'role': role, 'own': own, 'pc': pc})
        return len(self.B)

    def node(self, b, k, **kw):
        kids = self.B[b - 1]['kids']
        n = dict(k=k, b=b, i=len(kids) + 1, c=[], f=self.cur, ct='', **kw)
        self.N.append(n)
        kids.append(len(self.N))
        return len(self.N)

    def counter(self, name):
        self.cnts.append(name)
        return name

    def val(self, e):
        k = e[0]
        if k == 'i':
            return {'t': 'i', 'v': e[1]}
        if k == 'b':
            return {'t': 'b', 'v': e[1]}
        if k == 'f':
            return {'t': 'f', 'n': e[1], 'e': e[2]}
        if k == 's':
            return {'t': 's', 'v': ''.join(x[1] for x in e[1])}
        if k == 'l':
            return {'t': 'l', 'v': [list(x) for x in e[1]], 'o': list(e[2])}
        if k == 'item':
            return {'t': 'l', 'v': [list(e[2])], 'o': []}
        if k == 'd':
            return {'t': 'd', 'v': e[1]}
        if k == 'var' and e[1] in self.consts:
            return self.val(self.consts[e[1]])
        raise Exception(k)

    def expr(self, n, e):
        c = self.N[n - 1]['c']
        k = e[0]
        if k in ('i', 'b', 'f', 'l', 'd', 'item'):
            c.append(['v', self.val(e)])
        elif k == 's':
            if all(x[0] == 't' for x in e[1]):
                c.append(['v', self.val(e)])
            else:
                c.append(['sb'])
                self.parts(n, e[1])
                c.append(['se'])
        elif k == 'var':
            if e[1] in self.consts:
                self.expr(n, self.consts[e[1]])
            else:
                c.append(['g', e[1]])
        elif k == 'cnt':
            c.append(['cnt', e[2]])
        elif k == 'ts':
            c.append(['ts', e[2]])
        elif k == 'turns':
            c.append(['turns'])
        elif k == 'cc':
            c.append(['cc'])
        elif k == 'op2':
            self.expr(n, e[2])
            self.expr(n, e[3])
            c.append(['op2', e[1]])
        elif k == 'op1':
            self.expr(n, e[2])
            c.append(['op1', e[1]])
        elif k == 'call':
            self.args(n, e[2])
            c.append(self.callee(e[1], e[2]))
        elif k == 'lfi':
            self.expr(n, e[2])
            c.append(['lfi', e[1]])
        elif k == 'rng':
            for x in e[1:]:
                self.expr(n, x)
            c.append(['rng'])
        else:
            raise Exception(k)

    def callee(self, f, args):
        return ['ext', f, len(args)] if f in self.p.get('exts', {}) else ['call', f]

    def args(self, n, args):
        for a in args:
            if a[0] == 'ref':
                self.N[n - 1]['c'].append(['ref', a[1]])
            else:
                self.expr(n, a)

    def sub(self, n, parts):
        """a block with one line holding the parts, entered from the next instruction of n"""
        b = self.block('code', n, len(self.N[n - 1]['c']) + 1)
        x = self.node(b, 'line')
        self.parts(x, parts)
        return b

    def parts(self, n, parts):
        c = self.N[n - 1]['c']
        for i, x in enumerate(parts):
            k = x[0]
            if k == 't':
                if x[1]:
                    if i and c[-1][0] == 't':     # one run of text is one piece
                        c[-1] = ['t', c[-1][1] + x[1]]
                    else:
                        c.append(['t', x[1]])
            elif k == 'e':
                self.expr(n, x[1])
                c.append(['out'])
            elif k == 'if':
                self.expr(n, x[1])
                b1 = self.sub(n, x[2])
                b2 = self.sub(n, x[3]) if x[3] is not None else 0
                c.append(['if', b1, b2])
            elif k == 'seq':
                ct = self.counter(f'#seq{len(self.cnts)}')
                bs = [self.sub(n, y) for y in x[2]]
                c.append(['seq', x[1], ct, bs])
            elif k == 'glue':
                c.append(['gl'])
            elif k == 'tag':
                if i and parts[i - 1][0] != 'tag':      # the space before the mark is text
                    if c[-1][0] == 't':
                        c[-1] = ['t', c[-1][1] + ' ']
                    else:
                        c.append(['t', ' '])
                c.append(['tb'])
                self.parts(n, x[1])
                c.append(['te'])

    def exit(self, b, n, x):
        """append exit x to block b; arguments are evaluated by the exit's own node"""
        k = x[0]
        if k == 'div':
            m = self.node(b, 'div', to=x[1])
            self.args(m, x[2])
        elif k == 'tun':
            m = self.node(b, 'tun', to=x[1])
            self.args(m, x[2])
        elif k in ('divv', 'tunv'):
            m = self.node(b, k)
            self.expr(m, ('var', x[1]))
        elif k == 'ret':
            m = self.node(b, 'ret')
            if x[1]:
                self.expr(m, x[1])
            else:
                self.N[m - 1]['c'].append(['v', {'t': 'x'}])
        elif k == 'tretv':
            self.node(b, 'tretv', to=x[1])
        else:
            self.node(b, k)

    def has_call(self, e):
        if isinstance(e, (tuple, list)):
            if e and (e[0] in ('call', 'ts', 'turns', 'cc', 'lfi', 'rng') or e[0] in ('op1', 'op2') and e[1][0].isupper()):
                return True
            return any(self.has_call(x) for x in e)
        return False

    def body(self, b, stmts, lead=None):
        if lead is not None:
            n = self.node(b, 'line')
            self.N[n - 1]['c'].append([lead])
        for s in stmts:
            self.stmt(b, s)

    def blk(self, n, stmts):
        b = self.block('code', n, len(self.N[n - 1]['c']) + 1)
        self.body(b, stmts, 'n')
        return b

    def stmt(self, b, st):
        k = st[0]
        if k == 'line':
            n = self.node(b, 'line')
            parts = list(st[1])
            self.parts(n, parts)
            if st[2]:
                c = self.N[n - 1]['c']
                if parts and c[-1][0] == 't':
                    c[-1] = ['t', c[-1][1] + ' ']
                elif parts:
                    c.append(['t', ' '])
                self.exit(b, n, st[2])
                if st[2][0] in ('tun', 'tunv'):
                    pass
            elif not (parts and all(x[0] == 'tag' for x in parts)):
                self.N[n - 1]['c'].append(['n'])
        elif k == 'set':
            n = self.node(b, 'line')
            op = st[2]
            if op == '=':
                self.expr(n, st[3])
            else:
                self.expr(n, ('var', st[1]))
                self.expr(n, ('i', 1) if op in ('++', '--') else st[3])
                self.N[n - 1]['c'].append(['op2', op[0]])
            self.N[n - 1]['c'].append(['set', st[1]])
            if op not in ('++', '--') and self.has_call(st[3]):
                self.N[n - 1]['c'].append(['n'])
        elif k == 'temp':
            n = self.node(b, 'line')
            self.expr(n, st[2])
            self.N[n - 1]['c'].append(['tmp', st[1]])
            if self.has_call(st[2]):
                self.N[n - 1]['c'].append(['n'])
        elif k == 'callst':
            n = self.node(b, 'line')
            self.args(n, st[2])
            self.N[n - 1]['c'] += [self.callee(st[1], st[2]), ['pop'], ['n']]
        elif k == 'cond':
            # nested: each else-branch is a block whose only node is the rest
            n = self.node(b, 'line')
            self.condchain(n, st[1])
            self.N[n - 1]['c'].append(['n'])
        elif k == 'switch':
            n = self.node(b, 'line')
            self.expr(n, st[1])
            vals, bs, els = [], [], 0
            for c, ss in st[2]:
                x = self.blk(n, ss)
                if c is None:
                    els = x
                else:
                    vals.append(self.val(c))
                    bs.append(x)
            self.N[n - 1]['c'] += [['sw', vals, bs, els], ['n']]
        elif k == 'mseq':
            n = self.node(b, 'line')
            ct = self.counter(f'#seq{len(self.cnts)}')
            bs = [self.blk(n, ss) for ss in st[2]]
            self.N[n - 1]['c'] += [['seq', st[1], ct, bs], ['n']]
        elif k == 'exit':
            self.exit(b, None, st[1])
        elif k == 'thread':
            n = self.node(b, 'thr', to=st[1])
            self.args(n, st[2])
        elif k == 'choice':
            c = st[1]
            fb = bool(c.get('fallback'))
            conds = c.get('conds', [])
            n = self.node(b, 'choice', once=c['once'], fb=fb, start=bool(c['start']) and not fb,
                          only=bool(c['only']) and not fb, cond=bool(conds), body=0)
            me = self.N[n - 1]
            if me['start']:
                me['c'].append(['sb'])
                self.parts(n, c['start'])
                me['c'].append(['ce'])
            if me['only']:
                me['c'].append(['sb'])
                self.parts(n, c['only'])
                me['c'].append(['ce'])
            for j, cond in enumerate(conds):
                self.expr(n, cond)
                if j:
                    me['c'].append(['op2', '&&'])
            ct = self.counter((self.cur + '.' if self.cur != 'root' else '') + c['label'] if c.get('label') else f'#c{n}')
            me['ct'] = ct
            if c.get('label'):
                self.labels[ct] = n
            bb = self.block('body', n)
            me['body'] = bb
            x = self.node(bb, 'line')
            if not fb:
                self.parts(x, c['start'])
                self.parts(x, c['inner'])
                if not c.get('exit'):
                    self.N[x - 1]['c'].append(['n'])
                else:
                    if c['start'] or c['inner'] or c['only'] is not None:
                        self.N[x - 1]['c'].append(['t', ' '])
            if c.get('exit'):
                self.exit(bb, x, c['exit'])
            for s in c['body']:
                self.stmt(bb, s)
        elif k == 'gather':
            n = self.node(b, 'gather')
            if st[1]:
                ct = self.counter((self.cur + '.' if self.cur != 'root' else '') + st[1])
                self.N[n - 1]['ct'] = ct
                self.labels[ct] = n
            if st[2]:
                self.stmt(b, st[2])
        else:
            raise Exception(k)

    def condchain(self, n, br):
        c, ss = br[0]
        if c is None:
            raise Exception('else first')
        self.expr(n, c)
        b1 = self.blk(n, ss)
        b2 = 0
        if len(br) > 1:
            if br[1][0] is None:
                b2 = self.blk(n, br[1][1])
            else:
                b2 = self.block('code', n, len(self.N[n - 1]['c']) + 1)
                x = self.node(b2, 'line')
                self.condchain(x, br[1:])
        self.N[n - 1]['c'].append(['if', b1, b2])

    def run(self):
        p = self.p
        self.cur = 'root'
        fls = [dict(name='root', kind='root', pars=[], body=p['root'])] + p['flows']
        for fl in fls:
            nm = fl['name']
            cid = '#root' if nm == 'root' else nm
            self.counter(cid)
            enc = [] if nm == 'root' else ([nm.split('.')[0], nm] if '.' in nm else [nm])
            self.flows[nm] = {'b': 0, 'enc': enc, 'cid': cid, 'par': [x.replace('ref ', '') for x in fl['pars']],
                              'fn': fl['kind'] == 'function'}
        for fl in fls:
            self.cur = fl['name']
            b = self.block('flow', 0)
            self.flows[fl['name']]['b'] = b
            for st in fl['body']:
                self.stmt(b, st)
            if not self.B[b - 1]['kids']:
                self.node(b, 'line')
        gl = [{'n': n, 'v': self.val(v)} for n, v in p['vars']]
        for l in p['lists']:
            gl.append({'n': l['name'], 'v': {'t': 'l', 'v': [[l['name'], n, v] for n, v, on in l['items'] if on],
                                             'o': [l['name']]}})
        lab = dict(self.labels)
        lab['#'] = 0
        watch = [x for x in self.cnts if x in self.flows]
        return {'N': self.N, 'B': self.B, 'flows': self.flows, 'labels': lab, 'cnts': self.cnts,
                'globals': gl, 'watch': watch, 'events': bool(p.get('events')),
                'exts': {'#': {}} | {n: {'ret': x['ret'].rstrip('S'), 'v': x['v'], 'safe': x['safe']} for n, x in p.get('exts', {}).items()},
                'lists': [{'name': l['name'], 'items': [{'n': n, 'v': v} for n, v, on in l['items']]} for l in p['lists']]}


def spec_json(prog):
    return Comp(prog).run()


# ------------------------------------------------------------------ random programs
class Gen:
    """Programs whose control structure terminates: outside choices control only moves to later knots."""

    def __init__(self, rng, size=3, feats=None):
        self.r = rng
        self.size = size
        self.f = feats or {}
        self.nw = 0
        self.ntemp = 0
        self.nlab = 0
        self.exts = {}
        # faults: things that raise errors and warnings when (and if) they are reached
        self.fault = self.f.get('fault', 0)
        self.fr = random.Random(f'fault/{rng.random()}') if self.fault else None
        self.nlate = 0
        x = self.f.get('ext')
        for n, pars, ret, v in (('xsum', 'ab', 'sum', 3), ('xone', '', 'int', 4), ('xarg', 'a', 'arg', 0), ('xyes', 'a', 'bool', 1), ('xdo', 'ab', 'none', 0), ('xgo', '', 'none', 0), ('xsay', 'a', 'str', 'hum'), ('xecho', 'a', 'argS', 0)):
            if x:
                self.exts[n] = {'pars': list(pars), 'ret': ret, 'v': v, 'safe': x == 'safe' or x == 'mix' and rng.random() < .5, 'fallback': True}

    def on(self, feat, p=None):
        v = self.f.get(feat, 1)
        if v is False or v == 0:
            return False
        return True if p is None else self.r.random() < p

    def word(self):
        self.nw += 1
        if self.r.random() < .08:
            return self.r.choice(['a', 'I', 'o', 'é'])
        return self.r.choice(WORDS) + (str(self.nw) if self.r.random() < .5 else '')

    def words(self, a=1, b=3):
        return ' '.join(self.word() for _ in range(self.r.randint(a, b)))

    # -------- expressions
    def ivars(self, ctx):
        return self.ints + ctx.get('itemps', [])

    def xcall(self, ctx, rets):
        """a call of an external function"""
        c = [n for n, x in self.exts.items() if x['ret'] in rets and (x['safe'] or not ctx.get('nox') or self.f.get('strx') and self.r.random() < .1)]
        if not c:
            return None
        n = self.r.choice(c)
        inner = dict(ctx, fidx=99)
        args = [(self.sexpr if self.exts[n]['ret'] == 'argS' else self.iexpr)(inner, 1) for _ in self.exts[n]['pars']]
        if self.exts[n]['ret'] == 'none':
            args = [self.r.choice((self.iexpr, self.bexpr, lambda c, d: ('s', [('t', self.word())])))(inner, 1) if self.r.random() < .8 or not self.lists
                    else ('var', self.lists[0]['name']) for _ in args]
        return ('call', n, args)

    def faulty(self, k=1.0):
        return self.fault and self.fr.random() < self.fault * k

    def late(self, ctx):
        """the name of a temporary that may be read before it is declared"""
        if self.fault and ctx.get('late') and self.fr.random() < .25:
            return ('var', self.fr.choice(ctx['late']))

    def settle(self, body, names, ctx):
        """the declarations of late temporaries: somewhere at the top level of the body"""
        for n in names:
            at = [i for i in range(1, len(body)) if not any(s[0] == 'choice' for s in body[:i]) or body[i - 1][0] == 'gather']
            if at:
                body.insert(self.fr.choice(at), ('temp', n, self.iexpr(dict(ctx, late=[]), 1)))
            else:
                body.insert(0, ('temp', n, ('i', 1)))
        return body

    def lates(self, ctx):
        if not self.fault or self.fr.random() < .35:
            return ctx, []
        self.nlate += 1
        n = [f'zz{self.nlate}']
        return dict(ctx, late=n), n

    def iexpr(self, ctx, d=2):
        r = self.r
        if self.fault:
            x = self.late(ctx)
            if x:
                return x
            if d > 0 and self.faulty():
                z = self.fr.random()
                if z < .5:
                    return ('op2', self.fr.choice(['/', '%']), self.iexpr(ctx, d - 1), self.fr.choice([('i', 0), ('var', self.fr.choice(self.ints))]))
                if z < .75 and self.strs:
                    return ('op2', self.fr.choice(['-', '*', '/', '%']), ('var', self.fr.choice(self.strs)), self.iexpr(ctx, d - 1))
                if self.lists:
                    return ('op2', self.fr.choice(['*', '/', '%']), ('var', self.lists[0]['name']), self.iexpr(ctx, d - 1))
                return ('op1', 'neg', ('s', [('t', self.word())]))
        if self.exts and d > 0 and r.random() < .2:
            x = self.xcall(ctx, ('sum', 'int', 'arg'))
            if x:
                return x
        k = r.random()
        if d == 0 or k < .3:
            z = r.random()
            if z < .4 or not self.ivars(ctx):
                return ('i', r.choice([0, 1, 2, 3, 5, 7, 10]))
            if z < .75:
                return ('var', r.choice(self.ivars(ctx)))
            if z < .85 and self.on('counts') and self.count_names(ctx):
                n, c = r.choice(self.count_names(ctx))
                return ('cnt', n, c)
            if z < .92 and self.on('turns'):
                if r.random() < .5:
                    return ('turns',)
                ks = [f for f in self.knots]
                if ks:
                    x = r.choice(ks)
                    return ('ts', x, x)
            return ('var', r.choice(self.ivars(ctx)))
        if k < .8:
            op = r.choice(['+', '-', '*', '+', '-'])
            return ('op2', op, self.iexpr(ctx, d - 1), self.iexpr(ctx, d - 1))
        if k < .85:
            return ('op2', r.choice(['/', '%']), self.iexpr(ctx, d - 1), ('i', r.choice([2, 3, 5])))
        if k < .92:
            return ('op2', r.choice(['MIN', 'MAX']), self.iexpr(ctx, d - 1), self.iexpr(ctx, d - 1))
        fs = [f for f in self.funcs if f['ret'] == 'i' and f['pure'] and self.may_call(ctx, f)]
        if fs and self.on('calls'):
            return self.call(ctx, r.choice(fs))
        return ('op1', 'neg', self.iexpr(ctx, d - 1))

    def may_call(self, ctx, f):
        return f['idx'] > ctx.get('fidx', -1)

    def call(self, ctx, f):
        args = []
        for ty in f['ptypes']:
            if ty == 'ref':
                args.append(('ref', self.r.choice(self.ints)))
            elif ty == 's':
                args.append(self.sexpr(dict(ctx, fidx=99), 0))
            else:
                args.append(self.iexpr(dict(ctx, fidx=99), 1))
        return ('call', f['name'], args)

    def bexpr(self, ctx, d=2):
        r = self.r
        if self.exts and r.random() < .1:
            x = self.xcall(ctx, ('bool',))
            if x:
                return x
        k = r.random()
        if k < .5 or d == 0:
            if k < .1 and self.bools:
                return ('var', r.choice(self.bools))
            if k < .2 and self.on('counts') and self.count_names(ctx):
                n, c = r.choice(self.count_names(ctx))
                e = ('cnt', n, c)
                return e if r.random() < .5 else ('op1', '!', e)
            if k < .27 and self.strs:
                return ('op2', r.choice(['==', '!=']), ('var', r.choice(self.strs)), ('s', [('t', self.r.choice(WORDS))]))
            if k < .33 and self.lists:
                l = r.choice(self.lists)
                it = r.choice(l['items'])
                return ('op2', r.choice(['?', '!?']), ('var', l['name']), ('item', it[0], (l['name'], it[0], it[1])))
            return ('op2', r.choice(['==', '!=', '<', '>', '<=', '>=']), self.iexpr(ctx, 1), self.iexpr(ctx, 1))
        if k < .85:
            return ('op2', r.choice(['&&', '||']), self.bexpr(ctx, d - 1), self.bexpr(ctx, d - 1))
        return ('op1', '!', self.bexpr(ctx, d - 1))

    def sexpr(self, ctx, d=1):
        r = self.r
        if self.exts and d > 0 and r.random() < .15:
            x = self.xcall(ctx, ('str', 'argS'))
            if x:
                return x
        k = r.random()
        if k < .3 and self.strs:
            return ('var', r.choice(self.strs))
        if k < .6 or d == 0:
            return ('s', [('t', self.word())])
        if k < .8:
            return ('op2', '+', self.sexpr(ctx, d - 1), self.sexpr(ctx, d - 1))
        return ('s', [('t', self.word() + ' '), ('e', self.iexpr(dict(ctx, nox=1), 1))])

    def count_names(self, ctx):
        return [(k, k) for k in self.knots] + ctx.get('labels', [])

    # -------- text
    def inline(self, ctx, d=1, tags=True, inseq=True):
        """non-empty text parts beginning and ending with a word"""
        r = self.r
        parts = [('t', self.words(1, 2))]
        for _ in range(r.choice([0, 0, 0, 1, 1, 2] if d > 0 else [0, 0, 0, 1])):
            k = r.random()
            if k < .35:
                x = ('e', self.iexpr(ctx, 1) if r.random() < .7 else (self.sexpr(ctx, 1) if r.random() < .6 else self.bexpr(ctx, 1)))
            elif k < .6 and d > 0:
                x = ('if', self.bexpr(ctx, 1), self.inline(ctx, d - 1, False, inseq), self.inline(ctx, d - 1, False, inseq) if r.random() < .6 else None)
            elif k < .85 and d > 0 and inseq and self.on('seqs'):
                x = ('seq', r.choice(['stop', 'cycle', 'once']), [self.inline(ctx, 0, False, inseq) for _ in range(r.randint(2, 3))])
            elif self.on('calls'):
                fs = [f for f in self.funcs if self.may_call(ctx, f)]
                if not fs:
                    continue
                x = ('e', self.call(ctx, r.choice(fs)))
            else:
                continue
            parts += [('t', ' '), x, ('t', ' ' + self.words(1, 1))]
        return parts

    def line(self, ctx):
        r = self.r
        parts = self.inline(ctx)
        if self.on('glue', .12):
            if r.random() < .5:
                parts = parts + [('t', ' '), ('glue',)]
            else:
                parts = [('glue',), ('t', ' ')] + parts
        elif self.on('tags', .15):
            parts = parts + [('tag', [('t', self.words(1, 2))])]
            if r.random() < .3:
                parts = parts + [('tag', [('t', self.word() + ' '), ('e', self.iexpr(ctx, 0))])]
        return ('line', parts, None)

    # -------- statements
    def simple(self, ctx):
        r = self.r
        if self.exts and not ctx.get('pure') and r.random() < .12:
            x = self.xcall(ctx, ('sum', 'int', 'arg', 'bool', 'none', 'none', 'none'))
            if x:
                return ('callst', x[1], x[2])
        k = r.random()
        if ctx.get('pure'):
            k = .45 + k * .25
        if k < .45:
            return self.line(ctx)
        if k < .6:
            x = r.choice(self.ivars(ctx))
            z = r.random()
            if z < .3:
                return ('set', x, r.choice(['++', '--']), None)
            if z < .5:
                return ('set', x, r.choice(['+=', '-=']), self.iexpr(ctx, 1))
            return ('set', x, '=', self.iexpr(ctx, 2))
        if k < .65 and self.strs:
            return ('set', r.choice(self.strs), '=', self.sexpr(ctx, 0) if r.random() < .8 else self.sexpr(ctx, 1))
        if k < .69 and self.bools:
            return ('set', r.choice(self.bools), '=', self.bexpr(ctx, 1))
        if k < .74 and self.lists:
            l = r.choice(self.lists)
            it = r.choice(l['items'])
            item = ('item', it[0], (l['name'], it[0], it[1]))
            z = r.random()
            if z < .7:
                return ('set', l['name'], r.choice(['+=', '-=', '=']), item)
            if z < .85:
                return ('line', [('t', self.word() + ' '), ('e', ('var', l['name'])), ('t', ' ' + self.word())], None)
            return ('set', l['name'], '=', ('op1', 'LIST_INVERT', ('var', l['name'])))
        if k < .8 and self.on('calls'):
            fs = [f for f in self.funcs if self.may_call(ctx, f)]
            if fs:
                c = self.call(ctx, r.choice(fs))
                return ('callst', c[1], c[2])
        if k < .88 and ctx.get('notemp') is None:
            self.ntemp += 1
            n = f'tt{self.ntemp}'
            s = ('temp', n, self.iexpr(ctx, 1))
            ctx['itemps'] = ctx.get('itemps', []) + [n]
            return s
        return self.line(ctx)

    def block(self, ctx, d):
        """compound statement: its temporaries stay inside"""
        r = self.r
        ctx = dict(ctx, notemp=1)
        k = r.random()

        def ss():
            return [self.simple(ctx) if r.random() < .8 or d == 0 else self.block(ctx, d - 1) for _ in range(r.randint(1, 2))]
        if k < .45:
            br = [(self.bexpr(ctx, 1), ss()) for _ in range(r.randint(1, 3))]
            if r.random() < .7:
                br.append((None, ss()))
            if len(br) <= 2 and r.random() < .5 and (len(br) == 1 or br[1][0] is None):
                return ('cond', br, 'ifelse')
            return ('cond', br)
        if k < .6:
            return ('switch', ('var', r.choice(self.ivars(ctx))),
                    [(('i', v), ss()) for v in r.sample(range(0, 6), r.randint(1, 3))] + ([(None, ss())] if r.random() < .7 else []))
        if self.on('seqs'):
            def body():
                b = [self.simple(ctx) if ctx.get('pure') else self.line(ctx)]
                if r.random() < .4:
                    b.append(self.simple(ctx))
                return b
            return ('mseq', r.choice(['stop', 'cycle', 'once']), [body() for _ in range(r.randint(2, 3))])
        return self.simple(ctx)

    def stmts(self, ctx, n, d=1):
        out = []
        for _ in range(n):
            if self.r.random() < .22:
                out.append(self.block(ctx, d))
            elif ctx.get('tun') and self.r.random() < .15 and self.on('tunnels'):
                ts = [t for t in self.tunnels if t['idx'] > ctx.get('tidx', -1)]
                if ts:
                    t = self.r.choice(ts)
                    out.append(('exit', ('tun', t['name'], [self.iexpr(ctx, 1) for _ in t['pars']])))
                else:
                    out.append(self.simple(ctx))
            elif ctx.get('thr') and self.r.random() < .12 and self.on('threads'):
                ts = [t for t in self.threads if t['idx'] > ctx.get('hidx', -1)]
                if ts:
                    t = self.r.choice(ts)
                    out.append(('thread', t['name'], [self.iexpr(ctx, 1) for _ in t['pars']]))
                else:
                    out.append(self.simple(ctx))
            else:
                out.append(self.simple(ctx))
        return out

    def far(self, ctx, anywhere):
        """an exit from here; outside choices only forward"""
        r = self.r
        if ctx.get('kind') == 'tunnel':
            return ('tret',)
        if ctx.get('kind') == 'thread':
            if r.random() < .6:
                return ('done',)
        i = ctx.get('kidx', -1)
        cand = [k for j, k in enumerate(self.knotlist) if anywhere or j > i]
        if cand and r.random() < .85:
            k = r.choice(cand)
            if anywhere and self.divs and r.random() < .12:
                return ('divv', r.choice(self.divs))
            return ('div', k['name'], [self.iexpr(ctx, 1) for _ in k['pars']])
        return r.choice([('end',), ('done',), ('end',)])

    def choice(self, ctx, level, closed):
        """closed: a gather follows, so the body may fall out of its end"""
        r = self.r
        c = {'once': r.random() < .65, 'only': None, 'inner': [], 'body': [], 'start': []}
        pre = dict(ctx, notemp=1)
        txt = dict(pre, nox=1)
        form = r.random()
        inseq = False
        c['start'] = [('t', self.words(1, 2))]
        if r.random() < .25:
            c['start'] += [('t', ' '), ('e', self.iexpr(txt, 1))] + [('t', ' ' + self.word())]
        elif r.random() < .15:
            c['start'] += [('t', ' '), ('if', self.bexpr(txt, 1), [('t', self.word())], [('t', self.word())]), ('t', ' ' + self.word())]
        if form < .25:
            pass
        elif form < .5:
            c['only'] = [('t', ' ' + self.words(1, 2))]
            c['inner'] = [('t', ', ' + self.words(1, 2))] if r.random() < .6 else []
        elif form < .65:
            c['only'] = [('t', '.')]
            c['inner'] = [('t', '; ' + self.words(1, 2))]
        elif form < .85:
            c['only'] = c['start']
            c['start'] = []
            c['inner'] = [] if r.random() < .5 else [('t', self.words(1, 2))]
        else:
            c['only'] = []
            c['inner'] = [('t', ' ' + self.words(1, 1))]
        if self.on('ctags') and r.random() < .12:
            w = r.random()
            if w < .4 and c['only'] is None and not c['inner']:
                c['start'] = c['start'] + [('tag', [('t', self.word())])]
        if r.random() < .3:
            c['conds'] = [self.bexpr(pre, 1) for _ in range(1 if r.random() < .8 else 2)]
        if r.random() < .25 and self.on('labels'):
            self.nlab += 1
            c['label'] = f'la{self.nlab}'
        if not closed or r.random() < .35:
            ends = True
        else:
            ends = False
        if ends and r.random() < .3:
            c['exit'] = self.far(ctx, True)
            if c['exit'] == ('tret',):      # the compiler takes ->-> there for text: see known-findings
                c['body'] = [('exit', c.pop('exit'))]
            return ('choice', c)
        bctx = dict(ctx)
        c['body'] = self.stmts(bctx, r.randint(0, 2))
        if level < 1 and r.random() < .25 and self.on('nested'):
            c['body'] += self.weave(bctx, level + 1, must_end=ends)
        elif ends:
            c['body'].append(('exit', self.far(bctx, True)) if r.random() < .8 else
                             ('line', self.inline(bctx, 0), self.far(bctx, True)))
        return ('choice', c)

    def weave(self, ctx, level=0, must_end=True):
        r = self.r
        out = []
        gather = r.random() < .6 or not must_end or True
        n = r.randint(1, 3)
        chs = []
        lab = None
        if gather and r.random() < .4 and self.on('labels'):
            self.nlab += 1
            lab = f'la{self.nlab}'
        for _ in range(n):
            chs.append(self.choice(ctx, level, gather))
        labs = [(c[1]['label'], self.qual(ctx, c[1]['label'])) for c in chs if c[1].get('label')]
        if all(c[1]['once'] or c[1].get('conds') for c in chs) and self.on('fallback') and r.random() < .35:
            for _ in range(r.choice([1, 1, 2, 2, 3])):
                f = {'once': r.random() < .85, 'only': None, 'inner': [], 'body': [], 'start': [], 'fallback': True}
                if r.random() < .2:
                    f['conds'] = [self.bexpr(dict(ctx, nox=1), 1)]
                if r.random() < .5:
                    f['exit'] = self.far(ctx, False)
                else:
                    f['body'] = self.stmts(dict(ctx), 1)
                chs.insert(r.choice([len(chs), len(chs), r.randint(0, len(chs))]), ('choice', f))
        out += chs
        if gather:
            gctx = ctx
            gctx['labels'] = gctx.get('labels', []) + labs
            first = self.line(dict(ctx, notemp=1)) if r.random() < .6 else None
            if first and first[1][0][0] == 'glue':
                first = None
            out.append(('gather', lab, first))
            if lab:
                gctx['labels'] = gctx['labels'] + [(lab, self.qual(ctx, lab))]
            out += self.stmts(gctx, r.randint(0, 2))
            if must_end:
                if level == 0 and r.random() < .25:
                    out += self.weave(gctx, level)
                else:
                    out.append(('exit', self.far(gctx, False)))
        return out

    def qual(self, ctx, lab):
        return (ctx['flow'] + '.' if ctx['flow'] != 'root' else '') + lab

    def flow_body(self, ctx):
        r = self.r
        ctx, names = self.lates(ctx)
        out = self.stmts(ctx, r.randint(1, 3))
        if r.random() < .75:
            out += self.weave(ctx)
        else:
            out.append(('exit', self.far(ctx, False)))
        out = self.settle(out, names, ctx)
        if self.faulty(2) and out[-1][0] == 'exit':
            out.pop()
        if self.divs and self.faulty(2):
            out.insert(0, ('set', self.divs[0], '=', ('i', 3)))
        return out

    def program(self):
        r = self.r
        self.ints = [f'v{i}' for i in range(r.randint(2, 3))]
        self.bools = ['b0'] if r.random() < .7 else []
        self.strs = ['s0'] if r.random() < .7 else []
        self.lists = []
        if self.on('lists', .5):
            names = r.sample(['red', 'green', 'blue', 'cyan'], 3)
            v = 0
            items = []
            for n in names:
                v += r.choice([1, 1, 2])
                items.append((n, v, r.random() < .4))
            self.lists.append({'name': 'lcol', 'items': items})
        nk = self.size
        self.knotlist = []
        for i in range(nk):
            self.knotlist.append({'name': f'k{i}', 'pars': [f'p{i}'] if r.random() < .2 else [], 'stitches': [], 'idx': i})
        self.knots = [k['name'] for k in self.knotlist]
        self.tunnels = [{'name': f't{i}', 'pars': [f'q{i}'] if r.random() < .4 else [], 'idx': i} for i in range(r.randint(0, 2))] if self.on('tunnels') else []
        self.threads = [{'name': f'h{i}', 'pars': [f'w{i}'] if r.random() < .4 else [], 'idx': i} for i in range(r.randint(0, 1))] if self.on('threads') else []
        self.divs = []
        np = [k for k in self.knotlist if not k['pars']]
        if np and self.on('divvars', .4):
            self.divs = ['d0']
        self.funcs = []
        for i in range(r.randint(0, 3) if self.on('calls') else 0):
            pt = [r.choice(['i', 'i', 'ref', 's']) for _ in range(r.randint(0, 2))]
            self.funcs.append({'name': f'f{i}', 'ptypes': pt, 'pars': [(('ref ' if t == 'ref' else '') + f'a{i}{j}') for j, t in enumerate(pt)],
                               'ret': r.choice(['i', 'i', None]), 'idx': i, 'pure': r.random() < .5})
        prog = {'exts': self.exts, 'events': bool(self.f.get('events')), 'consts': [], 'lists': self.lists, 'vars': [], 'gtags': [], 'root': [], 'flows': []}
        for v in self.ints:
            prog['vars'].append((v, ('i', r.randint(0, 5))))
        for v in self.bools:
            prog['vars'].append((v, ('b', r.random() < .5)))
        for v in self.strs:
            prog['vars'].append((v, ('s', [('t', self.word())])))
        for v in self.divs:
            prog['vars'].append((v, ('d', r.choice(np)['name'])))
        if r.random() < .5:
            ctx = {'flow': 'root', 'tun': 1, 'thr': 1, 'kidx': -1}
            prog['root'] = self.flow_body(ctx)
        else:
            prog['root'] = [('exit', ('div', 'k0', [('i', 1) for _ in self.knotlist[0]['pars']]))] if self.knotlist else [self.line({'flow': 'root'}), ('exit', ('end',))]
        for k in self.knotlist:
            ctx = {'flow': k['name'], 'tun': 1, 'thr': 1, 'kidx': k['idx'], 'itemps': list(k['pars'])}
            if self.on('stitches', .3):
                st = f"{k['name']}.st"
                body = self.stmts(ctx, 1) + [('exit', ('div', st, []))] if r.random() < .7 else self.flow_body(ctx)
                prog['flows'].append({'name': k['name'], 'kind': 'knot', 'pars': k['pars'], 'body': body})
                sctx = {'flow': st, 'tun': 1, 'thr': 1, 'kidx': k['idx'], 'itemps': []}
                prog['flows'].append({'name': st, 'kind': 'stitch', 'pars': [], 'body': self.flow_body(sctx)})
            else:
                prog['flows'].append({'name': k['name'], 'kind': 'knot', 'pars': k['pars'], 'body': self.flow_body(ctx)})
        for t in self.tunnels:
            ctx = {'flow': t['name'], 'kind': 'tunnel', 'tun': 1, 'tidx': t['idx'], 'itemps': list(t['pars']), 'kidx': 99}
            if r.random() < .3:
                body = self.flow_body(ctx)
            else:
                ctx, names = self.lates(ctx)
                body = self.settle(self.stmts(ctx, r.randint(1, 3)), names, ctx) + ([('exit', ('tret',))] if not self.faulty(2) else [])
            prog['flows'].append({'name': t['name'], 'kind': 'knot', 'pars': t['pars'], 'body': body})
        for t in self.threads:
            ctx = {'flow': t['name'], 'kind': 'thread', 'itemps': list(t['pars']), 'kidx': 99}
            body = self.stmts(ctx, r.randint(0, 2)) + [self.choice(ctx, 1, False) for _ in range(r.randint(1, 2))]
            prog['flows'].append({'name': t['name'], 'kind': 'knot', 'pars': t['pars'], 'body': body + [('gather', None, None), ('exit', ('done',))] if r.random() < .5 else body})
        for f in self.funcs:
            ctx = {'flow': f['name'], 'kind': 'function', 'fidx': f['idx'], 'pure': f['pure'], 'nox': f['pure'],
                   'itemps': [p.replace('ref ', '') for p, t in zip(f['pars'], f['ptypes']) if t != 's']}
            body = []
            ctx, names = self.lates(ctx)
            for _ in range(r.randint(1, 2)):
                body.append(self.simple(ctx) if r.random() < .85 else self.block(ctx, 0))
            body = self.settle(body, names, ctx)
            if f['ret']:
                body.append(('exit', ('ret', self.iexpr(ctx, 2))))
            elif r.random() < .3:
                body.append(('exit', ('ret', None)))
            prog['flows'].append({'name': f['name'], 'kind': 'function', 'pars': f['pars'], 'body': body})
        return prog


def gen_program(seed, size=3, feats=None):
    rng = random.Random(seed)
    return Gen(rng, size, feats).program()


if __name__ == '__main__':
    import sys, json
    p = gen_program(int(sys.argv[1]))
    print(source(p))
    if len(sys.argv) > 2:
        print(json.dumps(spec_json(p)))
