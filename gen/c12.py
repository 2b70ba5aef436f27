"""C12: external functions, against Ink.tla/InkEvents.tla (which calls a generated program's play must
make, with which arguments, in which continue) and InkBind.tla (who answers, over binding histories)."""
from events import *

BSRC = '''
EXTERNAL fa(x)
EXTERNAL fb(x)
{ext3}
Start.
-> hub
=== hub ===
+ [fa] A {{fa(1)}}.
+ [fb] B {{fb(2)}}.
{ch3}
+ [none] D.
- -> hub
=== function ea(x) ===
~ return fa(x + 1)
=== function eb(x) ===
{{ fb(x + 2):
    ~ return "yes"
}}
~ return "no"
=== function fa(x) ===
~ return x + 100
'''
B3 = '''=== function fc(x, y) ===
~ return x + y
=== function ec(x) ===
C {fc(x, "k")} <>
~ return fc("z", fa(x))
'''


def program(n):
    return BSRC.format(ext3='EXTERNAL fc(x, y)' if n == 3 else '', ch3='+ [fc] C {fc("u", 3)}.' if n == 3 else '') + (B3 if n == 3 else '')


def bindings(rep, binary, n, length, simulate, tag, cap=None):
    cfg = f'SPECIFICATION Spec\nCONSTANT LEN = {length}\nCONSTANT ALL = {n}\nINVARIANT TypeOK\nINVARIANT Guarded\nINVARIANT Apart\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n'
    args = ('-simulate', f'num={max(1, simulate // 8)}', '-depth', str(length + 2), '-seed', str(SEED)) if simulate else ()
    t = tlc('InkBind', cfg, args=args, timeout=900, tag=tag)
    if t.timeout or any('violated' in e for e in t.errors) or t.rc != 0:
        tlc_must(t, 'InkBind ' + tag)
    hs = sorted(set(l[2:] for l in t.prints if l.startswith('H ')))
    if cap and len(hs) > cap:
        hs = random.Random(SEED).sample(hs, cap)
    hs = [json.loads(h) for h in hs]
    src = program(n)
    js = list(run_jobs(binary, [{'src': src, 'compile': {}, 'want_json': True}]))[0]['json']
    names = ['fa', 'fb', 'fc'][:n]
    jobs, plans = [], []
    for h in hs:
        # (call, expected step) with None for calls that only lead to the next one
        ops, plan = [], []
        for s in h:
            a, f = s['a'], s['f']
            if a in ('bind', 'bindsafe'):
                ops.append({'op': 'bind', 'n': f, 'safe': a == 'bindsafe', 'ret': {'k': 'int', 'v': 1000 * s['b']}})
            elif a == 'unbind':
                ops.append({'op': 'unbind', 'n': f})
            elif a in ('allow', 'forbid'):
                ops.append({'op': 'fallbacks', 'v': a == 'allow'})
            elif a == 'begin':
                ops.append({'op': 'cont'})
            elif a == 'play':
                ops.append({'op': 'choose', 'i': names.index(f) if f else n})
                plan.append(None)
                ops.append({'op': 'cont'})
            elif a == 'eval':
                ops.append({'op': 'eval', 'fn': 'e' + f[1], 'args': ['i:5']})
            elif a == 'load':
                ops.append({'op': 'load', 'slot': 's'})
            elif a == 'save':
                ops.append({'op': 'save', 'slot': 's'})
            else:
                ops.append({'op': a})
            plan.append(s)
        jobs.append({'json': js, 'ops': ops, 'watch': {}})
        plans.append(plan)
    res = run_jobs(binary, jobs, timeout=60)
    steps = 0
    for h, job, plan, x in zip(hs, jobs, plans, res):
        steps += len(h)
        why = judge(plan, x, n)
        if why:
            hist = ' '.join(s['a'] + (':' + s['f'] if s['f'] else '') for s in h)
            rep.violate(f'{tag}:{hist}', {'source': src, 'ops': job['ops'], 'history': h, 'why': why, 'result': x}, f'{hist}: {why}')
    gen = max(t.generated, steps if simulate else 0)
    log(tag, len(hs), 'histories', steps, 'steps', f'tlc {t.secs:.0f}s', 'violations', len(rep.violations))
    return dict(histories=len(hs), calls=steps, states=max(t.distinct, gen if simulate else 0), transitions=gen, traces_validated_against_impl=len(hs))


def judge(plan, x, n):
    if x['r'] != 'ok':
        return f"the run ended: {x['r']}"
    if len(x['ops']) < len(plan):
        return f"the run ended at call {len(x['ops'])}"
    # answers per function: (text of a bound answer, text of the fallback)
    line = {'fa': 'A {}.\n', 'fb': 'B {}.\n', 'fc': 'C {}.\n'}
    argv = {'fa': ['i:1'], 'fb': ['i:2'], 'fc': ['s:u', 'i:3']}
    ink = {'fa': '101', 'fc': 'u3'}
    live = {}       # function -> binding, to know who answers the second function an evaluation calls
    for i, (s, y) in enumerate(zip(plan, x['ops'])):
        if y['r'] not in ('ok', 'err'):
            return f"call {i}: {y['r']} {y.get('msg', '')} {y.get('at', '')}"
        if s is None:
            if y['r'] != 'ok':
                return f'call {i}: the choice is refused: {y["v"]}'
            continue
        a, f, r, o = s['a'], s['f'], s['r'], y['o']
        want = 'err' if r in ('no', 'err', 'miss') else 'ok'
        if a in ('bind', 'bindsafe') and r == 'ok':
            live[f] = s
        if a == 'unbind' and r == 'ok':
            live.pop(f, None)
        if a == 'eval' and f == 'fc' and r in ('host', 'ink'):
            # it also calls fa; what the whole evaluation gives is only known if that is answered
            if y['r'] == 'err':
                if 'fa' in live:
                    return f'call {i}: evaluation failed though all functions can be answered: {y["v"]}'
                return ''   # the story is stopped; the specification goes on from a story that is not
        if y['r'] != want:
            return f'call {i} {a} {f}: {y["r"]} ({y["v"]}), expected {r}'
        if r == 'miss':
            msg = str(y['v'])
            for g in s['m']:
                if g not in msg:
                    return f'call {i}: the error does not name {g}: {msg}'
            if o['calls']:
                return f'call {i}: functions were called: {o["calls"]}'
        if a == 'begin' and r == 'ok' and o['text'] != 'Start.\n':
            return f'call {i}: first line {o["text"]!r}'
        if a == 'play' and want == 'ok':
            exp = 'D.\n' if not f else line[f].format(1000 * s['b'] if r == 'host' else ink[f])
            if o['text'] != exp:
                return f'call {i}: line {o["text"]!r}, expected {exp!r}'
            mine = [c['a'] for c in o['calls'] if c['n'] == f] if f else []
            if r == 'host' and (any(c != argv[f] for c in mine) or not mine or not s['safe'] and len(mine) != 1) or r != 'host' and mine:
                return f'call {i}: recorded calls {o["calls"]}'
            if [c for c in o['calls'] if c['n'] != f]:
                return f'call {i}: recorded calls {o["calls"]}'
            if len(o['choices']) != n + 1:
                return f'call {i}: choices {o["choices"]}'
        if a == 'eval' and want == 'ok' and f in ('fa', 'fb'):
            v = y['v']['v']
            b = 1000 * s['b']
            exp = {'fa': f'i:{b}' if r == 'host' else 'i:106', 'fb': 's:yes'}[f]
            if v != exp:
                return f'call {i}: evaluation gave {v}, expected {exp}'
        if a in ('bind', 'bindsafe', 'unbind', 'allow', 'forbid', 'reset', 'save') and o['calls']:
            return f'call {i}: recorded calls {o["calls"]}'
    return ''


def check():
    rep = Report('C12', 'model_checking')
    b = build('debug')
    k = 6 if THOROUGH else 1
    c, samples = {}, []
    for mode, bind, hand, feats in [('mix', 'bound', False, {'strx': 1}), ('mix', 'bound', True, {}), ('unsafe', 'bound', False, {}), ('safe', 'bound', False, {}), ('mix', 'fallback', False, {})]:
        tag = f'c12{mode}{bind[0]}{"h" if hand else ""}'
        items = [(f'{SEED}/{tag}/{i}', gen_program(f'{SEED}/{tag}/{i}', 2 + i % 3, dict(feats, ext=mode))) for i in range((90 if mode != 'safe' else 50) * k)]
        c2, s = run(rep, items, b, tag, bind=bind, handler=hand, timeout=3000)
        c = add(c, c2)
        samples += s[:1]
    c = add(c, bindings(rep, b, 2, 5 if THOROUGH else 4, 0, 'c12x'))
    c = add(c, bindings(rep, b, 2, 14, 3000 * k, 'c12l'))
    c = add(c, bindings(rep, b, 3, 16, 3000 * k, 'c12m'))
    rep.finish(samples=samples, **c)


if __name__ == '__main__':
    main(check)
