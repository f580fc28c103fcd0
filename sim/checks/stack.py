"""C14: stack use does not grow with the size of the input."""
import random
from .common import *

SHAPES = ['paren', 'sum', 'sub', 'prod', 'div', 'pow', 'neg', 'fun', 'nest', 'nestmul', 'const', 'vars', 'name', 'digits', 'open', 'close', 'bad']
SLACK = 6000
DEEP = 3000000000


def unit(rng):
    """a piece repeated around something"""
    pre, post = '', ''
    for _ in range(rng.randint(1, 3)):
        k = rng.randrange(9)
        a = rng.choice(['x', 'y', '2', '0.5', '(x+1)', 'sin(y)'])
        o = rng.choice('+-*/^')
        f = rng.choice(['sin(', 'cos(', 'exp(', 'sqrt(', 'log(', 'arctan(', 'log2(', 'tan('])
        if k < 3:
            pre, post = pre + '(' + a + o, ')' + post
        elif k < 5:
            pre, post = pre + '(', o + a + ')' + post
        elif k < 7:
            pre, post = pre + f, ')' + post
        elif k == 7:
            pre, post = pre + '-', post
        else:
            pre, post = pre + a + o, post
    return pre, rng.choice(['x', 'y', '1', 'x+y']), post


class C14(Check):
    id = 'C14'
    counts = {'quick': 1000, 'thorough': 9000}
    cap = {'quick': 200, 'thorough': 3000}
    technique = 'deterministic simulation: stack depth measured at every function entry, on small simulated stacks, with injected faults'
    rule = ('one seed makes a large expression (chains, nests, repeated random pieces in all positions, long names and numbers) and performs the '
            'listed operations on a thread with 256 KiB of stack, some failing for lack of memory or an invalid number; the stack depth of every call is '
            'compared with that of the same calls on a small expression of the same shape. Non-trivial: every large case')
    assumptions = ['stack is measured at entries of instrumented functions (library and inlined standard-library code)']

    def cases(self, rng, run, tier):
        if rng.random() < 0.45:
            shape = rng.choice(SHAPES) + ' %d'
        else:
            pre, mid, post = unit(rng)
            shape = 'unit %%d %s %s %s' % (q(pre or '_').replace('%', '%%'), q(mid).replace('%', '%%'), q(post or '_').replace('%', '%%'))
        diff = rng.random() < 0.35 and not shape.startswith(('pow', 'name', 'digits'))
        if diff:
            n = rng.choice([150, 240])
        else:
            n = rng.choice([600, 1500, 1500, 3000] if tier == 'quick' else [1500, 5000, 20000])
        # what costs a single byte per element, or per letter of a name, shows only at larger sizes
        long = not diff and rng.random() < (0.7 if shape.startswith(('name', 'digits')) else 0.08)
        if long:
            n = rng.choice([20000, 30000])
        vals = 'vals x=%s,y=%s' % (hexd(rng.choice([1.5, 0.5])), hexd(0.75))
        big = 'parsebig n0 ' + shape
        pool = [['str n0'], ['print n0'], ['clone n1 n0', 'eq n0 n1'], ['vars n0'], ['check n0'], ['vpa n0'], ['subs n2 n0 c ' + vals, 'vpa n2'],
                ['clone n3 n0', 'subs n2 n3 m ' + vals, 'calc n2'], ['clone n4 n0', 'simp n4', 'str n4'], ['parse n5 x+x*y', 'subs n6 n5 c one x n0', 'drop n6'],
                ['subs n7 n0 c one y n0', 'drop n7'] if n <= 240 else ['vars n0'],
                ['bin n8 + n0 n0 cc', 'eq n8 n0'], ['clone n9 n0', 'ass * n9 n0 c'], ['un n10 sin n0 c', 'str n10'], ['clone n11 n0', 'implassign n11 n0', 'move n12 n11'],
                ['legalbig %d good'], ['legalbig %d bad'], ['drop n0', big]]
        if diff:
            pool += [['diff n13 n0 x 1 c', 'drop n13'], ['diff n13 n0 x 1 c', 'simp n13'], ['clone n14 n0', 'diff n15 n14 x 1 m', 'str n15'],
                     ['diff n13 n0 x 1 c', 'eq n13 n0', 'vars n13']] * 3
        if long:
            pool = [p for p in pool if not any(o.startswith('simp') for o in p)]
        ops = [big]
        for p in rng.sample(pool, min(len(pool), rng.randint(2, 3) if long else rng.randint(3, 7))):
            ops += p
        pre = ['setcfg inv 0'] if rng.random() < 0.5 else []
        c = {'variant': rng.choice('AB'), 'threads': 1, 'stackkib': {'0': 256}, 'budget': DEEP, 'progs': {'0': ops, '4': pre}, 'x': {'n': n, 'small': 24}}
        yield c
        if rng.random() < 0.5:
            r = run.ref(self.at(c, 24))
            got = r.outcomes(0)
            i = rng.choice([i for i, o in enumerate(ops) if o.split(' ')[0] != 'drop'])
            if i in got and got[i].allocs:
                # at a place which grows with the size
                k = int(got[i].allocs * n / 24 * rng.random()) + 1
                yield dict(c, faults=[[0, i, 'alloc', k, rng.choice(['once', 'persist'])]])

    @staticmethod
    def at(c, n):
        d = {k: v for k, v in c.items() if k not in ('x', 'faults')}
        d['progs'] = dict(c['progs'])
        d['progs']['0'] = [fill(o, n) for o in c['progs'].get('0') or []]
        return d

    def describe(self, c):
        from ..case import plan_text
        return plan_text(dict(self.at(c, c['x']['n']), faults=c.get('faults', [])))

    def ident(self, c):
        from ..case import plan_id
        return plan_id(dict(self.at(c, c['x']['n']), faults=c.get('faults', [])))

    def judge(self, c, run):
        n = c['x']['n']
        a = run.ref(self.at(c, c['x']['small']))
        if a.fatal:
            return []
        r = run.plan(dict(self.at(c, n), faults=c.get('faults', [])))
        ops = c['progs'].get('0') or []
        x, y = a.outcomes(0), r.outcomes(0)
        out = []
        if r.fatal and r.fatal[0] != 'budget' and not (r.firedA and terminates(r.fatal[0])):
            out.append(('died', '%s with N=%d: %s' % (fill(ops[r.fatal[2]], n)[:200] if r.fatal[2] < len(ops) else 'destruction', n, r.fatal)))
            return out
        if r.fatal:
            run.outcomes[r.fatal[0].split(':')[0]] += 1
        for i, o in enumerate(ops):
            if i in x and i in y:
                run.outcomes[y[i].text.split(' ')[0]] += 1
                lim = max(x[i].stack, 12288) + SLACK + (16384 if y[i].fa else 0)
                if y[i].stack > lim:
                    out.append(('grows', '%s: %d bytes of stack with N=%d, %d with N=%d' % (fill(o, n)[:200], y[i].stack, n, x[i].stack, c['x']['small'])))
                    break
        return out

    def candidates(self, c):
        yield from super().candidates(c)
        for n in (c['x']['n'] // 2, c['x']['n'] * 3 // 4):
            if n > 100:
                yield 'size', dict(c, x=dict(c['x'], n=n))

    def size(self, c):
        return super().size(c) + c['x']['n'] / 100


def fill(o, n):
    if o.startswith('parsebig') or o.startswith('legalbig'):
        return o % n
    return o
