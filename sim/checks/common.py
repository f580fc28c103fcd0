from ..core import Check
from ..case import solo
from ..gen import G, State, lookalike, near, NAMES
from ..server import q, qa, unq, hexd, unhexd

# kinds the runtime reports that concern memory
MEMORY = {'bad-free', 'double-free', 'mismatched-free', 'bad-sized-delete', 'use-after-free', 'out-of-bounds'}
BUDGET = 300000000

ALLCATS = list(G.ALL)
QUIETCATS = [c for c in ALLCATS if c not in ('solve',)]


def shared_objects(g, n=6):
    """operations that make shared objects, and what they are believed to be"""
    st = State()
    ops = g.program(n, ['parse', 'build', 'mat', 'vec', 'sym', 'tab', 'parse', 'parse'], slots=st)
    ops = [o for o in ops if o.split(' ')[0] not in ('vpa', 'str', 'print')]
    return ops, st


def few_shared(g):
    """one to three shared objects, most of them with an equal twin"""
    st = State()
    r = g.r
    ops = g.program(r.randint(1, 3), r.choice([['parse'], ['parse', 'build'], ['mat'], ['vec'], ['tab'], ['tab', 'parse'], ['parse', 'sym'],
                                               ['mat', 'vec'], ['parse', 'tab', 'sym']]), slots=st)
    ops = [o for o in ops if o.split(' ')[0] not in ('vpa', 'str', 'print')]
    for s, i in list(st.d.items()):
        kind = s[0]
        verb = {'n': 'clone', 'm': 'mcopy', 'v': 'vcopy', 's': 'sclone', 't': 'tcopy'}.get(kind)
        if verb and r.random() < 0.8:
            d = next((d for d in ('%s%d' % (kind, k) for k in (5, 6, 7)) if d not in st.d), None)
            if d is None:
                continue
            ops.append('%s %s %s' % (verb, d, s))
            st.d[d] = dict(i)
    return ops, st


def show_ops(ops, lim=60):
    return '; '.join(ops)[:lim]


def large_ops(rng, top=2000):
    """calls with arguments of a size seldom met"""
    n = rng.choice([k for k in (40, 90, 130, 270, 600, 1100, 2000) if k <= top])
    k = rng.randrange(9)
    v = rng.choice(['x', 'y', 'alpha'])
    more = lambda s: rng.sample([['str ' + s], ['vars ' + s], ['clone n21 ' + s, 'eq n21 ' + s], ['vpa ' + s], ['subs n22 %s c vals %s=%s' % (s, v, hexd(0.5)), 'calc n22', 'str n22']], 2)
    if k < 4:
        t = {0: ('%s+' % v) * n + '1', 1: '(' * n + v + ')' * n, 2: '-' * n + v, 3: '+'.join('%s%d*%d' % (v, i % 7, i) for i in range(n // 2))}[k]
        out = ['parse n20 ' + q(t)]
        for m in more('n20'):
            out += m
        return out
    if k == 4:   # wrong at its far end, or nowhere closed
        t = rng.choice([(v + '+') * n + ')', '(' * n + v, (v + ' ') * n, '1' * n + 'x', v * n + '(', ('sin(' + v + ')+') * (n // 4)])
        return ['parse n20 ' + q(t)]
    if k == 5:
        s = ('name_' * n)[:n]
        return ['legal ' + s, 'var n20 ' + s, 'str n20', 'vars n20', 'legal ' + s + '%20']
    if k == 6:
        r, c = rng.choice([(1, 40), (40, 1), (12, 12), (9, 17)])
        return ['mat m5 %d %d %s' % (r, c, ','.join(hexd(rng.choice([0.0, 1.0, -2.5, 1e9, 1e-7])) for _ in range(r * c))), 'mstr m5', 'mnorms m5', 'mcopy m6 m5', 'meq m5 m6']
    if k == 7:
        m = rng.choice([12, 20])
        a = [[(4.0 if i == j else 0.0) + rng.choice([0.0, 0.0, 1.0]) for j in range(m)] for i in range(m)]
        return ['mat m5 %d %d %s' % (m, m, ','.join(hexd(x) for r in a for x in r)), 'vec v5 ' + ','.join(hexd(float(i)) for i in range(m)), 'lin v6 m5 v5']
    ns = ['u%d' % i for i in range(min(n, 130))]
    return ['tab t5 ' + ','.join('%s=%s' % (x, hexd(float(i))) for i, x in enumerate(ns)), 'tstr t5', 'tcopy t6 t5', 'teq t5 t6', 'tget t5 ' + ns[-1], 'thas t6 zz']


def terminates(what):
    return what.startswith('terminate') or what == 'abort'


def surroundings(rng):
    """ a clock that is fast, stands still, jumps, and what the process tells about itself and the machine """
    env = {'time': rng.randrange(1 << 40)}
    if rng.random() < 0.6:
        env['rate'] = rng.choice([0, 1, 1000000, 1000000000, 60000000000])
    if rng.random() < 0.5:
        env['tick'] = rng.choice([1, 1000, 1000000, 1000000000, 100000000000])
    if rng.random() < 0.4:
        env['jump'] = rng.choice([1, 2, 5])
    if rng.random() < 0.7:
        env['facts'] = rng.randrange(1, 1 << 30)
    return env
