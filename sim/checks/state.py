"""C03, C04, C13, C16, C17: settings, history, locale, environment, process-wide state."""
import copy, re
from .common import *

DEFAULTS = {'inv': '1', 'eps': hexd(1e-9), 'log': '3', 'maxit': '100', 'method': '0', 'init': hexd(1.0), 'indet': '0'}
FIELDS = ['inv', 'eps', 'log', 'maxit', 'method', 'init', 'indet']


def cfg_text(d):
    return 'ok G:' + ' '.join('%s=%s' % (f, d[f]) for f in FIELDS)


def random_setting(rng, f=None):
    f = f or rng.choice(FIELDS)
    v = {'inv': lambda: rng.choice('01'), 'eps': lambda: hexd(rng.choice([1e-9, 1e-6, 1e-3, 0.5, 1e-12, 0.0])),
         'log': lambda: rng.choice('01234567'), 'maxit': lambda: rng.choice(['0', '1', '2', '4', '7', '-3', '12']),
         'method': lambda: rng.choice('01'), 'init': lambda: hexd(rng.choice([0.0, 0.5, 1.0, 2.0, -1.0])),
         'indet': lambda: rng.choice('01')}[f]()
    return f, v


def all_settings(d):
    return ['setcfg %s %s' % (f, d[f]) for f in FIELDS]


# calls that show a setting at work
def probes(rng):
    e = [1e-10, 1e-7, 1e-4, 0.01, 0.4][rng.randrange(5)]
    out = [['parse n20 1/0+x', 'parse n21 1/0', 'calc n21', 'simp n20'],
           ['num n20 ' + hexd(-1.0), 'un n21 sqrt n20 c', 'vpa n21'],
           ['mat m5 1 2 %s,%s' % (hexd(1.0), hexd(2.0)), 'mat m6 1 2 %s,%s' % (hexd(1.0 + e), hexd(2.0)), 'meq m5 m6', 'mnorms m6'],
           ['mat m5 2 2 %s' % ','.join(map(hexd, [1.0, 0.0, 0.0, e])), 'vec v5 %s,%s' % (hexd(1.0), hexd(1.0)), 'lin v6 m5 v5'],
           ['mat m5 1 2 %s,%s' % (hexd(1.0), hexd(1.0)), 'vec v5 ' + hexd(2.0), 'lin v6 m5 v5'],
           ['parse n20 x^2-%g' % rng.choice([2, 3, 5]), 'symvec q7 n20', 'solve1 t7 q7'],
           ['parse n20 exp(x)-%g' % rng.choice([2, 9]), 'symvec q7 n20', 'solve1 t7 q7'],
           ['parse n20 x+y-4', 'symvec q7 n20', 'solve1 t7 q7'],
           ['parse n20 x^2+1', 'symvec q7 n20', 'tab t6 x=%s' % hexd(0.7), 'solve t7 cfg q7 t6'],
           ['parse n20 x^3-x-1', 'symvec q7 n20', 'tab t6 x=%s' % hexd(1.5), 'solve t7 cfg q7 t6', 'couttext'],
           ['vec v5 %s' % hexd(1e-4), 'mnorms v5']]
    return rng.choice(out)


def add_faults(rng, c, n=1, run=None, kinds=('alloc', 'math')):
    """faults at calls of program 0, at places that exist in the undisturbed execution"""
    ops = c['progs']['0']
    got, d = {}, None
    if run is not None:
        d = {k: v for k, v in c.items() if k not in ('faults', 'flags', 'repeat', 'x')}
        got = run.ref(d).outcomes(0)
    where = {'alloc': [i for i in got if got[i].allocs], 'math': [i for i in got if got[i].maths]}
    fs = []
    for _ in range(n):
        kind = rng.choice(kinds)
        if not where[kind]:
            kind = 'alloc'
        if not where[kind]:
            continue
        i = rng.choice(where[kind])
        m = got[i].allocs if kind == 'alloc' else got[i].maths
        k = rng.randint(1, m) if rng.random() < 0.5 else min(m, rng.choice([1, 2, 3, 4, 6, 9, 14]))
        if kind == 'alloc' and rng.random() < 0.5:
            k = run.pick_allocs(rng, run.alloc_sites(d).get((0, i), ()), m, 1)[0] if m > 1 else 1
        fs.append([0, i, kind, k, rng.choice(['once', 'persist'])])
    c['faults'] = fs


def noisy_output(rng):
    """the standard output misbehaves"""
    if rng.random() < 0.5:
        return []
    return ['cout %d %d %d %d' % (rng.choice([1, 2, 3]), rng.choice([0, 1, 10, 60, 200]), rng.choice([0, 1, 7]),
                                  rng.choice([0, 0, 1, 4, 5, 7]))]


def callback_ops(rng):
    n = rng.randint(1, 3)
    vals = lambda: ','.join(hexd(rng.choice([0.5, 1.0, 2.0, -1.0, 3.0])) for _ in range(n))
    return ['vec v4 ' + vals(), 'vec v5 ' + vals(),
            ('armijo v4 v5 kind=%d' if rng.random() < 0.6 else 'findalpha v4 v5 ' + hexd(1e-5) + ' kind=%d') % rng.randrange(9) +
            ' %s=%d what=%d' % (rng.choice(['fthrow', 'fthrow', 'dfthrow']), rng.randint(1, 4), rng.randrange(6))]


def pair(rng, e):
    """a size clearly below or above the tolerance e"""
    return e * rng.choice([0.5, 0.25, 2.0 ** -20, 2.0, 4.0, 2.0 ** 20])


def telling(rng, d):
    """calls whose outcome the settings d decide by their documented meaning: [(calls, what is expected of which of them, argument)]"""
    e = unhexd(d['eps'])
    D = pair(rng, e)
    v = unhexd(d['init'])
    nums = lambda *x: ','.join(hexd(y) for y in x)
    k = rng.randrange(9)
    n = rng.choice([1, 2, 2, 3, 4, 6, 9, 16, 33])
    at = rng.randrange(n)
    spot = lambda x, y: [x if i == at else y for i in range(n)]
    diag = lambda n, at: [(D if i == at else 1.0) if i == j else 0.0 for i in range(n) for j in range(n)]
    if k == 0:
        return ['mat m5 1 %d %s' % (n, nums(*spot(0.0, 1.0))), 'mat m6 1 %d %s' % (n, nums(*spot(D, 1.0))), 'meq m5 m6'], [[2, 'eq', D]]
    if k == 1:
        tab = lambda v: ','.join('%s=%s' % ('v%d' % i, hexd(x)) for i, x in enumerate(v))
        return ['tab t5 ' + tab(spot(0.0, 1.0)), 'tab t6 ' + tab(spot(D, 1.0)), 'teq t5 t6'], [[2, 'eq', D]]
    if k == 2:
        n = rng.choice([2, 3, 4])
        return ['mat m5 %d %d %s' % (n, n, nums(*diag(n, rng.randrange(n)))), 'minv m6 m5'], [[1, 'above', D]]
    if k == 3:
        return ['mat m5 %d %d %s' % (n, n, nums(*diag(n, n - 1))), 'vec v5 ' + nums(*([1.0] * (n - 1) + [D])), 'lin v6 m5 v5'], [[2, 'above', D]]
    if k == 4:
        return ['mat m5 2 2 %s' % nums(1, 1, D, 0), 'vec v5 ' + nums(1, 0), 'lin v6 m5 v5'], [[2, 'above', min(D, 1.0)]]
    if k == 5:
        return ['parse n20 x', 'symvec q7 n20', 'tab t6 x=' + hexd(D), 'solve t7 %s q7 t6' % rng.choice(['nr', 'lm', 'cfg'])], [[3, 'below', D], [3, 'log', 0]]
    if k == 6:
        return ['parse n20 (x-(%g))*(x-(%g))' % (v, rng.choice([v + 1, v - 0.5, v + 3])), 'symvec q7 n20', 'solve1 t7 q7'], [[2, 'init', v], [2, 'log', 0]]
    if k == 7:
        q = ['parse n20 exp(sin(x))', 'symvec q7 n20', 'tab t6 x=' + hexd(rng.choice([0.7, 2.0, -3.0]))]
        if rng.random() < 0.5:
            return q + ['solve t7 nr q7 t6'], [[3, 'limit', 0], [3, 'log', 0]]
        if rng.random() < 0.6:
            n = rng.choice([2, 3, 5, 8, 12])
            q = ['parse n%d v%d^2-%d' % (10 + i, i, rng.choice([2, 3, 7])) for i in range(n)]
            q += ['symvec q7 ' + ','.join('n%d' % (10 + i) for i in range(n)), 'tab t6 ' + ','.join('v%d=%s' % (i, hexd(3.0)) for i in range(n))]
        else:
            q[0] = rng.choice(['parse n20 x^3-2', q[0]])
        return ['setcfg maxit %d' % rng.randint(0, 12)] + q + ['solve t7 cfg q7 t6', 'solve t7 nr q7 t6', 'solve t7 lm q7 t6'], [[len(q) + 1, 'method', 0]]
    if rng.random() < 0.5:
        return ['mat m5 1 2 ' + nums(1, 1), 'vec v5 ' + nums(2), 'lin v6 m5 v5'], [[2, 'indet', 0]]
    return ['num n20 ' + hexd(-1.0), 'un n21 sqrt n20 c', 'vpa n21'], [[2, 'inv', 0]]


def contradicts(kind, arg, d, o, got, i):
    """whether outcome o of call i denies what the settings d mean"""
    e = unhexd(d['eps'])
    ok = o.text.startswith('ok ')
    if kind == 'eq':
        return arg <= e / 2 and o.text != 'ok B:1' or arg >= 2 * e and o.text != 'ok B:0'
    if kind == 'above':
        return arg <= e / 2 and ok or arg >= 2 * e and not ok
    if kind == 'below':
        return arg <= e / 2 and not ok
    if kind == 'init':
        return unhexd(d['init']) == arg and o.text != 'ok T1:x=%s,/x=%s,' % (hexd(arg), hexd(arg))
    if kind == 'limit': # every attempt is at a point of its own
        return not ok and not o.text.startswith('math') and o.points < int(d['maxit'])
    if kind == 'method':
        return i + 2 in got and o.text != got[i + 2 if d['method'] == '1' else i + 1].text
    if kind == 'log':
        return (o.cout > 0) != (int(d['log']) >= 4)
    if kind == 'indet':
        return ok != (d['indet'] == '1')
    if kind == 'inv':
        return ok != (d['inv'] == '0')


class C03(Check):
    id = 'C03'
    counts = {'quick': 24000, 'thorough': 120000}
    rule = ('one seed makes a program of 6-20 calls with the caller changing settings in between; allocation failures, invalid numbers, '
            'throwing callbacks and failing standard output end some calls early. The settings are watched at every write and compared '
            'with a model after every call; a probe call shows that they are in force. Calls whose outcome is fixed by the documented meaning of a '
            'setting (tolerance, limit, method, start, log level, indeterminate systems, invalid numbers) are made under drawn settings')

    def cases(self, rng, run, tier):
        g = G(rng)
        d = dict(DEFAULTS)
        st = State()
        ops, model = [], []
        ops.append('setcfg maxit 4')
        d['maxit'] = '4'
        for _ in range(rng.randint(3, 8)):
            k = rng.random()
            if k < 0.35:
                f, v = random_setting(rng)
                ops.append('setcfg %s %s' % (f, v))
            elif k < 0.42:
                ops.append('resetcfg')
                ops.append('setcfg maxit 4')
            elif k < 0.5:
                ops += noisy_output(rng)
            elif k < 0.6:
                ops += callback_ops(rng)
            elif k < 0.7:
                ops += probes(rng)
            elif k < 0.705:
                ops += large_ops(rng)
            else:
                ops += g.program(rng.randint(1, 5), None, slots=st)
            ops.append('getcfg')
        base = {'variant': rng.choice('AB'), 'main': True, 'progs': {'0': ops}, 'flags': ['watch'], 'budget': BUDGET}
        for j in range(3):
            c = copy.deepcopy(base)
            if j:
                add_faults(rng, c, rng.randint(1, 3), run)
            if j == 2:
                pr = probes(rng)
                c['progs']['0'] = c['progs']['0'] + ['dropall', 'cout 0 0 0 0'] + pr
                c['x'] = {'probe': len(pr)}
            yield c
        if rng.random() < 0.5:
            # what settings mean, apart from any other execution
            d, ops = dict(DEFAULTS), []
            for _ in range(rng.randint(0, 4)):
                if rng.random() < 0.25:
                    ops.append('resetcfg')
                    d = dict(DEFAULTS)
                f = rng.choice(FIELDS)
                x = {'eps': lambda: hexd(2.0 ** rng.randint(-70, -2)), 'maxit': lambda: str(rng.choice([0, 3, 50, 101, 150, 250, 400, 1001])),
                     'init': lambda: hexd(rng.choice([0.0, 0.5, 2.0, -3.0, 40.0, -700.0, 100000.0]))}.get(f, lambda: random_setting(rng, f)[1])()
                ops.append('setcfg %s %s' % (f, x))
                d[f] = x
            tail, want = telling(rng, d)
            yield {'variant': rng.choice('AB'), 'main': rng.random() < 0.5, 'flags': ['watch'], 'budget': BUDGET, 'progs': {'0': ops + tail},
                   'x': {'told': want, 'tail': len(tail)}}
        if rng.random() < 0.2:
            # the settings are the process's: set by one thread, in force in another
            sets = lambda: ['resetcfg'] * (rng.random() < 0.3) + ['setcfg maxit 4'] + ['setcfg %s %s' % random_setting(rng) for _ in range(rng.randint(0, 3))] + ['getcfg']
            pr = probes(rng)
            yield {'variant': rng.choice('AB'), 'threads': 1, 'flags': ['watch'], 'budget': BUDGET, 'x': {'threads': 1},
                   'progs': {'4': sets(), '0': ['getcfg'] + g.program(rng.randint(1, 4)) + sets() + (pr if rng.random() < 0.5 else []), '5': ['getcfg'] + sets() + pr}}

    def told(self, c, run):
        r = run.plan(c)
        out = [('settings-write', text) for k, t, op, text in r.viol if k == 'settings-write']
        ops, got = c['progs'].get('0') or [], r.outcomes(0)
        d = dict(DEFAULTS)
        for o in ops:
            w = o.split(' ')
            if w[0] == 'setcfg':
                d[w[1]] = w[2]
            elif w[0] == 'resetcfg':
                d = dict(DEFAULTS)
        for i, kind, arg in c['x']['told']:
            i += len(ops) - c['x']['tail']
            if i not in got:
                break
            run.outcomes[kind + ' ' + got[i].text.split(' ')[0]] += 1
            if contradicts(kind, arg, d, got[i], got, i):
                return out + [('not-in-force', '%s (%s)\n    %s; %d points, %d bytes to standard output\n    settings: %s' % (
                    ops[i], kind, got[i].text, got[i].points, got[i].cout, cfg_text(d)))]
        return out

    def across(self, c, run):
        """setting changes made by several threads, one after the other"""
        r = run.plan(c)
        out = [('settings-write', text) for k, t, op, text in r.viol if k == 'settings-write']
        d = dict(DEFAULTS)
        for p in '405':
            ops, got = c['progs'].get(p) or [], r.outcomes(int(p))
            last = -1
            for i, op in enumerate(ops):
                if i not in got:
                    return out
                w = op.split(' ')
                if w[0] == 'setcfg':
                    d[w[1]] = w[2]
                elif w[0] == 'resetcfg':
                    d = dict(DEFAULTS)
                elif w[0] == 'getcfg':
                    last = i
                    if got[i].text != cfg_text(d):
                        return out + [('changed', 'in %s, operation %d: %s\n    the caller set: %s' % (
                            {'4': 'the main thread', '0': 'another thread', '5': 'the main thread, afterwards'}[p], i, got[i].text, cfg_text(d)))]
            if last < 0 or last + 1 == len(ops) or p == '4':
                continue
            tail = ops[last + 1:]
            a = run.ref({'variant': c['variant'], 'main': True, 'budget': BUDGET, 'progs': {'0': all_settings(d) + tail}})
            x = a.outcomes(0)
            for i, op in enumerate(tail):
                if a.fatal or len(FIELDS) + i not in x:
                    break
                u, v = x[len(FIELDS) + i].text, got[last + 1 + i].text
                if op != 'couttext' and u != v:
                    return out + [('not-in-force', '%s\n    in a fresh process with these settings: %s\n    here: %s\n    settings: %s' % (op, u, v, cfg_text(d)))]
        return out

    def judge(self, c, run):
        if (c.get('x') or {}).get('threads'):
            return self.across(c, run)
        if (c.get('x') or {}).get('told'):
            return self.told(c, run)
        r = run.plan(c)
        out = []
        for k, t, op, text in r.viol:
            if k == 'settings-write':
                p = c['progs']['0']
                out.append(('settings-write', '%s: %s' % (p[op] if 0 <= op < len(p) else op, text)))
        if r.fatal:
            run.outcomes['fatal'] += 1
        got = r.outcomes(0)
        d = dict(DEFAULTS)
        for i, op in enumerate(c['progs']['0']):
            if i not in got:
                break
            w = op.split(' ')
            run.outcomes[got[i].text.split(' ')[0]] += 1
            if w[0] == 'setcfg':
                d[w[1]] = w[2]
            elif w[0] == 'resetcfg':
                d = dict(DEFAULTS)
                if got[i].text != cfg_text(d).replace('ok G:', 'ok '):
                    out.append(('defaults', 'after reset: %s\n    documented: %s' % (got[i].text, cfg_text(d))))
            elif w[0] == 'getcfg' and got[i].text.startswith('ok'):
                if got[i].text != cfg_text(d):
                    out.append(('changed', 'after operation %d: %s\n    the caller set: %s' % (i, got[i].text, cfg_text(d))))
                    break
        n = (c.get('x') or {}).get('probe')
        if n and not r.fatal and not out and len(got) == len(c['progs']['0']) and not any(
                f[1] >= len(c['progs']['0']) - n for f in c['faults']):
            tail = c['progs']['0'][-n:]
            a = run.ref({'variant': c['variant'], 'main': True, 'budget': BUDGET, 'progs': {'0': all_settings(d) + tail}})
            if not a.fatal:
                x = a.outcomes(0)
                for i, op in enumerate(tail):
                    u, v = x[len(FIELDS) + i].text, got[len(got) - n + i].text
                    if op != 'couttext' and u != v:
                        out.append(('not-in-force', '%s\n    in a fresh process with these settings: %s\n    here: %s\n    settings: %s' % (
                            op, u, v, cfg_text(d))))
                        break
        return out

    def candidates(self, c):
        n = (c.get('x') or {}).get('probe')
        for what, d in super().candidates(c):
            if (c.get('x') or {}).get('threads'):
                # the probe that follows the last look at the settings stays whole
                def tail(x, p):
                    o = x['progs'].get(p) or []
                    return o[len(o) - o[::-1].index('getcfg'):] if 'getcfg' in o else None
                if any(tail(d, p) not in (tail(c, p), None, []) for p in '05'):
                    continue
            elif (c.get('x') or {}).get('told'):
                n = c['x']['tail']
                if (d['progs'].get('0') or [])[-n:] != c['progs']['0'][-n:]:
                    continue
            elif n:
                # the probe stays at the end, whole
                if d['progs']['0'][-n:] != c['progs']['0'][-n:]:
                    continue
            yield what, d


class C04(Check):
    id = 'C04'
    counts = {'quick': 20000, 'thorough': 200000}
    rule = ('one seed makes a probe of 1-6 calls and a history of calls before it: the probe itself and small variations of it, other calls, '
            'under other settings, some ended early by an allocation failure, an invalid number or a throwing callback. The probe must give '
            'what it gives in a pristine process, each time')

    def candidates(self, c):
        head = ['dropall', 'resetcfg']  # the probe starts from the documented settings
        for what, d in super().candidates(c):
            if (d['progs'].get('5') or [])[:2] == head or (c['progs'].get('5') or [])[:2] != head:
                yield what, d

    def mutate(self, rng, g, op):
        """a call on a similar argument"""
        w = op.split(' ')
        if w[0] in ('parse', 'parsev', 'parsez', 'lit', 'var', 'legal') and len(w) > 1:
            s = w[-1]
            k = rng.randint(0, 6)
            if k >= 5:
                s = q(lookalike(rng, unq(s)))
            elif k == 0:
                s = s.translate(str.maketrans('xyz', 'yzx'))
            elif k == 1:
                s = s.replace('1', '2').replace('3', '4')
            elif k == 2:
                s = s.swapcase() if '%' not in s else s
            elif k == 3:
                s = s + '%20'
            elif s:
                i = rng.randrange(len(s))
                if '%' not in s:
                    s = s[:i] + s[i + 1:]
            w[-1] = s or 'x'
        elif w[0] == 'tabinit' and ',' in w[2]:
            # the same unknowns, listed in another order
            x = w[2].split(',')
            rng.shuffle(x)
            w[2] = ','.join(x)
        elif w[0] in ('mat', 'vec', 'num', 'tab', 'rawcalc', 'subs', 'tostr', 'mscale', 'mset') and rng.random() < 0.3:
            h = re.findall('[0-9a-f]{16}', w[-1])
            if h:
                h = rng.choice(h)
                w[-1] = w[-1].replace(h, near(rng, h))
        elif w[0] in ('mat', 'vec', 'num', 'tab', 'rawcalc') and rng.random() < 0.7:
            w[-1] = w[-1].replace(hexd(1.0), hexd(2.0)).replace(hexd(0.5), hexd(0.25))
        elif w[0] == 'solve':
            w[2] = rng.choice(['nr', 'lm', 'cfg'])
        elif w[0] == 'diff':
            w[3] = rng.choice(['x', 'y', 'z'])
        return ' '.join(w)

    def long_history(self, rng, g, probe):
        """many small calls with distinct arguments"""
        n = rng.choice([70, 140, 300, 600])
        h = []
        kinds = rng.sample(['parse', 'show', 'eval', 'diff', 'name', 'mat'] + ['mix'] * bool(probe), rng.randint(1, 3))
        for k in range(n):
            x = rng.choice(kinds)
            t = rng.choice(['x+%d', '%d*y', 'v%d', 'sin(%d)', 'x^%d-1']) % (k if rng.random() < 0.9 else rng.randrange(20))
            if x == 'parse':
                h.append('parse n0 ' + q(t))
            elif x == 'show':
                h += ['parse n0 ' + q(t), 'str n0']
            elif x == 'eval':
                h += ['parse n0 ' + q(t), rng.choice(['vpa n0', 'vars n0', 'simp n0', 'tostr ' + hexd(k / 7)])]
            elif x == 'diff':
                h += ['parse n0 ' + q(t), 'diff n1 n0 x 1 c']
            elif x == 'name':
                v = lookalike(rng, rng.choice(g.names)) if rng.random() < 0.5 else 'v%d' % k
                h.append(rng.choice(['legal ', 'var n0 ']) + (q(v) or 'x'))
            elif x == 'mat':
                h += ['mat m0 1 2 %s,%s' % (hexd(k * 1.5), hexd(-k)), 'mstr m0']
            else:
                h.append(self.mutate(rng, g, rng.choice(probe)))
        return h

    def cases(self, rng, run, tier):
        g = G(rng)
        cats = rng.choice([None, None, ['parse', 'show', 'eval'], ['parse', 'diff', 'simp', 'eval'], ['parse', 'name', 'err', 'build'], ['solve', 'parse'], ['solve'],
                           ['parse', 'subs', 'eval', 'tab'], ['mat', 'vec', 'lin'], ['sym', 'parse', 'solve'], ['line', 'solve', 'lin']])
        probe = g.program(rng.randint(1, 6), cats)
        if rng.random() < 0.02:
            probe = large_ops(rng, 600)
        settings = g.settings(loud=False)
        for j in range(2 if tier == 'quick' else 4):
            h = []
            if rng.random() < 0.08:
                h = self.long_history(rng, g, probe)
            for _ in range(rng.randint(1, 4)):
                k = rng.random()
                if k < 0.35:
                    h += [self.mutate(rng, g, o) if rng.random() < 0.4 else o for o in probe]
                elif k < 0.5:
                    for _ in range(rng.randint(1, 3)):
                        f, v = random_setting(rng)
                        h.append('setcfg %s %s' % (f, v))
                elif k < 0.6:
                    h += callback_ops(rng)
                elif k < 0.61:
                    h += large_ops(rng)
                elif k < 0.66:
                    h.append('resetcfg')
                    h.append('setcfg maxit 4')
                else:
                    h += g.program(rng.randint(1, 6), cats)
            c = {'variant': rng.choice('AB'), 'main': True, 'budget': BUDGET,
                 'progs': {'0': ['setcfg maxit %d' % rng.choice([4, 4, 4, 16])] + h, '5': ['dropall', 'resetcfg'] + settings + probe}, 'x': {'tail': 2 + len(settings)}}
            if rng.random() < 0.65:
                add_faults(rng, c, rng.randint(1, 4), run)
            if rng.random() < 0.2:
                c['repeat'] = 2
            if rng.random() < 0.6:
                # a freed block's address is given out again soon, or its old contents stay readable
                c['env'] = {'policy': rng.choice([1, 1, 3]), 'heap': rng.choice([0, 1, 2, rng.randrange(1 << 30)])}
            yield c

    def judge(self, c, run):
        r = run.plan(c)
        if r.fatal and 'phase=after' not in r.fatal[3]:
            run.outcomes['history-fatal'] += 1
            return []
        a = run.ref({'variant': c['variant'], 'main': True, 'budget': BUDGET, 'progs': {'0': ['getcfg'], '5': c['progs'].get('5') or []}})
        if a.fatal:
            return []
        x, y = a.outcomes(5), r.outcomes(5)
        out = []
        for i, op in enumerate(c['progs'].get('5') or []):
            if i not in y:
                if r.fatal:
                    out.append(('differs', '%s\n    pristine: %s\n    after the history: %s' % (op, x[i].text, r.fatal)))
                break
            run.outcomes[y[i].text.split(' ')[0]] += 1
            if x[i].text != y[i].text:
                out.append(('differs', '%s\n    pristine:          %s\n    after the history: %s' % (op, x[i].text, y[i].text)))
                break
        return out


LOCS = ['C', 'POSIX', 'de_DE.UTF-8', 'fr_FR.UTF-8', 'tr_TR.UTF-8', 'de_DE.ISO-8859-1', 'hi_IN.UTF-8']


def switch_locale(rng, thread_only=False):
    if thread_only:
        return 'setloc u ' + rng.choice(LOCS + ['global'])
    k = rng.choice('cntugffff')
    if k == 'f':
        return 'setloc f ' + rng.choice(['punct', 'ctype', 'both', 'none'])
    if k == 'u':
        return 'setloc u ' + rng.choice(LOCS + ['global'])
    return 'setloc %s %s' % (k, rng.choice(LOCS))


def strip_ops(ops, names):
    return [o for o in ops if o.split(' ')[0] not in names]


class C13(Check):
    id = 'C13'
    counts = {'quick': 36000, 'thorough': 90000}
    rule = ('one seed makes a program of calls and inserts switches of the C locale, the thread locale and the C++ global locale '
            '(compiled locales and hostile facets) between any two of them; every call must give what it gives without any switch. '
            'With several threads each switches its own locale while the others are inside calls')

    def cases(self, rng, run, tier):
        g = G(rng)
        cats = rng.choice([None, ['parse', 'show', 'eval', 'name'], ['parse', 'build', 'show', 'mat', 'sym', 'tab'], ['parse', 'show', 'err', 'simp', 'diff']])
        if rng.random() < 0.75:
            ops = g.program(rng.randint(3, 14), cats)
            if rng.random() < 0.02:
                ops += large_ops(rng)
            pre = g.settings(loud=False) if rng.random() < 0.5 else ['setcfg maxit 4']
            for _ in range(2):
                p = []
                for o in ops:
                    while rng.random() < 0.35:
                        p.append(switch_locale(rng))
                    p.append(o)
                progs = {'0': [switch_locale(rng)] + p, '4': pre}
                if rng.random() < 0.3:
                    progs['4'] = [switch_locale(rng)] + pre
                yield {'variant': rng.choice('AB'), 'main': True, 'budget': BUDGET, 'progs': progs}
        else:
            n = rng.choice([2, 2, 3])
            progs = {'4': ['setcfg maxit 4']}
            if rng.random() < 0.5:
                progs['4'].append(switch_locale(rng))
            for t in range(n):
                p = []
                for o in g.program(rng.randint(2, 6), cats):
                    while rng.random() < 0.35:
                        p.append(switch_locale(rng, True))
                    p.append(o)
                progs[str(t)] = p
            for _ in range(2):
                yield {'variant': rng.choice('AB'), 'threads': n, 'budget': BUDGET, 'progs': progs,
                       'sched': [rng.randrange(1, 1 << 40), rng.choice([4, 15, 60, 300]), 0]}

    def judge(self, c, run):
        r = run.plan(c)
        out = []
        for t in range(1 if c.get('main') else c['threads']):
            ops = c['progs'].get(str(t)) or []
            clean = dict(c, progs={'0': strip_ops(ops, ('setloc',)), '4': strip_ops(c['progs'].get('4') or [], ('setloc',))})
            a = run.ref(solo(clean, 0))
            if a.fatal:
                continue
            x, y = a.outcomes(0), r.outcomes(t)
            j = 0
            for i, o in enumerate(ops):
                if o.startswith('setloc'):
                    if i in y and y[i].text != 'ok ok':
                        run.outcomes['locale-missing'] += 1
                    continue
                if i not in y:
                    if r.fatal:
                        out.append(('differs', '%s\n    without switches: %s\n    with: %s' % (o, x[j].text, r.fatal)))
                    break
                run.outcomes[y[i].text.split(' ')[0]] += 1
                if x[j].text != y[i].text:
                    out.append(('differs', '%s\n    without switches: %s\n    with:             %s' % (o, x[j].text, y[i].text)))
                    break
                j += 1
        run.fired['locale-switch'] += sum(o.startswith('setloc') for p in c['progs'].values() for o in p)
        return out


class C16(Check):
    id = 'C16'
    counts = {'quick': 36000, 'thorough': 150000}
    rule = ('one seed makes a program of calls and several environments: contents of fresh and freed memory and of the stack, placement, '
            'direction, gaps and order of reuse of blocks, thread or main, errno, floating-point flags, random-number seed, clock; '
            'every call must give what it gives in the benign environment')

    def cases(self, rng, run, tier):
        g = G(rng)
        if rng.random() < 0.2:
            g.big = 0.4
        cats = rng.choice([None, None, None, ['solve', 'lin', 'line', 'parse'], ['mat', 'vec', 'lin'], ['sym', 'tab', 'parse', 'subs'],
                           ['parse', 'show', 'eval', 'simp', 'diff'], ['name', 'err', 'parse']])
        ops = g.program(rng.randint(3, 12), cats)
        if rng.random() < 0.02:
            ops += large_ops(rng)
        pre = g.settings(loud=False) if rng.random() < 0.5 else ['setcfg maxit 4']
        for _ in range(3):
            env = {'heap': rng.randrange(1, 1 << 30)}
            if rng.random() < 0.7:
                env['policy'] = rng.randrange(4)
            if rng.random() < 0.5:
                env['gap'] = rng.choice([0, 8, 16, 48, 4096])
            if rng.random() < 0.5:
                env['down'] = 1
            if rng.random() < 0.7:
                env['stack'] = rng.randrange(1, 1 << 30)
            if rng.random() < 0.5:
                env.update(surroundings(rng))
            p = []
            for o in ops:
                if rng.random() < 0.25:
                    p.append(rng.choice(['errno %d' % rng.choice([33, 34, 2, 12, 84]), 'fpflags', 'srand %d' % rng.randrange(1000)]))
                p.append(o)
            c = {'variant': rng.choice('AB'), 'budget': BUDGET, 'env': env, 'progs': {'0': p, '4': pre}}
            if rng.random() < 0.5:
                c['main'] = True
            else:
                c['threads'] = 1
            yield c

    EXTRA = ('errno', 'fpflags', 'srand')

    def judge(self, c, run):
        a = run.ref(solo(dict(c, progs={'0': strip_ops(c['progs'].get('0') or [], self.EXTRA), '4': c['progs'].get('4') or []}), 0))
        if a.fatal:
            return []
        r = run.plan(c)
        x, y = a.outcomes(0), r.outcomes(0)
        j = 0
        for i, o in enumerate(c['progs'].get('0') or []):
            if o.split(' ')[0] in self.EXTRA:
                continue
            if i not in y:
                if r.fatal:
                    return [('differs', '%s\n    benign: %s\n    here: %s' % (o, x[j].text, r.fatal))]
                break
            run.outcomes[y[i].text.split(' ')[0]] += 1
            if x[j].text != y[i].text:
                return [('differs', '%s\n    benign: %s\n    here:   %s' % (o, x[j].text, y[i].text))]
            j += 1
        run.fired['environment'] += 1
        return []


HOST = ['new', 'term', 'sig', 'mask', 'umask', 'down', 'zero', 'daz', 'env', 'fill', 'tie', 'unit', 'badout', 'eof']


class C17(Check):
    id = 'C17'
    counts = {'quick': 24000, 'thorough': 120000}
    rule = ('one seed makes a program of calls, host state set up by the caller (locale, stream formats, rounding mode, random sequence, handlers, '
            'signals, environment), and faults that end calls early; the fingerprint of process-wide state before and after each call (with several threads: '
            'before and after all of them) must agree')

    def cases(self, rng, run, tier):
        g = G(rng)
        pre = (g.settings() if rng.random() < 0.6 else ['setcfg maxit 4'])
        host = []
        if rng.random() < 0.4:
            host.append(switch_locale(rng))
        if rng.random() < 0.4:
            host.append('coutfmt %d %d' % (rng.choice([2, 64 | 2, 256 | 4, 4 | 2048, 1 | 512]), rng.choice([0, 3, 12, 17])))
        if rng.random() < 0.3:
            host.append('srand %d' % rng.randrange(99))
        for k in HOST:
            if rng.random() < 0.25:
                host.append('host ' + k)
        if rng.random() < 0.3:
            host += noisy_output(rng)
        if rng.random() < 0.8:
            ops = g.program(rng.randint(3, 12))
            if rng.random() < 0.02:
                ops += large_ops(rng)
            if rng.random() < 0.3:
                ops += callback_ops(rng)
            for o in ('findalpha', 'armijo'):
                if rng.random() < 0.1:
                    ops += ['vec v4 ' + hexd(1.0), 'vec v5 ' + hexd(1.0), o + ' v4 v5 ' + (hexd(1e-5) + ' ' if o[0] == 'f' else '') + 'kind=%d' % rng.randrange(9)]
            for j in range(3):
                c = {'variant': rng.choice('AB'), 'main': True, 'budget': BUDGET, 'flags': ['snap'], 'progs': {'0': host + ops, '4': pre}}
                if j:
                    add_faults(rng, c, rng.randint(1, 3), run)
                yield c
        else:
            n = rng.choice([2, 2, 3])
            progs = {'4': pre + host}
            for t in range(n):
                progs[str(t)] = g.program(rng.randint(2, 6))
            for _ in range(2):
                yield {'variant': rng.choice('AB'), 'threads': n, 'budget': BUDGET, 'flags': ['snap'], 'progs': progs,
                       'sched': [rng.randrange(1, 1 << 40), rng.choice([4, 15, 60, 300]), 0]}

    def judge(self, c, run):
        r = run.plan(c)
        for o in r.ops:
            run.outcomes[o.text.split(' ')[0]] += 1
        out = []
        for k, t, op, text in r.viol:
            if k == 'state':
                p = c['progs'].get(str(t)) or []
                out.append(('state', '%s: %s' % (p[op] if 0 <= op < len(p) else 'run', text)))
        return out
