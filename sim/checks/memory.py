"""C05, C06: lack of memory, conservation of memory."""
import copy
from .common import *
from .state import add_faults, noisy_output, callback_ops, random_setting

SKIP = ('setcfg', 'resetcfg', 'getcfg', 'cout', 'couttext', 'stream', 'setloc', 'drop', 'dropall', 'fpall', 'errno', 'srand', 'fpflags', 'coutfmt')


def rich_ops(g):
    """a long expression and a call on it"""
    r = g.r
    x = q(r.choice(g.names + ['x', 'x']))
    return ['parse n0 ' + q(g.rich())] + r.choice([
        ['diff n1 n0 %s 1 c' % x], ['diff n1 n0 %s 1 c' % x], ['diff n1 n0 %s 1 m' % x], ['simp n0'], ['clone n1 n0'], ['str n0'], ['vpa n0'],
        ['vars n0'], ['subs n1 n0 c vals ' + g.values(g.names[:2])], ['diff n1 n0 %s 1 c' % x, 'simp n1'], ['diff n1 n0 %s 2 c' % x]])


def vary(rng, ops):
    """digits of arguments become the number of the repetition"""
    out = []
    for o in ops:
        w = o.split(' ')
        if w[0] in ('parse', 'parsev', 'parsez', 'lit', 'var', 'legal', 'num', 'tostr', 'vec', 'mat', 'tab', 'subs', 'name') and len(w) > 1:
            k = [i for i, ch in enumerate(w[-1]) if ch in '12345' and not (i and w[-1][i - 1] in '%=')]
            for i in rng.sample(k, min(len(k), rng.randint(1, 3))):
                w[-1] = w[-1][:i] + '~' + w[-1][i + 1:]
            if w[0] in ('parse', 'lit', 'var', 'legal') and not k:
                w[-1] += '~'
        out.append(' '.join(w))
    return out


class C05(Check):
    id = 'C05'
    level = 'fault_enumeration'
    technique = 'deterministic simulation: every allocation of sampled calls made to fail, once and from then on'
    counts = {'quick': 15000, 'thorough': 120000}
    rule = ('one seed makes a program of calls; for sampled calls each of its allocations (all of them up to a bound, sampled beyond) fails '
            'once or from then on, and the call must give its normal outcome, std::bad_alloc or std::terminate; then all objects are '
            'destroyed while every allocation fails. Non-trivial: the failing allocation was reached')

    def cases(self, rng, run, tier):
        g = G(rng)
        cats = rng.choice([None, None, ['parse', 'show'], ['parse', 'diff', 'simp', 'eval'], ['sym', 'parse', 'solve'], ['mat', 'vec', 'lin', 'line'],
                           ['tab', 'subs', 'parse', 'name', 'err'], ['show', 'parse', 'mat', 'sym', 'tab']])
        ops = g.program(rng.randint(2, 9), cats) if rng.random() < 0.85 else rich_ops(g)
        pre = (g.settings(loud=True) if rng.random() < 0.6 else ['setcfg maxit 3'])
        base = {'variant': rng.choice('AB'), 'main': True, 'budget': BUDGET, 'progs': {'0': ops, '4': pre}}
        a = run.ref(base)
        if a.fatal:
            return
        got = a.outcomes(0)
        sites = run.alloc_sites(base)
        ok = [i for i in got if got[i].allocs and ops[i].split(' ')[0] not in SKIP]
        rng.shuffle(ok)
        for i in ok[:3 if tier == 'quick' else 6]:
            n = got[i].allocs
            lim = 10 if tier == 'quick' else 60
            for k in run.pick_allocs(rng, sites.get((0, i), ()), n, lim):
                c = dict(base)
                c['faults'] = [[0, i, 'alloc', k, 'persist' if rng.random() < 0.3 else 'once']]
                yield c
        yield dict(base, flags=['dropfail'])
        if rng.random() < 0.1:
            n = rng.choice([300, 3000])
            kind = rng.choice(['paren', 'sum', 'pow', 'neg', 'fun', 'nest', 'div'])
            big = ['parsebig n0 %s %d' % (kind, n), 'parsebig n1 sum %d' % n]
            yield dict(base, progs={'0': big, '4': pre}, flags=['dropfail'])

    def judge(self, c, run):
        r = run.plan(c)
        ops = c['progs'].get('0') or []
        if not c.get('faults'):
            if r.fatal and (r.fatal[1], r.fatal[2]) == (0, 100000):
                return [('destruction', 'destroying objects without memory: %s' % (r.fatal,))]
            run.outcomes['destroyed'] += 1
            return []
        a = run.ref(dict(c, faults=[]))
        if a.fatal:
            return []
        f = c['faults'][0]
        x, y = a.outcomes(0), r.outcomes(0)
        if f[1] >= len(ops) or f[1] not in x:
            return []
        if r.fatal:
            if r.firedA and r.fatal[2] == f[1] and terminates(r.fatal[0]):
                if r.fatal[0].startswith('terminate') and 'bad_alloc' not in r.fatal[0]:
                    # the process is stopped all the same; what was being thrown does not matter
                    pass
                run.outcomes['terminated'] += 1
                return []
            if not r.firedA:
                return []
            return [('died', '%s, allocation %d %s: %s' % (ops[f[1]], f[3], f[4], r.fatal))]
        if not r.firedA:
            run.outcomes['not-reached'] += 1
            return []
        t, u = y[f[1]].text, x[f[1]].text
        if t == 'bad_alloc' or t.startswith('bad_alloc f='):
            run.outcomes['bad_alloc'] += 1
            return []
        if t != u:
            return [('wrong-result', '%s, allocation %d of %d fails %s\n    normal: %s\n    now:    %s' % (
                ops[f[1]], f[3], x[f[1]].allocs, f[4], u, t))]
        run.outcomes['normal'] += 1
        for i in range(f[1] + 1, len(ops)):
            if i in y and x[i].text != y[i].text:
                return [('wrong-value-kept', '%s succeeded without allocation %d; then %s\n    normal: %s\n    now:    %s' % (
                    ops[f[1]], f[3], ops[i], x[i].text, y[i].text))]
        return []


class C06(Check):
    id = 'C06'
    counts = {'quick': 12000, 'thorough': 120000}
    technique = 'deterministic simulation: simulated heap with bounds, lifetime and conservation checks under injected faults'
    rule = ('one seed makes a program of calls with faults (allocation, invalid number, throwing callback, failing output, errors in the '
            'input) and heap behaviour; it is repeated in one process. No access outside live blocks, no bad release, and the number of '
            'live blocks with all objects destroyed does not keep growing')

    def cases(self, rng, run, tier):
        g = G(rng)
        cats = rng.choice([None, None, None, ['parse', 'show', 'name', 'err'], ['parse', 'build', 'copy', 'diff', 'simp', 'subs'],
                           ['mat', 'vec', 'lin', 'line', 'solve'], ['sym', 'tab', 'parse', 'subs', 'solve']])
        ops = g.program(rng.randint(2, 9), cats)
        if rng.random() < 0.02:
            ops += large_ops(rng)
        if rng.random() < 0.2:
            ops += callback_ops(rng)
        if rng.random() < 0.2:
            ops = noisy_output(rng) + ops
        pre = (g.settings(loud=True) if rng.random() < 0.6 else ['setcfg maxit 3'])
        base = {'variant': rng.choice('AB'), 'main': True, 'budget': BUDGET, 'progs': {'0': ops, '4': pre}, 'repeat': 6}
        env = {'policy': rng.randrange(4), 'heap': rng.randrange(1 << 30)}
        if rng.random() < 0.7:
            base['env'] = env
        if rng.random() < 0.25:
            yield from self.sweep(rng, run, g, dict(base), tier)
            return
        yield base
        if rng.random() < 0.3:
            yield dict(base, progs=dict(base['progs'], **{'0': vary(rng, ops)}), flags=['vary'])
        for _ in range(4):
            c = copy.deepcopy(base)
            add_faults(rng, c, rng.choice([1, 1, 1, 2, 3]), run)
            yield c
        if rng.random() < 0.3:
            n = rng.choice([2, 3])
            progs = {'4': pre}
            for t in range(n):
                progs[str(t)] = g.program(rng.randint(1, 5), cats)
            yield {'variant': rng.choice('AB'), 'threads': n, 'budget': BUDGET, 'progs': progs, 'env': env,
                   'sched': [rng.randrange(1, 1 << 40), rng.choice([4, 15, 60, 300]), 0]}

    def sweep(self, rng, run, g, base, tier):
        """every allocation (or evaluation) of one call fails in turn"""
        if rng.random() < 0.6:
            ops = rich_ops(g)
        else:
            st = State()
            ops = g.program(rng.randint(0, 3), None, slots=st) + g.program(1, None, slots=st)
        base['progs'] = dict(base['progs'], **{'0': ops})
        d = {k: v for k, v in base.items() if k != 'repeat'}
        got = run.ref(d).outcomes(0)
        yield base
        i = max(got, default=-1)
        if i < 0:
            return
        for kind, n in (('alloc', got[i].allocs), ('math', got[i].maths)):
            lim = (30 if kind == 'alloc' else 4) * (1 if tier == 'quick' else 5)
            for k in run.pick_allocs(rng, run.alloc_sites(base).get((0, i), ()) if kind == 'alloc' else (), n, lim):
                yield dict(base, faults=[[0, i, kind, k, 'once']])

    def judge(self, c, run):
        r = run.plan(c)
        out = []
        for o in r.ops:
            run.outcomes[o.text.split(' ')[0]] += 1
        def where(t, op):
            p = c['progs'].get(str(t)) or []
            return p[op] if 0 <= op < len(p) else 'destruction'
        for k, t, op, text in r.viol:
            if k in MEMORY:
                out.append((k, '%s: %s' % (where(t, op), text)))
        if r.fatal and r.fatal[0] in ('segv', 'bus'):
            out.append(('segv', '%s: %s' % (where(r.fatal[1], r.fatal[2]), r.fatal)))
        if not r.fatal and len(r.leaks) >= 6:
            for f, what in ((1, 'blocks'), (2, 'bytes')):
                b = [x[f] for x in r.leaks]
                if all(b[i] < b[i + 1] for i in range(1, len(b) - 1)):
                    out.append(('leak', 'live %s after each repetition: %s' % (what, b)))
                    break
        return out
