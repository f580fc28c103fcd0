"""C01, C02: several caller threads under a seeded scheduler."""
from .common import *

GAPS = [2, 4, 8, 15, 30, 60, 120, 300, 1000]
READCATS = ['show', 'eval', 'diff', 'subs', 'copy', 'mat', 'vec', 'lin', 'sym', 'tab', 'solve', 'line', 'err', 'name', 'parse', 'build']


class ThreadCheck(Check):
    technique = 'deterministic simulation: seeded thread scheduling at every memory access'
    rule = ('one seed makes 2-4 thread programs of 1-8 library calls on private and shared objects, settings, and an environment; '
            'each is run under several seeded schedules in a pristine process. Non-trivial: at least one switch inside a call')
    chunk = 2

    def cases(self, rng, run, tier):
        g = G(rng)
        n = rng.choice([2, 2, 2, 3, 3, 4])
        progs = {}
        pre = []
        if rng.random() < 0.7:
            pre = g.settings(loud=True)
        shared = None
        if rng.random() < 0.6:
            ops, shared = shared_objects(g, rng.randint(2, 7))
            pre = pre + ops
        if pre:
            progs['4'] = pre
        cats = rng.choice([None, None, ['parse', 'show', 'eval'], ['parse', 'name', 'err', 'build'], ['solve'], ['parse', 'diff', 'simp'],
                           ['mat', 'vec', 'lin', 'line'], ['sym', 'tab', 'subs', 'parse'], READCATS, ['parse', 'subs', 'eval', 'copy']])
        if not pre:
            cats = [x for x in (cats or g.ALL) if x != 'solve'] or ['parse', 'eval', 'diff']
        same = rng.random() < 0.4
        length = rng.choice([1, 2, 3, 4, 6, 8])
        if same:
            p = g.program(length, cats, shared)
            for t in range(n):
                progs[str(t)] = list(p)
        else:
            for t in range(n):
                progs[str(t)] = g.program(length, cats, shared)
        if g.r.random() < 0.015:
            for t in range(n):
                if rng.random() < 0.7:
                    progs[str(t)] = progs[str(t)] + large_ops(rng, 270)
        if g.r.random() < 0.3:
            # readers: a small pool of operations that read the same few objects
            ops, shared = few_shared(g)
            pool = g.reads(shared, rng.randint(1, 4))
            if pool:
                progs['4'] = g.settings(loud=True) * (rng.random() < 0.4) + ops
                for t in range(n):
                    progs[str(t)] = [rng.choice(pool) for _ in range(rng.randint(1, 5))]
        if shared:
            progs['5'] = ['fpall']
        base = {'variant': rng.choice('AB'), 'threads': n, 'progs': progs, 'budget': BUDGET}
        if rng.random() < 0.5:
            base['env'] = {'heap': rng.randrange(1, 1 << 30), 'policy': rng.randrange(4)}
        if rng.random() < 0.15:
            base.setdefault('env', {}).update(surroundings(rng))
        for _ in range(6 if tier == 'quick' else 14):
            c = dict(base)
            gap = rng.choice(GAPS)
            k = rng.random()
            w = []
            if k < 0.2:
                w = [1, 1, 1, 1, 1, 1, 1]
            elif k < 0.35:
                w = [0, 0, 1, 60, 60, 1, 1]
            c['sched'] = [rng.randrange(1, 1 << 40), gap, rng.randrange(n)] + w
            c['x'] = {}
            if rng.random() < 0.2:
                t = rng.randrange(n)
                if progs[str(t)]:
                    c['faults'] = [[t, rng.randrange(len(progs[str(t)])), 'alloc', rng.randint(1, 12), rng.choice(['once', 'persist'])]]
            yield c

    def refs(self, c, run):
        out = []
        for t in range(c['threads']):
            r = run.ref(solo(c, t))
            if r.fatal:
                return None
            out.append(r.outcomes(0))
        return out

    def nontrivial(self, c):
        return True


class C01(ThreadCheck):
    id = 'C01'
    counts = {'quick': 6000, 'thorough': 24000}

    def judge(self, c, run):
        refs = self.refs(c, run)
        if refs is None:
            run.outcomes['alone-fatal'] += 1
            return []
        r = run.plan(c)
        faulted = {f[0]: f[1] for f in c.get('faults', ())}
        if r.fatal:
            if r.firedA and terminates(r.fatal[0]):
                run.outcomes['terminated-for-lack-of-memory'] += 1
                return []
            return [('died', '%s in thread %d operation %d %s' % r.fatal)]
        out = []
        for t in range(c['threads']):
            got = r.outcomes(t)
            for i, op in enumerate(c['progs'][str(t)]):
                if t in faulted and i >= faulted[t]:
                    if i == faulted[t] or r.firedA:
                        break
                if i not in got:
                    out.append(('missing', 'thread %d operation %d has no outcome' % (t, i)))
                    continue
                run.outcomes[got[i].text.split(' ')[0]] += 1
                if got[i].text != refs[t][i].text:
                    out.append(('differs', 'thread %d, %s\n    alone:      %s\n    concurrent: %s' % (
                        t, op, refs[t][i].text, got[i].text)))
        if c['progs'].get('5'):
            a = run.ref(solo(c, 9, keep_post=True))
            if not a.fatal:
                x, y = a.outcomes(5), r.outcomes(5)
                if 0 in x and 0 in y and x[0].text != y[0].text:
                    out.append(('shared-changed', 'shared objects\n    before: %s\n    after:  %s' % (x[0].text, y[0].text)))
        return out


class C02(ThreadCheck):
    id = 'C02'
    counts = {'quick': 6000, 'thorough': 24000}
    technique = 'deterministic simulation: seeded thread scheduling, happens-before race detection by vector clocks'

    def judge(self, c, run):
        r = run.plan(c)
        out = []
        for k, t, op, text in r.viol:
            if k == 'race':
                p = c['progs'].get(str(t)) or []
                out.append(('race', 'thread %d, %s: %s' % (t, p[op] if 0 <= op < len(p) else 'destruction', text)))
        if r.fatal and r.fatal[0] == 'deadlock':
            out.append(('deadlock', str(r.fatal)))
        run.outcomes['racy' if out else 'clean'] += 1
        return out
