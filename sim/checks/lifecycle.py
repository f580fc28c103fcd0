"""C21: calls made while the process starts up or ends. Static initialisation order and destruction are behind a seam."""
import copy
from .common import *
from .threads import GAPS


class C21(Check):
    id = 'C21'
    counts = {'quick': 20000, 'thorough': 100000}
    technique = ('deterministic simulation: the initialisers and destructors of static and thread-local objects run when and in the order '
                 'the seed says, between the calls and concurrently with them')
    rule = ('one seed makes a program of 3-14 calls and decides where in it the library\'s own static objects are initialised (all at once or '
            'some at a time, in any order), where the thread-local and the static objects are destroyed, and in a third of the cases which '
            'other threads are inside a call meanwhile; each call is compared with the same call in the middle of the life of a process')
    assumptions = ['The standard streams are usable (the host includes <iostream>), as the C++ standard arranges for static objects.']

    def cases(self, rng, run, tier):
        g = G(rng)
        cats = rng.choice([None, None, ['parse', 'show', 'eval'], ['parse', 'name', 'err', 'build'], ['solve'], ['parse', 'diff', 'simp'],
                           ['mat', 'vec', 'lin', 'show'], ['sym', 'tab', 'subs', 'parse'], ['show', 'copy', 'build']])
        pre = g.settings(loud=True) if rng.random() < 0.5 else ['setcfg maxit 4']
        env = {'heap': rng.randrange(1, 1 << 30), 'policy': rng.randrange(4)} if rng.random() < 0.6 else None
        if rng.random() < 0.33:
            n = rng.choice([2, 2, 3])
            progs = {'4': pre}
            for t in range(n):
                progs[str(t)] = g.program(rng.randint(1, 5), cats)
            e = rng.randrange(n)
            p = progs[str(e)]
            p.insert(rng.randint(0, len(p)), 'life exit')
            for t in range(n):
                if rng.random() < 0.4:
                    p = progs[str(t)]
                    p.insert(rng.randint(0, len(p)), 'life tls')
            for _ in range(3):
                c = {'variant': 'A', 'threads': n, 'progs': progs, 'budget': BUDGET, 'flags': ['life'],
                     'sched': [rng.randrange(1, 1 << 40), rng.choice(GAPS), rng.randrange(n)]}
                if env:
                    c['env'] = env
                yield c
            return
        ops = pre + g.program(rng.randint(3, 12), cats)
        base = {'variant': 'A', 'main': True, 'budget': BUDGET}
        if env:
            base['env'] = env
        for _ in range(3):
            p = list(ops)
            kind = rng.choice(['start', 'start', 'end', 'end', 'both', 'both', 'tls'])
            n = len(p)
            start = end = None
            if kind in ('start', 'both'):
                start = rng.randint(1, n)
            if kind in ('end', 'both', 'tls'):
                end = rng.randint(start or 0, n)
            marks = []
            if start is None:
                marks.append((0, 'life init 0 -1'))
            elif rng.random() < 0.5:
                marks.append((start, 'life init %d -1' % rng.randrange(1, 1 << 30)))
            else:
                s = rng.randrange(1, 1 << 30)
                marks.append((rng.randint(0, start), 'life init %d %d' % (s, rng.randint(1, 5))))
                marks.append((start, 'life init %d -1' % s))
            if end is not None:
                if kind == 'tls' or rng.random() < 0.3:
                    marks.append((rng.randint(start or 0, end), 'life tls'))
                if kind != 'tls':
                    marks.append((end, 'life exit'))
            for at, m in sorted(marks, key=lambda x: -x[0]):
                p.insert(at, m)
            yield dict(base, progs={'0': p}, flags=['late'])

    def nontrivial(self, c):
        return True

    def refs(self, c, run, t):
        """the same calls in the middle of a process's life"""
        d = solo(c, t)
        d['progs'] = {k: ['life none' if o.startswith('life ') else o for o in v] for k, v in d['progs'].items()}
        return run.ref(d)

    def judge(self, c, run):
        want = []
        threads = [0] if c.get('main') else range(c['threads'])
        for t in threads:
            a = self.refs(c, run, t)
            if a.fatal:
                run.outcomes['alone-fatal'] += 1
                return []
            want.append(a.outcomes(0))
        r = run.plan(c)
        out = []
        for k, t, op, text in r.viol:
            if k in MEMORY or k == 'race':
                p = c['progs'].get(str(t)) or []
                out.append((k, 'thread %d, %s: %s' % (t, p[op] if 0 <= op < len(p) else 'destruction', text)))
        if r.fatal:
            p = c['progs'].get(str(r.fatal[1])) or []
            i = r.fatal[2]
            out.append(('died', '%s in thread %d, %s' % (r.fatal[0], r.fatal[1], p[i] if 0 <= i < len(p) else i)))
            return out
        for t in threads:
            got = r.outcomes(t)
            for i, op in enumerate(c['progs'].get(str(t)) or ()):
                if op.startswith('life '):
                    continue
                if i not in got:
                    out.append(('missing', 'thread %d operation %d has no outcome' % (t, i)))
                    continue
                run.outcomes[got[i].text.split(' ')[0]] += 1
                if got[i].text != want[t][i].text:
                    out.append(('differs', 'thread %d, %s\n    otherwise: %s\n    here:      %s' % (t, op, want[t][i].text, got[i].text)))
        return out
