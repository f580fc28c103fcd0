"""C15: caller-supplied functions of the line searches."""
import copy, re
from .common import *
from .solving import system, system_ops
from .state import noisy_output

WHAT = ['user 77', 'std std::runtime_error from%20the%20callback', 'math', 'int 42', 'bad_alloc', 'std std::out_of_range']
NOTE = re.compile(r'^(.*) f=(\d+) df=(\d+) after=(\d+)(?: nested=\{(.*)\})?$', re.S)


def split_note(t):
    m = NOTE.match(t)
    if not m:
        return t, None
    return m.group(1), (int(m.group(2)), int(m.group(3)), int(m.group(4)), m.group(5))


class C15(Check):
    id = 'C15'
    counts = {'quick': 24000, 'thorough': 120000}
    technique = 'deterministic simulation: exceptions injected at every invocation of the callback, re-entrant use at every invocation'
    rule = ('one seed makes a line search and lets its function throw at each invocation (all up to a bound) one of several kinds of exception, or use the '
            'library at an invocation: any other call, a solve, another search which may throw too. The exception must arrive unchanged with no '
            'further invocation, live memory must not grow over repetitions, and both the outer and the nested call must give what they give apart')

    def search(self, rng):
        n = rng.randint(1, 3)
        vals = lambda: ','.join(hexd(rng.choice([0.5, 1.0, 2.0, -1.0, 3.0, 0.0, 1e-3, -0.25])) for _ in range(n))
        op = 'armijo v4 v5' if rng.random() < 0.5 else 'findalpha v4 v5 ' + hexd(rng.choice([1e-5, 1e-2, 0.0]))
        return ['vec v4 ' + vals(), 'vec v5 ' + vals()], op + ' kind=%d' % rng.choice([0, 0, 1, 2, 2, 3, 4, 5, 6, 7, 8])

    def cases(self, rng, run, tier):
        g = G(rng)
        ops, op = self.search(rng)
        pre = g.settings() + (noisy_output(rng) if rng.random() < 0.3 else [])
        pre = [o for o in pre if not o.startswith('cout') or o.endswith(' 0')]   # output is not asked to throw
        base = {'variant': rng.choice('AB'), 'main': True, 'budget': BUDGET}
        plain = dict(base, progs={'0': ops + [op], '4': pre})
        a = run.ref(plain)
        if a.fatal:
            return
        _, note = split_note(a.outcomes(0)[2].text)
        if note is None:
            return
        if rng.random() < 0.55:
            lim = 5 if tier == 'quick' else 30
            for name, n in (('fthrow', note[0]), ('dfthrow', note[1])):
                ks = range(1, n + 1) if n <= lim else [1, 2, n] + [rng.randint(1, n) for _ in range(lim - 3)]
                for k in ks:
                    d = '%s %s=%d what=%d' % (op, name, k, rng.randrange(6))
                    yield dict(plain, progs={'0': ops + [d, op], '4': pre}, repeat=5, x={'mode': 'throw', 'k': [name, k]})
            return
        for _ in range(3):
            k = rng.randint(1, min(6, max(1, note[0] + note[1])))
            inner = rng.random()
            setup = []
            if inner < 0.3:
                s2, nest = self.search(rng)
                s2 = [o.replace('v4', 'v2').replace('v5', 'v3') for o in s2]
                nest = nest.replace('v4', 'v2').replace('v5', 'v3')
                if rng.random() < 0.4:
                    nest += ' %s=%d what=%d' % (rng.choice(['fthrow', 'dfthrow']), rng.randint(1, 3), rng.randrange(6))
                setup = s2
            elif inner < 0.6:
                s2 = system_ops(rng, *system(rng))
                setup, nest = s2[:-1], s2[-1]
            elif inner < 0.7:
                setup, nest = ['mat m0 2 2 ' + ','.join(map(hexd, [2, 1, 1, 3])), 'vec v0 %s,%s' % (hexd(1), hexd(2))], 'lin v1 m0 v0'
            else:
                s2 = g.program(rng.randint(1, 4), ['parse', 'diff', 'simp', 'subs', 'eval', 'show', 'build', 'name', 'sym', 'err'])
                s2 = [o for o in s2 if not re.search(r'\bv[45]\b', o)]
                if not s2:
                    continue
                setup, nest = s2[:-1], s2[-1]
            d = '%s nestat=%d nest=%s' % (op, k, qa(nest))
            yield dict(base, progs={'0': ops + setup + [d, nest], '4': pre}, repeat=1, x={'mode': 'nest', 'outer': op, 'nest': nest})
            if rng.random() < 0.3:
                d2 = d + ' fthrow=%d what=%d' % (k + rng.randrange(2), rng.randrange(6))
                yield dict(base, progs={'0': ops + setup + [d2, op], '4': pre}, repeat=5, x={'mode': 'leak'})

    def judge(self, c, run):
        r = run.plan(c)
        ops = c['progs'].get('0') or []
        x = c['x']
        if r.fatal:
            if r.fatal[0] == 'budget':
                return []
            return [('died', '%s: %s' % (ops[r.fatal[2]] if r.fatal[2] < len(ops) else 'destruction', r.fatal))]
        out = []
        got = r.outcomes(0)
        for i, o in enumerate(ops):
            if o.startswith(('armijo', 'findalpha')) and i in got:
                t, note = split_note(got[i].text)
                run.outcomes[t.split(' ')[0]] += 1
                w = dict(v.split('=', 1) for v in o.split(' ') if '=' in v)
                if note is None:
                    continue
                for name, n in (('fthrow', note[0]), ('dfthrow', note[1])):
                    k = int(w.get(name, 0))
                    if k and n >= k:
                        run.fired['callback-threw'] += 1
                        want = WHAT[int(w.get('what', 0))]
                        ok = {'math': t.startswith('math ') and 'from the callback' in t,
                              'bad_alloc': t == 'bad_alloc'}.get(want, t.startswith(want.split(' from')[0]) and ('from' not in want or 'from the callback' in t))
                        if not ok:
                            out.append(('exception-changed', '%s: %s' % (o, got[i].text)))
                        if note[2] or n != k:
                            out.append(('called-again', '%s: %s' % (o, got[i].text)))
                if 'nestat' in w and note[3] is not None and note[3] != '':
                    run.fired['re-entered'] += 1
        if x['mode'] == 'throw':
            # the same search afterwards, and the search alone
            i = len(ops) - 1
            a = run.ref(dict(c, progs={'0': ops[:2] + ops[-1:], '4': c['progs'].get('4') or []}, repeat=1))
            if not a.fatal and i in got and 2 in a.outcomes(0) and len(ops) >= 3 and got[i].text != a.outcomes(0)[2].text:
                out.append(('later-differs', '%s\n    alone: %s\n    after: %s' % (ops[i], a.outcomes(0)[2].text, got[i].text)))
        if x['mode'] == 'nest' and len(ops) >= 2 and 'nestat' in ops[-2] and ops[-1] == x['nest']:
            d = dict(c, progs={'0': ops[:-2] + [x['outer']], '4': c['progs'].get('4') or []})
            e = dict(c, progs={'0': ops[:-2] + [x['nest']], '4': c['progs'].get('4') or []})
            a, b = run.ref(d), run.ref(e)
            i = len(ops) - 2
            if not a.fatal and not b.fatal and i in got and i in a.outcomes(0) and i in b.outcomes(0):
                u, nu = split_note(a.outcomes(0)[i].text)
                v, nv = split_note(got[i].text)
                if u != v or (nu and nv and nu[:3] != nv[:3]):
                    out.append(('outer-changed', '%s\n    without: %s\n    with:    %s' % (ops[i], a.outcomes(0)[i].text, got[i].text)))
                if nv and nv[3]:
                    if nv[3] != b.outcomes(0)[i].text:
                        out.append(('nested-differs', '%s\n    alone:  %s\n    nested: %s' % (x['nest'], b.outcomes(0)[i].text, nv[3])))
        if len(r.leaks) >= 5:
            for f, what in ((1, 'blocks'), (2, 'bytes')):
                b = [y[f] for y in r.leaks]
                if all(b[i] < b[i + 1] for i in range(1, len(b) - 1)):
                    out.append(('leak', 'live %s after each repetition: %s' % (what, b)))
                    break
        for k, t, op, text in r.viol:
            if k in MEMORY:
                out.append((k, '%s: %s' % (ops[op] if 0 <= op < len(ops) else 'destruction', text)))
        return out
