"""C08, C09, C10: solving, errors, work."""
import math, re
from .common import *
from .state import add_faults, noisy_output, callback_ops
from .. import formula as F
from ..gen import SYSTEMS, NAMES

EPS = [1e-12, 1e-9, 1e-9, 1e-6, 1e-3, 0.1]
LINFUNS = ('sin', 'cos', 'exp', 'sqrt', 'log', 'arctan')


def system(rng):
    """equations (texts), unknowns, starting values"""
    k = rng.random()
    if k < 0.55:
        eqs, vs, x0 = rng.choice(SYSTEMS)
        x0 = [x if rng.random() < 0.5 else round(x + rng.uniform(-1, 1), 3) for x in x0]
        eqs = list(eqs)
        if rng.random() < 0.2:
            i = rng.randrange(len(eqs))
            eqs[i] = '%s*(%s)' % (rng.choice(['2', '0.001', '1000']), eqs[i])
        return eqs, list(vs), x0
    if k < 0.75:  # linear
        n = rng.randint(1, 4)
        m = n if rng.random() < 0.7 else rng.randint(1, 4)
        vs = NAMES[:m]
        eqs = []
        for _ in range(n):
            c = [rng.choice([0, 1, 1, 2, 3, 0.5, 10]) for _ in vs]
            t = [('*', float(a), v) for a, v in zip(c, vs) if a] or [vs[0]]
            e = t[0]
            for x in t[1:]:
                e = (rng.choice('+-'), e, x)
            eqs.append(F.text(('-', e, float(rng.choice([0, 1, 2, 5, 0.25])))))
        return eqs, vs, [rng.choice([0.0, 1.0, -1.0, 3.0]) for _ in vs]
    n = rng.choice([1, 1, 2, 2, 3])
    m = n if rng.random() < 0.85 else rng.randint(1, 3)
    vs = rng.sample(NAMES[:5], m)
    root = {v: rng.choice([0.5, 1.0, 2.0, 0.25, 1.5]) for v in vs}
    eqs = []
    for _ in range(n):
        for _ in range(8):
            a = F.generate(rng, vs, rng.randint(1, 3), funs=LINFUNS)
            if F.names(a):
                break
        try:
            v, _ = F.evaluate(a, root)
            if abs(v) < 1e6:
                a = ('-', a, v) if v >= 0 else ('+', a, -v)
        except F.Invalid:
            pass
        eqs.append(F.text(a))
    return eqs, vs, [root[v] + rng.choice([0.0, 0.01, 0.1, -0.2, 1.0]) for v in vs]


def system_ops(rng, eqs, vs, x0, slot=20, methods=('nr', 'nr', 'lm', 'cfg')):
    ops = ['parse n%d %s' % (slot + i, q(e)) for i, e in enumerate(eqs)]
    ops.append('symvec q7 ' + ','.join('n%d' % (slot + i) for i in range(len(eqs))))
    if rng.random() < 0.2:
        ops.append('solve1 t7 q7')
        return ops
    names = list(zip(vs, x0))
    if rng.random() < 0.1:
        names.append(('extra', 1.0))
    rng.shuffle(names)
    if rng.random() < 0.4:
        ops += ['tabinit t6 %s %s' % (','.join(qa(v) for v, x in names), hexd(names[0][1])), 'vec v7 ' + ','.join(hexd(x) for v, x in names), 'tabset t6 v7']
    else:
        ops.append('tab t6 ' + ','.join('%s=%s' % (qa(v), hexd(x)) for v, x in names))
    ops.append('solve t7 %s q7 t6' % rng.choice(methods))
    return ops


def table(text):
    """{name: value} of an outcome 'ok Tn:...'; None if its views disagree"""
    body = text[text.index(':') + 1:]
    a, b = body.split('/')
    f = lambda s: [x.split('=') for x in s.split(',') if x]
    x, y = f(a), f(b)
    if sorted(x) != sorted(y) or len(x) != int(text[4:text.index(':')]):
        return None
    return {n: unhexd(v) for n, v in x}


def tables_of(ops):
    """for each solve operation: equations as texts, names of the unknowns (None: all names)"""
    n, qq, t = {}, {}, {}
    out = {}
    for i, o in enumerate(ops):
        w = o.split(' ')
        if w[0] == 'parse':
            n[w[1]] = w[2]
        elif w[0] == 'symvec':
            qq[w[1]] = [n.get(x) for x in w[2].split(',')]
        elif w[0] == 'tab':
            t[w[1]] = [x.split('=')[0] for x in w[2].split(',')]
        elif w[0] == 'tabinit':
            t[w[1]] = w[2].split(',')
        elif w[0] == 'solve':
            out[i] = (qq.get(w[3]), t.get(w[4]))
        elif w[0] == 'solve1':
            out[i] = (qq.get(w[2]), None)
    return out


class C08(Check):
    id = 'C08'
    counts = {'quick': 9000, 'thorough': 150000}
    cap = {'quick': 240, 'thorough': 3000}
    rule = ('one seed makes a system (from a corpus with singular, rectangular, contradictory and root-less ones, or generated around a known root), '
            'starting values, settings and a method; it is solved undisturbed and with invalid numbers and failing allocations at places of the '
            'solve, with failing output. A returned table is checked against the equations by an independent evaluator')

    def cases(self, rng, run, tier):
        eqs, vs, x0 = system(rng)
        eps = rng.choice(EPS)
        pre = ['setcfg maxit %d' % rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 20, 60])]
        if eps != 1e-9:
            pre.append('setcfg eps ' + hexd(eps))
        for f, v in (('inv', '0'), ('indet', '1'), ('method', '1'), ('init', hexd(rng.choice([0.0, 0.5, 2.0]))), ('log', rng.choice('01234567'))):
            if rng.random() < 0.4:
                pre.append('setcfg %s %s' % (f, v))
        ops = noisy_output(rng) if rng.random() < 0.4 else []
        ops = ops + system_ops(rng, eqs, vs, x0)
        if ops[-1].startswith('solve t7 lm') or 'setcfg method 1' in pre:
            pre[0] = 'setcfg maxit %d' % rng.choice([0, 1, 2, 4, 8, 8, 12] + [25] * (len(vs) == 1))
        base = {'variant': rng.choice('AB'), 'main': True, 'budget': BUDGET, 'progs': {'0': ops, '4': pre}}
        if rng.random() < 0.25:
            base['env'] = surroundings(rng)
        yield base
        for _ in range(3 if tier == 'quick' else 8):
            c = dict(base)
            self.hit(rng, c, run, len(ops) - 1)
            if c.get('faults'):
                yield c

    def hit(self, rng, c, run, i):
        """faults inside the solve"""
        got = run.ref({k: v for k, v in c.items() if k != 'faults'}).outcomes(0)
        if i not in got:
            return
        fs = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            kind = rng.choice(['math', 'math', 'alloc'])
            m = got[i].maths if kind == 'math' else got[i].allocs
            if not m:
                kind, m = 'alloc', got[i].allocs
            if m:
                # late places are as interesting as early ones
                k = rng.randint(1, m) if rng.random() < 0.5 else max(1, m - rng.randrange(12)) if rng.random() < 0.6 else min(m, rng.randint(1, 12))
                fs.append([0, i, kind, k, rng.choice(['once', 'once', 'persist'])])
        c['faults'] = fs

    def judge(self, c, run):
        r = run.plan(c)
        ops = c['progs'].get('0') or []
        pre = c['progs'].get('4') or []
        eps = 1e-9
        for o in pre:
            if o.startswith('setcfg eps'):
                eps = unhexd(o.split(' ')[2])
        if r.fatal:
            if r.firedA and terminates(r.fatal[0]):
                run.outcomes['terminated-for-lack-of-memory'] += 1
                return []
            if r.fatal[0] == 'budget':
                return []
            return [('died', '%s: %s' % (ops[r.fatal[2]] if r.fatal[2] < len(ops) else '?', r.fatal))]
        got = r.outcomes(0)
        out = []
        for i, (eqs, names) in tables_of(ops).items():
            if i not in got:
                continue
            t = got[i].text
            run.outcomes[' '.join(t.split(' ')[:2])[:9].split(':')[0]] += 1
            if not t.startswith('ok '):
                continue
            if not eqs or None in eqs:
                continue
            vals = table(t)
            asts = [F.parse(e) for e in eqs]
            want = set(names) if names is not None else set().union(*(F.names(a) for a in asts))
            if vals is None or set(vals) != want:
                out.append(('unknowns', '%s: %s\n    unknowns: %s' % (ops[i], t, sorted(want))))
                continue
            # (a value that no equation mentions is not constrained)
            used = set().union(*(F.names(a) for a in asts))
            if not all(math.isfinite(v) for k, v in vals.items() if k in used):
                out.append(('not-finite', '%s: %s' % (ops[i], vals)))
                continue
            for e, a in zip(eqs, asts):
                try:
                    v, err = F.evaluate(a, vals)
                except F.Invalid:
                    out.append(('not-a-solution', '%s is undefined at %s' % (e, vals)))
                    break
                except KeyError:
                    out.append(('unknowns', '%s at %s' % (e, vals)))
                    break
                if abs(v) > eps * (1 + 1e-6) + 8 * err + 1e-300:
                    out.append(('not-a-solution', '%s = %g at %s; tolerance %g' % (e, v, vals, eps)))
                    break
        return out


INVALID = 'math 0'  # ErrorType::ERROR_INVALID_NUMBER
NONFINITE = re.compile(r'(?<![A-Za-z0-9_])-?(nan|inf)(?![A-Za-z0-9_])')


def nonfinite(text):
    """the non-finite number in an outcome, or None"""
    if not text.startswith('ok '):
        return None
    b = text[3:]
    k = b[:2]
    if k == 'D:':
        return None if math.isfinite(unhexd(b[2:18])) else b
    if b[:1] == 'T' and '/' in b:
        v = table(text)
        return None if v is None or all(math.isfinite(x) for x in v.values()) else b
    if k in ('N:', 'X:') or b[:1] == 'S':
        m = NONFINITE.search(b)
        return m.group(0) if m else None
    return None


class C09(Check):
    id = 'C09'
    counts = {'quick': 36000, 'thorough': 120000}
    rule = ('one seed makes evaluations, simplifications, differentiations and solves whose intermediate numbers become invalid somewhere: by '
            'themselves (an independent evaluator says where) or because a fault makes a mathematical function give NaN; unsupported operators, '
            'undefined variables, dimension and rank errors placed at any depth; reporting on and off')

    def cases(self, rng, run, tier):
        inv = rng.random() < 0.7
        pre = ['setcfg maxit %d' % rng.choice([1, 3, 5, 5, 14])] + ([] if inv else ['setcfg inv 0'])
        if rng.random() < 0.3:
            pre.append('setcfg log %d' % rng.randrange(8))
        base = {'variant': rng.choice('AB'), 'main': True, 'budget': BUDGET}
        if rng.random() < 0.25:
            base['env'] = surroundings(rng)
        k = rng.random()
        if k < 0.45:
            ops = self.formulas(rng)
        elif k < 0.6:
            ops = self.errors(rng, pre)
        elif k < 0.8:
            eqs, vs, x0 = system(rng)
            ops = system_ops(rng, eqs, vs, x0, methods=('nr', 'lm'))
        else:
            ops = [o for o in G(rng).program(rng.randint(3, 9), ['parse', 'diff', 'simp', 'subs', 'eval', 'sym', 'lin', 'mat', 'line', 'show'])]
            # a damaged text may spell a number that is not finite
            ops = [o for o in ops if not re.search(r'(?i)inf|nan|[eE][+]?\d\d\d', o)]
        base['progs'] = {'0': ops, '4': pre}
        yield base
        for _ in range(3 if tier == 'quick' else 8):
            c = dict(base)
            add_faults(rng, c, 1, run, ('math',))
            # differentiation itself only calls functions on constants of its own, which never go wrong
            if c['faults'] and c['faults'][0][2] == 'math' and ops[c['faults'][0][1]].split(' ')[0] not in ('diff', 'jac'):
                yield c

    def formulas(self, rng):
        ops = []
        for _ in range(rng.randint(1, 3)):
            vs = rng.sample(['x', 'y', 'z'], rng.randint(0, 2))
            consts = rng.choice([(0.0, 1.0, 2.0, 3.0, 0.5, 4.0), (0.0, 1.0, 2.0, 900.0, 1e200), (1.0, 2.0, 0.5, 3.0)])
            a = F.generate(rng, vs, rng.randint(1, 5), consts)
            if rng.random() < 0.4:
                bad = rng.choice([('/', 1.0, 0.0), ('sqrt', ('neg', 1.0)), ('log', 0.0), ('log', ('neg', 2.0)), ('/', 0.0, 0.0), ('arcsin', 2.0), ('arccos', ('neg', 3.0)),
                                  ('exp', 1000.0), ('^', 0.0, ('neg', 1.0)), ('^', ('neg', 2.0), 0.5), ('*', 1e200, 1e200), ('log2', 0.0), ('log10', ('neg', 1.0)),
                                  ('-', ('*', 1e200, 1e200), ('*', 1e200, 1e200)), ('/', 1.0, ('*', 1e200, ('neg', 1e200))), ('arctan', ('/', 1.0, 0.0)),
                                  ('/', 1.0, ('-', 1.0, 1.0))])
                a = self.plant(rng, a, bad)
            vals = {v: rng.choice([0.0, 1.0, -1.0, 2.0, 0.5, 3.0]) for v in F.names(a)}
            ops.append('parse n0 ' + q(F.text(a)))
            how = rng.random()
            if vals:
                tail = 'vals ' + ','.join('%s=%s' % (v, hexd(x)) for v, x in sorted(vals.items()))
                if how < 0.3:
                    ops += ['diff n2 n0 %s 1 c' % sorted(vals)[0], 'subs n3 n2 m ' + tail, rng.choice(['vpa n3', 'calc n3', 'simp n3'])]
                ops += [rng.choice(['simp n0', 'clone n5 n0', 'str n0']), 'subs n1 n0 %s %s' % (rng.choice('cm'), tail)]
            else:
                ops += ['clone n1 n0']
            ops.append(rng.choice(['vpa n1', 'calc n1', 'simp n1', 'sym s1 1 1 n1']))
            if ops[-1].startswith('sym'):
                ops.append('scalc s1')
        return ops

    def plant(self, rng, a, b):
        """a with b somewhere inside"""
        if not isinstance(a, tuple) or rng.random() < 0.3:
            return rng.choice([('+', a, b), ('*', b, a), ('-', b, a), ('/', a, b), ('sin', b), b, ('+', ('arctan', b), a), ('*', a, ('*', 0.0, b)), ('neg', b)])
        i = rng.randrange(1, len(a))
        return a[:i] + (self.plant(rng, a[i], b),) + a[i + 1:]

    def errors(self, rng, pre):
        k = rng.randrange(7)
        g = G(rng)
        h = hexd
        if k == 0:   # an operator that cannot be differentiated
            a, b = g.formula(2), g.formula(2)
            return ['parse n2 ' + q('(%s)%s(%s)' % (a, rng.choice('%&|'), b)), 'parse n3 ' + q(g.formula(2)),
                    'bin n4 %s n2 n3 cc' % rng.choice('+-*/'), 'diff n5 n4 x 1 c', 'simp n4', 'vpa n4', 'symvec q0 n4,n3', 'jac s0 q0 x,y']
        if k == 1:
            pre.append('setcfg method %d' % rng.choice([2, 7, -1]))
            return ['parse n20 x-1', 'symvec q7 n20', 'tab t6 x=' + h(0.0), 'solve t7 cfg q7 t6', 'solve1 t7 q7']
        if k == 2:   # rank and dimensions
            return rng.choice([['mat m0 2 2 %s' % ','.join(map(h, [1, 2, 2, 4])), 'minv m1 m0'],
                               ['mat m0 2 2 %s' % ','.join(map(h, [1, 1, 1, 1])), 'vec v0 %s,%s' % (h(1), h(2)), 'lin v1 m0 v0'],
                               ['mat m0 3 2 %s' % ','.join(map(h, [1, 0, 0, 1, 1, 1])), 'vec v0 %s' % ','.join(map(h, [1, 1, 5])), 'lin v1 m0 v0'],
                               ['parse n0 x', 'symvec q0 n0,n0', 'jac s0 q0 x,y', 'smul s1 s0 s0', 'sym s2 1 3 n0,n0,n0', 'smul s3 s2 s2']])
        if k == 3:   # a name without a value, deep inside
            a = self.plant(rng, F.generate(rng, ['x', 'y'], 4), 'x')
            return ['parse n0 ' + q(F.text(a)), 'vpa n0', 'calc n0', 'sym s0 1 1 n0', 'scalc s0', 'stomat m0 s0', 'tab t6 y=' + h(1.0), 'symvec q7 n0', 'solve t7 nr q7 t6',
                    'solve t7 lm q7 t6']
        if k == 4:
            return ['parse n0 3', 'parse n1 4', 'symvec q0 n0,n1', 'solve1 t7 q0', 'tab t6 x=' + h(1.0), 'solve t7 nr q0 t6', 'solve t7 lm q0 t6']
        if k == 5:
            v = rng.choice([0.0, 1.0, 5.0, -1.0, 1e18, -2147483648.0, 0.5])
            return ['parse n2 ' + q('(%s)%s(%s)' % (rng.choice(['5', '-2147483648', '7.5', '1e200']), rng.choice('%&|'), repr(v))), 'vpa n2', 'calc n2', 'simp n2', 'str n2']
        return callback_ops(rng) + callback_ops(rng)

    def judge(self, c, run):
        r = run.plan(c)
        ops = c['progs'].get('0') or []
        inv = 'setcfg inv 0' not in (c['progs'].get('4') or [])
        if r.fatal and r.fatal[0] not in ('budget', 'no-stack', 'deadlock'):
            p = ops if r.fatal[1] == 0 else c['progs'].get('4') or []
            return [('died', '%s: %s' % (p[r.fatal[2]] if r.fatal[2] < len(p) else 'destruction', r.fatal))]
        got = r.outcomes(0)
        out = []
        txt = {}    # what slots hold: AST with values substituted, when known
        method = any(o.startswith('setcfg method') and o.split(' ')[2] not in '01' for o in c['progs'].get('4') or [])
        for i, o in enumerate(ops):
            if i not in got:
                break
            w = o.split(' ')
            g = got[i]
            t = g.text
            run.outcomes[' '.join(t.split(' ')[:1])] += 1
            if t.startswith('unknown'):
                out.append(('not-std', '%s: %s' % (o, t)))
            if not inv and t.startswith(INVALID + ' '):
                out.append(('reported-though-off', '%s: %s' % (o, t)))
            x = nonfinite(t) if inv else None
            if x and w[0] in ('vpa', 'calc', 'simp', 'diff', 'scalc', 'ssubs', 'solve', 'solve1', 'jac', 'subs'):
                out.append(('slipped-through', '%s: %s' % (o, t)))
            if inv and g.invalids and t.startswith('ok') and (w[0] in ('vpa', 'calc', 'simp', 'scalc') or (w[0] == 'solve' and w[2] == 'nr')):
                out.append(('slipped-through', '%s: a function gave a number that is not finite, and then: %s' % (o, t)))
            if inv and g.undefs and w[0] in ('solve', 'solve1') and not t.startswith(INVALID) and not g.fa:
                out.append(('slipped-through', '%s: a function gave a number that is not finite, and then: %s' % (o, t)))
            if inv and g.invalids and not t.startswith(INVALID) and not t.startswith('ok') and w[0] in ('vpa', 'calc', 'simp', 'scalc'):
                # another error may come first only if there is another error
                if not t.startswith(('math', 'null')):
                    out.append(('wrong-error', '%s: a function gave a number that is not finite, and then: %s' % (o, t)))
            self.follow(o, w, t, txt)
            if w[0] in ('vpa', 'calc', 'scalc') and w[1] in txt:
                e = self.expect(txt[w[1]])
                clean = g.fm == 0
                if e == 'invalid' and inv and clean and not t.startswith(INVALID):
                    out.append(('not-reported', '%s of %s: %s' % (w[0], F.text(txt[w[1]]), t)))
                elif e == 'undefined' and t.startswith('ok'):
                    out.append(('not-reported', '%s of %s: %s' % (w[0], F.text(txt[w[1]]), t)))
                elif e == 'ok' and clean and not t.startswith('ok') and t != 'bad_alloc':
                    out.append(('error-without-reason', '%s of %s: %s' % (w[0], F.text(txt[w[1]]), t)))
            if w[0] in ('calc', 'simp', 'scalc', 'ssubs', 'subs', 'move', 'ass', 'implmove', 'implmovenew', 'un', 'bin'):
                if w[0] in ('calc', 'simp') and w[1] in txt:
                    del txt[w[1]]
            if w[0] in ('solve', 'solve1') and method and (w[0] == 'solve1' or w[2] == 'cfg') and t.startswith('ok'):
                out.append(('not-reported', '%s with a method that does not exist: %s' % (o, t)))
            if w[0] == 'minv' and ops[0].startswith('mat m0 2 2') and i == 1 and len(ops) == 2 and t.startswith('ok'):
                out.append(('not-reported', '%s of a singular matrix: %s' % (o, t)))
            if w[0] == 'lin' and i == 2 and len(ops) == 3 and t.startswith('ok') and w[1:] == ['v1', 'm0', 'v0']:
                out.append(('not-reported', '%s of a contradictory system: %s' % (o, t)))
        return out

    def follow(self, o, w, t, txt):
        """keeps track of the formulas the slots n0, n1, s0, s1 stand for"""
        ok = t.startswith('ok')
        if w[0] == 'parse':
            txt.pop(w[1], None)
            if ok and w[1] in ('n0', 'n1') and re.match(r'^[\w%().^*/+-]*$', w[2]) and w[2].startswith(('%', '(', *F.FUN)) or (ok and re.match(r'^[a-z]\w*$|^[\d.]+$', w[2])):
                try:
                    s = w[2]
                    from ..server import unq
                    a = F.parse(unq(s))
                    if F.text(a) == unq(s) or F.text(a) == unq(s):
                        txt[w[1]] = a
                except Exception:
                    pass
        elif w[0] == 'clone' and ok:
            txt.pop(w[1], None)
            if w[2] in txt:
                txt[w[1]] = txt[w[2]]
        elif w[0] == 'subs':
            a = txt.get(w[2])
            if w[3] == 'm':
                txt.pop(w[2], None)
            txt.pop(w[1], None)
            if ok and a is not None and w[4] == 'vals':
                vals = {x.split('=')[0]: unhexd(x.split('=')[1]) for x in w[5].split(',')}
                txt[w[1]] = put(a, vals)
        elif w[0] == 'sym':
            txt.pop(w[1], None)
            if ok and w[2:4] == ['1', '1'] and w[4] in txt:
                txt[w[1]] = txt[w[4]]
        elif w[0] in ('str', 'vpa', 'calc', 'scalc', 'symvec', 'tab', 'stomat', 'solve', 'solve1', 'simp'):
            if w[0] == 'simp':
                txt.pop(w[1], None)
        else:
            txt.pop(w[1] if len(w) > 1 else '', None)
            if w[0] in ('move', 'implmove', 'implmovenew', 'un', 'bin', 'ass', 'diff', 'implassign', 'sget', 'ssubs', 'drop'):
                for x in w[2:]:
                    if w[-1] in ('m', 'mm', 'mc', 'cm') or w[0].startswith(('move', 'impl')):
                        txt.pop(x, None)

    def expect(self, a):
        if F.names(a):
            return 'undefined'
        try:
            F.evaluate(a, {})
        except F.Invalid:
            return 'invalid'
        return 'ok'


def put(a, vals):
    if isinstance(a, str):
        return vals.get(a, a)
    if isinstance(a, tuple):
        return (a[0],) + tuple(put(x, vals) for x in a[1:])
    return a


BIG = ['paren', 'sum', 'sub', 'prod', 'div', 'pow', 'neg', 'fun', 'nest', 'nestmul', 'const', 'name', 'digits', 'open', 'close', 'bad']


class C10(Check):
    id = 'C10'
    counts = {'quick': 8000, 'thorough': 80000}
    cap = {'quick': 200, 'thorough': 3000}
    technique = 'deterministic simulation: work counted in steps and in points visited, under injected invalid numbers'
    rule = ('one seed makes calls with invalid numbers from some place on, hostile callbacks, extreme settings, damaged or large texts. Every call must end '
            'within a budget of steps far above what such calls need; in solves of equations without a root the distinct points at which the '
            'equations are evaluated are counted against the iteration limit')
    assumptions = ['a call of the generated sizes that takes more than the budget of steps is taken not to end']

    def cases(self, rng, run, tier):
        k = rng.random()
        base = {'variant': rng.choice('AB'), 'main': True, 'budget': BUDGET}
        if rng.random() < 0.25:
            base['env'] = surroundings(rng)
        if k < 0.3:
            yield from self.attempts(rng, base, run)
        elif k < 0.42:
            n = rng.choice([100, 400, 1500])
            w = rng.choice(BIG)
            ops = ['parsebig n0 %s %d' % (w, n), 'clone n1 n0', 'str n0', 'simp n1', 'vpa n0', 'subs n2 n0 c vals x=%s,y=%s' % (hexd(1.5), hexd(0.5)), 'vpa n2',
                   'legalbig %d %s' % (n, rng.choice(['good', 'bad']))]
            if w in ('sum', 'sub', 'const', 'neg', 'paren') or n <= 100:
                ops.append('diff n3 n0 x 1 c')
            yield dict(base, progs={'0': ops}, x={'scale': n})
        elif k < 0.57:
            vec = lambda n: ','.join(hexd(rng.choice([0.0, 1.0, -1.0, 2.0, 1e308, -1e308, 1e-320, math.nan, math.inf, -math.inf, 1e-9])) for _ in range(n))
            ops = []
            for _ in range(3):
                n = rng.randint(1, 3)
                ops += ['vec v4 ' + vec(n), 'vec v5 ' + vec(n)]
                if rng.random() < 0.5:
                    ops.append('armijo v4 v5 kind=%d' % rng.randrange(9))
                else:
                    ops.append('findalpha v4 v5 %s kind=%d' % (hexd(rng.choice([1e-5, 0.0, 1e-12, -1.0, math.nan, 1e-300])), rng.randrange(9)))
            c = dict(base, progs={'0': ops})
            yield c
            add_faults(rng, c, 2, run, ('math',))
            if c['faults']:
                yield c
        else:
            g = G(rng)
            pre = g.settings()
            if rng.random() < 0.5:
                pre.append('setcfg inv 0')
            if rng.random() < 0.4:
                pre.append('setcfg eps ' + hexd(rng.choice([0.0, -1.0, math.nan, math.inf, 1e-300])))
            if rng.random() < 0.3:
                pre = [o for o in pre if not o.startswith('setcfg maxit')] + ['setcfg maxit %d' % rng.choice([-1, -2147483648, 0])]
            ops = g.program(rng.randint(3, 9), rng.choice([None, ['parse', 'simp', 'diff', 'eval'], ['solve', 'lin', 'line'], ['parse', 'name', 'show']]))
            base['progs'] = {'0': ops, '4': pre}
            yield base
            for _ in range(3):
                c = dict(base)
                add_faults(rng, c, 1, run, ('math',))
                c['faults'] = [f[:4] + [rng.choice(['once', 'persist', 'persist'])] for f in c['faults']]
                if c['faults']:
                    yield c

    def attempts(self, rng, base, run):
        """systems whose iteration never ends by itself, with exp somewhere"""
        sys_ = rng.choice([(['exp(x)'], ['x']), (['exp(x)+exp(0-x)'], ['x']), (['exp(x)', 'y-1'], ['x', 'y']), (['exp(x)+x^2'], ['x']), (['exp(x)+1'], ['x']),
                           (['2-2*exp(x)', 'exp(x)-3'], ['x']), (['exp(x)*y', 'y-2'], ['x', 'y']), (['exp(x)-2', 'exp(y)-3', 'x-y'], ['x', 'y']), (['exp(sin(x))'], ['x']),
                           (['exp(x)+y^2', 'x-y'], ['x', 'y']), (['x*exp(x)-1'], ['x']), (['(x-1)^2+exp(0-x)'], ['x']), (['x^2+exp(x)-x'], ['x'])])
        m = rng.choice([-2147483648, -7, -1, 0, 1, 2, 3, 5, 9, 20, 60])
        how = rng.choice(['nr', 'nr', 'nr', 'lm', 'cfg'])
        pre = ['setcfg eps ' + hexd(rng.choice([0.0, 0.0, -1.0, 1e-300])), 'setcfg indet %d' % rng.randrange(2)]
        still = rng.random() < 0.06
        if still: # the step is nothing from the start on, so that many iterations cost little
            sys_ = rng.choice([(['exp(x)-exp(0-x)+1', '2*exp(x)-2*exp(0-x)+3'], ['x']), (['x^2+exp(0)', 'x^2+2'], ['x']), (['x^2+1', 'x^3-2'], ['x']), (['x^2+2', 'x^4+1', '3'], ['x'])])
            how = rng.choice(['lm', 'lm', 'nr'])
        lm = how == 'lm'
        if how == 'cfg' and rng.random() < 0.5:
            pre.append('setcfg method 1')
            lm = True
        if lm and m > 9:
            m = rng.choice([9, 25, 40]) if len(sys_[1]) == 1 else 9
        if still and lm:
            m = rng.choice([60, 200, 320, 330])
        pre.append('setcfg maxit %d' % m)
        if rng.random() < 0.5:
            pre.append('setcfg inv 0')
        x0 = [rng.choice([0.0, 1.0, -2.0, 0.7]) for _ in sys_[1]]
        if still:
            x0 = [0.0 for _ in sys_[1]]
        ops = system_ops(rng, sys_[0], sys_[1], x0)
        if not ops[-1].startswith('solve1'):
            ops[-1] = 'solve t7 %s q7 t6' % how
        elif lm and 'setcfg method 1' not in pre:
            pre.append('setcfg method 1')
        c = dict(base, progs={'0': ops, '4': pre})
        yield c
        if still and lm: # an invalid number would cost a thousand trial points in each of the iterations
            return
        for _ in range(3):
            d = dict(c)
            got = run.ref(c).outcomes(0)
            i = len(ops) - 1
            if i in got and got[i].maths:
                d['faults'] = [[0, i, 'math', rng.randint(1, got[i].maths) if rng.random() < 0.5 else rng.randint(1, min(12, got[i].maths)),
                                rng.choice(['persist', 'persist', 'once'])]]
                yield d

    def judge(self, c, run):
        r = run.plan(c)
        ops = c['progs'].get('0') or []
        if r.fatal:
            if r.fatal[0] in ('budget', 'hang', 'deadlock', 'alarm', 'timeout', 'arena-exhausted'):
                return [('endless', '%s: %s' % (ops[r.fatal[2]] if r.fatal[2] < len(ops) else 'destruction', r.fatal))]
            run.outcomes['fatal'] += 1
            return []
        got = r.outcomes(0)
        out = []
        pre = c['progs'].get('4') or []
        for i, o in enumerate(ops):
            if i not in got:
                break
            run.outcomes[got[i].text.split(' ')[0]] += 1
            w = o.split(' ')
            if w[0] in ('solve', 'solve1') and any('exp' in p for p in ops):
                m = 100
                for p in pre:
                    if p.startswith('setcfg maxit'):
                        m = max(0, int(p.split(' ')[2]))
                places = sum(p.count('exp') for p in ops if p.startswith('parse '))
                lm = w[0] == 'solve' and w[2] == 'lm' or ('setcfg method 1' in pre and (w[0] == 'solve1' or w[2] == 'cfg'))
                # one attempt of the damped method is one line search, which may halve its step until it vanishes
                n = (m + 6) * (1100 if lm else 1)
                if got[i].points > n * places + 4:
                    out.append(('attempts', '%s visits %d points with an iteration limit of %d' % (o, got[i].points // places, m)))
            if w[0] in ('armijo', 'findalpha'):
                f = re.search(r' f=(\d+) df=(\d+) ', got[i].text)
                if f and int(f.group(1)) > 5000:
                    out.append(('callbacks', '%s calls its function %s times' % (o, f.group(1))))
        return out
