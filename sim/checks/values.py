"""C07: every object keeps its value; a failed call leaves objects intact. An executable model of what the caller holds."""
import copy, math
from .common import *
from .. import model

READONLY = {'str', 'vpa', 'vars', 'eq', 'check', 'print', 'legal', 'tostr', 'matherr', 'errinfo', 'opstr', 'rawcalc', 'mdet', 'mrow',
            'mstr', 'mnorms', 'mposdet', 'meq', 'mless', 'mmaxrow', 'vdot', 'vless', 'svars', 'seq', 'sstr', 'thas', 'tget', 'tstr', 'teq',
            'titer', 'tviews', 'tmoved', 'armijo', 'findalpha', 'setcfg', 'resetcfg', 'getcfg', 'stream', 'cout', 'couttext', 'setloc'}
INPLACE1 = {'calc', 'simp', 'scalc', 'ssubs', 'sset', 'tabset', 'maddeq', 'massign', 'mswaprow', 'mswapcol', 'mresize', 'vresize', 'mset',
            'mfill', 'implassign', 'vassign', 'tassign', 'mrowset', 'mcolset'}
SAMEVALUE = {'simp', 'calc', 'scalc', 'ass'}  # a failing call may leave a differently written object of the same value


def effects(w):
    """(slot written, written in place, slots given away)"""
    o = w[0]
    if o in READONLY:
        return None, False, []
    if o in ('un', ):
        return w[1], False, [w[3]] if w[4] == 'm' else []
    if o == 'bin':
        return w[1], False, [s for s, m in zip(w[3:5], w[5]) if m == 'm']
    if o == 'ass':
        return w[2], True, [w[3]] if w[4] == 'm' else []
    if o in ('diff',):
        return w[1], False, [w[2]] if w[5] == 'm' else []
    if o == 'subs':
        return w[1], False, [w[2]] if w[3] == 'm' else []
    if o in ('move', 'implmovenew', 'mmove', 'tmove', 'smove'):
        return w[1], False, [w[2]]
    if o in ('implmove', 'mmassign', 'vmassign', 'tmassign', 'smassign', 'qmassign'):
        return w[1], True, [w[2]]
    if o == 'drop':
        return None, False, [w[1]]
    if o in INPLACE1:
        return w[1], True, []
    return w[1], False, []


def parse_fps(text):
    d = {}
    for line in text.split('\n'):
        if '=' in line:
            k, v = line.split('=', 1)
            if k and k[0] in 'nmvsqt' and k[1:].isdigit():
                d[k] = v
                last = k
                continue
        if line:
            d[last] += '\n' + line
    return d


def split_fp(fp):
    """text, values at the points"""
    t, *p = fp.split(';')
    vals = []
    for x in p:
        vals += x.split(',')
    return t, vals


def close(a, b, tol=1e-9):
    if a != a or b != b:
        return (a != a) == (b != b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def same_values(f, g, tol=1e-9):
    if f == g:
        return True
    a, b = split_fp(f)[1], split_fp(g)[1]
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y:
            continue
        if x in ('err', 'null') or y in ('err', 'null'):
            return False
        if not close(unhexd(x), unhexd(y), tol):
            return False
    return True


def py_op(op, a, b=None):
    try:
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '^': lambda: math.pow(a, b),
                'neg': lambda: -a, 'pos': lambda: a, 'sin': lambda: math.sin(a), 'cos': lambda: math.cos(a), 'tan': lambda: math.tan(a),
                'asin': lambda: math.asin(a), 'acos': lambda: math.acos(a), 'atan': lambda: math.atan(a), 'sqrt': lambda: math.sqrt(a),
                'log': lambda: math.log(a), 'log2': lambda: math.log2(a), 'log10': lambda: math.log10(a), 'exp': lambda: math.exp(a)}[op]()
    except (ValueError, ZeroDivisionError, OverflowError):
        return None


def expected(w, st):
    """('fp', text) the exact fingerprint, ('vals', [..]) the values, or None: whatever the call says"""
    o = w[0]
    g = lambda s: st.get(s)
    if o in ('clone', 'clonerec', 'implcopy', 'move', 'implmovenew') and g(w[2]):
        return 'fp', g(w[2])
    if o in ('implassign', 'implmove') and g(w[2]):
        return 'fp', g(w[2])
    if o == 'num':
        return 'vals', [unhexd(w[2])] * 2
    if o in ('un', 'bin', 'ass'):
        ops = {'un': (w[2], [w[3]]), 'bin': (w[2], w[3:5]), 'ass': (w[1], w[2:4])}[o]
        vs = []
        for s in ops[1]:
            if not g(s):
                return None
            vs.append(split_fp(g(s))[1])
        out = []
        for x in zip(*vs):
            if 'err' in x:
                out.append(None)
                continue
            v = py_op(ops[0], *map(unhexd, x))
            out.append(v if v is not None and math.isfinite(v) and abs(v) < 1e200 else None)
        return 'vals', out
    return model.expected(w, st)


def mismatch(e, new):
    """what the contents should have been, if they are not"""
    if e is None:
        return None
    if e[0] == 'fp':
        return e[1] if model.canon(e[1]) != model.canon(new) else None
    if e[0] == 'vals':
        vals = split_fp(new)[1]
        for p, v in enumerate(e[1]):
            if v is None or p >= len(vals):
                continue
            if vals[p] == 'err' or not close(v, unhexd(vals[p])):
                return 'value %r' % v
        return None
    if e[0] == 'mat':
        _, r, c, v, t = e
        a, b, x = model.mat_of(new)
        if (a, b) != (r, c):
            return 'a matrix of %dx%d' % (r, c)
        for i, (p, q, d) in enumerate(zip(v, x, t)):
            if p is not None and math.isfinite(p) and math.isfinite(d) and not abs(p - q) <= d:
                return 'element %d: %r (within %g)' % (i, p, d)
        return None
    _, r, c, gs = e
    if model.shape(new) != (r, c):
        return 'a matrix of %dx%d' % (r, c)
    for i, (p, q) in enumerate(zip(gs, model.groups(new))):
        for x, y in zip(p, q):
            if x is not None and math.isfinite(x) and abs(x) < 1e150 and (y is None or not close(x, y)):
                return 'element %d: %r' % (i, x)
    return None


def result_fp(op, text):
    """the fingerprint the call itself reported"""
    t = text[3:]
    if t.endswith(' source-kept'):
        t = t[:-12]
    return t if t[:2] == 'N:' or t[:1] in 'MST' and ':' in t else None


class C07(Check):
    id = 'C07'
    counts = {'quick': 24000, 'thorough': 120000}
    technique = 'deterministic simulation: histories with injected failures checked against an executable model of every object'
    rule = ('one seed makes a history of 4-16 calls on few objects (much sharing, self-combination, moves), some made to fail by allocation '
            'failure or invalid number or failing by themselves; after each call every object the caller holds is read back (text, structure, '
            'value at two points) and compared with the model')

    def selfops(self, rng, g, st):
        out = []
        n = g.own(st, 'n')
        m = g.own(st, 'm')
        k = rng.randint(0, 8)
        if n and k < 2 and st.d[n]['size'] < 30:
            st.d[n]['size'] *= 2
            return ['ass %s %s %s c' % (rng.choice('+-*/^'), n, n)]
        if n and k == 2 and st.d[n]['size'] < 30:
            return ['bin %s %s %s %s cc' % (n, rng.choice('+-*/^'), n, n)]
        if n and k == 3 and st.d[n]['size'] < 12:
            d = g.dst(st, 'n') if rng.random() < 0.5 else n
            mv = rng.choice('ccm')
            st.d[d] = dict(st.d[n], size=st.d[n]['size'] * 6)
            if mv == 'm' and d != n:
                del st.d[n]
            return ['subs %s %s %s one %s %s' % (d, n, mv, rng.choice('xyz'), n)]
        if n and k == 4:
            return ['implassign %s %s' % (n, n)]
        if m and k == 5:
            return [rng.choice(['maddeq %s %s', 'massign %s %s']) % (m, m)]
        if m and k == 6:
            return [rng.choice(['madd', 'msub', 'meach']) + ' %s %s %s' % (m, m, m)]
        if n and k == 7:
            return ['diff %s %s x 1 c' % (n, n)] if st.d[n]['size'] < 20 else ['clone %s %s' % (n, n)]
        v = g.own(st, 'v')
        if v:
            return ['vadd %s %s %s' % (v, v, v)]
        return out

    def cases(self, rng, run, tier):
        g = G(rng)
        cats = rng.choice([['build', 'copy', 'parse', 'eval'], ['build', 'copy', 'simp', 'diff', 'subs', 'eval', 'show'], ['mat', 'vec', 'lin', 'show'],
                           ['sym', 'parse', 'build', 'show', 'subs'], ['tab', 'vec', 'subs', 'parse'], None, ['solve', 'tab', 'sym', 'line']])
        st = State()
        ops = g.program(rng.randint(2, 5), ['parse', 'build', 'mat', 'vec', 'tab'], slots=st)
        total = rng.randint(4, 14)
        while len(ops) < total:
            more = self.selfops(rng, g, st) if rng.random() < 0.25 else g.program(1, cats, slots=st)
            ops += more
            if rng.random() < 0.02:
                break
        pre = g.settings(loud=False) if rng.random() < 0.5 else ['setcfg maxit 3']
        base = {'variant': rng.choice('AB'), 'main': True, 'budget': BUDGET, 'progs': {'0': ops, '4': pre}, 'flags': ['fp', 'check']}
        if rng.random() < 0.5:
            base['env'] = {'policy': rng.randrange(4), 'heap': rng.randrange(1 << 30)}
        yield base
        a = run.ref(dict(base, flags=[]))
        if a.fatal:
            return
        got = a.outcomes(0)
        for _ in range(4):
            i = rng.randrange(len(ops))
            n, m = (got[i].allocs, got[i].maths) if i in got else (0, 0)
            if not n and not m:
                continue
            c = copy.deepcopy(base)
            kind = 'math' if m and (not n or rng.random() < 0.4) else 'alloc'
            c['faults'] = [[0, i, kind, rng.randint(1, n if kind == 'alloc' else m), rng.choice(['once', 'persist'])]]
            # the call again, this time undisturbed
            if rng.random() < 0.7 and not effects(ops[i].split(' '))[2]:
                c['progs']['0'].insert(i + 1, ops[i])
            yield c

    def telling(self, w, st, text):
        """what a call that only reads should have said"""
        t = model.told(w, st)
        if t and text not in t and text not in ('null', 'bad_alloc'):
            return t[0]
        if w[0] == 'tmoved' and not text.startswith('ok') and text not in ('null', 'bad_alloc'):
            return 'ok W:... every view of the table that was moved from'
        if w[0] in ('tviews', 'tmoved') and text.startswith('ok W:'):
            return model.views(text, w, st)
        return None

    def judge(self, c, run):
        r = run.plan(c)
        ops = c['progs'].get('0') or []
        got = r.outcomes(0)
        fps = {op: parse_fps(t) for p, op, t in r.fps if p == 0}
        out = []
        for k, t, op, text in r.viol:
            if k == 'malformed':
                out.append(('malformed', '%s: %s' % (ops[op] if 0 <= op < len(ops) else op, text)))
        if r.fatal and r.fatal[0] in ('segv', 'bus', 'abort') and not r.firedA:
            out.append(('died', str(r.fatal)))
        st = {}
        for i, line in enumerate(ops):
            if i not in got or i not in fps or out:
                break
            w = line.split(' ')
            now = fps[i]
            text = got[i].text
            run.outcomes[text.split(' ')[0]] += 1
            ok = text.startswith('ok ')
            if w[0] == 'dropall':
                st = now
                continue
            dst, inplace, given = effects(w)
            if w[0] in ('setcfg', 'resetcfg'):
                # evaluation depends on the settings
                st = now
                continue
            for s in sorted(set(st) | set(now)):
                if s in given and s != dst:
                    continue
                old, new = st.get(s), now.get(s)
                if s == dst and ok:
                    continue
                if s == dst and s in given:
                    continue
                if old == new:
                    continue
                if old and new and s == dst and inplace and w[0] in SAMEVALUE and same_values(old, new):
                    continue
                out.append(('changed', 'operation %d %s (%s)\n    %s before: %s\n    %s after:  %s' % (i, line, text[:200], s, old, s, new)))
                break
            if out:
                break
            if ok and dst and w[0] != 'op':
                new = now.get(dst)
                if new is None:
                    out.append(('lost', 'operation %d %s (%s): %s holds nothing' % (i, line, text[:200], dst)))
                    break
                rf = result_fp(w[0], text)
                if rf and split_fp(new)[0] != split_fp(rf)[0] and ';' not in rf:
                    out.append(('result', 'operation %d %s\n    reported: %s\n    held:     %s' % (i, line, rf, new)))
                    break
                m = mismatch(expected(w, st), new)
                if m is not None:
                    out.append(('value', 'operation %d %s\n    expected: %s\n    held:     %s' % (i, line, m, new)))
                    break
            if ok or w[0] in ('tget', 'tmoved'):
                m = self.telling(w, st, text)
                if m is not None:
                    out.append(('telling', 'operation %d %s\n    expected: %s\n    said:     %s' % (i, line, m, text)))
                    break
            # the same call again after a failure
            f = (c.get('faults') or [None])[0]
            if f and i == f[1] + 1 and ops[i] == ops[i - 1] and (r.firedA or r.firedM) and not out:
                p = got[i - 1].text
                if not p.startswith('ok') and p != 'null' and w[0] not in ('simp', 'calc', 'scalc'):
                    d = dict(c, faults=[], flags=[])
                    a = run.ref(d)
                    if not a.fatal and a.outcomes(0)[i - 1].text != text:
                        out.append(('unusable', '%s failed (%s); the same call again\n    expected: %s\n    now:      %s' % (
                            line, p, a.outcomes(0)[i - 1].text, text)))
            st = now
        return out


class C22(C07):
    id = 'C22'
    counts = {'quick': 24000, 'thorough': 120000}
    technique = 'deterministic simulation: histories of table operations with injected failures, every view compared with a reference map after every call'
    rule = ('one seed makes a history of 6-18 calls that build, copy, move, assign, update, print, compare, substitute and solve with a few variable '
            'tables; some calls are made to fail by allocation failure; after each call every table is read back and compared with the model, '
            'and every view of one table is read through the interface')

    def cases(self, rng, run, tier):
        g = G(rng)
        st = State()
        cats = rng.choice([['tab'], ['tab', 'vec'], ['tab', 'vec'], ['tab', 'vec', 'subs', 'parse'], ['tab', 'solve'], ['tab', 'vec', 'sym', 'parse']])
        ops = []
        for _ in range(rng.randint(1, 3)):
            ops += g.program(1, ['tab'], slots=st)
        if rng.random() < 0.06:
            # a table of many names
            ns = rng.sample(['%s%d' % (a, i) for a in ('v', 'w', '_') for i in range(40)], rng.choice([9, 17, 33, 65, 110]))
            t = 't%d' % rng.randrange(6)
            st.d[t] = {'names': ns}
            ops.append('tab %s %s' % (t, ','.join('%s=%s' % (qa(n), hexd(g.value())) for n in ns)) if rng.random() < 0.5 else
                       'tabinit %s %s %s' % (t, ','.join(qa(n) for n in ns), hexd(g.value())))
            ops.append('tcopy t%d %s' % (6, t) if rng.random() < 0.3 else 'tviews ' + t)
        total = rng.randint(6, 18)
        guard = 0
        while len(ops) < total and guard < 200:
            guard += 1
            t = g.own(st, 't')
            k = rng.random()
            if t and k < 0.3:
                ops.append(('tmoved ' if rng.random() < 0.2 else 'tviews ') + t)
            elif t and k < 0.42:
                n = len(st.d[t]['names'])
                st.d['v7'] = {'r': n}
                ops += ['vec v7 ' + g.numbers(n), 'tabset %s v7' % t]
            elif k < 0.5:
                # two tables that are nearly the same: more, fewer, other or reordered names, other values
                ns = rng.sample(NAMES, rng.randint(1, 5))
                va = {n: rng.choice([0.0, 1.0, -2.5, 4.0, 1e10]) for n in ns}
                vb = dict(va)
                how = rng.randrange(6)
                if how in (0, 1) and len(ns) > 1:
                    del vb[rng.choice([min(ns), max(ns), rng.choice(ns)])]
                elif how in (2, 3):
                    vb[rng.choice([n for n in NAMES if n not in ns])] = vb.pop(rng.choice(ns)) if how == 2 else 1.0
                elif how == 4:
                    vb[rng.choice(ns)] += rng.choice([8.0, -8.0, 1e-13])
                pair = rng.sample(range(6), 2)
                for s, v in zip(pair, (va, vb)):
                    t = 't%d' % s
                    order = rng.sample(sorted(v), len(v))
                    st.d[t] = {'names': order}
                    if rng.random() < 0.5:
                        ops.append('tab %s %s' % (t, ','.join('%s=%s' % (qa(n), hexd(v[n])) for n in order)))
                    else:
                        st.d['v7'] = {'r': len(v)}
                        ops += ['tabinit %s %s %s' % (t, ','.join(qa(n) for n in order), hexd(0.5)), 'vec v7 ' + ','.join(hexd(v[n]) for n in order),
                                'tabset %s v7' % t]
                a, b = rng.sample(['t%d' % s for s in pair], 2)
                ops += ['teq %s %s' % (a, b), 'teq %s %s' % (b, a)]
            elif t and k < 0.58:
                ops.append('tassign %s %s' % (t, t) if rng.random() < 0.2 else 'tassign %s %s' % (t, g.own(st, 't')))
                w = ops[-1].split(' ')
                st.d[w[1]] = dict(st.d[w[2]])
            else:
                ops += g.step(rng.choice(cats), st, None)
        for t in sorted(s for s in st.d if s[0] == 't'):
            ops.append('tviews ' + t)
        pre = g.settings(loud=False) if rng.random() < 0.5 else ['setcfg maxit 3']
        base = {'variant': rng.choice('AB'), 'main': True, 'budget': BUDGET, 'progs': {'0': ops, '4': pre}, 'flags': ['fp', 'check']}
        if rng.random() < 0.5:
            base['env'] = {'policy': rng.randrange(4), 'heap': rng.randrange(1 << 30)}
        yield base
        a = run.ref(dict(base, flags=[]))
        if a.fatal:
            return
        got = a.outcomes(0)
        for _ in range(3):
            i = rng.randrange(len(ops))
            n = got[i].allocs if i in got else 0
            if not n:
                continue
            c = copy.deepcopy(base)
            c['faults'] = [[0, i, 'alloc', rng.randint(1, n), rng.choice(['once', 'persist'])]]
            yield c
