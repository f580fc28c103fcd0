"""Seeded workload generators: formulas, settings and programs of operations (see cpp/ops.cpp)."""
from .server import qa, q, hexd

NAMES = ['x', 'y', 'z', 'a1', '_b', 'var2', 'X', 'long_variable_name_that_is_not_in_any_small_buffer']
NUMS = ['1', '2', '3', '0', '0.5', '2.5', '10', '1e3', '2.5e-3', '12345678.9', '0.000001', '3.14159265358979', '7', '100',
        '0.1', '1E-7', '123456789012', '.5', '4.']
BIGNUMS = ['1e300', '1.5e305', '1e308', '1e-300', '2147483648', '9007199254740993', '1e150', '1e-160', '5e-308']
FUNS = ['sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sqrt', 'log', 'log2', 'log10', 'exp']
APIFUNS = ['neg', 'pos', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt', 'log', 'log2', 'log10', 'exp']
OPS = '+-*/^'
VALS = [0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 3.25, 1e-3, 10.0, 1e10, -2.75, 0.1, 1e-12, 123456.789, 7.0, -0.0]
BIGVALS = [1e300, -1.5e305, 1.7e308, 1e150, -1e-160, 5e-324, 1e-310, 2147483648.0, -2147483649.0, 9007199254740993.0, 1e-300]

# systems: equations, variables with starting values
SYSTEMS = [
    (['x^2-2'], ['x'], [1.0]),
    (['x-3'], ['x'], [5.0]),
    (['2*x+y-3', 'x-y'], ['x', 'y'], [0.0, 0.0]),
    (['x^2+y^2-4', 'x*y-1'], ['x', 'y'], [2.0, 0.5]),
    (['x+y-3', 'x*y-2'], ['x', 'y'], [0.0, 5.0]),
    (['exp(x)-2'], ['x'], [0.0]),
    (['sin(x)-0.5'], ['x'], [0.3]),
    (['log(x)-1'], ['x'], [2.0]),
    (['sqrt(x)-3'], ['x'], [4.0]),
    (['x^3-x-1'], ['x'], [1.5]),
    (['x^2+1'], ['x'], [1.0]),
    (['exp(x)'], ['x'], [0.0]),
    (['1/x'], ['x'], [1.0]),
    (['x+y-1', 'x+y-1'], ['x', 'y'], [0.0, 0.0]),
    (['x+y-1', 'x+y-2'], ['x', 'y'], [0.0, 0.0]),
    (['x+y-4'], ['x', 'y'], [1.0, 1.0]),
    (['x*y-1'], ['x', 'y'], [1.0, 2.0]),
    (['x-1', 'x-1'], ['x'], [0.0]),
    (['x-1', 'x-2'], ['x'], [0.0]),
    (['x-1', 'y-2', 'x*y-2'], ['x', 'y'], [0.5, 0.5]),
    (['cos(a1)-0.5', 'a1+_b-2'], ['a1', '_b'], [0.8, 0.8]),
    (['x+y+z-6', 'x*y-2', 'x-z+2'], ['x', 'y', 'z'], [0.5, 2.5, 2.5]),
    (['log(x)'], ['x'], [-1.0]),
    (['sqrt(x-5)-1'], ['x'], [0.0]),
    (['x^2'], ['x'], [1.0]),
    (['(x-1)^3'], ['x'], [3.0]),
    (['x/(y-1)', 'y-1'], ['x', 'y'], [1.0, 1.0]),
    (['0.5*x+0.25*y-1', '3*x-y+2'], ['x', 'y'], [1.0, 1.0]),
    (['arctan(x)'], ['x'], [3.0]),
    (['x^5-x^4+2*x-7'], ['x'], [1.0]),
    (['x-x'], ['x'], [1.0]),
    (['2-2*cos(x)', 'y-x'], ['x', 'y'], [1.0, 0.0]),
    (['0.5-x', 'x*z-0.25', 'z-y'], ['x', 'y', 'z'], [1.0, 1.0, 1.0]),
]


def lookalike(r, s):
    """a text like s that simple hashes, sums or lengths do not tell from it"""
    if not s:
        return ' '
    b = bytearray(s.encode('utf-8', 'surrogateescape'))
    i = r.randrange(len(b))
    k = r.randrange(4)
    if k == 0 and len(b) > 1:
        i = r.randrange(len(b) - 1)
        m, d = r.choice([1, 31, 31, 33]), r.choice([1, -1])
        if 32 < b[i] + d < 127 and 32 < b[i + 1] - d * m < 127:
            b[i] += d
            b[i + 1] -= d * m
            return b.decode('utf-8', 'replace')
    if k == 1 and len(b) > 1:
        i = r.randrange(len(b) - 1)
        b[i], b[i + 1] = b[i + 1], b[i]
    elif k == 2:
        b[i] = 33 + r.randrange(94)
    else:
        b[i] ^= r.choice([1, 16, 32, 64])
    return b.decode('utf-8', 'replace')


def near(r, h):
    """hex digits of a number close to the given one, or equal to it in part"""
    x = int(h, 16)
    k = r.randrange(5)
    x ^= [1, 1 << 63, 1 << 32, 1 << r.randrange(64), (1 << 52) | 1][k]
    return '%016x' % x if (x >> 52) & 0x7ff != 0x7ff else h


class G:
    def __init__(self, rng):
        self.r = rng
        k = rng.randint(1, 4)
        self.names = rng.sample(NAMES, k) if rng.random() < 0.5 else ['x', 'y', 'z'][:min(k, 3)]
        self.funs = rng.sample(FUNS, rng.randint(2, len(FUNS)))
        if rng.random() < 0.4:
            self.funs = ['sin', 'cos', 'exp', 'sqrt', 'log']
        # how often a number is of an extreme size
        self.big = rng.choice([0, 0, 0, 0, 0.03, 0.3])

    # ---- formulas
    def number(self):
        r = self.r
        if self.big and r.random() < self.big:
            return r.choice(BIGNUMS)
        if r.random() < 0.7:
            return r.choice(NUMS)
        return repr(round(r.uniform(0, 50), r.randint(0, 6)))

    def name(self):
        return self.r.choice(self.names)

    def formula(self, depth=3, noconst=False):
        r = self.r
        if depth <= 0 or r.random() < 0.12:
            return self.name() if noconst or r.random() < 0.6 else self.number()
        k = r.random()
        sp = ' ' if r.random() < 0.1 else ''
        if k < 0.58:
            op = r.choice('++--**/^' if r.random() < 0.95 else '%&|')
            if op == '^' and r.random() < 0.7:
                return '(%s)^%s' % (self.formula(depth - 1), r.choice(['2', '3', '0.5', '(-1)', '0', '1']))
            a, b = self.formula(depth - 1), self.formula(depth - 1)
            if r.random() < 0.5:
                b = '(' + b + ')'
            if r.random() < 0.3:
                a = '(' + a + ')'
            return a + sp + op + sp + b
        if k < 0.8:
            return '%s(%s)' % (r.choice(self.funs), self.formula(depth - 1))
        if k < 0.9:
            return '-' + self.formula(depth - 1)
        if k < 0.93:
            return '+' + self.formula(depth - 1)
        return '(' + self.formula(depth - 1) + ')'

    def rich(self):
        """many terms of one or of several shapes"""
        r = self.r
        v = self.names[:2] + ['x']
        a = lambda: r.choice([r.choice(v), r.choice(v), r.choice(v), r.choice(NUMS), '%s(%s)' % (r.choice(self.funs), r.choice(v))])
        kinds = r.sample(['%s^%s', '%s^%s', '(%s*%s)', '(%s/%s)', '(%s-%s)', '(-%s)*%s', '(%s+%s)^2', '1/(%s+%s)', 'sin(%s)^%s',
                          '2^(%s*%s)', 'exp(%s/%s)'], r.choice([1, 1, 2, 4]))
        t = lambda: r.choice(kinds) % (a(), a())
        n = r.choice([1, 2, 4, 8, 16, 24, 33, 48, 70])
        return '+'.join(t() for _ in range(n)) if r.random() < 0.7 else ''.join(t() + r.choice('+-*') for _ in range(n - 1)) + t()

    def chain(self):
        r = self.r
        n = r.randint(5, 60)
        t = [self.name() if r.random() < 0.5 else self.number() for _ in range(n)]
        s = t[0]
        for x in t[1:]:
            s += r.choice('+-*' if r.random() < 0.9 else '//%&|') + x
        return s

    def text(self):
        r = self.r
        k = r.random()
        if k < 0.7:
            return self.formula(r.randint(1, 4))
        if k < 0.75:
            blank = lambda: ''.join(r.choice(' \t\n\v\f\r') for _ in range(r.choice([0, 1, 1, 2, 5])))
            return blank() + blank().join(self.formula(r.randint(0, 3)).replace('(', '( ').split(' ')) + blank()
        if k < 0.85:
            return self.chain()
        return self.damaged(self.formula(r.randint(1, 3)))

    def damaged(self, s):
        b = bytearray(s.encode())
        r = self.r
        if r.random() < 0.12:  # the names of functions are told by their case
            f = r.choice(FUNS)
            c = r.choice([f.upper(), f.capitalize(), f.swapcase(), f[:-1] + f[-1].upper()])
            return (r.choice([s + '+%s(' % c + self.name() + ')', '%s(%s)' % (c, s), c, s + '*' + c, c + '^2'])).encode()
        for _ in range(r.randint(1, 3)):
            k = r.randint(0, 6)
            i = r.randrange(len(b) + 1) if b else 0
            if k == 0 and b:
                del b[i:]
            elif k == 1 and b:
                del b[:i]
            elif k == 2 and i < len(b):
                b[i] ^= 1 << r.randrange(8)
            elif k == 3 and i < len(b):
                del b[i]
            elif k == 4 and i < len(b):
                b.insert(i, b[i])
            elif k == 5 and len(b) > 1:
                j = r.randrange(len(b))
                i = min(i, len(b) - 1)
                b[i], b[j] = b[j], b[i]
            else:
                b.insert(i, r.choice(b'()+-*/^.eE,;%&|= \t\n@#x019"\\~\x00\x80\xff'))
        return bytes(b).decode('latin-1').encode('latin-1')

    def badname(self):
        if self.r.random() < 0.4:
            return lookalike(self.r, self.name())
        return self.r.choice(['', '1x', 'a b', 'x+', 'sin', 'x.y', '_', 'a' * 40, 'Ab_9', '9', 'é', 'x\n', ' x', 'x '])

    def value(self):
        r = self.r
        if self.big and r.random() < self.big:
            return r.choice(BIGVALS)
        return r.choice(VALS) if r.random() < 0.6 else round(r.uniform(-5, 5), 3)

    def values(self, names=None):
        return ','.join('%s=%s' % (qa(n), hexd(self.value())) for n in (names or self.names))

    def numbers(self, n, small=False):
        if small:
            return ','.join(hexd(self.r.choice([1.0, 2.0, -1.0, 0.0, 0.5, 3.0])) for _ in range(n))
        return ','.join(hexd(self.value()) for _ in range(n))

    # ---- settings
    def settings(self, keep=(), loud=True):
        r = self.r
        out = []
        def put(f, v):
            if f not in keep:
                out.append('setcfg %s %s' % (f, v))
        if r.random() < 0.3:
            put('inv', r.choice('01'))
        if r.random() < 0.3:
            put('eps', hexd(r.choice([1e-9, 1e-6, 1e-12, 1e-3])))
        if loud and r.random() < 0.35:
            put('log', r.choice('01234567'))
        put('maxit', r.choice(['0', '1', '3', '5', '8', '12']))
        if r.random() < 0.4:
            put('method', r.choice('01'))
        if r.random() < 0.3:
            put('init', hexd(r.choice([0.0, 0.5, 2.0, -1.0, 10.0])))
        if r.random() < 0.3:
            put('indet', r.choice('01'))
        return out

    # ---- programs
    ALL = ['parse', 'build', 'show', 'eval', 'diff', 'simp', 'subs', 'copy', 'mat', 'vec', 'lin', 'sym', 'tab', 'solve',
           'line', 'err', 'name']

    def pickcats(self, cats=None):
        cats = list(cats or self.ALL)
        r = self.r
        if r.random() < 0.7 and len(cats) > 3:
            cats = r.sample(cats, r.randint(2, len(cats)))
        if not set(cats) & {'parse', 'build'}:
            cats.append('parse')
        return cats

    def program(self, n, cats=None, shared=None, slots=None):
        """a list of operations; shared: State of '@' slots that may be read"""
        st = slots or State()
        out = []
        cats = self.pickcats(cats)
        guard = 0
        while len(out) < n and guard < n * 12:
            guard += 1
            ops = self.step(self.r.choice(cats), st, shared)
            if ops:
                out += ops
        return out[:n + 4]

    def reads(self, shared, n):
        """n operations that only read shared objects"""
        out = []
        for _ in range(n * 30):
            ops = self.step(self.r.choice(['show', 'eval', 'copy', 'diff', 'subs', 'mat', 'vec', 'lin', 'sym', 'tab', 'build', 'tab', 'eval']),
                            State(), shared)
            if len(ops) == 1 and '@' in ops[0]:
                out += ops
            if len(out) >= n:
                break
        return out

    def src(self, st, shared, kind, pred=None):
        """a slot to read"""
        c = [s for s, i in st.d.items() if s[0] == kind and (pred is None or pred(i))]
        if shared is not None:
            sc = ['@' + s for s, i in shared.d.items() if s[0] == kind and (pred is None or pred(i))]
            if sc and (not c or self.r.random() < 0.5):
                return self.r.choice(sc)
        return self.r.choice(c) if c else None

    def own(self, st, kind, pred=None):
        c = [s for s, i in st.d.items() if s[0] == kind and (pred is None or pred(i))]
        return self.r.choice(c) if c else None

    def dst(self, st, kind):
        return '%s%d' % (kind, self.r.randrange(8 if kind == 'n' else 5))

    def info(self, st, shared, s):
        return (shared if s[0] == '@' else st).d[s.lstrip('@')]

    def step(self, cat, st, shared):
        r = self.r
        small = lambda lim: (lambda i: i['size'] <= lim)
        if cat == 'parse':
            if r.random() < 0.1:
                # numbers of any sign anywhere in the tree, as no text gives
                t = self.chain() if r.random() < 0.3 else self.formula(r.randint(1, 3))
                d = self.dst(st, 'n')
                st.d[d] = {'size': max(1, len(t) // 2)}
                return ['parse n9 ' + q(t), 'subs %s n9 %s vals %s' % (d, r.choice('cm'), self.values(r.sample(self.names, r.randint(1, len(self.names)))))]
            d, t = self.dst(st, 'n'), self.text()
            st.d[d] = {'size': max(1, len(t) // 2)}
            return ['%s %s %s' % (r.choice(['parse', 'parse', 'parsev', 'lit', 'parsez']), d, q(t if t else ' '))]
        if cat == 'build':
            k = r.random()
            d = self.dst(st, 'n')
            if k < 0.2:
                st.d[d] = {'size': 1}
                return ['num %s %s' % (d, hexd(self.value()))]
            if k < 0.4:
                st.d[d] = {'size': 1}
                return ['var %s %s' % (d, q(self.name()))]
            if k < 0.46:
                return ['var %s %s' % (d, q(self.badname()) or '%20')]
            a = self.src(st, shared, 'n', small(60))
            b = self.src(st, shared, 'n', small(60))
            if not a or not b:
                return []
            sz = self.info(st, shared, a)['size'] + self.info(st, shared, b)['size'] + 1
            if k < 0.6:
                own = a[0] != '@' and r.random() < 0.3
                st_a = self.info(st, shared, a)['size'] + 1
                if own:
                    del st.d[a]
                st.d[d] = {'size': st_a}
                return ['un %s %s %s %s' % (d, r.choice(APIFUNS), a, 'm' if own else 'c')]
            if k < 0.85:
                mode = r.choice(['cc', 'cc', 'mc', 'cm', 'mm'])
                if a == b or (a[0] == '@' and mode[0] == 'm') or (b[0] == '@' and mode[1] == 'm'):
                    mode = 'cc'
                for m, s in zip(mode, (a, b)):
                    if m == 'm':
                        st.d.pop(s, None)
                st.d[d] = {'size': sz}
                return ['bin %s %s %s %s %s' % (d, r.choice(OPS), a, b, mode)]
            o = self.own(st, 'n', small(60))
            if not o:
                return []
            m = 'c'
            if b[0] != '@' and b != o and r.random() < 0.3:
                m = 'm'
                st.d.pop(b, None)
            st.d[o] = {'size': sz + 60}
            return ['ass %s %s %s %s' % (r.choice(OPS), o, b, m)]
        if cat == 'copy':
            a = self.src(st, shared, 'n', small(200))
            if not a:
                return []
            d = self.dst(st, 'n')
            i = dict(self.info(st, shared, a))
            k = r.random()
            if k < 0.45:
                st.d[d] = i
                return ['%s %s %s' % (r.choice(['clone', 'clone', 'clonerec', 'implcopy']), d, a)]
            if k < 0.6:
                o = self.own(st, 'n')
                if o and o != a:
                    st.d[o] = i
                    return ['implassign %s %s' % (o, a)]
                return []
            if a[0] == '@':
                return []
            if k < 0.75:
                st.d.pop(a, None)
                st.d[d] = i
                return ['move %s %s' % (d, a)] if d != a else []
            if k < 0.85:
                st.d.pop(a, None)
                st.d[d] = i
                return ['implmovenew %s %s' % (d, a)] if d != a else []
            if k < 0.93:
                o = self.own(st, 'n')
                if not o or o == a:
                    return []
                st.d.pop(a, None)
                st.d[o] = i
                return ['implmove %s %s' % (o, a)]
            st.d.pop(a, None)
            return ['drop ' + a]
        if cat == 'show':
            k = r.choice('nnnnmvsqt')
            s = self.src(st, shared, k)
            if not s:
                return []
            if r.random() < 0.4:
                return ['print ' + s]
            return [{'n': 'str', 'm': 'mstr', 'v': 'mstr', 's': 'sstr', 'q': 'sstr', 't': 'tstr'}[k] + ' ' + s]
        if cat == 'eval':
            a = self.src(st, shared, 'n')
            if not a:
                return []
            k = r.random()
            if k < 0.3:
                return ['vpa ' + a]
            if k < 0.5:
                return ['vars ' + a]
            if k < 0.65:
                b = self.src(st, shared, 'n')
                return ['eq %s %s' % (a, b)]
            if k < 0.8:
                return ['check ' + a]
            if k < 0.86:
                return ['tostr ' + hexd(self.value())]
            if k < 0.9:
                return ['rawcalc %d %s %s' % (r.randint(1, 20), hexd(self.value()), hexd(self.value()))]
            if a[0] == '@':
                return []
            return ['calc ' + a]
        if cat == 'diff':
            a = self.src(st, shared, 'n', small(24))
            if not a:
                return []
            d = self.dst(st, 'n')
            mv = a[0] != '@' and r.random() < 0.25
            if mv:
                st.d.pop(a, None)
            st.d[d] = {'size': 150}
            return ['diff %s %s %s %d %s' % (d, a, q(self.name() if r.random() < 0.9 else 'nope'), r.choice([1, 1, 1, 2]),
                                             'm' if mv else 'c')]
        if cat == 'simp':
            a = self.own(st, 'n')
            return ['simp ' + a] if a else []
        if cat == 'subs':
            a = self.src(st, shared, 'n', small(60))
            if not a:
                return []
            d = self.dst(st, 'n')
            mv = a[0] != '@' and r.random() < 0.3
            sz = self.info(st, shared, a)['size']
            k = r.random()
            tail = None
            if k < 0.4:
                tail = 'vals ' + self.values(r.sample(self.names, r.randint(1, len(self.names))))
            elif k < 0.6:
                b = self.src(st, shared, 'n', small(12))
                if b:
                    tail = 'one %s %s' % (q(self.name()), b)
                    sz *= 6
                    mv = mv and (b != a or r.random() < 0.5)
            elif k < 0.75:
                t = self.src(st, shared, 't')
                if t:
                    tail = 'tab ' + t
            elif k < 0.9:
                b, c = self.src(st, shared, 'n', small(12)), self.src(st, shared, 'n', small(12))
                if b and c:
                    ns = r.sample(NAMES, 2)
                    tail = 'dict %s=%s,%s=%s' % (qa(ns[0]), b, qa(ns[1]), c)
                    sz *= 6
            else:
                qv = self.src(st, shared, 'q', lambda i: i['rows'] <= 3)
                if qv:
                    n = self.info(st, shared, qv)['rows']
                    tail = 'vecs %s %s' % (','.join(qa(x) for x in r.sample(NAMES, n)), qv)
                    sz *= 6
            if not tail:
                return []
            if mv:
                st.d.pop(a, None)
            st.d[d] = {'size': sz}
            return ['subs %s %s %s %s' % (d, a, 'm' if mv else 'c', tail)]
        if cat == 'mat':
            k = r.random()
            d = self.dst(st, 'm')
            if k < 0.3:
                rr, cc = r.randint(1, 4), r.randint(1, 4)
                if r.random() < 0.6:
                    cc = rr
                st.d[d] = {'r': rr, 'c': cc}
                return ['mat %s %d %d %s' % (d, rr, cc, self.numbers(rr * cc, r.random() < 0.5))]
            a = self.src(st, shared, 'm')
            if not a:
                return []
            i = self.info(st, shared, a)
            same = lambda j: j['r'] == i['r'] and j['c'] == i['c']
            o = a[0] != '@'
            if k < 0.45:
                b = self.src(st, shared, 'm', same)
                st.d[d] = dict(i)
                return ['%s %s %s %s' % (r.choice(['madd', 'msub', 'meach']), d, a, b)]
            if k < 0.55:
                b = self.src(st, shared, 'm', lambda j: j['r'] == i['c'])
                if not b:
                    return []
                st.d[d] = {'r': i['r'], 'c': self.info(st, shared, b)['c']}
                return ['mmul %s %s %s' % (d, a, b)]
            if k < 0.63:
                st.d[d] = dict(i)
                return ['%s %s %s %s' % (r.choice(['mscale', 'mscalel']), d, a, hexd(self.value()))]
            if k < 0.7:
                st.d[d] = {'r': i['c'], 'c': i['r']}
                return ['mtrans %s %s' % (d, a)]
            if k < 0.85 and i['r'] == i['c']:
                kk = r.choice(['minv', 'mdet', 'madj', 'mposdet'])
                if kk == 'mdet' or kk == 'mposdet':
                    return ['%s %s' % (kk, a)]
                if kk == 'madj' and i['r'] < 2:
                    return []
                if kk == 'minv' and i['r'] < 2:
                    return []
                st.d[d] = dict(i)
                return ['%s %s %s' % (kk, d, a)]
            if k < 0.9:
                b = self.src(st, shared, 'm', same)
                return [r.choice(['mnorms ' + a, 'meq %s %s' % (a, b), 'mless %s %s' % (a, b),
                                  'mrow %s %d' % (a, r.randrange(i['r'])),
                                  'mmaxrow %s 0 %d %d' % (a, i['r'] - 1, r.randrange(i['c']))])]
            if not o:
                st.d[d] = dict(i)
                return ['mcopy %s %s' % (d, a)]
            kk = r.randint(0, 8)
            if kk >= 7:
                row = r.random() < 0.5
                b = self.src(st, shared, 'm', lambda j: j['c'] == i['c'] if row else j['r'] == i['r'])
                f = 'r' if row else 'c'
                return ['%s %s %d %s %d' % ('mrowset' if row else 'mcolset', a, r.randrange(i[f]), b,
                                            r.randrange(self.info(st, shared, b)[f]))]
            if kk == 6:
                b = self.own(st, 'm', lambda j: j is not i)
                if not b:
                    return []
                st.d[a] = st.d.pop(b)
                return ['mmassign %s %s' % (a, b)]
            if kk == 0:
                return ['mswaprow %s %d %d' % (a, r.randrange(i['r']), r.randrange(i['r']))]
            if kk == 1:
                return ['mswapcol %s %d %d' % (a, r.randrange(i['c']), r.randrange(i['c']))]
            if kk == 2:
                n = {'r': r.randint(1, 4), 'c': r.randint(1, 4)}
                st.d[a] = n
                return ['mresize %s %d %d' % (a, n['r'], n['c'])]
            if kk == 3:
                return ['mset %s %d %d %s' % (a, r.randrange(i['r']), r.randrange(i['c']), hexd(self.value()))]
            if kk == 4:
                b = self.src(st, shared, 'm', same)
                return ['maddeq %s %s' % (a, b)]
            b = self.src(st, shared, 'm')
            st.d[a] = dict(self.info(st, shared, b))
            return ['massign %s %s' % (a, b)]
        if cat == 'vec':
            k = r.random()
            d = self.dst(st, 'v')
            if k < 0.35:
                n = r.randint(1, 4)
                st.d[d] = {'r': n}
                return ['vec %s %s' % (d, self.numbers(n))]
            a = self.src(st, shared, 'v')
            if not a:
                return []
            i = self.info(st, shared, a)
            b = self.src(st, shared, 'v', lambda j: j['r'] == i['r'])
            if k < 0.6:
                st.d[d] = dict(i)
                return ['%s %s %s %s' % (r.choice(['vadd', 'vsub', 'vmul', 'vdiv']), d, a, b)]
            if k < 0.75:
                st.d[d] = dict(i)
                return [r.choice(['vneg %s %s' % (d, a), 'vcopy %s %s' % (d, a),
                                  '%s %s %s %s' % (r.choice(['vscale', 'vscalel']), d, a, hexd(self.value()))])]
            if k < 0.92:
                return [r.choice(['vdot %s %s' % (a, b), 'vless %s %s' % (a, b), 'mnorms ' + a, 'meq %s %s' % (a, b)])]
            if a[0] == '@':
                return []
            if r.random() < 0.5:
                b = self.src(st, shared, 'v')
                if b[0] == '@' or b == a or r.random() < 0.6:
                    st.d[a] = dict(self.info(st, shared, b))
                    return ['vassign %s %s' % (a, b)]
                st.d[a] = st.d.pop(b)
                return ['vmassign %s %s' % (a, b)]
            n = r.randint(1, 4)
            st.d[a] = {'r': n}
            return ['vresize %s %d' % (a, n)]
        if cat == 'lin':
            a = self.src(st, shared, 'm')
            if a and r.random() < 0.4:
                i = self.info(st, shared, a)
                b = self.src(st, shared, 'v', lambda j: j['r'] == i['r'])
                if b:
                    st.d.pop('v7', None)
                    st.d['v7'] = {'r': i['c']}
                    return ['lin v7 %s %s' % (a, b)]
            n = r.randint(1, 4)
            m = n if r.random() < 0.75 else r.randint(1, 4)
            st.d['m6'] = {'r': n, 'c': m}
            st.d['v6'] = {'r': n}
            st.d['v7'] = {'r': m}
            return ['mat m6 %d %d %s' % (n, m, self.numbers(n * m, r.random() < 0.5)),
                    'vec v6 ' + self.numbers(n, r.random() < 0.5), 'lin v7 m6 v6']
        if cat == 'sym':
            k = r.random()
            d = self.dst(st, 's')
            pick = lambda n: [self.src(st, shared, 'n', small(30)) for _ in range(n)]
            if k < 0.3:
                rr, cc = r.randint(1, 3), r.randint(1, 2)
                if r.random() < 0.4:
                    cc = rr
                e = pick(rr * cc)
                if not all(e):
                    return []
                st.d[d] = {'r': rr, 'c': cc, 'n': 1}
                return ['sym %s %d %d %s' % (d, rr, cc, ','.join(e))]
            if k < 0.45:
                n = r.randint(1, 3)
                e = pick(n)
                if not all(e):
                    return []
                dq = self.dst(st, 'q')
                st.d[dq] = {'rows': n}
                return ['symvec %s %s' % (dq, ','.join(e))]
            if k < 0.5:
                e = pick(2)
                if not all(e):
                    return []
                st.d[d] = {'r': 2, 'c': 2, 'n': 1}
                return ['symlist %s %s %s' % (d, e[0], e[1])]
            if k < 0.55:
                m = self.src(st, shared, 'm')
                if not m:
                    return []
                i = self.info(st, shared, m)
                st.d[d] = {'r': i['r'], 'c': i['c'], 'n': 1}
                return ['symfrommat %s %s' % (d, m)]
            if k < 0.62:
                qv = self.src(st, shared, 'q')
                if not qv:
                    return []
                n = self.info(st, shared, qv)['rows']
                ns = r.sample(NAMES[:3], r.randint(1, 3))
                st.d[d] = {'r': n, 'c': len(ns), 'n': 9}
                return ['jac %s %s %s' % (d, qv, ','.join(qa(x) for x in ns))]
            a = self.src(st, shared, 's', lambda i: i['n'] < 4)
            if not a:
                return []
            i = self.info(st, shared, a)
            b = self.src(st, shared, 's', lambda j: j['r'] == i['r'] and j['c'] == i['c'] and j['n'] < 4)
            if k < 0.68:
                if a[0] != '@' and r.random() < 0.3:
                    b = self.own(st, 's', lambda j: j is not i)
                    if b:
                        st.d[b] = st.d.pop(a)
                        return ['smassign %s %s' % (b, a)]
                    if d != a:
                        st.d[d] = st.d.pop(a)
                        return ['smove %s %s' % (d, a)]
                st.d[d] = dict(i)
                return ['sclone %s %s' % (d, a)]
            if k < 0.74:
                st.d[d] = {'r': i['r'], 'c': i['c'], 'n': i['n'] + 1}
                return ['ssub %s %s %s' % (d, a, b)]
            if k < 0.79:
                c = self.src(st, shared, 's', lambda j: j['r'] == i['c'] and j['n'] < 3)
                if not c:
                    return []
                st.d[d] = {'r': i['r'], 'c': self.info(st, shared, c)['c'], 'n': i['n'] + 2}
                return ['smul %s %s %s' % (d, a, c)]
            if k < 0.85:
                return [r.choice(['svars ' + a, 'seq %s %s' % (a, b)])]
            if k < 0.88:
                dm = self.dst(st, 'm')
                st.d[dm] = {'r': i['r'], 'c': i['c']}
                return ['stomat %s %s' % (dm, a)]
            if k < 0.91:
                dn = self.dst(st, 'n')
                st.d[dn] = {'size': 40}
                return ['sget %s %s %d %d' % (dn, a, r.randrange(i['r']), r.randrange(i['c']))]
            if k < 0.93:
                dq = self.dst(st, 'q')
                if i['c'] == 1:
                    st.d[dq] = {'rows': i['r']}
                    return ['stovec %s %s' % (dq, a)]
                st.d[dq] = {'rows': i['r'] * i['c']}
                return ['stovec1 %s %s' % (dq, a)]
            if a[0] == '@':
                return []
            if k < 0.96:
                return ['ssubs %s vals %s' % (a, self.values())]
            if k < 0.98:
                return ['scalc ' + a]
            x = self.src(st, shared, 'n', small(30))
            return ['sset %s %d %d %s' % (a, r.randrange(i['r']), r.randrange(i['c']), x)] if x else []
        if cat == 'tab':
            k = r.random()
            d = self.dst(st, 't')
            if k < 0.4:
                ns = r.sample(NAMES, r.randint(1, 4))
                st.d[d] = {'names': ns}
                if r.random() < 0.6:
                    return ['tab %s %s' % (d, self.values(ns))]
                if len(ns) == 2:
                    return ['tablist %s %s %s %s %s' % (d, q(ns[0]), q(ns[1]), hexd(self.value()), hexd(self.value()))]
                return ['tabinit %s %s %s' % (d, ','.join(qa(n) for n in ns), hexd(self.value()))]
            a = self.src(st, shared, 't')
            if not a:
                return []
            i = self.info(st, shared, a)
            b = self.src(st, shared, 't')
            if k < 0.46:
                return ['tviews ' + a]
            if k < 0.56 and a[0] != '@':
                if r.random() < 0.5:
                    st.d[a] = dict(self.info(st, shared, b))
                    return ['tassign %s %s' % (a, b)]
                if b != a and b[0] != '@':
                    st.d[a] = st.d.pop(b)
                    return ['tmassign %s %s' % (a, b)]
                if d != a:
                    st.d[d] = st.d.pop(a)
                    return ['tmove %s %s' % (d, a)]
            if k < 0.8:
                return [r.choice(['thas %s %s' % (a, q(r.choice(NAMES))), 'tget %s %s' % (a, q(r.choice(i['names'] + ['nope']))),
                                  'teq %s %s' % (a, b), 'titer ' + a])]
            if k < 0.9 or a[0] == '@':
                st.d[d] = dict(i)
                return ['tcopy %s %s' % (d, a)]
            n = len(i['names'])
            v = self.src(st, shared, 'v', lambda j: j['r'] == n)
            return ['tabset %s %s' % (a, v)] if v else []
        if cat == 'solve':
            eqs, vs, x0 = r.choice(SYSTEMS)
            if len(eqs) != len(vs) and r.random() < 0.5:
                eqs, vs, x0 = r.choice(SYSTEMS[:13])
            ops = ['parse n%d %s' % (20 + i, q(e)) for i, e in enumerate(eqs)]
            ops.append('symvec q7 ' + ','.join('n%d' % (20 + i) for i in range(len(eqs))))
            st.d['t7'] = {'names': vs}
            if r.random() < 0.25:
                ops.append('solve1 t7 q7')
            else:
                if r.random() < 0.4:
                    # the unknowns in an order of the caller's
                    z = list(zip(vs, x0))
                    r.shuffle(z)
                    st.d['v7'] = {'r': len(z)}
                    ops += ['tabinit t6 %s %s' % (','.join(qa(v) for v, x in z), hexd(z[0][1])), 'vec v7 ' + ','.join(hexd(x) for v, x in z), 'tabset t6 v7']
                else:
                    ops.append('tab t6 ' + ','.join('%s=%s' % (qa(v), hexd(x)) for v, x in zip(vs, x0)))
                ops.append('solve t7 %s q7 t6' % r.choice(['nr', 'lm', 'cfg']))
            return ops
        if cat == 'line':
            n = r.randint(1, 3)
            st.d['v4'] = {'r': n}
            ops = ['vec v4 ' + self.numbers(n), 'vec v5 ' + self.numbers(n)]
            st.d['v5'] = {'r': n}
            if r.random() < 0.6:
                ops.append('armijo v4 v5 kind=%d' % r.randrange(9))
            else:
                ops.append('findalpha v4 v5 %s kind=%d' % (hexd(1e-5), r.randrange(9)))
            return ops
        if cat == 'err':
            k = r.random()
            if k < 0.3:
                return ['matherr %d %s' % (r.randrange(16), q(r.choice(['x', 'some information', 'z' * 50])))]
            if k < 0.5:
                return ['errinfo %d' % r.randrange(16)]
            if k < 0.7:
                return ['opstr %d' % r.randrange(1, 24)]
            return ['op n9 0']
        if cat == 'name':
            if r.random() < 0.3:
                return ['var n9 ' + (q(lookalike(r, self.name()) if r.random() < 0.5 else self.badname()) or '%20')]
            return ['legal ' + (q(r.choice(NAMES) if r.random() < 0.5 else self.badname()) or '%20')]
        raise AssertionError(cat)


class State:
    """what a generated program believes its slots hold"""
    def __init__(self):
        self.d = {}
    def copy(self):
        s = State()
        s.d = {k: dict(v) for k, v in self.d.items()}
        return s
