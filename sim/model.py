"""What operations on matrices, vectors, symbolic matrices and variable tables must give: a small executable reference.

expected(words, state) -> None (whatever the call says), or
  ('fp', fingerprint)             the exact contents
  ('mat', r, c, values, tol)      values to within the given absolute tolerances (None: anything)
  ('sym', r, c, groups)           values at the probe points, None: anything
told(words, state) -> None or a list of acceptable outcome texts of a call that only reads
state: slot -> fingerprint as the simulator prints it"""
import math
from fractions import Fraction
from .server import hexd, unhexd, unq


def mat_of(fp):
    head, body = fp.split(':', 1)
    r, c = head[1:].split('x')
    return int(r), int(c), [unhexd(x) for x in body.split(',') if x]


def hexn(x):
    return '7ff8000000000000' if x != x else hexd(x)


def mat_fp(r, c, v):
    return 'M%dx%d:' % (r, c) + ''.join(hexn(x) + ',' for x in v)


def canon(fp):
    """the fingerprint with one spelling of nan"""
    if not fp or fp[0] != 'M':
        return fp
    return mat_fp(*mat_of(fp))


def numbers(s):
    return [unhexd(x) for x in s.split(',') if x]


def tab_of(fp):
    """(names in the order of the vector, {name: value})"""
    body = fp.split(':', 1)[1]
    m, v = body.rsplit('/', 1) if '/' in body else (body, '')
    names, d = [], {}
    for x in v.split(','):
        if x:
            k, h = x.rsplit('=', 1)
            names.append(k)
            d[k] = unhexd(h)
    return names, d


def tab_fp(names, d):
    key = lambda n: n.encode('utf-8', 'surrogateescape')
    return 'T%d:' % len(d) + ''.join('%s=%s,' % (n, hexn(d[n])) for n in sorted(d, key=key)) + '/' + \
        ''.join('%s=%s,' % (n, hexn(d[n])) for n in names)


def pairs(s):
    d = {}
    for x in s.split(','):
        k, h = x.rsplit('=', 1)
        d[unq(k)] = unhexd(h)
    return d


def div(a, b):
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def mul(a, b):
    try:
        return a * b
    except OverflowError:
        return math.inf


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    s = Fraction(0)
    for j in range(n):
        if m[0][j]:
            s += (-1) ** j * m[0][j] * det([row[:j] + row[j + 1:] for row in m[1:]])
    return s


def perm(m):
    """the sum of the magnitudes of the terms of the determinant"""
    n = len(m)
    if n == 1:
        return abs(m[0][0])
    return sum(abs(m[0][j]) * perm([row[:j] + row[j + 1:] for row in m[1:]]) for j in range(n) if m[0][j])


def square(fp):
    r, c, x = mat_of(fp)
    if r != c or not all(math.isfinite(v) and (v == 0 or 1e-12 < abs(v) < 1e12) for v in x):
        return None
    f = [Fraction(v) for v in x]
    return [f[i * c:(i + 1) * c] for i in range(r)]


def minor(m, i, j):
    return [row[:j] + row[j + 1:] for k, row in enumerate(m) if k != i]


def flt(x):
    try:
        return float(x)
    except OverflowError:
        return math.inf


def adjugate(m):
    """values and tolerances, row by row"""
    n = len(m)
    v, t = [], []
    for i in range(n):
        for j in range(n):
            a = minor(m, j, i)
            v.append(flt((-1) ** (i + j) * det(a)))
            t.append(flt(perm(a)) * 1e-12)
    return v, t


def groups(fp):
    """the values at the probe points, element by element"""
    out = []
    for g in fp.split(';')[1:]:
        out.append([None if x in ('err', 'null') else unhexd(x) for x in g.split(',')])
    return out


def shape(fp):
    r, c = fp.split(':', 1)[0][1:].split('x')
    return int(r), int(c)


def fine(x):
    return x is not None and math.isfinite(x) and abs(x) < 1e150


def expected(w, st):
    o = w[0]
    g = st.get
    if o in ('mcopy', 'mmove', 'massign', 'vassign', 'mmassign', 'vmassign', 'vcopy', 'tcopy', 'tassign', 'tmove', 'tmassign', 'sclone',
             'smove', 'smassign', 'qmassign', 'mtovec') and g(w[2]):
        return 'fp', g(w[2])
    if o == 'mat':
        return 'fp', mat_fp(int(w[2]), int(w[3]), numbers(w[4]))
    if o == 'vec':
        v = numbers(w[2])
        return 'fp', mat_fp(len(v), 1, v)
    if o == 'matinit':
        return 'fp', mat_fp(int(w[2]), int(w[3]), [unhexd(w[4])] * (int(w[2]) * int(w[3])))
    if o == 'vecinit':
        return 'fp', mat_fp(int(w[2]), 1, [unhexd(w[3])] * int(w[2]))
    if o in ('madd', 'msub', 'maddeq', 'vadd', 'vsub', 'vmul', 'vdiv'):
        a, b = (g(w[1]), g(w[2])) if o == 'maddeq' else (g(w[2]), g(w[3]))
        if not a or not b:
            return None
        r, c, x = mat_of(a)
        y = mat_of(b)[2]
        f = {'sub': lambda p, q: p - q, 'mul': mul, 'div': div}.get(o[1:], lambda p, q: p + q)
        return 'fp', mat_fp(r, c, [f(p, q) for p, q in zip(x, y)])
    if o in ('mscale', 'mscalel', 'vscale', 'vscalel') and g(w[2]):
        r, c, x = mat_of(g(w[2]))
        k = unhexd(w[3])
        return 'fp', mat_fp(r, c, [mul(p, k) for p in x])
    if o in ('mneg', 'vneg') and g(w[2]):
        r, c, x = mat_of(g(w[2]))
        return 'fp', mat_fp(r, c, [-p for p in x])
    if o == 'mtrans' and g(w[2]):
        r, c, x = mat_of(g(w[2]))
        return 'fp', mat_fp(c, r, [x[i * c + j] for j in range(c) for i in range(r)])
    if o == 'mmul' and g(w[2]) and g(w[3]):
        r, k, x = mat_of(g(w[2]))
        _, c, y = mat_of(g(w[3]))
        v, t = [], []
        for i in range(r):
            for j in range(c):
                p = [mul(x[i * k + m], y[m * c + j]) for m in range(k)]
                a = sum(map(abs, p))
                v.append(sum(p) if math.isfinite(a) else None)
                t.append(a * 1e-12)
        return 'mat', r, c, v, t
    if o in ('mresize', 'vresize') and g(w[1]):
        r, c, x = mat_of(g(w[1]))
        nr, nc = int(w[2]), int(w[3]) if o == 'mresize' else 1
        return 'fp', mat_fp(nr, nc, [x[i * c + j] if i < r and j < c else 0.0 for i in range(nr) for j in range(nc)])
    if o in ('mswaprow', 'mswapcol', 'mset', 'mfill', 'mrowset', 'mcolset') and g(w[1]):
        r, c, x = mat_of(g(w[1]))
        if o == 'mset':
            x[int(w[2]) * c + int(w[3])] = unhexd(w[4])
        elif o == 'mfill':
            k = unhexd(w[2])
            x = [float(i == j) for i in range(r) for j in range(c)] if k == 1 else [k] * (r * c)
        elif o == 'mrowset':
            if not g(w[3]):
                return None
            _, d, y = mat_of(g(w[3]))
            i, j = int(w[2]), int(w[4])
            x[i * c:(i + 1) * c] = y[j * d:(j + 1) * d]
        elif o == 'mcolset':
            if not g(w[3]):
                return None
            _, d, y = mat_of(g(w[3]))
            i, j = int(w[2]), int(w[4])
            for k in range(r):
                x[k * c + i] = y[k * d + j]
        else:
            i, j = int(w[2]), int(w[3])
            rows = [x[k * c:(k + 1) * c] for k in range(r)]
            if o == 'mswaprow':
                rows[i], rows[j] = rows[j], rows[i]
            else:
                for row in rows:
                    row[i], row[j] = row[j], row[i]
            x = sum(rows, [])
        return 'fp', mat_fp(r, c, x)
    if o in ('madj', 'minv') and g(w[2]):
        m = square(g(w[2]))
        if not m or len(m) < 2:
            return None
        v, t = adjugate(m)
        if o == 'minv':
            d, p = det(m), perm(m)
            if not d or abs(d) < p * Fraction(1, 10 ** 6):
                return None
            k = abs(flt(d))
            e = flt(p) * 1e-12
            t = [y / k + abs(x) * e / (k * k) for x, y in zip(v, t)]
            v = [x / flt(d) for x in v]
        return 'mat', len(m), len(m), v, t
    # ---- tables
    if o == 'tab':
        d = pairs(w[2])
        return 'fp', tab_fp(sorted(d, key=lambda n: n.encode('utf-8', 'surrogateescape')), d)
    if o == 'tabinit':
        names = [unq(x) for x in w[2].split(',')]
        return 'fp', tab_fp(names, {n: unhexd(w[3]) for n in names})
    if o == 'tablist':
        d = {unq(w[3]): unhexd(w[5])}
        d[unq(w[2])] = unhexd(w[4])
        return 'fp', tab_fp(sorted(d, key=lambda n: n.encode('utf-8', 'surrogateescape')), d)
    if o == 'tabset' and g(w[1]) and g(w[2]):
        names, _ = tab_of(g(w[1]))
        return 'fp', tab_fp(names, dict(zip(names, mat_of(g(w[2]))[2])))
    # ---- symbolic matrices
    if o in ('sym', 'symvec', 'symvec2', 'symlist'):
        el = w[4].split(',') if o == 'sym' else w[2].split(',') if o == 'symvec' else [w[2], w[3], w[3], w[2]] if o == 'symlist' else [w[2], w[3]]
        r, c = (int(w[2]), int(w[3])) if o == 'sym' else (2, 2) if o == 'symlist' else (len(el), 1)
        gs = []
        for s in el:
            if not g(s):
                return None
            gs += groups(g(s)) or [[None]]
        return 'sym', r, c, gs
    if o == 'symfrommat' and g(w[2]):
        r, c, x = mat_of(g(w[2]))
        return 'sym', r, c, [[v, v] for v in x]
    if o == 'ssub' and g(w[2]) and g(w[3]):
        r, c = shape(g(w[2]))
        return 'sym', r, c, [[p - q if fine(p) and fine(q) else None for p, q in zip(a, b)] for a, b in zip(groups(g(w[2])), groups(g(w[3])))]
    if o == 'smul' and g(w[2]) and g(w[3]):
        r, k = shape(g(w[2]))
        _, c = shape(g(w[3]))
        a, b = groups(g(w[2])), groups(g(w[3]))
        gs = []
        for i in range(r):
            for j in range(c):
                one = []
                for p in range(2):
                    f = [(a[i * k + m][p] if len(a[i * k + m]) > p else None, b[m * c + j][p] if len(b[m * c + j]) > p else None) for m in range(k)]
                    if all(fine(x) and fine(y) and abs(x * y) < 1e6 for x, y in f):
                        one.append(sum(x * y for x, y in f))
                    else:
                        one.append(None)
                gs.append(one)
        return 'sym', r, c, gs
    if o == 'sset' and g(w[1]) and g(w[4]):
        r, c = shape(g(w[1]))
        gs = groups(g(w[1]))
        gs[int(w[2]) * c + int(w[3])] = (groups(g(w[4])) or [[None]])[0]
        return 'sym', r, c, gs
    if o == 'sget' and g(w[2]):
        r, c = shape(g(w[2]))
        return 'vals', groups(g(w[2]))[int(w[3]) * c + int(w[4])]
    if o in ('stovec', 'stovec1') and g(w[2]):
        r, c = shape(g(w[2]))
        return 'sym', r * c, 1, groups(g(w[2]))
    if o == 'stomat' and g(w[2]):
        r, c = shape(g(w[2]))
        v = [x[0] for x in groups(g(w[2]))]
        return 'mat', r, c, [x if fine(x) else None for x in v], [abs(x) * 1e-9 + 1e-9 if fine(x) else 0 for x in v]
    return None


def num_text(x):
    """tomsolver::ToString(double)"""
    if x == 0:
        return '0'
    if x != x:
        return None
    if math.isinf(x):
        return 'inf' if x > 0 else '-inf'
    a = abs(x)
    s = '%.16e' % x if a >= 1e16 or a <= 1e-16 else '%.16f' % x
    m, e, t = s.partition('e')
    m = m.rstrip('0')
    return (m[:-1] if m.endswith('.') else m) + e + t


def tab_text(names, d):
    out = ''
    for n in sorted(d, key=lambda n: n.encode('utf-8', 'surrogateescape')):
        t = num_text(d[n])
        if t is None:
            return None
        out += '%s = %s\n' % (n, t)
    return out


def told(w, st):
    o = w[0]
    g = st.get
    if o in ('thas', 'tget', 'tstr', 'titer', 'tviews', 'tmoved') and g(w[1]):
        names, d = tab_of(g(w[1]))
        if o == 'thas':
            return ['ok B:%d' % (unq(w[2]) in d)]
        if o == 'tget':
            n = unq(w[2])
            if n in d:
                return ['ok D:' + hexn(d[n])]
            return ['std std::out_of_range no such variable: ' + n]
        if o == 'tstr':
            t = tab_text(names, d)
            return None if t is None else ['ok X:' + t]
        if o == 'titer':
            s = 0.0
            for n in sorted(d, key=lambda n: n.encode('utf-8', 'surrogateescape')):
                s += mul(d[n], float(len(n.encode('utf-8', 'surrogateescape'))))
            return ['ok L:' + hexn(s + len(d))]
    if o == 'teq' and g(w[1]) and g(w[2]):
        a, b = tab_of(g(w[1]))[1], tab_of(g(w[2]))[1]
        if set(a) != set(b):
            return ['ok B:0']
        if not all(math.isfinite(x) for x in list(a.values()) + list(b.values())):
            return None
        m = max(abs(a[n] - b[n]) for n in a)
        if m == 0 or m > 1:  # otherwise the setting decides
            return ['ok B:%d' % (m == 0)]
    return None


def views(text, w, st):
    """what is wrong with the outcome of tviews, or None"""
    if not st.get(w[1]):
        return None
    names, d = tab_of(st[w[1]])
    f = dict(x.split('=', 1) for x in text[len('ok W:'):].split(' '))
    if w[0] == 'tmoved':  # whatever a table that was moved from holds, its views agree
        names = [unq(x) for x in f['vars'].split(',')[:-1]]
        got = [unhexd(x) for x in f['get'].split(',')[:-1]]
        if len(got) != len(names) or len(set(names)) != len(names):
            return 'names ' + f['vars']
        d = dict(zip(names, got))
    key = lambda n: n.encode('utf-8', 'surrogateescape')
    order = sorted(d, key=key)
    if f['n'] != str(len(d)):
        return 'count %s' % f['n']
    if [unq(x) for x in f['vars'].split(',')[:-1]] != names:
        return 'names ' + f['vars']
    none = not names and w[0] == 'tmoved' and f['values'].startswith('M0x')
    if not none and canon(f['values']) != mat_fp(len(names), 1, [d[n] for n in names]):
        return 'values ' + f['values']
    for k in ('iter', 'citer'):
        got = [x.rsplit('=', 1) for x in f[k].split(',')[:-1]]
        if [unq(x) for x, _ in got] != order or [hexn(unhexd(v)) for _, v in got] != [hexn(d[n]) for n in order]:
            return 'iteration ' + f[k]
    if f['has'] != '1' * len(names):
        return 'Has ' + f['has']
    if [hexn(unhexd(x)) for x in f['get'].split(',')[:-1]] != [hexn(d[n]) for n in names]:
        return 'lookup ' + f['get']
    t = tab_text(names, d)
    if t is not None and (unq(f['text']) != t or f['out'] != '!' and unq(f['out']) != t):
        return 'text %r, streamed %r' % (unq(f['text']), unq(f['out']))
    if all(v - v == 0 for v in d.values()) and f['same'] != '1':
        return 'not equal to a copy of itself'
    return None
