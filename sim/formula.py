"""An independent evaluator of formula texts (fully parenthesised or plain), with an error bound."""
import math, re

TOK = re.compile(r'\s*(?:(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)|([A-Za-z_]\w*)|(.))')
FUN = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'arcsin': math.asin, 'arccos': math.acos, 'arctan': math.atan,
       'sqrt': math.sqrt, 'log': math.log, 'log2': math.log2, 'log10': math.log10, 'exp': math.exp}
U = 2.0 ** -50


class Invalid(Exception):
    """a number that is not finite arises"""


def tokens(s):
    out = []
    i = 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        out.append(m.group(1) or m.group(2) or m.group(3))
        i = m.end()
    return out


class Parser:
    def __init__(self, s):
        self.t = tokens(s)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def expr(self, p=0):
        t = self.next()
        if t == '(':
            a = self.expr()
            assert self.next() == ')'
        elif t in '+-':
            a = ('neg' if t == '-' else 'pos', self.expr(4))
        elif t in FUN:
            assert self.next() == '('
            a = (t, self.expr())
            assert self.next() == ')'
        elif t[0].isdigit() or t[0] == '.':
            a = float(t)
        else:
            a = t
        while self.peek() in ('+', '-', '*', '/', '^'):
            o = self.peek()
            r = {'+': 1, '-': 1, '*': 2, '/': 2, '^': 3}[o]
            if r < p or (r == p and o != '^'):
                break
            if r <= p and o == '^' and r < p:
                break
            self.next()
            a = (o, a, self.expr(r))
        return a


def parse(s):
    p = Parser(s)
    a = p.expr()
    assert p.peek() is None, s
    return a


def names(a):
    if isinstance(a, str):
        return {a}
    if isinstance(a, tuple):
        return set().union(*(names(x) for x in a[1:]))
    return set()


def evaluate(a, env):
    """(value, bound of the rounding error); Invalid when a number arises that is not finite"""
    if isinstance(a, float):
        return a, 0.0
    if isinstance(a, str):
        return env[a], 0.0
    o = a[0]
    x, ex = evaluate(a[1], env)
    try:
        if len(a) == 2:
            if o == 'neg':
                return -x, ex
            if o == 'pos':
                return x, ex
            v = FUN[o](x)
            if o in ('sin', 'cos'):
                e = ex
            elif o == 'exp':
                e = ex * v
            elif o == 'sqrt':
                e = ex / (2 * v) if v else ex
            elif o == 'arctan':
                e = ex
            elif o in ('log', 'log2', 'log10'):
                e = 2 * ex / abs(x)
            else:
                d = abs(x) * 1e-7 + 1e-12
                e = ex * 1e3
        else:
            y, ey = evaluate(a[2], env)
            if o == '+':
                v, e = x + y, ex + ey
            elif o == '-':
                v, e = x - y, ex + ey
            elif o == '*':
                v, e = x * y, abs(x) * ey + abs(y) * ex + ex * ey
            elif o == '/':
                v = x / y
                e = (ex + abs(v) * ey) / abs(y)
            else:
                v = math.pow(x, y)
                e = abs(v) * (abs(y) * ex / abs(x) + abs(ey * math.log(abs(x)))) if x else 0.0
    except (ZeroDivisionError, ValueError, OverflowError):
        raise Invalid()
    if not math.isfinite(v):
        raise Invalid()
    return v, e + abs(v) * U


def text(a):
    """fully parenthesised"""
    if isinstance(a, float):
        r = repr(a)
        # the library does not read exponents with a sign
        return format(a, '.40f').rstrip('0') if 'e' in r and abs(a) < 1 else format(a, 'f') if 'e' in r else r
    if isinstance(a, str):
        return a
    if len(a) == 2:
        if a[0] in ('neg', 'pos'):
            return '(%s%s)' % ('-' if a[0] == 'neg' else '+', text(a[1]))
        return '%s(%s)' % (a[0], text(a[1]))
    return '(%s%s%s)' % (text(a[1]), a[0], text(a[2]))


def generate(rng, names, depth, consts=(0.0, 1.0, 2.0, 3.0, 0.5, 0.25, 10.0, 1.5, 4.0), funs=tuple(FUN), pv=0.6):
    if depth <= 0 or rng.random() < 0.15:
        return rng.choice(names) if names and rng.random() < pv else rng.choice(consts)
    k = rng.random()
    if k < 0.6:
        o = rng.choice('++--**/^')
        if o == '^':
            return (o, generate(rng, names, depth - 1, consts, funs, pv), rng.choice([2.0, 3.0, 0.5, 2.0, 1.0]))
        return (o, generate(rng, names, depth - 1, consts, funs, pv), generate(rng, names, depth - 1, consts, funs, pv))
    if k < 0.88 and funs:
        return (rng.choice(funs), generate(rng, names, depth - 1, consts, funs, pv))
    return ('neg', generate(rng, names, depth - 1, consts, funs, pv))
