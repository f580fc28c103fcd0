"""C18: formula text damaged on its way in."""
import re
from .common import *
from .state import add_faults
from .. import formula as F
from ..gen import NAMES
from ..server import unq


def damage(rng, texts):
    """bytes of one of the texts, damaged"""
    b = bytearray(rng.choice(texts).encode('latin-1', 'replace'))
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        k = rng.randrange(10)
        n = len(b)
        i = rng.randrange(n + 1)
        j = rng.randrange(n + 1)
        i, j = min(i, j), max(i, j)
        if k == 0:
            del b[i:]
        elif k == 1:
            del b[:i]
        elif k == 2 and i < n:
            b[i] ^= 1 << rng.randrange(8)
        elif k == 3 and i < n:
            del b[i]
        elif k == 4:
            b[i:i] = b[i:j]
        elif k == 5 and n > 1:
            i, j = rng.randrange(n), rng.randrange(n)
            b[i], b[j] = b[j], b[i]
        elif k == 6:
            o = rng.choice(texts).encode('latin-1', 'replace')
            x = rng.randrange(len(o) + 1)
            b = b[:i] + bytearray(o[x:])
        elif k == 7:
            del b[i:j]
        elif k == 8 and i < n:
            b[i] = rng.randrange(256)
        else:
            b[i:i] = rng.choice([b'(', b')', b'()', b'-', b'+', b'*', b'/', b'^', b'.', b'e', b',', b' ', b'  ', b'\t', b'\r\n', b'\x00', b'%', b'&', b'|', b'=', b'#', b'\xff\xfe',
                                 b'sin', b'sin(', b'log2(', b'1e', b'0x', b'inf', b'nan', b'9' * 40, b'((((((((', b'))))))', b'--------', b'\xe5\x8f\x98'])
    return bytes(b)


UNITS = [b'(', b')', b'-(', b'sin(', b'((', b'(x+', b'x*(', b'2^(', b')(', b'()', b'-', b'+', b'- ', b'^-', b'x^', b'x ', b'1+', b'.', b'9', b'0', b'e', b'x', b'_', b' ', b'\t', b'\n', b'\xff',
         b',', b'exp(', b'((x)', b'x+', b'2*', b'x-', b'cos', b'1e', b'log2(-']


def endless(rng, texts):
    """a text in which something is repeated very often, somewhere"""
    b = bytearray(rng.choice(texts).encode('latin-1', 'replace'))
    i = rng.randrange(len(b) + 1)
    u = rng.choice(UNITS)
    k = rng.choice([20, 60, 130, 257, 300, 600, 1100, 2500, 5000])
    k = min(k, 6000 // len(u))
    b[i:i] = u * k
    if rng.random() < 0.4:
        b += rng.choice(UNITS) * min(rng.choice([k, k - 1, k + 1, 3]), 6000)
    return bytes(b)


def balanced(b):
    d = 0
    for c in b:
        d += (c == 40) - (c == 41)
        if d < 0:
            return False
    return d == 0


class C18(Check):
    id = 'C18'
    counts = {'quick': 50000, 'thorough': 300000}
    technique = 'deterministic simulation: damage injected into formula texts, with neighbouring reads as witnesses'
    rule = ('one seed makes some formulas, and damages copies of them (cut, flip, drop, duplicate, exchange, splice, insert). Damaged and undamaged texts are read '
            'alternately, some under an allocation failure; accepted ones are printed, copied, evaluated and destroyed. Undamaged texts must mean what an '
            'independent reader says and what they mean in a pristine process')

    def cases(self, rng, run, tier):
        g = G(rng)
        vs = rng.sample(['x', 'y', 'z', 'a1'], rng.randint(1, 3))
        asts = [F.generate(rng, vs, rng.randint(1, 4)) for _ in range(3)]
        texts = [F.text(a) for a in asts] + [g.formula(rng.randint(1, 4)), g.chain()]
        if rng.random() < 0.15:
            texts += [g.rich(), g.chain() + rng.choice('+-*') + g.chain() + rng.choice('+-*') + g.rich()]
        vals = ','.join('%s=%s' % (v, hexd(rng.choice([1.5, 0.5, 2.0, -1.0]))) for v in vs)
        allv = ','.join('%s=%s' % (qa(v), hexd(0.75)) for v in sorted(set(NAMES) | {'x', 'y', 'z'}))
        ops = []
        for _ in range(rng.randint(2, 6)):
            if rng.random() < 0.35:
                t = rng.choice(texts[:3])
                ops += ['parse n0 ' + q(t), 'str n0', 'subs n1 n0 %s vals %s' % (rng.choice('cm'), vals), 'vpa n1']
                continue
            long = rng.random() < 0.04
            b = endless(rng, texts) if long else damage(rng, texts)
            run.fired['endless text' if long else 'damaged text'] += 1
            s = rng.randint(2, 6)
            how = rng.choice(['parse', 'parsev', 'parsev', 'lit', 'parsez'])
            ops += ['%s n%d %s' % (how, s, q(b)) if q(b) else '%s n%d %%20' % (how, s)]
            d = 'n%d' % s
            more = [['str ' + d], ['print ' + d], ['clone n8 ' + d, 'eq n8 ' + d, 'eq %s n8' % d], ['check ' + d], ['vars ' + d], ['vpa ' + d],
                    ['subs n9 %s c vals %s' % (d, allv), 'vpa n9', 'calc n9'], ['clone n10 ' + d, 'simp n10', 'str n10'], ['diff n11 %s x 1 c' % d, 'str n11'],
                    ['un n12 neg %s c' % d, 'bin n13 + %s n12 cc' % d, 'str n13'], ['drop ' + d]]
            if long:
                more = more[:6]
            for m in rng.sample(more, min(len(more), rng.randint(2, 6))):
                if m[0].startswith('drop'):
                    continue
                ops += m
            if rng.random() < 0.3:
                ops.append('drop ' + d)
        if rng.random() < 0.3:
            b = damage(rng, vs)
            run.fired['damaged text'] += 1
            ops.append('legal ' + (q(b) or '%20'))
            ops.append('var n14 ' + (q(b) or '%20'))
        t = rng.choice(texts[:3])
        ops += ['parse n0 ' + q(t), 'str n0', 'subs n1 n0 c vals ' + vals, 'vpa n1']
        pre = ['setcfg inv 0'] if rng.random() < 0.2 else []
        base = {'variant': rng.choice('AB'), 'main': True, 'budget': BUDGET, 'progs': {'0': ops, '4': pre}}
        if rng.random() < 0.4:
            base['env'] = {'heap': rng.randrange(1, 1 << 30), 'policy': rng.randrange(4)}
        yield base
        if rng.random() < 0.3:
            c = dict(base)
            add_faults(rng, c, rng.choice([1, 2]), run, ('alloc',))
            if c['faults']:
                yield c

    def judge(self, c, run):
        r = run.plan(c)
        ops = c['progs'].get('0') or []
        out = []
        for k, t, op, text in r.viol:
            if k in MEMORY or k == 'malformed':
                out.append((k, '%s: %s' % (ops[op] if 0 <= op < len(ops) else 'destruction', text)))
        if r.fatal:
            if r.firedA and terminates(r.fatal[0]):
                run.outcomes['terminated-for-lack-of-memory'] += 1
                return out
            return out + [('died', '%s: %s' % (ops[r.fatal[2]] if r.fatal[2] < len(ops) else 'destruction', r.fatal))]
        got = r.outcomes(0)
        inv = 'setcfg inv 0' not in (c['progs'].get('4') or [])
        acc, ast = {}, {}
        last = None
        for i, o in enumerate(ops):
            if i not in got:
                break
            w = o.split(' ')
            t = got[i].text
            st = t.split(' ')[0]
            if st == 'unknown' or st == 'int':
                out.append(('not-std', '%s: %s' % (o, t)))
            if t == 'bad_alloc' and not got[i].fa:
                out.append(('no-memory', '%s: %s' % (o, t)))
            if w[0] in ('parse', 'parsev', 'lit', 'parsez'):
                run.outcomes['read ' + st] += 1
                b = unq(w[2]).encode('utf-8', 'surrogateescape')
                if w[0] in ('lit', 'parsez'):
                    b = b.split(b'\0')[0]
                if st == 'ok':
                    acc[w[1]] = b
                    if not balanced(b) or not re.search(rb'[A-Za-z0-9_]', b):
                        out.append(('accepted', '%s: %s' % (o, t)))
                    if t == 'ok null':
                        out.append(('empty', '%s: %s' % (o, t)))
                else:
                    acc.pop(w[1], None)
                    if not got[i].fa:
                        last = i
                ast.pop(w[1], None)
                if w[1] == 'n0' and not got[i].fa:
                    try:
                        a = F.parse(b.decode('latin-1'))
                        if F.text(a) == b.decode('latin-1'):
                            ast['n0'] = a
                    except Exception:
                        pass
                    if 'n0' in ast and st != 'ok':
                        out.append(('rejected-undamaged', '%s: %s' % (o, t)))
                        del ast['n0']
                    if 'n0' in ast:
                        x = run.ref(dict(c, progs={'0': [o, 'str n0']}, faults=[])).outcomes(0)
                        if x[0].text != t:
                            out.append(('neighbour', '%s\n    alone: %s\n    here:  %s' % (o, x[0].text, t)))
                continue
            d = w[1]
            if w[0] in ('clone', 'str', 'print', 'eq', 'check', 'vars') and d not in acc and not (w[0] == 'clone'):
                continue
            if w[0] == 'clone' and w[2] in acc:
                if st == 'ok':
                    acc[d] = acc[w[2]]
                elif not got[i].fa:
                    out.append(('not-copied', '%s of %r: %s' % (o, acc[w[2]], t)))
            elif w[0] == 'eq' and w[1] in acc and w[2] in acc and acc[w[1]] == acc[w[2]] and b'nan' not in acc[w[1]].lower():
                if t != 'ok B:1' and not got[i].fa:
                    out.append(('not-equal', '%s of %r: %s' % (o, acc[d], t)))
            elif w[0] in ('str', 'print', 'check', 'vars') and not got[i].fa:
                if st != 'ok':
                    out.append(('not-usable', '%s of %r: %s' % (o, acc[d], t)))
            elif w[0] == 'drop':
                acc.pop(d, None)
            elif w[0] == 'simp':
                acc.pop(d, None)
            elif w[0] == 'subs' and d == 'n1':
                ast.pop('n1', None)
                if 'n0' in ast and st == 'ok':
                    ast['n1'] = (ast['n0'], {x.split('=')[0]: unhexd(x.split('=')[1]) for x in w[5].split(',')})
                if w[3] == 'm':
                    ast.pop('n0', None)
                    acc.pop('n0', None)
            elif w[0] == 'vpa' and d == 'n1' and 'n1' in ast and not got[i].fa:
                a, vals = ast['n1']
                try:
                    v, e = F.evaluate(a, vals)
                except F.Invalid:
                    if inv and not t.startswith('math 0'):
                        out.append(('meaning', '%s with %s: %s, which is undefined' % (F.text(a), vals, t)))
                    continue
                except KeyError:
                    continue
                run.outcomes['value checked'] += 1
                if not t.startswith('ok D:') or not abs(unhexd(t[5:21]) - v) <= 4 * e + 1e-9 * abs(v):
                    out.append(('meaning', '%s with %s: %s instead of %r' % (F.text(a), vals, t, v)))
        if last:
            # the report of a damaged text is about that text alone
            x = run.ref(dict(c, progs={'0': [ops[last]], '4': c['progs'].get('4') or []}, faults=[])).outcomes(0)
            if x[0].text != got[last].text:
                out.append(('neighbour', '%s\n    alone: %s\n    here:  %s' % (ops[last], x[0].text, got[last].text)))
        return out
