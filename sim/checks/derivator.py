"""C20: the interactive derivator on a simulated console."""
import copy, hashlib, os, struct
from .common import *
from ..core import Run, known_keys
from ..server import Server, SimError, unq
from .. import build as B

SPACE = b' \t\n\v\f\r'


class DmResult:
    """events: ('o'|'c', bytes) text to cout or cerr, ('i', n) input delivered, ('e',) asked at the end, ('s',)/('u',) cout/cerr synchronised"""
    def __init__(self, raw):
        self.raw = raw
        self.result, self.fatal, self.viol, self.events = None, None, [], []
        self.steps = self.allocs = self.fired = self.consumed = self.ends = 0
        self.cut = True
        log = False
        for line in raw.decode('latin-1').split('\n'):
            if log:
                k = line[:1]
                if line == 'cut':
                    continue
                if k in 'oc' and k:
                    self.events.append((k, bytes.fromhex(line[1:])))
                elif k == 'i':
                    self.events.append(('i', int(line[1:])))
                elif k in 'esu' and k:
                    self.events.append((k,))
                elif k == 'H':
                    self.cut = False
                    log = False
                continue
            if line[:2] == 'R ':
                self.result = line[2:]
            elif line[:2] == 'N ':
                self.steps, self.allocs, self.fired, self.consumed, self.ends = map(int, line.split(' ')[1:6])
            elif line[:2] == 'F ':
                self.fatal = line
                if ' fired=' in line:
                    self.fired = int(line.split(' fired=')[1].split(',')[0])
            elif line[:2] == 'V ':
                f = line.split(' ', 4)
                self.viol.append((f[1], f[4] if len(f) > 4 else ''))
            elif line[:2] == 'B ':
                raise SimError(line)
            elif line == 'G':
                log = True

    def text(self, kind):
        return b''.join(e[1] for e in self.events if e[0] == kind)

    def before_end(self, kind):
        """text until the program first met the end of its input"""
        out = []
        for e in self.events:
            if e[0] == 'e':
                break
            if e[0] == kind:
                out.append(e[1])
        return b''.join(out)


class DmServer(Server):
    def run(self, plan):
        if self.p is None:
            self.start()
        b = plan.encode('latin-1')
        try:
            self.p.stdin.write(struct.pack('<I', len(b)) + b)
            self.p.stdin.flush()
            n = struct.unpack('<I', self._read(4))[0]
            return DmResult(self._read(n))
        except (BrokenPipeError, struct.error, OSError) as ex:
            raise SimError('dm server died: %r' % ex)


class DmRun(Run):
    dm = None

    def dmrun(self, c):
        if self.dm is None:
            self.dm = DmServer(os.path.join(self.bdir, 'dm'))
        r = self.dm.run(dm_plan(c))
        self.n += 1
        self.steps += r.steps
        self.fired['alloc'] += r.fired
        for f in ('out', 'err'):
            if c.get(f):
                self.fired['%s %s' % (f, c[f][0])] += 1
        if c['end'] != 'e':
            self.fired['input ' + {'t': 'failure', 'r': 'transient end'}[c['end']]] += 1
        self.ileave.add(int(hashlib.sha1(repr([(e[0], e[1]) if e[0] == 'i' else e[0] for e in r.events]).encode()).hexdigest()[:15], 16))
        return r

    def dmref(self, c):
        k = dm_plan(c)
        if k not in self.cache:
            self.cache[k] = self.dmrun(c)
        return self.cache[k]

    def close(self):
        super().close()
        if self.dm:
            self.dm.stop()
            self.dm = None


def dm_plan(c):
    out = ['in ' + q(c['input'].encode('latin-1')), 'pieces ' + ' '.join(map(str, c.get('pieces') or [1])), 'end ' + c['end'], 'budget %d' % c.get('budget', 100000000)]
    if c.get('more'):
        out.append('more ' + q(c['more'].encode('latin-1')))
    for f in ('out', 'err'):
        if c.get(f):
            out.append('%s %s %d' % (f, c[f][0], c[f][1]))
    for k, mode in c.get('faults', ()):
        out.append('fault alloc %d %s' % (k, mode))
    if c.get('after'):
        out.append('after %d' % c['after'])
    if c.get('env'):
        out.append('env %d %d' % tuple(c['env']))
    return '\n'.join(out) + '\n'


class C20(Check):
    id = 'C20'
    counts = {'quick': 8000, 'thorough': 100000}
    technique = 'deterministic simulation: the real main() on a simulated console, input in seeded pieces, ends, failures and sink faults'
    rule = ('one seed makes a session of formulas (good, undefined, damaged, long, with several variables). It is typed character by character, then delivered in seeded pieces with '
            'other white space, cut at a seeded byte by the end of input, a transient end or a failure, with failing output and failing allocations')
    real = 'examples/diff_machine/main.cpp and the library sources of the working tree, the iostream classes of the C++ standard library'
    stub = 'stream buffers of cin, cout and cerr, operator new/delete and malloc, libm untouched'

    def new_run(self, bdir):
        return DmRun(bdir)

    def words(self, rng):
        g = G(rng)
        g.funs = ['sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sqrt', 'log', 'log2', 'log10', 'exp'] if not hasattr(g, 'funs') else g.funs
        ws, asks = [], False
        for _ in range(rng.choice([1, 2, 3, 5, 8, 12])):
            k = rng.random()
            if k < 0.55:
                v = rng.choice(['x', 'y', 'abc', '_t1'])
                t = self.one(rng, rng.randint(1, 4), v)
            elif k < 0.75:
                t = g.formula(rng.randint(1, 3))
            elif k < 0.82:
                t = rng.choice(['1/0', 'log(0)', 'sqrt(-1)', '0^(-1)', 'log(-x)', '(x', 'x)', '()', 'x++', '*', 'sin', 'sin(', '1.2.3', '&', 'x y', '5', '0', 'x', 'x^5', '1/0*x', 'tan(x)^2', '\xff', 'x\0y', 'quit', 'exit', '-', '1e999*x', '9' * 400 + '*x'])
            elif k < 0.9:
                t = g.damaged(g.formula(2))
                if isinstance(t, bytes):
                    t = t.decode('latin-1')
            elif k < 0.95:
                t = '+'.join(rng.choice(['x', 'x^2', '2', 'sin(x)']) for _ in range(rng.choice([10, 60, 150])))
            else:
                n = rng.choice([5, 60, 400])
                t = '(' * n + 'x' + ')' * n if rng.random() < 0.5 else 'sin(' * (n % 7 + 1) + 'x' + ')' * (n % 7 + 1)
            t = ''.join(ch for ch in t if ch.encode('latin-1', 'replace') not in [bytes([b]) for b in SPACE])
            t = t.encode('latin-1', 'replace').decode('latin-1')
            if t:
                ws.append(t)
        out = []
        for w in ws:
            out.append(w)
            if rng.random() < 0.5 and not self.single(w):
                out.append(rng.choice(['x', 'y', 'a', 'nosuch', w[:1], 'x1', '0']))
        return out

    @staticmethod
    def single(w):
        import re
        return len(set(re.findall(r'[A-Za-z_]\w*', w)) - {'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sqrt', 'log', 'log2', 'log10', 'exp'}) < 2

    def one(self, rng, d, v):
        if d <= 0 or rng.random() < 0.1:
            return v if rng.random() < 0.6 else rng.choice(['1', '2', '3.5', '0', '10'])
        k = rng.random()
        if k < 0.5:
            return '(%s)%s(%s)' % (self.one(rng, d - 1, v), rng.choice('+-*/'), self.one(rng, d - 1, v))
        if k < 0.65:
            return '(%s)^%s' % (self.one(rng, d - 1, v), rng.choice(['2', '3', '0.5', 'x']))
        if k < 0.9:
            return '%s(%s)' % (rng.choice(['sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'arctan', 'log2', 'log10']), self.one(rng, d - 1, v))
        return '-' + self.one(rng, d - 1, v)

    def cases(self, rng, run, tier):
        ws = self.words(rng)
        long = rng.random() < 0.05
        if long: # a session of many formulas, most of them rejected
            few = [w for w in ws if self.single(w) and len(w) < 40][:3] + rng.sample(['x+', '(x', 'x)', '1x', 'x^2', '*', 'x y'.replace(' ', '@'), ')'], 3)
            ws = [rng.choice(few) for _ in range(rng.choice([60, 150, 300]))]
        if rng.random() < 0.9:
            # a formula without variables ends the program where that finding is not repaired; keep most sessions free of them
            for _ in range(3):
                exp = self.expected(ws, run) or []
                k = [i for i, x in enumerate(exp) if x[2] == '']
                if not k:
                    break
                ws = [w for i, w in enumerate(ws) if i not in k]
        base = {'input': ''.join(w + '\n' for w in ws), 'pieces': [1], 'end': 'e'}
        yield base
        for _ in range(1 if long else 3):
            c = dict(base)
            # other white space, cut somewhere
            s = ''
            if rng.random() < 0.5:
                for w in ws:
                    s += w + ''.join(rng.choice([' ', '\n', '\t', '\r\n', '\n\n', '\v', '\f']) for _ in range(rng.choice([1, 1, 1, 2, 3])))
            else:
                s = c['input']
            if rng.random() < 0.6:
                s = s[:rng.randrange(len(s) + 1)]
            elif rng.random() < 0.3:
                s = s.rstrip(SPACE.decode())
            c['input'] = s
            c['pieces'] = rng.choice([[1], [100000], [rng.randint(1, 12) for _ in range(rng.randint(1, 6))], [rng.choice([1, 2, 7, 64])], [1, 50]])
            c['after'] = 1000000 + 2 * run.dmref(dict(base, input=self.normal(s))).steps
            c['budget'] = 5 * c['after']
            c['end'] = rng.choice('eeetr')
            if c['end'] == 'r':
                c['more'] = rng.choice(['\n', '', 'x']) + rng.choice(['x^3\n', 'y y y\n', '2*z\nz\n'])
            if rng.random() < 0.4:
                ref = run.dmref(dict(base, input=self.normal(s)))
                for f, k, modes in (('out', 'o', ['refuse', 'short', 'throw']), ('err', 'c', ['refuse', 'short'])):
                    if rng.random() < 0.6:
                        c[f] = [rng.choice(modes), rng.randrange(len(ref.text(k)) + 1)]
            if rng.random() < 0.4:
                c['env'] = [rng.randrange(1, 1 << 30), rng.randrange(4)]
            if rng.random() < 0.3 and not self.asks(ws):
                ref = run.dmref(dict(base, input=self.normal(s)))
                c.pop('out', None), c.pop('err', None)
                c['faults'] = [[rng.randrange(1, max(ref.allocs, 1) + 1), rng.choice(['once', 'persist'])]]
            yield c

    def asks(self, ws):
        return not all(self.single(w) for w in ws)

    @staticmethod
    def split(s):
        out = ['']
        for ch in s:
            if ch in SPACE.decode():
                out.append('')
            else:
                out[-1] += ch
        return [w for w in out if w]

    def normal(self, s):
        return ''.join(w + '\n' for w in self.split(s))

    def expected(self, ws, run):
        """per word: ('answer', text) | ('error',) | ('question',), as the library says"""
        out, i = [], 0
        plan = {'variant': 'A', 'main': True, 'budget': 0, 'flags': ['longtext']}

        def answer(f, v):
            got = run.ref(dict(plan, progs={'0': ['parse n0 ' + q(f.encode('latin-1')), 'diff n1 n0 %s 1 m' % qa(v), 'str n1']})).outcomes(0)
            d, t = got.get(1), got.get(2)
            if d is None or t is None:
                return None
            return ('answer', t.text[5:].encode('utf-8', 'surrogateescape'), v) if d.text.startswith('ok') and t.text.startswith('ok X:') else ('error', None, v)

        while i < len(ws):
            # each in a process of its own
            got = run.ref(dict(plan, progs={'0': ['parse n0 ' + q(ws[i].encode('latin-1')), 'vars n0']})).outcomes(0)
            p, v = got.get(0), got.get(1)
            if p is None or v is None:
                return None
            if not p.text.startswith('ok'):
                out.append(('error', None, None))
                i += 1
                continue
            if not v.text.startswith('ok L:'):
                return None
            names = [unq(x) for x in v.text[5:].split(',') if x]
            if len(names) <= 1:
                out.append(answer(ws[i], names[0] if names else ''))
                i += 1
            else:
                out.append(('question', None, None))
                i += 1
                if i < len(ws):
                    out.append(answer(ws[i - 1], ws[i]) if ws[i] in names else ('error', None, None))
                    i += 1
            if out[-1] is None:
                return None
        return out

    def judge(self, c, run):
        out = []
        known = known_keys(self.id)
        ws = self.split(c['input'])
        base = {'input': ''.join(w + '\n' for w in ws), 'pieces': [1], 'end': 'e'}
        ref = run.dmref(base)
        out += self.judge_typed(base, ws, ref, run, known)
        if out or dm_plan(base) == dm_plan(c):
            return out
        if ref.fatal:
            run.outcomes['known: formula without variables'] += 1
            return out
        r = run.dmrun(c)
        for k, t in r.viol:
            if k in MEMORY:
                out.append((k, t))
        alloc = bool(c.get('faults'))
        if r.fatal:
            w = r.fatal.split(' ')[1]
            if alloc and terminates(w):
                return out
            if self.silent_loop(r, known):
                r.result = 'loops'
            else:
                return out + [('died', r.fatal)]
        if r.cut or ref.cut:
            return out
        fired = r.fired > 0
        loops = r.result == 'loops'
        if loops:
            run.outcomes['known: loops at the end of its input'] += 1
            if 'end-of-input' not in known:
                out.append(('asks-on', 'goes on and on after the end of its input'))
        elif r.result != 'returned 0' and not (fired and (r.result.startswith('returned') or r.result == 'escaped std::bad_alloc')):
            out.append(('ended', '%r instead of returning 0' % r.result))
        if r.ends > 16 and not loops:
            out.append(('asks-on', 'asked %d times for input after its end' % r.ends))
        if r.consumed > len(c['input'].encode('latin-1')):
            out.append(('goes-on', 'read on after the end of its input'))
        run.outcomes['result ' + r.result] += 1
        accept = [ref]
        if c['end'] == 't':
            # a failing input: the last word counts or not
            i = len(c['input'])
            while i and c['input'][i - 1] not in SPACE.decode():
                i -= 1
            accept.append(run.dmref({'input': self.normal(c['input'][:i]), 'pieces': [1], 'end': 'e'}))
        ok = False
        for a in accept:
            good = True
            for f, k in (('out', 'o'), ('err', 'c')):
                x, y = r.text(k), a.before_end(k) if loops else a.text(k)
                if fired and k == 'c':
                    pass    # standard error may tell of the lack of memory
                elif c.get(f):
                    # (a stream that refused once refuses from then on)
                    z = a.text(k)
                    good &= len(x) <= c[f][1] and (z.startswith(x) or loops and x.startswith(y)) or x == z
                elif fired:
                    good &= self.subsequence(r.before_end(k) if loops else x, y)
                elif loops:
                    good &= x.startswith(y)
                else:
                    good &= x == y
            ok |= good
        if not ok:
            for k, n in (('o', 'cout'), ('c', 'cerr')):
                if not r.text(k).startswith(ref.before_end(k)):
                    out.append(('differs', '%s got %r\ntyped line by line it got %r' % (n, r.text(k)[-1500:], ref.before_end(k)[-1500:])))
            if not any(k == 'differs' for k, _ in out):
                out.append(('differs', 'the texts differ from those of the session typed line by line'))
        return out

    @staticmethod
    def silent_loop(r, known):
        """does not end, and has been at the end of its input"""
        return 'end-of-input' in known and r.fatal.split(' ')[1] == 'budget' and (r.fired or any(e[0] == 'e' for e in r.events))

    @staticmethod
    def subsequence(x, y):
        xs, ys = x.split(b'\n'), y.split(b'\n')
        last = xs.pop()
        i = 0
        for l in xs:
            while i < len(ys) and ys[i] != l:
                i += 1
            if i == len(ys):
                return False
            i += 1
        return any(l.startswith(last) for l in ys[i:]) or not last

    def judge_typed(self, c, ws, r, run, known):
        """the session typed character by character: the answers are the library's, each before the next line is asked for"""
        key = ('typed', c['input'])
        if key in run.cache:
            return run.cache[key]
        out = []
        for k, t in r.viol:
            if k in MEMORY:
                out.append((k, t))
        exp = self.expected(ws, run)
        if r.fatal and self.silent_loop(r, known):
            pass
        elif r.fatal:
            # the line it was working on
            d = sum(e[1] for e in r.events if e[0] == 'i')
            i = c['input'].encode('latin-1')[:d].count(b'\n') - 1
            if not ('constant' in known and terminates(r.fatal.split(' ')[1]) and exp and 0 <= i < len(exp) and exp[i][2] == ''):
                out.append(('died', 'at line %d: %s' % (i, r.fatal)))
            elif i:
                out += self.segments(c, ws[:i], r, exp[:i], run)
            exp = None
        elif r.result == 'loops':
            if 'end-of-input' not in known:
                out.append(('asks-on', 'goes on and on after the end of its input'))
        elif r.result != 'returned 0':
            out.append(('ended', '%r instead of returning 0' % r.result))
        elif r.ends > 16:
            out.append(('asks-on', 'asked %d times for input after its end' % r.ends))
        if exp is not None and not r.cut:
            out += self.segments(c, ws, r, exp, run)
        run.cache[key] = out
        return out

    def segments(self, c, ws, r, exp, run):
        out = []
        inp = c['input'].encode('latin-1')
        segs = []
        o = e = b''
        unsynced = b''
        d = 0
        started = False
        over = False
        for ev in r.events:
            if over and len(segs) >= len(ws):
                break
            if ev[0] in 'ie':
                over |= ev[0] == 'e'
                if b'\n' in unsynced:
                    out.append(('not-shown', 'asks for input while %r has not been flushed' % unsynced[-300:]))
                if d and inp[d - 1:d] == b'\n' and len(segs) < inp[:d].count(b'\n'):
                    segs.append((o, e))
                    o = e = b''
                elif not d:
                    o = e = b''    # the greeting
                if ev[0] == 'i':
                    d += ev[1]
            elif ev[0] == 'o':
                o += ev[1]
                unsynced += ev[1]
            elif ev[0] == 'c':
                e += ev[1]
            elif ev[0] == 's':
                unsynced = b''
        if len(segs) < len(ws):
            segs.append((o, e))
        for i, w in enumerate(ws):
            if i >= len(segs) or i >= len(exp):
                out.append(('unanswered', 'nothing for line %d, %r' % (i, w[:200])))
                break
            so, se = segs[i]
            x = exp[i]
            run.outcomes[x[0]] += 1
            lines = [l.strip() for l in so.split(b'\n')]
            if x[0] == 'answer':
                if x[1].strip() not in lines or se.strip():
                    out.append(('answer', 'line %d, %r: got %r and the errors %r, the library says %r' % (i, w[:300], so[-600:], se[-300:], x[1][:600])))
            elif x[0] == 'error':
                if not se.strip() or any(l.startswith(b'ans') for l in lines):
                    out.append(('error', 'line %d, %r: got %r and the errors %r, the library reports an error' % (i, w[:300], so[-600:], se[-300:])))
            else:
                if se.strip() or not so.strip() or any(l.startswith(b'ans') for l in lines):
                    out.append(('question', 'line %d, %r: got %r and the errors %r instead of a question for the variable' % (i, w[:300], so[-600:], se[-300:])))
        return out

    # ------------------------------------------------------------ minimising
    def ident(self, c):
        return hashlib.sha1(dm_plan(c).encode('latin-1')).digest()[:8]

    def describe(self, c):
        return dm_plan(c)

    def refine(self, c, run):
        return c

    def size(self, c):
        return len(c['input']) + 5 * len(c.get('pieces') or []) + sum(20 for f in ('out', 'err', 'env', 'more') if c.get(f)) + 20 * len(c.get('faults') or []) + (c['end'] != 'e') * 5

    def candidates(self, c):
        for f in ('out', 'err', 'env', 'faults'):
            if c.get(f):
                d = copy.deepcopy(c)
                d.pop(f)
                yield f, d
        if c['end'] != 'e':
            d = copy.deepcopy(c)
            d['end'] = 'e'
            d.pop('more', None)
            yield 'end', d
        if (c.get('pieces') or [1]) != [1]:
            yield 'pieces', dict(c, pieces=[1])
        ws = self.split(c['input'])
        n = len(ws)
        step = n // 2 or 1
        while step >= 1 and n:
            for lo in range(0, n, step):
                yield 'words', dict(c, input=''.join(w + '\n' for w in ws[:lo] + ws[lo + step:]))
            step //= 2
        for i, w in enumerate(ws):
            for lo in range(0, len(w), max(1, len(w) // 8)):
                yield 'chars', dict(c, input=''.join(v + '\n' for v in ws[:i] + [w[:lo] + w[lo + max(1, len(w) // 8):]] + ws[i + 1:]))
