"""C11, C12: logging to a misbehaving standard output, printing to misbehaving streams."""
import copy, re
from .common import *
from .solving import system, system_ops

INFO = 4


class C11(Check):
    id = 'C11'
    counts = {'quick': 18000, 'thorough': 80000}
    rule = ('one seed makes a program of solves and other calls; it runs silently with a good standard output, and then at several log levels with '
            'outputs that refuse, cut, fail or throw at a byte within what the calls write, with and without exceptions asked for. Every outcome must '
            'be the silent one, or the exception of the output if it was asked for')

    def cases(self, rng, run, tier):
        g = G(rng)
        pre = g.settings(keep=('log', 'maxit'), loud=False) + ['setcfg maxit %d' % rng.choice([1, 3, 5, 5, 12, 12, 30])]
        ops = []
        for _ in range(rng.randint(1, 3)):
            if rng.random() < 0.75:
                ops += system_ops(rng, *system(rng))
                ops.append('tstr t7')
            else:
                ops += g.program(rng.randint(1, 5), rng.choice([['lin', 'line'], ['parse', 'diff', 'simp', 'eval', 'show'], None]))
        base = {'variant': rng.choice('AB'), 'main': True, 'budget': BUDGET}
        loud = dict(base, progs={'0': ops, '4': pre + ['setcfg log %d' % rng.choice([4, 5, 6, 7])]})
        n = sum(o.cout for o in run.ref(loud).ops)
        for j in range(4 if tier == 'quick' else 10):
            log = rng.choice([0, 1, 2, 3, 3, 4, 4, 5, 6, 6, 7])
            exc = rng.choice([0, 0, 1, 2, 4, 5, 7])
            mode = rng.choice([0, 1, 2, 3, 3])
            at = rng.randrange(n + 1) if n and rng.random() < 0.8 else rng.choice([0, 1, 5, 50])
            pre2 = pre + ['setcfg log %d' % log, 'cout %d %d %d %d' % (mode, at, rng.choice([0, 1, 7]), exc)]
            if rng.random() < 0.3:
                pre2.append('coutfmt %d %d' % (rng.choice([256 | 2, 4, 2048 | 8, 1 | 16384]), rng.choice([0, 2, 17])))
            yield dict(base, progs={'0': ops, '4': pre2})

    @staticmethod
    def quiet(pre):
        return [o for o in pre if not o.startswith(('cout', 'setcfg log'))] + ['setcfg log 1']

    def judge(self, c, run):
        r = run.plan(c)
        ops = c['progs'].get('0') or []
        pre = c['progs'].get('4') or []
        a = run.ref(dict(c, progs={'0': ops, '4': self.quiet(pre)}))
        if a.fatal:
            return []
        log, exc = 3, 0
        for o in pre:
            w = o.split(' ')
            if w[0] == 'cout':
                exc = int(w[4])
                run.fired['output-mode-%s' % w[1]] += 1
            elif w[:2] == ['setcfg', 'log']:
                log = int(w[2])
        x, y = a.outcomes(0), r.outcomes(0)
        out = []
        for i, o in enumerate(ops):
            if i not in y:
                if r.fatal:
                    out.append(('died', '%s\n    silent: %s\n    here:   %s' % (o, x[i].text, r.fatal)))
                break
            t = y[i].text
            run.outcomes[t.split(' ')[0]] += 1
            writes = o.startswith('findalpha')
            if log < INFO and y[i].cout and not writes:
                out.append(('chatty', '%s writes %d bytes at level %d' % (o, y[i].cout, log)))
            if t != x[i].text:
                if exc and (log >= INFO or writes) and t.startswith(('ios_failure', 'simio')):
                    # the rest of the program may see that this call failed
                    break
                out.append(('differs', '%s\n    silent: %s\n    here:   %s' % (o, x[i].text, t)))
                break
        return out


PRINTED = re.compile(r'^ok (\w+) state=(\d+) flags=(\d) prec=(\d) fill=(\d) width=(-?\d+) mask=(\d) failed=(\d+) n=(\d+) text=(.*)$', re.S)


class C12(Check):
    id = 'C12'
    counts = {'quick': 24000, 'thorough': 100000}
    rule = ('one seed makes an expression, matrix, symbolic matrix or table and prints it to streams whose sink refuses, cuts, fails or throws at '
            'each byte of the text (sampled when long), with every exception mask, formatting flags, precision, width, fill and locale; the text must '
            'be exact or a prefix with the failure reported, and the object is printed again afterwards')

    def cases(self, rng, run, tier):
        g = G(rng)
        st = State()
        k = rng.choice('nnnnmvsqt')
        ops = g.program(rng.randint(2, 6), {'n': ['parse', 'build', 'diff', 'subs'], 'm': ['mat'], 'v': ['vec', 'lin'], 's': ['parse', 'sym', 'sym'], 'q': ['parse', 'sym', 'sym'],
                                            't': ['tab']}[k], slots=st)
        if k == 'n' and rng.random() < 0.15:
            ops = ['parsebig n0 %s %d' % (rng.choice(['sum', 'pow', 'nest', 'fun', 'div', 'name']), rng.choice([12000, 40000]) if rng.random() < 0.06 else rng.choice([200, 700, 1500]))]
            st.d = {'n0': {}}
        elif k == 'm' and rng.random() < 0.2:
            r, c = rng.choice([(20, 20), (1, 150), (150, 1), (40, 9)] * 4 + [(70, 60)])
            ops = ['mat m0 %d %d %s' % (r, c, g.numbers(r * c))]
            st.d = {'m0': {}}
        elif k == 't' and rng.random() < 0.2:
            ops = ['tab t0 ' + ','.join('v%d=%s' % (i, hexd(g.value())) for i in range(rng.choice([20, 90] * 5 + [1500])))]
            st.d = {'t0': {}}
        slots = [s for s in st.d if s[0] == k] or list(st.d)
        if not slots:
            return
        s = rng.choice(slots)
        show = {'n': 'str', 'm': 'mstr', 'v': 'mstr', 's': 'sstr', 'q': 'sstr', 't': 'tstr'}[s[0]] + ' ' + s
        base = {'variant': rng.choice('AB'), 'main': True, 'budget': BUDGET, 'flags': ['longtext'], 'progs': {'0': ops + [show], '4': g.settings(loud=False) if rng.random() < 0.3 else []}}
        a = run.ref(base)
        if a.fatal:
            return
        t = a.outcomes(0)[len(ops)].text
        if not t.startswith('ok X:') or '...#' in t:
            return
        n = len(t) - 5
        tries = ['0 0 0 0 -1 6 0 %20 0 0']
        for at in ([rng.randrange(n + 1) for _ in range(4)] + [0, n, n - 1]):
            flags = rng.choice([-1, -1, 2, 64 | 2, 256 | 2, 4 | 2, 4 | 2048, 8 | 512 | 2, 16384 | 2, 4096 | 1024 | 2, 32 | 2])
            width = 0
            if rng.random() < 0.1:
                flags, width = -1, rng.choice([1, 30, n + 5])
            tries.append('%d %d %d %d %d %d %d %s %d %d' % (rng.choice([0, 1, 2, 3]), max(0, at), rng.choice([0, 1, 3]), rng.choice([0, 0, 1, 2, 4, 5, 6, 7]), flags,
                                                           rng.choice([6, 0, 1, 3, 17, 40]), width, q(rng.choice(' *0')) or '%20',
                                                           rng.random() < 0.3, rng.choice([0] * 8 + [1, 2, 4, 3])))
        c = dict(base, progs=dict(base['progs']))
        p = list(ops) + [show]
        for x in tries:
            p += ['stream ' + x, 'print ' + s, show]
        c['progs']['0'] = p
        yield c
        if rng.random() < 0.4:
            got = run.ref(c).outcomes(0)
            i = rng.choice([i for i, o in enumerate(p) if o.startswith('print')])
            if i in got and got[i].allocs:
                yield dict(c, faults=[[0, i, 'alloc', rng.randint(1, got[i].allocs), rng.choice(['once', 'persist'])]])

    def judge(self, c, run):
        r = run.plan(c)
        ops = c['progs'].get('0') or []
        got = r.outcomes(0)
        out = []
        if r.fatal:
            if r.firedA and terminates(r.fatal[0]):
                run.outcomes['terminated-for-lack-of-memory'] += 1
                return []
            if r.fatal[0] == 'budget':
                return []
            return [('died', '%s: %s' % (ops[r.fatal[2]] if r.fatal[2] < len(ops) else 'destruction', r.fatal))]
        text, setup = {}, None
        for i, o in enumerate(ops):
            if i not in got:
                break
            w = o.split(' ')
            t = got[i].text
            if w[0] in ('str', 'mstr', 'sstr', 'tstr'):
                if t.startswith('ok X:'):
                    if w[1] in text and text[w[1]] != t[5:]:
                        out.append(('object-changed', '%s\n    before: %s\n    after:  %s' % (o, text[w[1]], t[5:])))
                        break
                    text[w[1]] = t[5:]
            elif w[0] == 'stream':
                setup = w[1:]
            elif w[0] == 'print' and w[1] in text and setup:
                v = self.printed(t, text[w[1]], setup, got[i])
                run.outcomes[v or t.split(' ')[1] if len(t.split(' ')) > 1 else t] += 1
                run.fired['sink-mode-%s' % setup[0]] += 1
                if v:
                    out.append((v, '%s with stream %s\n    text: %s\n    %s' % (o, ' '.join(setup), text[w[1]], t)))
                    break
        return out

    def printed(self, t, text, setup, g):
        if g.fa and t == 'bad_alloc':
            return None
        m = PRINTED.match(t)
        if not m:
            return 'wrong-error'
        how, state, flags, prec, fill, width, mask, failed, n = m.group(1), *map(int, m.groups()[1:9])
        got = m.group(10)
        mode, at, _, exc, _, _, w = map(int, setup[:7])
        pre = int(setup[9])
        mk = exc & ~pre
        if not (flags and prec and fill and mask):
            return 'formatting-changed'
        if (how != 'returned') != bool(state & mk):
            return 'exception-not-as-asked'
        if pre:
            return None if got == '' and (state & pre) == pre else 'printed-to-failed-stream'
        if failed or g.fa:
            if state & 5 == 0 and not (g.fa and not failed and got == text):
                return 'failure-unreported'
        elif state:
            return 'failed-for-nothing'
        if w:
            if not failed and not g.fa and text not in got:
                return 'text-wrong'
            return None
        if failed or g.fa:
            return None if text.startswith(got) else 'not-a-prefix'
        return None if got == text else 'text-wrong'
