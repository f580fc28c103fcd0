"""A case: one concrete simulated execution, as JSON-able data, and the plan text it stands for.

{variant: A|B, progs: {"0": [op...], ..., "4": pre, "5": post}, main: bool, threads: n,
 env: {...}, sched: [seed, gap, first] or trace: "from:op:acc:to,...",
 faults: [[t, op, "alloc"|"math", k, "once"|"persist"]], flags: [...], budget: n, repeat: n,
 stackkib: {t: n}, x: check-specific data}
"""
import copy, hashlib


def plan_text(c):
    out = []
    if c.get('env'):
        out.append('env ' + ' '.join('%s=%s' % kv for kv in sorted(c['env'].items())))
    if c.get('main'):
        out.append('main')
    else:
        out.append('threads %d' % c.get('threads', 1))
    if c.get('budget'):
        out.append('budget %d' % c['budget'])
    if c.get('repeat'):
        out.append('repeat %d' % c['repeat'])
    out += list(c.get('flags', ()))
    for t, k in sorted(c.get('stackkib', {}).items()):
        out.append('stackkib %s %d' % (t, k))
    if c.get('trace') is not None:
        out.append('trace ' + c['trace'])
    elif c.get('sched'):
        out.append('sched ' + ' '.join(map(str, c['sched'])))
    for t, op, kind, k, mode in c.get('faults', ()):
        out.append('fault %d %d %s %d %s' % (t, op, kind, k, mode))
    for p in sorted(c['progs']):
        for op in c['progs'][p]:
            out.append('%s %s' % (p, op))
    return '\n'.join(out) + '\n'


def plan_id(c):
    return hashlib.sha1((c.get('variant', 'A') + plan_text(c)).encode('latin-1')).digest()[:8]


def solo(c, prog, keep_post=False, **kw):
    """program `prog` of c alone, on the main thread of a pristine process without faults"""
    d = {'variant': c.get('variant', 'A'), 'main': True, 'progs': {'0': list(c['progs'].get(str(prog), ()))}}
    if c['progs'].get('4'):
        d['progs']['4'] = list(c['progs']['4'])
    if keep_post and c['progs'].get('5'):
        d['progs']['5'] = list(c['progs']['5'])
    d['budget'] = c.get('budget', 0)
    d.update(kw)
    return d


def drop_op(c, prog, i):
    d = copy.deepcopy(c)
    p = str(prog)
    del d['progs'][p][i]
    t = int(p)
    if 'faults' in d:
        fs = []
        for f in d['faults']:
            if f[0] == t:
                if f[1] == i:
                    continue
                if f[1] > i:
                    f = [f[0], f[1] - 1] + f[2:]
            fs.append(f)
        d['faults'] = fs
    if d.get('trace'):
        tr = []
        for x in d['trace'].split(','):
            f = x.split(':')
            if len(f) == 4 and int(f[0]) == t and t < 4:
                if int(f[1]) == i:
                    continue
                if i < int(f[1]) < 100000:
                    f[1] = str(int(f[1]) - 1)
            tr.append(':'.join(f))
        d['trace'] = ','.join(tr)
    return d


def drop_ops(c, prog, lo, hi):
    d = c
    for i in range(hi - 1, lo - 1, -1):
        d = drop_op(d, prog, i)
    return d


def candidates(c):
    """smaller cases, the largest reductions first"""
    # whole programs of other threads
    if not c.get('main'):
        n = c.get('threads', 1)
        for t in range(n - 1, -1, -1):
            if c['progs'].get(str(t)):
                yield 'thread %d' % t, drop_ops(c, t, 0, len(c['progs'][str(t)]))
    for p in ('5', '3', '2', '1', '0', '4'):
        ops = c['progs'].get(p) or []
        n = len(ops)
        step = n // 2
        while step >= 1:
            for lo in range(n - step, -1, -step):
                yield 'ops %s %d+%d' % (p, lo, step), drop_ops(c, int(p), lo, lo + step)
            step //= 2
    for i in range(len(c.get('faults', ()))):
        d = copy.deepcopy(c)
        del d['faults'][i]
        yield 'fault %d' % i, d
        if c['faults'][i][4] == 'persist':
            d = copy.deepcopy(c)
            d['faults'][i][4] = 'once'
            yield 'once %d' % i, d
    for k in list(c.get('env', {})):
        d = copy.deepcopy(c)
        del d['env'][k]
        yield 'env ' + k, d
    if c.get('trace'):
        sw = c['trace'].split(',')
        n = len(sw)
        step = n // 2
        while step >= 1:
            for lo in range(n - step, -1, -step):
                if any(x.startswith('4:') for x in sw[lo:lo + step]):
                    continue
                d = dict(c)
                d['trace'] = ','.join(sw[:lo] + sw[lo + step:])
                yield 'switches %d+%d' % (lo, step), d
            step //= 2


def size(c):
    n = sum(len(p) * 10 for p in c['progs'].values()) + sum(len(o) for p in c['progs'].values() for o in p) * 0.1
    n += 5 * len(c.get('faults', ())) + 3 * len(c.get('env', {}))
    if c.get('trace'):
        n += c['trace'].count(',') + 1
    elif c.get('sched'):
        n += 50
    return n
