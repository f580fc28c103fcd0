"""Runs a check: seeded search over simulated executions, gating, minimising, replay files, evidence."""
import collections, json, os, random, sys, time, traceback
from multiprocessing import Pool
from . import build as B
from .case import plan_text, plan_id, candidates, size
from .server import Server, SimError

VERIF = B.VERIF


LIFE = {'init': 'initialised late', 'exit': 'destroyed early', 'tls': 'of a thread destroyed early'}


class Run:
    """What a judge uses to execute plans. Reference executions are cached."""
    def __init__(self, bdir):
        self.bdir = bdir
        self.servers = {}
        self.cache = collections.OrderedDict()
        self.n = 0
        self.steps = self.switches = 0
        self.fired = collections.Counter()
        self.ileave = set()
        self.execs = set()
        self.sites = set()
        self.outcomes = collections.Counter()

    def server(self, v):
        if v not in self.servers:
            self.servers[v] = Server(os.path.join(self.bdir, 'sim' + v), {'LOCPATH': os.path.join(self.bdir, 'locale')})
        return self.servers[v]

    def plan(self, c):
        r = self.server(c.get('variant', 'A')).run(plan_text(c))
        self.n += 1
        self.steps += r.steps
        self.switches += r.switches
        self.fired['alloc'] += r.firedA
        self.fired['math'] += r.firedM
        if r.switches and r.tracehash:
            self.ileave.add(int(r.tracehash, 16))
        if r.hash:
            self.execs.add(int(r.hash, 16))
        for p in c['progs'].values():
            for o in p:
                if o.startswith('life ') and o != 'life none':
                    self.fired['static objects ' + LIFE[o.split(' ')[1]]] += 1
                elif o.startswith('host '):
                    self.fired['host state ' + o.split(' ')[1]] += 1
        if c.get('env'):
            self.fired['environment varied'] += 1
            for k, what in (('rate', 'clock of another speed'), ('tick', 'clock moved on by every reading'), ('jump', 'wall clock set'),
                            ('facts', 'environment variables, processors, terminal told otherwise')):
                if k in c['env']:
                    self.fired[what] += 1
        return r

    def ref(self, c):
        k = plan_id(c)
        r = self.cache.get(k)
        if r is None:
            r = self.plan(c)
            self.cache[k] = r
            if len(self.cache) > 400:
                self.cache.popitem(last=False)
        return r

    def alloc_sites(self, c):
        """{(program, operation): [(call site, first, last, count)]} of the undisturbed execution of c"""
        return self.ref(dict({k: v for k, v in c.items() if k not in ('faults', 'repeat', 'x')}, flags=['sites'])).sites

    def pick_allocs(self, rng, sites, n, lim):
        """which of n allocations shall fail: all, or at most lim of them spread over the call sites"""
        for s in sites:
            self.sites.add(s[0])
        if n <= lim:
            return list(range(1, n + 1))
        sites = list(sites)
        rng.shuffle(sites)
        ks = set()
        for h, a, b, m in sites:
            ks.add(rng.choice([a, b]))
        ks = set(rng.sample(sorted(ks), min(len(ks), (lim * 2 + 2) // 3)))
        while len(ks) < lim and len(ks) < n:
            ks.add(rng.randint(1, n))
        return sorted(ks)

    def close(self):
        for s in self.servers.values():
            s.stop()
        self.servers = {}


class Check:
    id = None
    level = 'exploration'
    technique = 'deterministic simulation: seeded search over schedules and injected faults'
    rule = ''
    assumptions = []
    real = 'tomsolver library sources of the working tree (both as a library with assertions and as the single header), C++ standard library'
    stub = 'operator new/delete and malloc, thread scheduler, mutexes/once, libm results when a fault is injected, clocks and entropy, standard output and other sinks'
    counts = {'quick': 200, 'thorough': 4000}   # seeds
    cap = {'quick': 300, 'thorough': 3000}      # seconds of searching at most
    uses_binaries = True

    def cases(self, rng, run, tier):
        """concrete cases of one seed"""
        raise NotImplementedError

    def judge(self, c, run):
        """list of (kind, text) for one case; updates run.*"""
        raise NotImplementedError

    def nontrivial(self, c):
        return True

    def candidates(self, c):
        return candidates(c)

    def size(self, c):
        return size(c)

    def refine(self, c, run):
        """a case with the schedule of c made explicit"""
        if c.get('sched') and not c.get('main') and c.get('trace') is None:
            r = run.plan(c)
            d = dict(c)
            d.pop('sched')
            d['trace'] = r.trace
            return d
        return c

    def describe(self, c):
        return plan_text(c)

    def ident(self, c):
        return plan_id(c)

    def new_run(self, bdir):
        return Run(bdir)

    def begin(self):
        pass

    def end(self):
        pass


# ------------------------------------------------------------------ workers
_check = _bdir = _run = None


def _init(modname, bdir):
    global _check, _bdir, _run
    from . import checks
    _check = checks.get(modname)
    _bdir = bdir
    _run = None


def _task(a):
    """one chunk of seeds"""
    global _run
    seed, tier, lo, hi = a
    if _run is None:
        _run = _check.new_run(_bdir)
    run = _run
    run.n = run.steps = run.switches = 0
    run.fired = collections.Counter()
    run.ileave = set()
    run.execs = set()
    run.sites = set()
    run.outcomes = collections.Counter()
    ids, found, sample = set(), None, None
    ncases = 0
    err = None
    i = lo
    try:
        for i in range(lo, hi):
            rng = random.Random('%s:%s:%d' % (seed, _check.id, i))
            run.cache.clear()
            for c in _check.cases(rng, run, tier):
                v = _check.judge(c, run)
                ncases += 1
                if _check.nontrivial(c):
                    ids.add(_check.ident(c))
                if sample is None and ncases == 1:
                    sample = _check.describe(c)
                if v and found is None:
                    found = (i, c, v)
                    break
            if found:
                break
    except SimError as e:
        err = 'seed %d: %s' % (i, e)
        run.close()
    except Exception:
        err = 'seed %d: %s' % (i, traceback.format_exc())
    return dict(lo=lo, cases=ncases, runs=run.n, steps=run.steps, switches=run.switches, fired=dict(run.fired),
                ileave=run.ileave, execs=run.execs, sites=run.sites, outcomes=dict(run.outcomes), ids=ids, found=found, sample=sample, err=err,
                seeds=(i - lo + 1))


def _judge_fresh(check, bdir, c):
    run = check.new_run(bdir)
    try:
        return check.judge(c, run)
    finally:
        run.close()


def minimise(check, bdir, c, kind, limit_s=60, limit_n=600):
    run = check.new_run(bdir)
    t0 = time.time()
    n = 0

    def bad(d):
        nonlocal n
        n += 1
        run.cache.clear()
        try:
            return any(k == kind for k, _ in check.judge(d, run))
        except SimError:
            run.close()
            return False
    try:
        d = check.refine(c, run)
        if d is not c and bad(d):
            c = d
        progress = True
        while progress and time.time() - t0 < limit_s and n < limit_n:
            progress = False
            for _, d in check.candidates(c):
                if time.time() - t0 > limit_s or n > limit_n:
                    break
                if check.size(d) < check.size(c) and bad(d):
                    c = d
                    progress = True
                    break
    finally:
        run.close()
    return c, n


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            if line.startswith('known: property=%s ' % pid):
                out.append(line.strip())
    return out


def known_keys(pid):
    return {w[4:] for line in known_findings(pid) for w in line.split(' ') if w.startswith('key=')}


def main(check, argv):
    check.begin()
    try:
        return _main(check, argv)
    finally:
        check.end()


def _main(check, argv):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in check.counts:
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    try:
        bdir = B.build() if check.uses_binaries else None
    except B.BuildError as e:
        print('the simulator does not build from the working tree:\n' + str(e)[:4000])
        return 2
    tbuild = time.time() - t0
    if len(argv) > 1 and argv[0] == '--replay':
        rp = json.load(open(argv[1], encoding='utf-8'))
        v = _judge_fresh(check, bdir, rp['case'])
        for k, text in v:
            print('%s: %s' % (k, text))
        if any(k == rp['kind'] for k, _ in v):
            print('VIOLATION property=%s replay=%s' % (check.id, argv[1]))
            return 1
        print('not reproduced')
        return 0
    nseeds = int(os.environ.get('SIM_SEEDS', check.counts[tier]))
    cap = check.cap[tier]
    workers = int(os.environ.get('SIM_WORKERS', '8'))
    chunk = max(1, min(getattr(check, 'chunk', 4), nseeds // (workers * 4) or 1))
    tot = collections.Counter()
    fired, outcomes = collections.Counter(), collections.Counter()
    ileave, execs, ids, sites, samples = set(), set(), set(), set(), []
    found, err = None, None
    t1 = time.time()
    tasks = [(seed, tier, k, min(k + chunk, nseeds)) for k in range(0, nseeds, chunk)]
    capped = False
    with Pool(workers, _init, (check.id, bdir)) as pool:
        for r in pool.imap(_task, tasks):
            for f in ('cases', 'runs', 'steps', 'switches', 'seeds'):
                tot[f] += r[f]
            fired.update(r['fired'])
            outcomes.update(r['outcomes'])
            if len(ileave) < 3000000:
                ileave |= r['ileave']
            if len(execs) < 3000000:
                execs |= r['execs']
            ids |= r['ids']
            sites |= r['sites']
            if r['sample'] and len(samples) < 3:
                samples.append(r['sample'][:3000])
            if r['err'] and not err:
                err = r['err']
            if r['found']:
                found = r['found']
                break
            if err:
                break
            if time.time() - t1 > cap:
                capped = True
                break
        pool.terminate()
    wall = time.time() - t1
    rc = 0
    nviol = 0
    if err and not found:
        print('the simulator failed: ' + err)
        rc = 2
    if found:
        i, c, v = found
        kind = v[0][0]
        same = 0
        tries = 0
        while tries < 2 or (same < 2 and tries < 6):
            tries += 1
            try:
                w = _judge_fresh(check, bdir, c)
            except SimError:
                w = []
            if any(k == kind for k, _ in w):
                same += 1
        if same < 2:
            print('seed %d of %s: %s, but only %d of %d repetitions agree' % (i, seed, v[0], same, tries))
            rc = 2
        else:
            c2, n = minimise(check, bdir, c, kind)
            v2 = _judge_fresh(check, bdir, c2)
            if not any(k == kind for k, _ in v2):
                c2, v2 = c, v
            os.makedirs(os.path.join(VERIF, '_replay'), exist_ok=True)
            path = '_replay/%s-%d-%d.json' % (check.id, seed, i)
            with open(os.path.join(VERIF, path), 'w', encoding='utf-8') as f:
                json.dump({'property': check.id, 'seed': seed, 'index': i, 'kind': kind, 'repeated': '%d/%d' % (same, tries),
                           'violations': v2, 'case': c2, 'original': c, 'minimised_in': n}, f, indent=1)
            print('seed %d:%d, minimised in %d executions to:' % (seed, i, n))
            print(check.describe(c2)[:6000])
            for k, text in v2[:5]:
                print('  %s: %s' % (k, text[:1500]))
            print('VIOLATION property=%s replay=%s' % (check.id, path))
            rc = 1
            nviol = 1
    for line in known_findings(check.id):
        print('KNOWN-FINDING: ' + line[len('known: '):])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {
        'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level,
        'coverage': {
            'evaluations': tot['cases'], 'distinct_nontrivial': len(ids), 'rule': check.rule, 'samples': samples,
            'simulated_runs': tot['runs'], 'seeds': tot['seeds'],
            'simulated_runs_per_hour': int(tot['runs'] * 3600 / max(wall, 0.001)),
            'seeds_per_hour': int(tot['seeds'] * 3600 / max(wall, 0.001)),
            'simulated_time': {'unit': 'steps (1 step = 1 memory access of library code)', 'steps': tot['steps']},
            'faults_injected': dict(sorted(fired.items())),
            'thread_switches': tot['switches'],
            'distinct_interleavings': {'count': len(ileave), 'measure': 'distinct hashes of the sequence (thread, operation, access number -> thread)'},
            'distinct_executions': {'count': len(execs), 'measure': 'distinct hashes of all events of an execution (calls, switches, allocations, releases, faults, outcomes)'},
            'outcomes': dict(outcomes.most_common(40)),
            'real_code': check.real, 'stubs': check.stub,
            'time_cap_reached': capped,
        },
        'assumptions': list(check.assumptions),
        'wall_s': round(time.time() - t0, 2), 'violations': nviol,
    }
    if sites:
        ev['coverage']['allocation_sites'] = {'count': len(sites), 'measure': 'distinct call sites (nearest five return addresses) of allocations '
                                              'of the calls from which the failing allocations were picked'}
    ev['coverage']['build_s'] = round(tbuild, 2)
    with open(os.path.join(VERIF, 'evidence', check.id + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d seeds, %d cases, %d simulated runs, %d interleavings, faults %s in %.1f s (build %.1f s)' % (
        check.id, tot['seeds'], tot['cases'], tot['runs'], len(ileave), dict(fired), wall, tbuild))
    return rc
