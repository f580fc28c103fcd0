"""C19: the scripts which generate the single header and the single test, on a simulated file system."""
import copy, hashlib, json, os, shutil, signal, subprocess, sys, tempfile
from .common import *
from ..core import Run
from .. import build as B

SCRIPTS = {'header': ('combine_src_to_header_only.py', 'single/include/tomsolver/tomsolver.h'),
           'tests': ('combine_tests_to_single.py', 'single/test/all_tests.cpp')}
TREES = ('src', 'tests', 'scripts')
KEEP = TREES + ('.clang-format',)
ANYWHERE = ['kill', 'kill', 'term', 'int']
KINDS = {'open': ['EIO', 'EACCES', 'EMFILE', 'EINTR'], 'read': ['EIO', 'EINTR'], 'opendir': ['EIO', 'EACCES', 'EMFILE'], 'list': ['EIO'],
         'openw': ['ENOSPC', 'EACCES', 'EIO', 'EMFILE', 'after', 'EINTR'], 'write': ['ENOSPC', 'EIO', 'short', 'torn', 'after', 'EDQUOT', 'EINTR'],
         'close': ['EIO', 'ENOSPC', 'after'], 'rename': ['EIO', 'EACCES', 'EXDEV', 'after', 'ENOSPC'], 'unlink': ['EIO', 'EACCES', 'after'],
         'mkdir': ['ENOSPC', 'EACCES', 'after'], 'fsync': ['EIO', 'ENOSPC', 'after'], 'truncate': ['EIO', 'after'], 'ftruncate': ['EIO', 'ENOSPC', 'after'],
         'link': ['EACCES', 'EIO'], 'symlink': ['EACCES'], 'rmdir': ['EIO'], 'chmod': ['EACCES']}
HARMLESS = {'EINTR', 'short'}
CF = ['first', 'before', 'after', 'half', 'halfkill', 'killed', 'orphan0', 'orphanhalf', 'orphan1', 'missing']


def read(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


def digest(root, trees=KEEP):
    h = hashlib.sha256()
    for t in trees:
        p = os.path.join(root, t)
        if os.path.isfile(p):
            h.update(t.encode() + b'\0' + (read(p) or b''))
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x != '__pycache__')
            for f in sorted(fs):
                q_ = os.path.join(d, f)
                h.update(os.path.relpath(q_, root).encode() + b'\0' + hashlib.sha256(read(q_) or b'').digest())
    return h.hexdigest()


# where the working tree may lie
ROOTS = ['my tree', "o'tree", 'tree$(false)', '-tree', 'tree;exit 0', 'a"tree', 'tree&', 'tests', 'tests/tree', 'src', 'src/tomsolver/src', 'a_test.cpp',
         'single/include/tomsolver', 'b_test.cpp/tree', 'tree.tmp', 'back\\slash', 'b\u00e4um', 'new\nline', 'scripts/tests', 'tree.h', '~', '{0}%s']


class FsRun(Run):
    """runs the scripts in a scratch copy of the tree"""
    def __init__(self, bdir):
        super().__init__(bdir)
        self.dir = tempfile.mkdtemp(dir=os.environ['SIM_FS'])
        self.root = os.path.join(self.dir, 'tree')
        self.fresh()
        self.refs = {}
        self.logs = {}

    def fresh(self):
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        for t in KEEP:
            s = os.path.join(B.REPO, t)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(self.root, t), ignore=shutil.ignore_patterns('__pycache__'))
            elif os.path.exists(s):
                shutil.copy2(s, os.path.join(self.root, t))
        self.want = digest(self.root)

    def output(self, script):
        return os.path.join(self.root, SCRIPTS[script][1])

    def prepare(self, script, old):
        shutil.rmtree(os.path.join(self.root, 'single'), ignore_errors=True)
        if old == 'nodir':
            return
        os.makedirs(os.path.dirname(self.output(script)))
        b = {'missing': None, 'older': b'// an older file\n' * 50, 'empty': b'', 'same': None}[old]
        if old == 'same':
            b = self.reference(script)
        if b is not None:
            with open(self.output(script), 'wb') as f:
                f.write(b)

    def execute(self, script, r):
        """one execution; returns (exit status, or None when it did not end; its log; its messages)"""
        if r.get('root'):
            plain, self.root = self.root, os.path.join(self.dir, r['root'])
            os.makedirs(os.path.dirname(self.root), exist_ok=True)
            os.rename(plain, self.root)
            try:
                return self._execute(script, r)
            finally:
                os.rename(self.root, plain)
                self.root = plain
                if '/' in r['root']:
                    shutil.rmtree(os.path.join(self.dir, r['root'].split('/')[0]), ignore_errors=True)
        return self._execute(script, r)

    def _execute(self, script, r):
        env = {'PATH': os.environ['SIM_FS'] + '/bin:/usr/bin:/bin' if r.get('cf') != 'missing' else os.environ['SIM_FS'] + '/nobin',
               'HOME': '/nonexistent', 'LANG': 'C.UTF-8', 'PYTHONHASHSEED': str(r.get('hash', 0)), 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1',
               'LD_PRELOAD': os.environ['SIM_FS'] + '/simfs.so', 'SIMFS_ROOT': self.root, 'SIMFS_SEED': str(r.get('order', 0)),
               'SIMFS_UNKNOWN': str(r.get('unknown', 0)), 'SIMFS_LOG': self.dir + '/log', 'SIMCF': r.get('cf') or 'ok', 'TMPDIR': self.root + '/tmp'}
        if r.get('ascii'):
            env.update(LANG='C', LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
        if r.get('fault'):
            env['SIMFS_FAULT'] = '%d:%s:%d' % tuple(r['fault'])
        cwd = {'root': self.root, 'scripts': self.root + '/scripts', 'else': '/'}[r.get('cwd', 'root')]
        name = os.path.join(self.root, 'scripts', SCRIPTS[script][0])
        if r.get('cwd') == 'root':
            name = 'scripts/' + SCRIPTS[script][0]
        elif r.get('cwd') == 'scripts':
            name = SCRIPTS[script][0]
        if r.get('cf') == 'missing':
            os.makedirs(os.environ['SIM_FS'] + '/nobin', exist_ok=True)
        with open(self.dir + '/out', 'w+b') as out:
            so = out
            if r.get('stdout') == 'full':
                so = open('/dev/full', 'wb')
            elif r.get('stdout') == 'closed':
                a, b = os.pipe()
                os.close(a)
                so = os.fdopen(b, 'wb')
            p = subprocess.Popen([PYTHON, '-B', name], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=so, stderr=out, start_new_session=True)
            try:
                rc = p.wait(60)
            except subprocess.TimeoutExpired:
                rc = None
            # a formatter that outlives the script ends here too, after it had time to do its worst
            if (r.get('cf') or '').startswith('orphan'):
                for _ in range(200):
                    try:
                        os.killpg(p.pid, 0)
                    except ProcessLookupError:
                        break
                    import time
                    time.sleep(0.01)
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            p.wait()
            if so is not out:
                try:
                    so.close()
                except OSError:
                    pass
            out.seek(0)
            text = out.read().decode('utf-8', 'replace')
        self.n += 1
        log = (read(self.dir + '/log') or b'').decode('utf-8', 'replace').split('\n')[:-1]
        self.steps += len(log)
        self.ileave.add(int(hashlib.sha1(repr([l for l in log]).encode()).hexdigest()[:15], 16))
        return rc, log, text

    def reference(self, script):
        """what the script generates when nothing goes wrong"""
        if script not in self.refs:
            self.prepare(script, 'missing')
            rc, log, text = self.execute(script, {})
            self.refs[script] = read(self.output(script)) if rc == 0 else None
            self.reflog = text
            self.logs[script] = log
        return self.refs[script]

    def close(self):
        super().close()


PYTHON = '/usr/bin/python3' if os.path.exists('/usr/bin/python3') else sys.executable


class C19(Check):
    id = 'C19'
    counts = {'quick': 1300, 'thorough': 20000}
    uses_binaries = False
    technique = 'deterministic simulation: the real scripts on an interposed file system, crash or failure at seeded calls, seeded listing orders and hash seeds'
    rule = ('one seed makes a sequence of executions of one script, each with a listing order and a hash seed, some with a crash, a signal, a failing, short or torn call at a '
            'seeded place, a failing formatter or unusable standard output, starting from an older, equal or missing file; places are taken from the calls of an undisturbed execution')
    real = 'scripts/*.py of the working tree, the Python interpreter, the shell'
    stub = 'directory listing order, results of file-system calls under the tree, signals, hash seed, clang-format (a stand-in that changes every line and can fail at five places)'
    chunk = 2

    def begin(self):
        self.fs = tempfile.mkdtemp(prefix='tomsolver-fs-')
        os.environ['SIM_FS'] = self.fs
        os.makedirs(self.fs + '/bin')
        v = os.path.join(B.VERIF, 'fs')
        subprocess.run(['gcc', '-O2', '-w', '-shared', '-fPIC', '-o', self.fs + '/simfs.so', v + '/simfs.c', '-ldl'], check=True)
        subprocess.run(['gcc', '-O2', '-w', '-o', self.fs + '/bin/clang-format', v + '/clangformat.c'], check=True)

    def end(self):
        for _ in range(5):
            shutil.rmtree(self.fs, ignore_errors=True)
            if not os.path.exists(self.fs):
                break

    def new_run(self, bdir):
        return FsRun(bdir)

    def one(self, rng, run, script, log, faulty):
        r = {'order': rng.choice([0, rng.randrange(1, 1 << 30)]), 'hash': rng.randrange(1, 1 << 31), 'cwd': rng.choice(['root', 'root', 'scripts', 'else'])}
        if rng.random() < 0.3:
            r['unknown'] = 1
        if rng.random() < 0.25:
            r['ascii'] = 1
        if rng.random() < 0.25:
            r['root'] = rng.choice(ROOTS)
        if not faulty:
            return r
        k = rng.random()
        if k < 0.7 and log:
            # the place: mostly among the calls that change something and their neighbours
            change = [i for i, l in enumerate(log) if l.split(' ')[1] in ('openw', 'write', 'close', 'rename', 'unlink', 'mkdir', 'fsync', 'truncate', 'link')]
            rare = [i for i, l in enumerate(log) if l.split(' ')[1] in ('rename', 'unlink', 'openw', 'mkdir', 'link', 'fsync')]
            x = rng.random()
            if x < 0.35 and rare:
                i = rng.choice(rare) + rng.choice([0, 0, 0, -1, 1])
            elif x < 0.7 and change:
                i = rng.choice(change)
            else:
                i = rng.randrange(len(log))
            i = min(max(i, 0), len(log) - 1)
            op = log[i].split(' ')[1]
            kind = rng.choice(KINDS.get(op, ['EIO']) * 2 + ANYWHERE)
            r['fault'] = [i + 1, kind, int(kind not in HARMLESS and rng.random() < 0.35)]
        elif k < 0.9:
            r['cf'] = rng.choice(CF)
        else:
            r['stdout'] = rng.choice(['full', 'closed'])
        if rng.random() < 0.1 and 'cf' not in r:
            r['cf'] = rng.choice(CF)
        return r

    def cases(self, rng, run, tier):
        script = rng.choice(sorted(SCRIPTS))
        run.reference(script)
        log = run.logs[script]
        n = rng.choice([1, 1, 2, 3, 5])
        runs = [self.one(rng, run, script, log, rng.random() < 0.75) for _ in range(n)]
        if rng.random() < 0.5:
            runs.append(self.one(rng, run, script, log, False))
        yield {'script': script, 'old': rng.choice(['older', 'older', 'older', 'missing', 'same', 'nodir', 'empty']), 'runs': runs}

    def judge(self, c, run):
        s = c['script']
        new = run.reference(s)
        if new is None:
            return [('fails', 'generating %s in an undisturbed environment fails:\n%s' % (s, run.reflog[-1500:]))]
        run.prepare(s, c['old'])
        out = []
        for i, r in enumerate(c['runs']):
            before = read(run.output(s))
            rc, log, text = run.execute(s, r)
            after = read(run.output(s))
            f = r.get('fault')
            struck = f and any(l.split(' ', 2)[-1].endswith(' ' + f[1]) for l in log)
            if struck:
                op = [l.split(' ')[1] for l in log if l.endswith(' ' + f[1])][0]
                run.fired['%s %s' % (op, f[1])] += 1
            if r.get('cf'):
                run.fired['clang-format ' + r['cf']] += 1
            if r.get('stdout'):
                run.fired['standard output ' + r['stdout']] += 1
            what = 'execution %d (%s)' % (i, json.dumps(r))
            if rc is None:
                out.append(('hangs', what))
            state = 'new' if after == new else 'old' if after == before else 'other'
            run.outcomes['%s, file %s' % ('exit 0' if rc == 0 else 'failure reported', state)] += 1
            if state == 'other':
                out.append(('damaged', '%s leaves %s which is neither the old nor the new one; exit status %r; last calls:\n%s\n%s' % (
                    what, 'no file' if after is None else 'a file of %d bytes (old %s, new %d)' % (len(after), before and len(before), len(new)), rc, '\n'.join(log[-6:]), text[-600:])))
            elif rc == 0 and state != 'new':
                out.append(('unreported', '%s reports success but leaves the old file; last calls:\n%s' % (what, '\n'.join(log[-6:]))))
            disturbed = (struck and f[1] not in HARMLESS) or r.get('cf') or r.get('stdout')
            if not disturbed and rc != 0:
                out.append(('fails', '%s ends with status %r although nothing disturbs it:\n%s' % (what, rc, text[-1500:])))
            if digest(run.root) != run.want:
                out.append(('sources', '%s changes the sources' % what))
                run.fresh()
            if out:
                break
        return out

    # ------------------------------------------------------------ minimising
    def ident(self, c):
        return hashlib.sha1(json.dumps(c, sort_keys=True).encode()).digest()[:8]

    def describe(self, c):
        return json.dumps(c, sort_keys=True)

    def refine(self, c, run):
        return c

    def size(self, c):
        return sum(10 + 5 * len(r) + (r.get('fault') or [0, 0, 0])[2] for r in c['runs'])

    def candidates(self, c):
        n = len(c['runs'])
        for i in range(n - 1, -1, -1):
            yield 'run', dict(c, runs=c['runs'][:i] + c['runs'][i + 1:])
        for i, r in enumerate(c['runs']):
            for k in list(r):
                d = copy.deepcopy(c)
                del d['runs'][i][k]
                yield k, d
            if r.get('fault') and r['fault'][2]:
                d = copy.deepcopy(c)
                d['runs'][i]['fault'][2] = 0
                yield 'once', d
