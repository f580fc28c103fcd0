"""Builds the simulator from /repo's current working tree into _build/<hash>/ (git-ignored)."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.path.join(VERIF, '_build')

LIBM = 'sin cos tan asin acos atan sqrt log log2 log10 exp pow'.split()
LIBC = 'malloc calloc realloc free memcpy memmove memset memcmp strlen'.split()
WRAP = ['-Wl,--wrap=' + f for f in LIBM + LIBC + ['__cxa_atexit', '__cxa_thread_atexit']]
NOBUILTIN = ['-fno-builtin-' + f for f in LIBM + LIBC]
INSTR = ['-std=c++14', '-g', '-O1', '-fsanitize=thread', '-include', os.path.join(VERIF, 'cpp', 'simstd.h'), '-fno-omit-frame-pointer',
         '-w', '-ffp-contract=off'] + NOBUILTIN
LOCALES = [('de_DE', 'UTF-8'), ('fr_FR', 'UTF-8'), ('tr_TR', 'UTF-8'), ('de_DE', 'ISO-8859-1'), ('hi_IN', 'UTF-8')]


class BuildError(Exception):
    pass


def _files():
    fs = []
    for pat in ('src/tomsolver/*', 'single/include/tomsolver/*', 'examples/diff_machine/*'):
        fs += sorted(glob.glob(os.path.join(REPO, pat)))
    fs += sorted(glob.glob(os.path.join(VERIF, 'cpp', '*'))) + [os.path.abspath(__file__)]
    return [f for f in fs if os.path.isfile(f)]


def tree_hash():
    h = hashlib.sha256()
    for f in _files():
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:20]


def _cc(args, log):
    p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        log.append(' '.join(args) + '\n' + p.stdout.decode('utf-8', 'replace')[:6000])
    return p.returncode == 0


def build(verbose=False):
    """returns the directory with simA, simB, dm and locale/"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = tree_hash()
        out = os.path.join(BUILD, key)
        if os.path.exists(os.path.join(out, 'done')):
            os.utime(out)
            return out
        for d in sorted((d for d in glob.glob(BUILD + '/*') if os.path.isdir(d) and d != out), key=os.path.getmtime)[:-6]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        obj = os.path.join(out, 'obj')
        os.makedirs(obj)
        t0 = time.time()
        cpp = os.path.join(VERIF, 'cpp')
        src = ['-I' + os.path.join(REPO, 'src'), '-I' + cpp]
        single = ['-I' + os.path.join(REPO, 'single/include'), '-I' + cpp]
        log = []
        jobs, A = [], []
        jobs.append(['g++'] + INSTR + ['-DNDEBUG'] + single + ['-c', cpp + '/ops.cpp', '-o', obj + '/B_ops.o'])
        jobs.append(['g++'] + INSTR + ['-DSIM_LIBRARY_HEADERS'] + src + ['-c', cpp + '/ops.cpp', '-o', obj + '/A_ops.o'])
        for f in sorted(glob.glob(os.path.join(REPO, 'src/tomsolver/*.cpp'))):
            o = '%s/A_%s.o' % (obj, os.path.basename(f)[:-4])
            A.append(o)
            jobs.append(['g++'] + INSTR + src + ['-c', f, '-o', o])
        jobs.append(['g++', '-std=c++17', '-O2', '-fno-omit-frame-pointer', '-fno-builtin', '-w', '-c', cpp + '/rt.cpp', '-o', obj + '/rt.o'])
        dm = os.path.join(cpp, 'dm.cpp')
        if os.path.exists(dm):
            jobs.append(['g++', '-std=c++17', '-O2', '-w', '-c', dm, '-o', obj + '/dm_host.o'])
            jobs.append(['g++'] + INSTR + ['-Dmain=diff_machine_main'] + src +
                        ['-c', os.path.join(REPO, 'examples/diff_machine/main.cpp'), '-o', obj + '/dm_main.o'])
        with ThreadPoolExecutor(8) as ex:
            ok = list(ex.map(lambda j: _cc(j, log), jobs))
        if all(ok):
            # the simulator decides when the library's static objects are initialised, and in which order
            for f in A:
                names = set(re.findall(r'\s(\.init_array\S*)\s', subprocess.run(
                    ['objdump', '-h', f], stdout=subprocess.PIPE, text=True).stdout))
                if names:
                    ok.append(_cc(['objcopy'] + ['--rename-section=%s=siminit' % n for n in sorted(names)] + [f], log))
        if not all(ok):
            shutil.rmtree(out, ignore_errors=True)
            raise BuildError('\n'.join(log))
        links = [['g++', '-no-pie', '-o', out + '/simA', obj + '/A_ops.o'] + A + [obj + '/rt.o'] + WRAP + ['-lpthread'],
                 ['g++', '-no-pie', '-o', out + '/simB', obj + '/B_ops.o', obj + '/rt.o'] + WRAP + ['-lpthread']]
        if os.path.exists(dm):
            links.append(['g++', '-no-pie', '-o', out + '/dm', obj + '/dm_host.o', obj + '/dm_main.o'] + A +
                         [obj + '/rt.o'] + WRAP + ['-lpthread'])
        with ThreadPoolExecutor(3) as ex:
            ok = list(ex.map(lambda j: _cc(j, log), links))
        if not all(ok):
            shutil.rmtree(out, ignore_errors=True)
            raise BuildError('\n'.join(log))
        loc = out + '/locale'
        os.makedirs(loc)
        procs = []
        for name, cs in LOCALES:
            procs.append(subprocess.Popen(['localedef', '-i', name, '-f', cs, '%s/%s.%s' % (loc, name, cs)],
                                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
        for p in procs:
            p.wait()
        shutil.rmtree(obj, ignore_errors=True)
        with open(out + '/done', 'w') as f:
            f.write('%.1f\n' % (time.time() - t0))
        if verbose:
            print('built %s in %.1f s' % (out, time.time() - t0))
        return out


if __name__ == '__main__':
    try:
        print(build(True))
    except BuildError as e:
        print(e)
        sys.exit(2)
