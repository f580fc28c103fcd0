"""One simulator process: sends plans, gets results."""
import os, struct, subprocess, urllib.parse

def q(s):
    """percent-encode the bytes of s"""
    b = s.encode('utf-8', 'surrogateescape') if isinstance(s, str) else s
    return ''.join(chr(c) if 33 <= c < 127 and c not in b'%|' else '%%%02x' % c for c in b) or '%20'[:0]

def qa(s):
    """an operation argument: also protects , and = which separate list items"""
    b = s.encode('utf-8', 'surrogateescape') if isinstance(s, str) else s
    return ''.join(chr(c) if 33 <= c < 127 and c not in b'%|,=' else '%%%02x' % c for c in b)

def unq(s):
    if '%' not in s:
        return s
    return urllib.parse.unquote_to_bytes(s).decode('utf-8', 'surrogateescape')

def hexd(x):
    return struct.pack('>d', float(x)).hex()

def unhexd(s):
    return struct.unpack('>d', bytes.fromhex(s))[0]

class OpRes:
    __slots__ = ('prog', 'op', 'rep', 'steps', 'allocs', 'maths', 'stack', 'fa', 'fm', 'cout', 'invalids', 'points', 'undefs', 'text')
    def __repr__(self):
        return 'O%d.%d[%d] steps=%d allocs=%d maths=%d stack=%d fired=%d,%d cout=%d | %s' % (
            self.prog, self.op, self.rep, self.steps, self.allocs, self.maths, self.stack, self.fa, self.fm, self.cout, self.text)

class Result:
    """ops: list of OpRes in completion order; viol: [(kind, t, op, text)]; fatal: (what, t, op) or None"""
    def __init__(self, raw):
        self.raw = raw
        self.ops, self.viol, self.fatal, self.leaks, self.fps = [], [], None, [], []
        self.sites = {}
        self.hash = None
        self.trace = ''
        self.steps = self.switches = 0
        self.tracehash = ''
        self.bad = None
        self.firedA = self.firedM = 0
        for line in raw.decode('latin-1').split('\n'):
            k = line[:2]
            if k == 'O ':
                head, text = line.split(' | ', 1)
                f = head.split(' ')
                o = OpRes()
                (o.prog, o.op, o.rep, o.steps, o.allocs, o.maths, o.stack, o.fa, o.fm, o.cout, o.invalids, o.points, o.undefs) = map(int, f[1:14])
                o.text = unq(text)
                if o.text.startswith('badplan'):
                    self.bad = o.text
                self.ops.append(o)
            elif k == 'V ':
                f = line.split(' ', 4)
                self.viol.append((f[1], int(f[2][2:]), int(f[3][3:]), f[4] if len(f) > 4 else ''))
            elif k == 'F ':
                f = line.split(' ')
                self.fatal = (f[1], int(f[2][2:]), int(f[3][3:]), ' '.join(f[4:]))
                for x in f[4:]:
                    if x.startswith('fired='):
                        self.firedA, self.firedM = map(int, x[6:].split(','))
                    if x.startswith('steps='):
                        self.steps = int(x[6:])
            elif k == 'Y ':
                f = line.split(' ')
                if f[3] == '0':
                    self.sites[int(f[1]), int(f[2])] = [tuple(map(int, x.split(','))) for x in f[4:]]
            elif k == 'L ':
                self.leaks.append(tuple(map(int, line.split(' ')[1:4])))
            elif k == 'S ':
                head, text = line.split(' | ', 1)
                f = head.split(' ')
                self.fps.append((int(f[1]), int(f[2]), unq(text)))
            elif k == 'H ':
                f = line.split(' ')
                self.hash, self.steps, self.switches, self.tracehash = f[1], int(f[2]), int(f[3]), f[4]
                self.firedA, self.firedM = int(f[5]), int(f[6])
            elif k == 'T ':
                self.trace = line[2:]
            elif k == 'B ':
                self.bad = 'plan line ' + line[2:]
    def outcomes(self, prog, rep=0):
        return {o.op: o for o in self.ops if o.prog == prog and o.rep == rep}
    def digest(self):
        """everything observable, for comparing two executions of the same plan"""
        import hashlib
        return hashlib.sha256(self.raw).hexdigest()

class SimError(Exception):
    pass

class Server:
    def __init__(self, exe, env=None):
        self.exe, self.env = exe, env
        self.p = None
    def start(self):
        e = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent'}
        e.update(self.env or {})
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e)
    def run(self, plan):
        if self.p is None:
            self.start()
        b = plan.encode('latin-1')
        try:
            self.p.stdin.write(struct.pack('<I', len(b)) + b)
            self.p.stdin.flush()
            n = struct.unpack('<I', self._read(4))[0]
            r = Result(self._read(n))
        except (BrokenPipeError, struct.error, OSError) as ex:
            raise SimError('server died: %r' % ex)
        if r.bad:
            raise SimError(r.bad + '\n' + plan[:3000])
        return r
    def _read(self, n):
        out = b''
        while len(out) < n:
            c = self.p.stdout.read(n - len(out))
            if not c:
                raise OSError('end of file')
            out += c
        return out
    def stop(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None
