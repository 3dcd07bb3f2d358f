"""Driver for the simulator's zygote processes."""
import json, os, select, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('DSIM_BUILD', os.path.join(VERIF, 'build'))
FAULTS = ['none', 'alloc_fail', 'clock_jump', 'eio', 'short_io', 'eintr',
          'enospc', 'open_fail', 'signal', 'eof']


class HarnessError(Exception):
    pass


class Result:
    __slots__ = ('h', 'viol', 'msg', 'internal', 'desc', 'stats', 'keys',
                 'nelem', 'trace', 'faults', 'hash')

    def __init__(self, h, body):
        self.h = h
        self.viol = self.msg = self.internal = None
        self.desc, self.keys, self.trace, self.faults = [], [], [], []
        self.stats = {}
        self.nelem = 0
        last = None
        for l in body.split('\n'):
            t = l[:2]
            if t == 'V ':
                if self.viol is None:
                    f = l.split(' ', 2)
                    self.viol, self.msg = f[1], (f[2] if len(f) > 2 else '')
                    last = 'V'
                    continue
            elif t == 'I ':
                self.internal = l[2:]
            elif t == 'D ':
                self.desc.append(l[2:])
            elif t == 'S ':
                f = l.split()
                self.stats[f[1]] = self.stats.get(f[1], 0) + int(f[2])
            elif t == 'K ':
                self.keys.append(l[2:])
            elif t == 'E ':
                self.nelem = int(l[2:])
            elif t == 'T ':
                self.trace.append(l)
            elif t == 'F ':
                self.faults.append(l)
            elif last == 'V' and l:
                self.msg += '\n' + l
                continue
            last = None
        self.hash = h['hash']
        if self.internal is None and self.viol is None:
            if h['timeout']:
                self.viol, self.msg = 'hang', 'run did not finish in the wall-clock limit'
            elif h['sig']:
                self.viol, self.msg = 'crash', 'process died on signal %d' % h['sig']
            elif h['status'] != 2:
                self.viol, self.msg = 'exit', 'process exited with status %d in the middle of the run' % h['exit']
        if h['status'] == 4 and self.internal is None:
            self.internal = 'internal error'


def clean_env(extra=None):
    e = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'LC_ALL': 'C',
         'TMPDIR': '/tmp', 'OCLGRIND_PCH_DIR': os.path.join(BUILD, 'repo', 'include', 'oclgrind')}
    if not os.path.isdir(e['OCLGRIND_PCH_DIR']):
        del e['OCLGRIND_PCH_DIR']
    if extra:
        e.update(extra)
    return e


class Zygote:
    def __init__(self, spec, timeout=20, env=None):
        self.spec, self.timeout, self.env = spec, timeout, env
        self.p = None

    def start(self):
        self.p = subprocess.Popen([os.path.join(BUILD, 'harness'), self.spec, str(self.timeout)],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, env=clean_env(self.env), cwd='/')
        l = self.p.stdout.readline()
        if l != b'READY\n':
            err = self.p.stderr.read().decode('utf8', 'replace')
            self.p.wait()
            st = self.p.returncode
            self.p = None
            raise HarnessError('harness %s did not start (status %s): %s' % (self.spec, st, err[-2000:]))

    def run(self, seed, **kw):
        if self.p is None:
            self.start()
        c = 'seed=%d' % seed
        for k, v in kw.items():
            if v is None or v == '' or v is False:
                continue
            if k == 'drop':
                if not v:
                    continue
                v = ranges(v)
            elif v is True:
                v = 1
            c += ' %s=%s' % (k, v)
        try:
            self.p.stdin.write(c.encode() + b'\n')
            self.p.stdin.flush()
            h = self.p.stdout.readline()
            if not h:
                raise OSError('eof')
            h = json.loads(h)
            body = self.p.stdout.read(h['outlen'])
        except (OSError, ValueError) as e:
            self.close()
            raise HarnessError('harness %s lost: %s' % (self.spec, e))
        return Result(h, body.decode('utf8', 'replace'))

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            self.p.stdout.close()
            self.p.stderr.close()
            self.p.kill()
            self.p.wait()
            self.p = None


def ranges(s):
    s = sorted(s)
    out, i = [], 0
    while i < len(s):
        j = i
        while j + 1 < len(s) and s[j + 1] == s[j] + 1:
            j += 1
        out.append(str(s[i]) if i == j else '%d-%d' % (s[i], s[j]))
        i = j + 1
    return ','.join(out)
