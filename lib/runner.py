"""Persistent batch process around harness/smt_batch (and other line-framed harnesses)."""
import os
import re
import select
import signal
import subprocess
import tempfile
import time

ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=0:'
                    'detect_stack_use_after_return=0:check_initialization_order=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
    'LC_ALL': 'C.UTF-8',
    'HOME': '/tmp',
}


class Result:
    __slots__ = ('status', 'out', 'msg', 'crash', 'hang', 'wall')

    def __init__(self, status, out='', msg='', crash=None, hang=False, wall=0.0):
        self.status, self.out, self.msg, self.crash, self.hang, self.wall = status, out, msg, crash, hang, wall

    def answers(self):
        return [l for l in self.out.split('\n') if l in ('sat', 'unsat', 'unknown', 'error')]


def limits():
    import resource
    os.setsid()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Batch:
    def __init__(self, exe, extra_env=None):
        self.exe = exe
        self.p = None
        self.env = dict(ENV)
        if extra_env:
            self.env.update(extra_env)
        self.errf = None

    def start(self):
        self.errf = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
                                  env=self.env, preexec_fn=limits, bufsize=0)
        self.buf = b''

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.errf.close()
            self.p = None

    def _fill(self, deadline):
        left = deadline - time.time()
        if left <= 0:
            return 'hang'
        r, _, _ = select.select([self.p.stdout], [], [], left)
        if not r:
            return 'hang'
        d = os.read(self.p.stdout.fileno(), 1 << 16)
        if not d:
            return 'eof'
        self.buf += d
        return None

    def _crash(self, t0):
        self.p.wait()
        rc = self.p.returncode
        self.errf.seek(0)
        err = self.errf.read().decode('utf-8', 'replace')
        msg = self._said()
        self.stop()
        return Result('crash', msg=msg, crash=(rc, err[-40000:]), wall=time.time() - t0)

    def _said(self):
        """what the process has written to stderr during this run"""
        self.errf.seek(self.err0)
        return self.errf.read().decode('utf-8', 'replace')

    def run(self, script, opts='-', timeout=20.0):
        if self.p is None:
            self.start()
        t0 = time.time()
        self.err0 = os.fstat(self.errf.fileno()).st_size
        data = script.encode('utf-8', 'surrogateescape') if isinstance(script, str) else script
        try:
            os.write  # noqa
            self.p.stdin.write(('%s %d\n' % (opts, len(data))).encode())
            mv = memoryview(data)
            while mv:
                n = self.p.stdin.write(mv)
                mv = mv[n:]
        except (BrokenPipeError, OSError):
            return self._crash(t0)
        deadline = t0 + timeout
        while b'\n' not in self.buf:
            e = self._fill(deadline)
            if e == 'hang':
                msg = self._said()
                self.stop()
                return Result('hang', msg=msg, hang=True, wall=time.time() - t0)
            if e == 'eof':
                return self._crash(t0)
        head, self.buf = self.buf.split(b'\n', 1)
        st, n1, n2 = head.split()
        need = int(n1) + int(n2)
        while len(self.buf) < need:
            e = self._fill(deadline)
            if e == 'hang':
                msg = self._said()
                self.stop()
                return Result('hang', msg=msg, hang=True, wall=time.time() - t0)
            if e == 'eof':
                return self._crash(t0)
        out = self.buf[:int(n1)].decode('utf-8', 'replace')
        msg = self.buf[int(n1):need].decode('utf-8', 'replace')
        self.buf = self.buf[need:]
        return Result(st.decode(), out, msg, wall=time.time() - t0)


def crash_key(crash):
    """stable, line-number-free key of a crash: assertion text or sanitizer kind + top repo frame"""
    rc, err = crash
    m = re.search(r'Assertion [`\'](.*?)\' failed', err, re.S)
    if m:
        f = re.search(r'([\w.]+\.(?:h|cpp)):\d+: (.*?): Assertion', err, re.S)
        where = f.group(1) if f else '?'
        return 'assert:%s:%s' % (where, re.sub(r'\s+', ' ', m.group(1)))
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    frames = re.findall(r'#\d+ 0x[0-9a-f]+ in ([^\n]*?) (/\S+?):\d+', err)
    top = next((fn.split('(')[0] for fn, path in frames if '/src/' in path), frames[0][0] if frames else '?')
    if m:
        return 'asan:%s:%s' % (m.group(1), top)
    m = re.search(r'([\w./-]+):\d+:\d+: runtime error: (.*)', err)
    if m:
        return 'ubsan:%s:%s' % (os.path.basename(m.group(1)), re.sub(r'[-0-9x]+', 'N', m.group(2))[:80])
    m = re.search(r"terminate called after throwing an instance of '(.*?)'", err)
    if m:
        return 'uncaught:' + m.group(1)
    return 'exit:%s' % rc
