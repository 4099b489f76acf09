"""Runs a real zdb server in a scratch directory, with the fault shim."""
import mmap
import os
import shutil
import signal
import struct
import subprocess
import tempfile

from . import resp

ASAN_OPTIONS = ('detect_leaks=0:allow_user_segv_handler=0:exitcode=99:handle_abort=1:'
                'abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0')

FIELDS = dict(timeoff=8, timefix=16, mutations=24, crash_at=32, crash_part=40, fail_at=48,
              fail_count=56, fail_errno=64, fail_short=72, failed=80, crashed=88, fail_mask=96,
              recv_max=104, send_max=112, fsyncs=120, writes=128,
              todstep=136, todcalls=144, todoff=664, memory=672, memwatch=680,
              reads=688, rfail_at=696, rfail_count=704, rfail_errno=712, rfail_short=720, rfailed=728, rfail_mask=736, vfs=744, rofs=752, rorefused=760)


class ServerDied(Exception):
    """The server process ended by itself."""

    def __init__(self, code, err):
        self.code, self.err = code, err
        Exception.__init__(self, 'server ended with code %s: %s' % (code, err))


class Ctl:
    def __init__(self, path):
        with open(path, 'wb') as f:
            f.write(b'\0' * 4096)
        self.f = open(path, 'r+b')
        self.m = mmap.mmap(self.f.fileno(), 4096)
        # aligned 8-byte stores: the server never reads half of a value
        self.q = memoryview(self.m).cast('q')
        self.reset()

    def reset(self):
        for k, v in (('timeoff', 0), ('timefix', 0), ('mutations', 0), ('recv_max', 0), ('send_max', 0), ('todstep', -1), ('todcalls', 0), ('todoff', 0), ('memory', 0), ('memwatch', 0), ('vfs', 0)):
            self[k] = v
        self.disarm()

    def disarm(self):
        for k, v in (('crash_at', -1), ('crash_part', -1), ('fail_at', -1), ('fail_count', 0),
                     ('fail_errno', 28), ('fail_short', -1), ('failed', 0), ('crashed', 0),
                     ('fail_mask', 15), ('rfail_at', -1), ('rfail_count', 0), ('rfail_errno', 5),
                     ('rfail_short', -1), ('rfail_mask', 1), ('rfailed', 0)):
            self[k] = v

    def __getitem__(self, k):
        return self.q[FIELDS[k] // 8]

    def __setitem__(self, k, v):
        self.q[FIELDS[k] // 8] = v

    @property
    def escaped(self):
        n = struct.unpack_from('<I', self.m, 4)[0]
        return self.m[152:152 + 512].split(b'\0')[0].decode('latin-1') if n else None

    def close(self):
        self.q.release()
        self.m.close()
        self.f.close()


class Scratch:
    """A private directory, removed at the end."""

    def __init__(self):
        self.path = tempfile.mkdtemp(prefix='zv.', dir='/tmp')

    def sub(self, name):
        return os.path.join(self.path, name)

    def clean(self):
        if self.path.startswith('/tmp/zv.'):
            shutil.rmtree(self.path, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.clean()


class Server:
    def __init__(self, scratch, builddir, mode=None, opts=(), bits=10, datasize=None, admin=None,
                 protect=False, hook=None, rel=False, oplog=False, name='s', data=None, index=None,
                 tcp=None, keeplog=False):
        self.scratch, self.builddir = scratch, builddir
        self.mode, self.opts = mode, list(opts)
        self.bits, self.datasize = bits, datasize
        self.admin, self.protect, self.hook = admin, protect, hook
        self.rel, self.oplog = rel, oplog
        self.name = name
        self.tcp = tcp
        self.keeplog = keeplog
        self.root = scratch.sub(name)
        os.makedirs(self.root, exist_ok=True)
        self.data = data or os.path.join(self.root, 'data')
        self.index = index or os.path.join(self.root, 'index')
        self.sock = os.path.join(self.root, 'sock')
        self.errpath = os.path.join(self.root, 'stderr')
        self.ctl = Ctl(scratch.sub(name + '.ctl'))
        self.proc = None
        self.clients = []

    def argv(self):
        a = [os.path.join(self.builddir, 'zdb-rel' if self.rel else 'zdb'),
             '--data', self.data, '--index', self.index]
        if self.tcp:
            a += ['--listen', '127.0.0.1', '--port', str(self.tcp)]
        if not self.tcp or self.tcp and '--dualnet' in self.opts:
            a += ['--socket', self.sock]
        if self.mode:
            a += ['--mode', self.mode]
        if self.admin:
            a += ['--admin', self.admin]
        if self.protect:
            a += ['--protect']
        if self.hook:
            a += ['--hook', self.hook]
        return a + self.opts

    def env(self):
        e = {'PATH': '/usr/bin:/bin', 'LANG': 'C', 'ASAN_OPTIONS': ASAN_OPTIONS,
             'ZV_ROOT': self.scratch.path, 'ZV_CTL': self.scratch.sub(self.name + '.ctl')}
        if self.bits:
            e['ZV_BITS'] = str(self.bits)
        if self.datasize:
            e['ZV_DATASIZE'] = str(self.datasize)
        if self.oplog == 'durable':
            e['ZV_DURABLE'] = os.path.join(self.root, 'durable')
            os.makedirs(e['ZV_DURABLE'], exist_ok=True)
        if self.oplog:
            e['ZV_OPLOG'] = os.path.join(self.root, 'oplog')
        return e

    def spawn(self):
        # the listening socket of a killed server stays on disk
        try:
            os.unlink(self.sock)
        except OSError:
            pass
        self.err = open(self.errpath, 'ab')
        out = open(os.path.join(self.root, 'stdout'), 'ab') if self.keeplog else subprocess.DEVNULL
        self.proc = subprocess.Popen(self.argv(), stdin=subprocess.DEVNULL, stdout=out,
                                     stderr=self.err, env=self.env(), cwd=self.root)

    def start(self):
        """Starts and waits until it listens; raises ServerDied otherwise."""
        self.spawn()
        if self.tcp and '--dualnet' not in self.opts:
            import time
            end = time.monotonic() + 60
            c = None
            while c is None and time.monotonic() < end:
                try:
                    c = resp.Client(port=self.tcp)
                except OSError:
                    if self.proc.poll() is not None:
                        break
                    time.sleep(0.003)
        else:
            c = resp.wait_for_path(self.sock, self.proc)
        if c is None:
            code = self.proc.wait()
            raise ServerDied(code, self.errtail())
        self.clients.append(c)
        return c

    def client(self, **kw):
        try:
            if self.tcp and '--dualnet' not in self.opts:
                c = resp.Client(port=self.tcp, **kw)
            else:
                c = resp.Client(self.sock, **kw)
        except OSError as e:
            raise resp.Closed(str(e))
        self.clients.append(c)
        return c

    def errtail(self, n=3000):
        try:
            with open(self.errpath, 'rb') as f:
                d = f.read()
        except OSError:
            return ''
        i = d.find(b'ERROR: AddressSanitizer')
        if i < 0:
            i = d.find(b'runtime error')
        if i >= 0:
            return d[max(0, i - 100):i + n].decode('latin-1')
        return d[-n:].decode('latin-1')

    def sanitizer(self):
        t = self.errtail(1500)
        return t if 'AddressSanitizer' in t or 'runtime error' in t else None

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def dead(self, wait=5.0):
        """Exit code when the process is ending, None when it is alive."""
        try:
            return self.proc.wait(wait)
        except subprocess.TimeoutExpired:
            return None

    def _drop(self):
        for c in self.clients:
            try:
                c.close()
            except OSError:
                pass
        self.clients = []

    def stop(self, sig=signal.SIGTERM, limit=60):
        """Graceful stop; returns the exit code."""
        if self.proc is None:
            return None
        if self.proc.poll() is None:
            self.proc.send_signal(sig)
        try:
            code = self.proc.wait(limit)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
            raise resp.Hang('server did not stop on signal %d' % sig)
        self._drop()
        self.err.close()
        self.proc = None
        return code

    def kill(self):
        if self.proc is not None:
            if self.proc.poll() is None:
                self.proc.kill()
            self.proc.wait()
            self._drop()
            self.err.close()
            self.proc = None

    def close(self):
        self.kill()
        self._drop()
        self.ctl.close()
