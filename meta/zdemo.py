"""Small client and server runner for the demonstration (run with cwd /repo)."""
import atexit, os, shutil, signal, socket, subprocess, sys, tempfile, time

ZDB = os.path.abspath('zdbd/zdb')
TOP = tempfile.mkdtemp(prefix='zdemo.')
atexit.register(shutil.rmtree, TOP, True)


class Err(str):
    pass


class Conn:
    def __init__(self, path):
        self.s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.s.settimeout(20)
        self.s.connect(path)
        self.buf = b''

    def send(self, *a):
        out = b'*%d\r\n' % len(a)
        for x in a:
            x = x if isinstance(x, bytes) else str(x).encode()
            out += b'$%d\r\n%s\r\n' % (len(x), x)
        self.s.sendall(out)

    def more(self):
        d = self.s.recv(65536)
        if not d:
            raise EOFError('closed')
        self.buf += d

    def line(self):
        while b'\r\n' not in self.buf:
            self.more()
        l, self.buf = self.buf.split(b'\r\n', 1)
        return l

    def recv(self):
        l = self.line()
        t, v = l[:1], l[1:]
        if t == b'+':
            return v.decode()
        if t == b'-':
            return Err(v.decode())
        if t == b':':
            return int(v)
        if t == b'$':
            n = int(v)
            if n < 0:
                return None
            while len(self.buf) < n + 2:
                self.more()
            r, self.buf = self.buf[:n], self.buf[n + 2:]
            return r
        if t == b'*':
            return [self.recv() for _ in range(int(v))]
        raise ValueError(l)

    def do(self, *a):
        self.send(*a)
        return self.recv()

    def close(self):
        self.s.close()


class Server:
    n = 0

    def __init__(self, *opts, env=None):
        Server.n += 1
        self.dir = os.path.join(TOP, 's%d' % Server.n)
        self.data, self.index = self.dir + '/data', self.dir + '/index'
        os.makedirs(self.data), os.makedirs(self.index)
        self.sock = self.dir + '/sock'
        self.opts, self.env, self.p = list(opts), env, None
        atexit.register(self.kill)
        self.start()

    def start(self):
        if os.path.exists(self.sock):
            os.unlink(self.sock)
        self.p = subprocess.Popen([ZDB, '--socket', self.sock, '--data', self.data, '--index', self.index] + self.opts,
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=self.dir,
                                  env=dict(os.environ, **(self.env or {})))
        for _ in range(200):
            if self.p.poll() is not None:
                raise RuntimeError('server ended: %d' % self.p.returncode)
            try:
                c = Conn(self.sock)
                assert c.do('PING') == 'PONG'
                c.close()
                return
            except (OSError, EOFError):
                time.sleep(0.05)
        raise RuntimeError('server does not answer')

    def conn(self):
        return Conn(self.sock)

    def stop(self, sig=signal.SIGTERM):
        self.p.send_signal(sig)
        return self.p.wait(30)

    def kill(self):
        if self.p and self.p.poll() is None:
            self.p.kill()
            self.p.wait()

    def restart(self, sig=signal.SIGTERM):
        self.stop(sig)
        self.start()


def check(cond, what):
    if not cond:
        print('FAIL:', what)
        sys.exit(1)
