"""Minimal RESP client used by every check."""
import socket
import time


class Simple(str):
    def __repr__(self):
        return '+' + str(self)


class Err(str):
    def __repr__(self):
        return '-' + str(self)


class Closed(Exception):
    """The server closed the connection."""


class Hang(Exception):
    """No reply within the (very generous) limit."""


class Malformed(Exception):
    """The server sent something which is not RESP."""


def b(x):
    if isinstance(x, bytes):
        return x
    if isinstance(x, str):
        return x.encode('latin-1')
    if isinstance(x, int):
        return str(x).encode()
    raise TypeError(x)


def encode(*args):
    out = [b'*%d\r\n' % len(args)]
    for a in args:
        a = b(a)
        out.append(b'$%d\r\n' % len(a))
        out.append(a)
        out.append(b'\r\n')
    return b''.join(out)


class Client:
    TIMEOUT = 30.0

    def __init__(self, path=None, port=None, rcvbuf=None, host='127.0.0.1'):
        if path is not None:
            s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            if rcvbuf:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
            s.connect(path)
        else:
            s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            if rcvbuf:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
            s.connect((host, port))
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.settimeout(self.TIMEOUT)
        self.s = s
        self.buf = bytearray()
        self.pos = 0
        self.sent = self.received = 0
        self.closed = False

    def close(self):
        self.closed = True
        self.s.close()

    def raw(self, data):
        self.sent += len(data)
        try:
            self.s.sendall(data)
        except socket.timeout:
            raise Hang('send')
        except OSError as e:
            raise Closed(str(e))

    def send(self, *args):
        self.raw(encode(*args))

    def _fill(self):
        try:
            d = self.s.recv(1 << 16)
        except socket.timeout:
            raise Hang('recv')
        except OSError as e:
            raise Closed(str(e))
        if not d:
            raise Closed('eof')
        self.received += len(d)
        if self.pos > (1 << 20):
            del self.buf[:self.pos]
            self.pos = 0
        self.buf += d

    def _line(self):
        while True:
            i = self.buf.find(b'\r\n', self.pos)
            if i >= 0:
                r = bytes(self.buf[self.pos:i])
                self.pos = i + 2
                return r
            self._fill()

    def _exact(self, n):
        while len(self.buf) - self.pos < n:
            self._fill()
        r = bytes(self.buf[self.pos:self.pos + n])
        self.pos += n
        return r

    def recv(self):
        line = self._line()
        if not line:
            raise Malformed('empty line')
        t, rest = line[:1], line[1:]
        if t == b'+':
            return Simple(rest.decode('latin-1'))
        if t == b'-':
            return Err(rest.decode('latin-1'))
        try:
            n = int(rest)
        except ValueError:
            raise Malformed(repr(line[:80]))
        if t == b':':
            return n
        if t == b'$':
            if n < 0:
                return None
            d = self._exact(n)
            if self._exact(2) != b'\r\n':
                raise Malformed('bulk terminator')
            return d
        if t == b'*':
            if n < 0:
                return None
            return [self.recv() for _ in range(n)]
        raise Malformed(repr(line[:80]))

    def do(self, *args):
        self.send(*args)
        return self.recv()

    def pending(self, wait=0.0):
        """True when some byte is already available."""
        if len(self.buf) > self.pos:
            return True
        self.s.settimeout(wait if wait > 0 else 0.0)
        try:
            d = self.s.recv(1 << 16)
            if not d:
                return False
            self.received += len(d)
            self.buf += d
            return True
        except (BlockingIOError, socket.timeout):
            return False
        except OSError:
            return False
        finally:
            try:
                self.s.settimeout(self.TIMEOUT)
            except OSError:
                pass


def wait_for_path(path, proc, limit=60.0):
    """Connects as soon as the server listens. None when the process ended."""
    end = time.monotonic() + limit
    delay = 0.001
    while time.monotonic() < end:
        try:
            return Client(path)
        except OSError:
            pass
        if proc.poll() is not None:
            return None
        time.sleep(delay)
        delay = min(delay * 1.3, 0.02)
    raise Hang('server did not listen')
