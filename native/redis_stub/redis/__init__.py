"""What the incremental update uses of redis-py, over the unix socket given as host."""
import socket

from . import _parsers, exceptions


class Redis:
    def __init__(self, host=None, port=0):
        self.s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.s.settimeout(30)
        self.s.connect(host)
        self.f = self.s.makefile('rb')
        self.callbacks = {}

    def set_response_callback(self, command, callback):
        self.callbacks[command.upper()] = callback

    def execute_command(self, *args):
        out = b'*%d\r\n' % len(args)
        for a in args:
            a = a if isinstance(a, bytes) else str(a).encode()
            out += b'$%d\r\n%s\r\n' % (len(a), a)
        self.s.sendall(out)
        r = self.reply()
        if isinstance(r, Exception):
            raise r
        cb = self.callbacks.get(args[0].upper())
        return cb(r) if cb else r

    def reply(self):
        l = self.f.readline()
        if not l.endswith(b'\r\n'):
            raise ConnectionError('closed')
        t, v = l[:1], l[1:-2]
        if t == b'+':
            return v
        if t == b'-':
            return exceptions.ResponseError(v.decode('utf-8', 'replace'))
        if t == b':':
            return int(v)
        if t == b'$':
            if int(v) < 0:
                return None
            d = self.f.read(int(v) + 2)
            return d[:-2]
        if t == b'*':
            return [self.reply() for _ in range(int(v))]
        raise ConnectionError('unexpected reply %r' % l)
