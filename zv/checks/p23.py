"""P23: concurrent clients."""
import os
import random
import socket
import time

from .. import resp
from ..engine import Check, Part, Violation
from ..gens import weighted
from ..util import expand, seqid, short
from ..world import World


def gen(rng, i):
    nc = rng.choice([2, 3, 4, 8])
    layout = rng.choice(['shared', 'own', 'own'])
    big = rng.choice([100, 3000, 3000, 70000, 300000])
    ops = []
    for _ in range(rng.randrange(10, 60)):
        c = rng.randrange(nc)
        o = weighted(rng, [(16, 'send'), (12, 'read'), (2, 'readall'), (3, 'partial'), (3, 'drop'), (2, 'slow'), (0.6, 'burst'), (0.7, 'weird')])
        if o == 'send':
            n = rng.choice([1, 1, 2, 5, 20, 60])
            if big > 50000:
                n = min(n, 8)
            reqs = []
            for _ in range(n):
                r = weighted(rng, [(10, 'S'), (8, 'G'), (3, 'D'), (1, 'E'), (1, 'L'), (2, 'M'), (1, 'P'), (0.5, 'X'), (0.4, 'U')])
                k = rng.randrange(6)
                if r == 'S':
                    size = rng.choice([0, 3, 30, 500, rng.randrange(big), big])
                    reqs.append(['S', k, size, rng.random() < 0.5])
                elif r == 'M':
                    reqs.append(['M'] + [rng.randrange(6) for _ in range(rng.choice([1, 3, 12 if big > 50000 else 60]))])
                else:
                    reqs.append([r, k])
            ops.append(['send', c, reqs, rng.choice([0, 0, 1, 7, 1000]) if big < 5000 else 0])
        elif o == 'read':
            ops.append(['read', c, rng.choice([1, 2, 5, 50])])
        elif o == 'partial':
            ops.append(['partial', c, rng.choice([1, 5, 14, 40, 8000]), rng.choice([10, 9000])])
        elif o == 'drop':
            ops.append(['drop', c, rng.choice(['close', 'close', 'shut', 'half'])])
        elif o == 'slow':
            ops.append(['slow', rng.choice([0, 0, 1, 10, 1000, 8192]), rng.choice([0, 0, 1, 100, 5000])])
        elif o == 'burst':
            ops.append(['burst', rng.choice([5, 30, 120])])
        elif o == 'weird':
            ops.append(['weird', rng.randrange(5)])
        else:
            ops.append([o, c])
    return {'cfg': {'mode': None, 'bits': 8, 'datasize': rng.choice([2000, 100000, 1 << 24]), 'rel': rng.random() < 0.5},
            'layout': layout, 'ops': ops, 'nc': nc, 'seed': rng.randrange(1 << 30)}


class Ident:
    """One connection and what it owns; used once."""

    def __init__(self, w, n):
        self.n = n
        self.seq = w.layout == 'own' and n % 2 == 1
        self.own = w.layout == 'own'
        a = w.raw
        self.prefix = b'' if self.own else b'c%d:' % n
        self.ns = 'n%d' % n if self.own else 'default'
        if self.own:
            a.do('NSNEW', self.ns)
            if self.seq:
                a.do('NSSET', self.ns, 'mode', 'seq')
        self.c = w.srv.client()
        if self.own and not isinstance(self.c.do('SELECT', self.ns), resp.Simple):
            raise Violation('SELECT %s refused' % self.ns, 'mismatch')
        self.state = {}
        self.nextid = 0
        self.count = 0
        self.queue = []          # (request, expected reply, state after)
        self.tail = b''
        self.bytes = 0
        self.received = 0

    def key(self, k):
        if self.seq:
            return seqid(k % self.nextid) if self.nextid else seqid(0)
        return self.prefix + b'key%d' % k

    def request(self, r):
        """-> argv, expected"""
        st = dict(self.state)
        op = r[0]
        if op == 'S':
            v = expand(r[2], 2 + self.n * 1000 + self.count)
            self.count += 1
            if self.seq and (r[3] or not self.nextid or self.key(r[1]) not in st):
                argv, want = [b'SET', b'', v], seqid(self.nextid)
                st[want] = v
                self.nextid += 1
            elif self.seq:
                k = self.key(r[1])
                argv, want = [b'SET', k, v], k
                if st[k] == v:
                    want = None
                else:
                    self.nextid += 1
                st[k] = v
            else:
                k = self.key(r[1])
                argv, want = [b'SET', k, v], k
                if st.get(k) == v:
                    want = None
                st[k] = v
        elif op == 'M':
            ks = [self.key(k) for k in r[1:]]
            if self.seq and any(k not in st and int.from_bytes(k, 'little') >= self.nextid for k in ks):
                ks = [k for k in ks if int.from_bytes(k, 'little') < self.nextid] or None
            if ks is None:
                argv, want = [b'PING'], resp.Simple('PONG')
            else:
                argv, want = [b'MGET'] + ks, [st.get(k) for k in ks]
        elif op == 'P':
            argv, want = [b'PING'], resp.Simple('PONG')
        elif op == 'X':
            argv, want = [b'GET'], resp.Err
        elif op == 'U':
            argv, want = [b'NOTHING', b'x' * r[1]], resp.Err
        else:
            k = self.key(r[1])
            if self.seq and not self.nextid:
                argv, want = [b'PING'], resp.Simple('PONG')
            elif op == 'G':
                argv, want = [b'GET', k], st.get(k)
            elif op == 'E':
                argv, want = [b'EXISTS', k], int(k in st)
            elif op == 'L':
                argv, want = [b'LENGTH', k], len(st[k]) if k in st else None
            elif op == 'D':
                argv, want = [b'DEL', k], resp.Simple('OK') if k in st else resp.Err
                st.pop(k, None)
        self.state = st
        return argv, want

    def push(self, r):
        argv, want = self.request(r)
        self.queue.append((argv, want, self.state))
        return resp.encode(*argv)

    def read(self, n, w):
        for _ in range(n):
            if not self.queue:
                break
            argv, want, st = self.queue[0]
            got = self.c.recv()
            ok = isinstance(got, resp.Err) if want is resp.Err else type(got) is type(want) and got == want
            if not ok:
                w.fail('connection %d received %s instead of %s' % (self.n, short(got), 'an error' if want is resp.Err else short(want)), argv)
            self.acked = self.queue.pop(0)[2]
            self.received += 1
            if isinstance(got, bytes):
                self.bytes += len(got)

    acked = None


class ConcWorld(World):
    def setup(self, case):
        self.layout = case['layout']
        self.raw = self.clients[0][0]
        self.num = 0
        self.ids = {}
        self.gone = []
        self.maxq = 0
        self.dropped = 0

    def ident(self, c):
        if c not in self.ids:
            self.ids[c] = Ident(self, self.num)
            self.num += 1
        return self.ids[c]

    def flushtail(self, x):
        if x.tail:
            x.c.raw(x.tail)
            x.tail = b''

    def op_send(self, c, reqs, cut=0):
        x = self.ident(c)
        self.flushtail(x)
        data = b''.join(x.push(r) for r in reqs)
        if cut and len(data) // cut < 400:
            for i in range(0, len(data), cut):
                x.c.raw(data[i:i + cut])
        else:
            x.c.raw(data)
        self.maxq = max(self.maxq, len(x.queue))
        self.env.label('requests', len(reqs))

    def op_read(self, c, n):
        x = self.ident(c)
        if x.tail:
            n = min(n, len(x.queue) - 1)
        x.read(n, self)

    def op_readall(self, c):
        x = self.ident(c)
        self.flushtail(x)
        x.read(len(x.queue), self)
        if x.c.pending():
            self.fail('connection %d received more than its replies: %s' % (x.n, short(bytes(x.c.buf[x.c.pos:]))))

    def op_partial(self, c, cut, size):
        """the begin of a request; the rest comes with the next one"""
        x = self.ident(c)
        self.flushtail(x)
        d = x.push(['S', cut % 6, size, True])
        cut = min(cut, len(d) - 1)
        x.c.raw(d[:cut])
        x.tail = d[cut:]

    def op_drop(self, c, how):
        x = self.ids.pop(c, None)
        if x is None:
            return
        if how == 'shut':
            x.c.s.shutdown(socket.SHUT_RDWR)
        elif how == 'half':
            x.c.s.shutdown(socket.SHUT_WR)
        if x.tail:
            x.queue.pop()
        self.dropped += 1 if x.queue else 0
        x.c.close()
        self.srv.clients.remove(x.c)
        self.gone.append(x)
        self.env.label('drop:' + ('pending' if x.queue else 'idle'))

    def op_slow(self, s, r):
        self.srv.ctl['send_max'] = s
        self.srv.ctl['recv_max'] = r

    def op_burst(self, n):
        cs = [self.srv.client() for _ in range(n)]
        for i, c in enumerate(cs):
            if i % 3 == 0:
                c.send('PING')
            elif i % 3 == 1:
                c.raw(b'*2\r\n$3\r\nGE')
        for i, c in enumerate(cs):
            if i % 6 == 0:
                if c.recv() != 'PONG':
                    self.fail('PING was not answered')
            c.close()
            self.srv.clients.remove(c)

    def op_weird(self, x):
        """a connection which misbehaves and leaves"""
        c = self.srv.client()
        try:
            c.raw([b'\r\n\r\n', b'*1\r\n$4\r\nPING\r\n*x', b'*3\r\n$3\r\nSET\r\n$1\r\na\r\n$8000000\r\n', b'', b'*1\r\n$5\r\nNOP'][x])
        except resp.Closed:
            pass
        c.close()
        self.srv.clients.remove(c)

    def fds(self):
        return len(os.listdir('/proc/%d/fd' % self.srv.proc.pid))

    def sockets(self):
        n = 0
        d = '/proc/%d/fd' % self.srv.proc.pid
        for x in os.listdir(d):
            try:
                n += os.readlink(d + '/' + x).startswith('socket:')
            except OSError:
                pass
        return n

    def finish(self):
        self.srv.ctl['send_max'] = 0
        self.srv.ctl['recv_max'] = 0
        for c in list(self.ids):
            self.op_readall(c)
        # every connection which left is released
        want = 1 + 1 + len(self.ids)
        for k in range(100):
            n = self.sockets()
            if n == want:
                break
            time.sleep(0.02 * (1 + k / 10))
        else:
            self.fail('the server keeps %d sockets for %d connections' % (n - 1, want - 1))
        for x in list(self.ids.values()) + self.gone:
            self.judge(x)

    def judge(self, x):
        c = self.srv.client()
        if x.own:
            r = c.do('SELECT', x.ns)
            if not isinstance(r, resp.Simple):
                self.fail('SELECT %s: %s' % (x.ns, short(r)))
        # states it may have left: some of its complete requests, in order
        ends = [x.acked or {}] + [q[2] for q in x.queue]
        keys = set(k for e in ends for k in e) | (set() if x.seq else set(x.key(k) for k in range(6)))
        have = {}
        for k in sorted(keys):
            v = c.do('GET', k)
            if isinstance(v, bytes):
                have[k] = v
            elif v is not None and not (x.seq and isinstance(v, resp.Err)):
                self.fail('GET %s: %s' % (short(k), short(v)))
        if have not in ends:
            self.fail('what connection %d left (%s) is not the effect of a prefix of its requests (%d received, %d in flight)' % (
                x.n, ', '.join('%s: %s' % (short(k), short(v, 12)) for k, v in sorted(have.items())), x.received, len(x.queue)))
        if x.own:
            n = c.do('DBSIZE')
            if n != len(have):
                self.fail('%s holds %s entries instead of %d' % (x.ns, short(n), len(have)))
        c.close()
        self.srv.clients.remove(c)


def run(case, env):
    w = ConcWorld(env, case['cfg'])
    w.setup(case)
    w.run(case['ops'])
    w.finish()
    return w.maxq >= 5 and w.num >= 2


# ---------------------------------------------------------------- memory
def gen_leak(rng, i):
    return {'cfg': {'mode': 'user', 'rel': True, 'bits': 4, 'datasize': 1 << 24}, 'size': rng.choice([20000, 200000, 1000000]),
            'rounds': rng.choice([30, 60]), 'kind': rng.choice(['unread', 'unread', 'read', 'midrequest', 'nonce', 'errors', 'mget', 'churn', 'wait']), 'ops': []}


def rss(pid):
    with open('/proc/%d/statm' % pid) as f:
        return int(f.read().split()[1]) * 4096


def run_leak(case, env):
    """what a connection used is released when it leaves"""
    w = World(env, case['cfg'])
    c = w.clients[0][0]
    size, kind = case['size'], case['kind']
    c.do('SET', 'v', b'x' * size)
    per = max(1, 4000000 // size)

    def round_():
        d = w.srv.client()
        if kind in ('unread', 'mget'):
            d.raw(resp.encode('GET', 'v') * per if kind == 'unread' else resp.encode(*(['MGET'] + ['v'] * per)))
            d.recv() if kind == 'unread' else d._line()
        elif kind == 'read':
            for _ in range(3):
                d.do('GET', 'v')
        elif kind == 'midrequest':
            d.raw(b'*2\r\n$3\r\nGET\r\n$1\r\nv\r\n' + resp.encode('SET', 'w', b'y' * size)[:-5])
            d.recv()
        elif kind == 'nonce':
            d.raw(resp.encode('AUTH', 'SECURE', 'CHALLENGE') * 300)
            for _ in range(300):
                d.recv()
        elif kind == 'errors':
            d.raw(b''.join(resp.encode('SET', 'x' * 300, b'z' * (size // 50), 'a', 'b') for _ in range(50)))
            for _ in range(50):
                d.recv()
        elif kind == 'churn':
            es = [w.srv.client() for _ in range(20)]
            for e in es:
                e.send('PING')
            for e in es:
                e.close()
                w.srv.clients.remove(e)
        elif kind == 'wait':
            d.raw(resp.encode('WAIT', 'SET', '5000'))
            d.do('PING')
        d.close()
        w.srv.clients.remove(d)
        c.do('PING')

    def used():
        best = None
        for _ in range(8):
            x = rss(w.srv.proc.pid)
            best = x if best is None else min(best, x)
            time.sleep(0.02)
        return best

    n = case['rounds']
    for _ in range(n):
        round_()
    a = used()
    for _ in range(n):
        round_()
    b = used()
    for _ in range(n):
        round_()
    e = used()
    # a leak grows by the same amount in both periods
    need = {'unread': 3000000 * n, 'mget': 3000000 * n, 'read': size * 3 * n, 'midrequest': size * n}.get(kind, 2000000 * n // 30)
    need = min(need, 40 << 20) // 2
    if b - a > need and e - b > need:
        w.fail('memory grows by %d then %d KiB per %d connections which left (%s)' % ((b - a) // 1024, (e - b) // 1024, n, kind))
    env.label('leak:' + kind)
    return True


CHECK = Check(
    'P23',
    'concurrent: two to eight connections with data of their own (a namespace, or keys of a shared one) pipeline generated requests with replies from '
    'a few bytes to several megabytes, read them late, send half requests, leave at any moment, while others burst in and out or '
    'misbehave and the server is made to send or receive few bytes at a time. Each reply is compared, in order; what a connection which left leaves '
    'behind must be the effect of a prefix of its requests; sockets are released. Non-trivial: two connections and five replies in flight. '
    'memory: connections which leave with unread replies, half requests, challenges; memory in use stays bounded.',
    [Part('concurrent', gen, run, 900, 15000), Part('memory', gen_leak, run_leak, 24, 300)])
CHECK.technique = 'generated interleavings of several connections against a per-connection model'
