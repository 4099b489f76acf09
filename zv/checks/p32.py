"""P32: the counters and clocks the server reports are exact."""
import random

from .. import resp
from ..engine import Check, Part
from ..gens import Hist, gen_keys, weighted
from ..model import parse_info
from ..util import short
from .p05 import FaultWorld
from .p27 import FILE, Log

KNOWN = set('WAIT MIRROR MASTER PING TIME AUTH HOOKS INDEX DATA SET SETX GET MGET DEL EXISTS CHECK SCAN SCANX RSCAN KSCAN '
            'HISTORY KEYCUR LENGTH KEYTIME INFO STOP DBSIZE NSNEW NSDEL NSLIST NSSET NSINFO NSJUMP SELECT RELOAD FLUSH *'.split())


class Ended(Exception):
    """a refused write stopped the server: its counters are gone"""


class CountWorld(FaultWorld):
    flow = None

    def start(self):
        self.mark()
        FaultWorld.start(self)
        self.started()

    def mark(self):
        if self.flow is None:
            self.flow = Log(self.srv)
        self.flow.take()
        self.set_tod()
        self.boottime = self.model.now
        # an answer can leave in many parts
        self.srv.ctl['send_max'] = self.cfg.get('smax', 0)

    def started(self):
        self.valid = self.unknown = self.denied = 0
        self.lifetime = 1
        self.gone = [0, 0]
        self.disk = {'data': 0, 'index': 0}
        self.refused = {'data': 0, 'index': 0}
        self.per = {}
        self.wrap(self.srv.clients[0])

    def wrap(self, c):
        """counts each request this connection sends"""
        c.world = self

    def set_tod(self):
        self.srv.ctl['todstep'] = 0
        self.srv.ctl['todoff'] = (self.model.now - 1700000000) * 1000000 + self.cfg.get('usec', 0)

    def tick(self, d):
        FaultWorld.tick(self, d)
        self.set_tod()

    def client(self, i):
        new = i not in self.clients
        r = FaultWorld.client(self, i)
        if new:
            # answered: it was accepted
            self.lifetime += 1
            self.valid += 1
            r[0].do('PING')
        return r

    def drop(self, i):
        if i in self.clients:
            c = self.clients[i][0]
            self.gone[0] += c.sent
            self.gone[1] += c.received
            if c in self.srv.clients:
                self.srv.clients.remove(c)
        FaultWorld.drop(self, i)

    def settle(self, before, argv):
        raise Ended()

    def admin(self):
        self.lifetime += 1
        return FaultWorld.admin(self)

    def drop_raw(self, c):
        # used by P05 to ask NSINFO
        self.valid += 1 + (1 if self.cfg.get('admin') else 0)
        self.gone[0] += c.sent
        self.gone[1] += c.received
        FaultWorld.drop_raw(self, c)

    def note(self, s, argv, got, was):
        if was is None:
            return
        name = resp.b(argv[0]).decode('latin-1').upper()
        if name in KNOWN:
            self.valid += 1
        else:
            self.unknown += 1
        if isinstance(got, resp.Err) and str(got) == 'Permission denied':
            self.denied += 1

    def do(self, i, argv, want=None, quiet=False):
        c, s = self.client(i)
        was = None if s.detached else s.ns
        if was is not None and self.armed and resp.b(argv[0]).upper() == b'NSSET':
            # P05 asks twice
            self.op_heal()
        r = FaultWorld.do(self, i, argv, want, quiet)
        self.note(s, argv, r[0], was)
        return r

    def op_other(self, i, *argv):
        """a request whose answer is of no interest"""
        c, s = self.client(i)
        if s.ns is None or s.detached:
            return
        r = c.do(*argv)
        self.note(s, argv, r, s.ns)
        if not isinstance(r, resp.Err):
            self.env.label('other:ok')

    def op_pipe(self, i, n, cut):
        """several requests in one piece, or in many"""
        c, s = self.client(i)
        if s.ns is None or s.detached:
            return
        rng = random.Random(n)
        reqs = [rng.choice([['PING'], ['NOPE'], ['NSLIST'], ['GET', 'absent'], ['ping'], ['INDEX', 'DIRTY']]) for _ in range(n % 9 + 1)]
        b = b''.join(resp.encode(*a) for a in reqs)
        while b:
            k = cut if cut else len(b)
            c.raw(b[:k])
            b = b[k:]
        for a in reqs:
            self.note(s, a, c.recv(), s.ns)

    def op_time(self, i):
        c, s = self.client(i)
        if s.ns is None or s.detached:
            return
        r = c.do('TIME')
        self.note(s, ['TIME'], r, s.ns)
        want = [str(self.model.now).encode(), str(self.cfg.get('usec', 0)).encode()]
        if r != want:
            self.fail('TIME is %s, the clock says %s' % (short(r), short(want)))
        self.env.label('TIME')

    def op_info(self, i):
        c, s = self.client(i)
        if s.ns is None or s.detached:
            return
        rx = self.gone[0] + sum(x.sent for x in self.srv.clients) + len(resp.encode('INFO'))
        tx = self.gone[1] + sum(x.received for x in self.srv.clients)
        r = c.do('INFO')
        self.note(s, ['INFO'], r, s.ns)
        if not isinstance(r, bytes):
            self.fail('INFO: %s' % short(r))
        f = parse_info(r)
        for op, path, a, b in self.flow.take():
            m = FILE.match(path)
            if not m or m.group('f')[0] not in 'di' or not m.group('f')[1:].isdigit():
                continue
            k = m.group('kind')
            if op == 'write':
                self.disk[k] += b
            elif op == 'refused':
                self.refused[k] += 1
                self.env.label('refused')
        want = {'clients_lifetime': self.lifetime, 'commands_executed': self.valid, 'commands_failed': self.unknown,
                'commands_unauthorized': self.denied, 'network_rx_bytes': rx, 'network_tx_bytes': tx,
                'boot_time': self.boottime, 'uptime': self.model.now - self.boottime,
                'data_disk_write_bytes': self.disk['data'], 'index_disk_write_bytes': self.disk['index'],
                'data_disk_write_failed': self.refused['data'], 'index_disk_write_failed': self.refused['index'],
                'data_disk_read_failed': 0, 'index_disk_read_failed': 0}
        for k, v in want.items():
            if f.get(k) != str(v):
                self.fail('INFO: %s is %s, should be %s' % (k, f.get(k), v))
        for k, v in (('network_rx', rx), ('network_tx', tx), ('data_disk_write', self.disk['data']),
                     ('index_disk_write', self.disk['index'])):
            if f.get(k + '_mb') != '%.2f' % (v / 1048576.0):
                self.fail('INFO: %s_mb is %s, should be %.2f' % (k, f.get(k + '_mb'), v / 1048576.0))
        self.env.label('INFO')


def gen(rng, i):
    mode = rng.choice(['user', 'seq', None, None])
    nk = rng.choice([3, 8])
    admin = rng.choice([None, 'root'])
    cfg = {'mode': mode, 'bits': rng.choice([4, 10]), 'datasize': rng.choice([300, 2000, 50000]), 'admin': admin,
           'keys': gen_keys(rng, nk), 'rel': rng.random() < 0.2, 'oplog': True, 'usec': rng.choice([0, 5, 999999, rng.randrange(1000000)])}
    if rng.random() < .3:
        cfg['smax'] = rng.choice([1, 5, 60, 1500, 9000])
    h = Hist(rng, mode, nk, rng.choice([100, 3000, 40000]), clients=3, admin=admin)
    for _ in range(rng.randrange(1, 4)):
        if admin:
            h.ops.append(['cmd', 0, 'AUTH', admin])
        if rng.random() < .5:
            h.new_ns()
        for _ in range(rng.randrange(5, 40)):
            o = weighted(rng, [(24, 'set'), (8, 'del'), (8, 'get'), (2, 'jump'), (3, 'select'), (2, 'setting'), (1, 'new'),
                               (1, 'nsdel'), (1, 'reload'), (6, 'other'), (6, 'pipe'), (2, 'time'), (3, 'tick'), (7, 'info'),
                               (2, 'close'), (2, 'connect'), (2, 'fault')])
            if o == 'set':
                h.set()
            elif o == 'del':
                h.delete()
            elif o == 'get':
                h.get()
            elif o == 'jump':
                h.jump()
            elif o == 'select':
                h.select(h.c())
            elif o == 'setting':
                h.setting(c=h.c(), kinds=('password', 'public', 'worm', 'maxsize', 'lock'))
            elif o == 'new':
                h.new_ns()
            elif o == 'nsdel':
                h.nsdel()
            elif o == 'reload':
                h.reload(c=h.c())
            elif o == 'other':
                h.ops.append(['other', h.c()] + rng.choice([
                    ['NOPE'], ['sett', 'a', 'b'], [''], ['GETX', 'a'], ['ping', 'x'], ['PiNg'], ['SCAN'], ['RSCAN'], ['HOOKS'],
                    ['INDEX', 'DIRTY'], ['INDEX', 'x'], ['DATA', 'RAW', '0', '28'], ['GET'], ['SET'], ['*'],
                    ['STOPP'], ['NSNEW', '..'], ['NSDEL', 'nope'], ['AUTH', 'wrong'], ['AUTH', 'SECURE', 'CHALLENGE'],
                    ['KSCAN', 'k'], ['NSSET', 'default', 'worm', '1'], ['WAIT', 'nope'], ['INFO', 'x', 'y'], ['ECHO', 'x' * 5000]]))
            elif o == 'pipe':
                h.ops.append(['pipe', h.c(), rng.randrange(1 << 16), rng.choice([0, 0, 1, 7])])
            elif o == 'time':
                h.ops.append(['time', h.c()])
            elif o == 'tick':
                h.ops.append(['tick', rng.choice([1, 60, 86400, 1 << 27])])
            elif o == 'info':
                h.ops.append(['info', h.c()])
            elif o == 'close':
                c = rng.randrange(1, 3)
                h.ops.append(['close', c])
                h.at[c] = 'default'
            elif o == 'connect':
                h.ops.append(['connect', h.c()])
            else:
                h.ops.append(['fault', rng.choice([0, 0, 1, 2]), rng.choice([1, 1, 2]), rng.choice([28, 5]), -1, 1])
                for _ in range(rng.randrange(1, 4)):
                    rng.choice([h.set, h.set, h.delete])()
                h.ops.append(['heal'])
                h.ops.append(['info', h.c()])
        h.ops.append(['info', 0])
        if rng.random() < .5:
            h.restart(rng.choice(['term', 'kill']))
    h.ops.append(['info', 0])
    return {'cfg': cfg, 'ops': h.ops}


def run(case, env):
    w = CountWorld(env, case['cfg'])
    try:
        w.run(case['ops'])
    except Ended:
        env.label('ended')
    L = env.labels
    return L['INFO'] >= 2 and L['SET'] >= 1


CHECK = Check(
    'P32',
    'Random histories (writes, reads, deletions, rotations, settings, unknown, malformed and refused commands, pipelined and cut '
    'requests, connections opened and closed, refused file writes, restarts) with INFO and TIME asked at random moments; every '
    'counter is compared with what the check sent and received itself and with the file writes which were interposed. '
    'Non-trivial: two INFO and one effective SET.',
    [Part('count', gen, run, 1500, 15000)],
    ['the clock is controlled by the check', 'what is read from the disk is not counted by the check'])
CHECK.technique = 'model-based testing of the reported counters against independently observed traffic and file writes'
