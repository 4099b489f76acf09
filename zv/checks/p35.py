"""P35: no descriptor left."""
import os
import resource
import time

from .. import resp
from ..engine import Check, Part, Violation
from ..gens import Hist, gen_keys, weighted
from ..util import short
from .p34 import ReadWorld


class FdWorld(ReadWorld):
    limited = tight = False
    mask = 3
    ticks = 0

    def __init__(self, env, cfg):
        self.waiting = []       # connected, not accepted yet, oldest first
        ReadWorld.__init__(self, env, cfg)

    def start(self):
        self.limited = self.tight = self.armed = False
        for c in self.waiting:
            c.close()
        self.waiting = []
        ReadWorld.start(self)

    # ---- descriptors of the server
    def used(self):
        return sorted(int(x) for x in os.listdir('/proc/%d/fd' % self.srv.proc.pid))

    def free(self):
        return self.limit - len([x for x in self.used() if x < self.limit])

    def set(self, n):
        soft, hard = resource.prlimit(self.srv.proc.pid, resource.RLIMIT_NOFILE)
        resource.prlimit(self.srv.proc.pid, resource.RLIMIT_NOFILE, (min(n, hard), hard))

    def op_limit(self, k):
        """k more descriptors can be used, not one more"""
        self.op_heal()
        used = set(self.used())
        n = 0
        while k or n in used:
            if n not in used:
                k -= 1
            n += 1
        self.limit = n
        self.set(n)
        self.limited = True
        self.tight = n - len([x for x in used if x < n]) < 4
        self.armed = self.tight

    def op_heal(self):
        if not self.limited:
            return
        self.limited = self.tight = self.armed = False
        self.set(1 << 20)
        for c in self.waiting:
            self.served(c)
        self.waiting = []

    def served(self, c):
        try:
            r = c.recv()
        except (resp.Hang, resp.Closed, resp.Malformed) as e:
            raise Violation('step %d: a client which connected while no descriptor was left is not served once there is: %r' % (self.n, e), 'wait')
        if r != 'PONG':
            raise Violation('step %d: a client which waited for a descriptor got %s instead of PONG' % (self.n, short(r)), 'wait')
        self.env.label('late')
        i = 100
        while i in self.clients:
            i += 1
        self.clients[i] = (c, self.model.connect())

    def settled(self):
        """those which wait are accepted while there are descriptors"""
        end = time.monotonic() + 30
        while self.waiting and time.monotonic() < end:
            if self.waiting[0].pending(0.002):
                self.served(self.waiting.pop(0))
                continue
            if not self.free():
                return
        if self.waiting:
            raise Violation('step %d: descriptors are free, a client which waits is not accepted' % self.n, 'wait')

    def op_more(self, n):
        """n clients connect"""
        for _ in range(n):
            if len(self.waiting) > 20 or len(self.clients) > 150:
                return
            c = self.srv.client()
            c.send('PING')
            if not self.limited:
                self.served(c)
                continue
            if self.waiting or not self.free():
                self.waiting.append(c)
                self.tight = self.armed = True
                self.env.label('waits')
                continue
            # may be the one which uses the last descriptor
            self.tight = self.armed = True
            self.served(c)

    def op_leave(self, j):
        """one of the many leaves"""
        k = sorted(i for i in self.clients if i >= 100)
        if self.waiting and j % 3 == 0:
            # even before being accepted
            self.waiting.pop(j % len(self.waiting)).close()
            self.env.label('left')
        elif k:
            self.drop(k[j % len(k)])
        if self.limited:
            self.settled()

    def op_each(self):
        """everyone is still connected, and to the right namespace"""
        for i, (c, s) in sorted(self.clients.items()):
            if i >= 100:
                self.do(i, ['PING'])

    def op_selects(self, j, name):
        k = sorted(i for i in self.clients if i >= 100)
        if k:
            i = k[j % len(k)]
            pw = self.model.ns[name].password if name in self.model.ns else None
            self.do(i, ['SELECT', name] + ([pw] if pw is not None else []))

    def op_reads(self, j, key):
        k = sorted(i for i in self.clients if i >= 100)
        if k:
            i = k[j % len(k)]
            self.do(i, ['GET', self.key(key, self.ns_of(i))])

    # ---- what the histories of P34 use
    def fired(self):
        self.ticks += self.tight
        return self.ticks

    def client(self, i):
        if i not in self.clients:
            self.op_heal()
        return ReadWorld.client(self, i)

    def admin(self):
        self.op_heal()
        return ReadWorld.admin(self)

    def settle(self, before, argv):
        self.limited = self.tight = False
        ReadWorld.settle(self, before, argv)


def gen(rng, i):
    mode = rng.choice(['user', 'seq', None, None])
    nk = rng.choice([3, 6, 12])
    cfg = {'mode': mode, 'bits': rng.choice([1, 4, 10]), 'datasize': rng.choice([150, 300, 1000, 50000]),
           'keys': gen_keys(rng, nk), 'rel': rng.random() < 0.1, 'opts': []}
    h = Hist(rng, mode, nk, rng.choice([60, 200, 600]), clients=2)
    for _ in range(rng.choice([0, 1, 1])):
        h.new_ns()
    h.select(0)
    h.select(1)

    def some(n, low=False):
        for _ in range(n):
            o = weighted(rng, [(25, 'set'), (10, 'del'), (12, 'get'), (2, 'jump'), (2, 'select'), (4, 'listing'), (3, 'versions'), (3, 'mget'),
                               (4, 'key'), (6 if low else 2, 'more'), (6 if low else 2, 'leave'), (2, 'each'), (3, 'selects'), (4, 'reads')])
            if o == 'set':
                h.set()
            elif o == 'del':
                h.delete()
            elif o == 'get':
                h.get()
            elif o == 'jump':
                h.jump()
            elif o == 'select':
                h.select(h.c())
            elif o == 'mget':
                c = h.c()
                h.ops.append(['mget', c, [h.key(c) for _ in range(rng.randrange(1, 5))]])
            elif o == 'key':
                c = h.c()
                h.ops.append(['key', c, rng.choice(['EXISTS', 'LENGTH', 'KEYTIME', 'CHECK']), h.key(c)])
            elif o == 'listing':
                h.ops.append(['listing', h.c(), rng.choice(['SCAN', 'RSCAN'])])
            elif o == 'versions':
                c = h.c()
                h.ops.append(['versions', c, h.key(c)])
            elif o == 'more':
                h.ops.append(['more', rng.choice([1, 1, 2, 5] if low else [1, 3, 10, 40])])
            elif o == 'leave':
                for _ in range(rng.choice([1, 1, 2, 6])):
                    h.ops.append(['leave', rng.randrange(1000)])
            elif o == 'each':
                h.ops.append(['each'])
            elif o == 'selects':
                h.ops.append(['selects', rng.randrange(1000), rng.choice(['default'] + list(h.pw))])
            else:
                h.ops.append(['reads', rng.randrange(1000), h.key(0)])

    for _ in range(rng.randrange(1, 4)):
        some(rng.randrange(1, 12))
        h.ops.append(['limit', rng.choice([0, 0, 1, 1, 2, 3, 6])])
        some(rng.randrange(2, 12), True)
        h.ops.append(['heal'])
        h.ops.append(['each'])
        h.ops.append(['verify', 1])
        some(rng.randrange(1, 6))
        if rng.random() < 0.3:
            h.restart()
            h.ops.append(['verify', 1])
            for c in range(2):
                h.select(c)
    h.restart()
    h.ops.append(['verify', 1])
    return {'cfg': cfg, 'ops': h.ops}


def run(case, env):
    w = FdWorld(env, case['cfg'])
    w.run(case['ops'])
    L = env.labels
    return L['SET'] >= 1 and (L['late'] >= 1 or any(k.startswith('fault:') for k in L))


CHECK = Check('P35', 'a SET took effect and a client waited for a descriptor or a command met the limit',
              [Part('descriptors', gen, run, 1500, 20000)],
              ['the limit is RLIMIT_NOFILE, changed while the server runs'],
              level='fault_enumeration')
