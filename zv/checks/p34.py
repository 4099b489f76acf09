"""P34: failing reads of the stored files."""
import copy

from .. import resp, server
from ..engine import Check, Part, Violation
from ..gens import Hist, gen_keys, weighted
from ..model import compare
from ..util import short
from .p05 import FaultWorld


class ReadWorld(FaultWorld):
    counter = 'rfailed'
    mask = 1

    def op_rfault(self, n, count, errno, part, mask):
        ctl = self.srv.ctl
        ctl['rfailed'] = 0
        ctl['rfail_errno'], ctl['rfail_short'], ctl['rfail_mask'] = errno, part, mask
        ctl['rfail_count'] = count
        ctl['rfail_at'] = ctl['reads'] + n
        self.armed = True

    def op_mget(self, i, keys):
        # each element may be refused by itself
        c, s = self.client(i)
        if s.ns is None or s.detached or s.ns.lock == 2:
            return
        keys = [self.key(k, s.ns) for k in keys]
        before = self.fired()
        r = c.do('MGET', *keys)
        if isinstance(r, resp.Err) and self.fired() > before:
            return
        if not isinstance(r, list) or len(r) != len(keys):
            self.fail('MGET %s: %s' % (short(keys), short(r)))
        for k, g in zip(keys, r):
            it = s.ns.items.get(k)
            if g != (it.value if it else None) and not (isinstance(g, resp.Err) and self.fired() > before):
                self.fail('MGET %s: %s for %s' % (short(keys), short(g), short(k)))

    def allowed(self, i, before, cmd, argv, got, want):
        if cmd == 'CHECK':
            # what it answers for a value which is not intact
            return want == 1 and got == -1
        if cmd == 'SET' and want is None and not isinstance(got, resp.Err):
            # could not see that the value is the same: stored again
            self.model = before[0]
            for k, x in before[1].items():
                self.clients[k] = (self.clients[k][0], x)
            self.model.nocompare = True
            again = self.model.exec(self.clients[i][1], argv)
            self.model.nocompare = False
            self.env.label('fault:SET:again')
            return compare(got, again) is None
        return False

    def op_listing(self, i, cmd):
        """a walk: what it lists is right, it does not end early without a word"""
        c, s = self.client(i)
        if s.ns is None or s.detached or s.ns.lock == 2:
            return
        want = self.expected_scan(s.ns)
        if cmd == 'RSCAN':
            want.reverse()
        before = self.fired()
        got, err = self.walk(c, cmd)
        if err is not None and self.fired() == before:
            self.fail('%s fails without any fault: %s' % (cmd, err))
        if got != want[:len(got)]:
            self.fail('%s lists %s instead of %s' % (cmd, short([list(x) for x in got]), short([list(x) for x in want])))
        if err is None and len(got) != len(want):
            self.fail('%s ends after %d entries of %d as if nothing was left' % (cmd, len(got), len(want)))
        if self.fired() > before:
            self.env.label('fault:' + cmd + (':err' if err is not None else ':ok'))

    def op_versions(self, i, key):
        c, s = self.client(i)
        ns = s.ns
        if ns is None or s.detached or ns.lock == 2:
            return
        k = self.key(key, ns)
        it = ns.items.get(k)
        if it is None:
            return
        before = self.fired()
        r = c.do('HISTORY', k)
        for n in range(len(it.versions) - 1, -1, -1):
            if isinstance(r, resp.Err):
                if self.fired() == before:
                    self.fail('HISTORY %s fails without any fault: %s' % (short(k), short(r)))
                self.env.label('fault:HISTORY:err')
                return
            h, w = self.hist(r), it.versions[n]
            if h is None or (h[1], h[2]) != (str(w[0]).encode(), w[1]) or (h[0] is None) != (n == 0):
                self.fail('HISTORY %s: version %d of %d is %s, should be %s %s' % (
                    short(k), n + 1, len(it.versions), short(r), w[0], short(w[1])))
            if n:
                r = c.do('HISTORY', k, h[0])

    def op_faultystart(self, n, count, errno, part, mask):
        """reads fail while the server starts: it refuses, or it
        serves what is right, and nothing stored changes"""
        self.op_heal()
        self.srv.stop()
        ctl = self.srv.ctl
        ctl['rfailed'] = 0
        ctl['rfail_errno'], ctl['rfail_short'], ctl['rfail_mask'] = errno, part, mask
        ctl['rfail_count'] = count
        ctl['reads'] = 0
        ctl['rfail_at'] = n
        try:
            c = self.srv.start()
        except server.ServerDied as e:
            if e.code in (0, 99) or e.code < 0:
                raise Violation('step %d: failing reads: ended with code %s: %s' % (self.n, e.code, self.srv.errtail(500)), 'start')
            if not ctl['rfailed']:
                raise Violation('step %d: refused to start without any fault: %s' % (self.n, self.srv.errtail(500)), 'start')
            self.srv.kill()
            self.env.label('start:refused')
        else:
            if ctl['rfailed']:
                self.env.label('start:degraded')
            self.look(c)
            self.srv.stop()
        ctl.disarm()
        self.model.boot()
        self.start()
        self.verify(history=True)

    def look(self, c):
        """nothing which was never stored is served"""
        for ns in self.model.ns.values():
            if ns.password is not None:
                r = c.do('SELECT', ns.name, ns.password)
            else:
                r = c.do('SELECT', ns.name)
            if isinstance(r, resp.Err) or ns.lock == 2:
                continue
            for k, it in ns.items.items():
                g = c.do('GET', k)
                if isinstance(g, bytes) and g not in [v[1] for v in it.versions]:
                    self.fail('after a start with failing reads, GET %s answers %s, which was never stored' % (short(k), short(g)))


def gen(rng, i):
    mode = rng.choice(['user', 'seq', None, None])
    nk = rng.choice([3, 6, 12])
    cfg = {'mode': mode, 'bits': rng.choice([1, 4, 10]), 'datasize': rng.choice([150, 300, 1000, 50000]),
           'keys': gen_keys(rng, nk), 'rel': rng.random() < 0.1, 'opts': []}
    h = Hist(rng, mode, nk, rng.choice([60, 200, 600]), clients=2)
    for _ in range(rng.choice([0, 1, 1])):
        h.new_ns()
    h.select(0)
    h.select(1)

    def some(n, faulty=False):
        for _ in range(n):
            o = weighted(rng, [(30, 'set'), (12, 'del'), (15 if faulty else 4, 'get'), (2, 'jump'), (2, 'select'),
                               (6 if faulty else 1, 'listing'), (6 if faulty else 1, 'versions'), (4 if faulty else 1, 'mget'),
                               (5 if faulty else 1, 'key')])
            if o == 'set':
                h.set()
            elif o == 'del':
                h.delete()
            elif o == 'get':
                h.get()
            elif o == 'jump':
                h.jump()
            elif o == 'select':
                h.select(h.c())
            elif o == 'mget':
                c = h.c()
                h.ops.append(['mget', c, [h.key(c) for _ in range(rng.randrange(1, 5))]])
            elif o == 'key':
                c = h.c()
                h.ops.append(['key', c, rng.choice(['EXISTS', 'LENGTH', 'KEYTIME', 'CHECK']), h.key(c)])
            elif o == 'listing':
                h.ops.append(['listing', h.c(), rng.choice(['SCAN', 'RSCAN'])])
            else:
                c = h.c()
                h.ops.append(['versions', c, h.key(c)])

    for _ in range(rng.randrange(1, 5)):
        some(rng.randrange(1, 16))
        if rng.random() < 0.2:
            h.ops.append(['faultystart', rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 15]), rng.choice([1, 1, 2, 1000]), rng.choice([5, 12, 24]),
                          rng.choice([-1, -1, 1, 10, 20, 30]), rng.choice([1, 1, 3])])
            h.restarted()
            for c in range(2):
                h.select(c)
            continue
        h.ops.append(['rfault', rng.choice([0, 0, 0, 1, 1, 2, 3, 5, 8]), rng.choice([1, 1, 1, 2, 3, 5, 1000]), rng.choice([5, 5, 12, 24]),
                      rng.choice([-1, -1, 1, 3, 10, 17, 20, 33, rng.randrange(1, 150)]), rng.choice([1, 1, 3, 2])])
        some(rng.randrange(1, 8), True)
        h.ops.append(['heal'])
        h.ops.append(['verify', 1])
        some(rng.randrange(1, 8))
        if rng.random() < 0.4:
            h.restart()
            h.ops.append(['verify', 1])
            for c in range(2):
                h.select(c)
    h.restart()
    h.ops.append(['verify', 1])
    return {'cfg': cfg, 'ops': h.ops}


def run(case, env):
    w = ReadWorld(env, case['cfg'])
    w.run(case['ops'])
    L = env.labels
    return L['SET'] >= 1 and any(k.startswith(('fault:', 'start:')) for k in L)


CHECK = Check('P34', 'a SET took effect and a command or a start met a failing read',
              [Part('reads', gen, run, 2000, 25000)],
              ['reads fail with EIO, ENOMEM or EMFILE, possibly after a part of what was asked'],
              level='fault_enumeration')
