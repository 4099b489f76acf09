"""P16: WAIT."""
import time

from .. import resp
from ..engine import Check, Part, Violation
from ..gens import Hist, gen_keys, weighted
from ..model import ERR
from ..util import short, value
from ..world import World

NAMES = ['PING', 'SET', 'SETX', 'GET', 'MGET', 'DEL', 'EXISTS', 'CHECK', 'SCAN', 'SCANX', 'RSCAN', 'KSCAN', 'HISTORY', 'KEYCUR',
         'LENGTH', 'KEYTIME', 'INFO', 'DBSIZE', 'NSNEW', 'NSDEL', 'NSLIST', 'NSSET', 'NSINFO', 'NSJUMP', 'SELECT', 'RELOAD',
         'FLUSH', 'TIME', 'AUTH', 'WAIT', 'INDEX', 'DATA', 'HOOKS']


class WaitWorld(World):
    ctl_client = None

    def start(self):
        self.waiting = {}       # client -> (name, since in us, timeout in ms)
        World.start(self)
        self.srv.ctl['todoff'] += self.cfg.get('phase', 0)
        self.ctl_client = self.srv.client()

    def client(self, i):
        new = i not in self.clients
        r = World.client(self, i)
        if new:
            # served, not only waiting to be accepted
            r[0].do('NOPE')
        return r

    def sync(self, n=1):
        """nothing is left to be sent once this is answered"""
        for _ in range(n):
            r = self.ctl_client.do('NOPE')
            if not isinstance(r, resp.Err):
                self.fail('unknown command answered %s' % short(r))

    # ---- events
    def told(self, i, want):
        c = self.clients[i][0]
        if not c.pending(10):
            self.fail('client %d, which waits on %s, is not told about %s' % (i, self.waiting[i], want))
        got = c.recv()
        if repr(got) != want:
            self.fail('client %d, which waits on %s, is told %r instead of %s' % (i, self.waiting[i][0], got, want))
        del self.waiting[i]
        self.env.label('told:' + want[:8])

    def quiet(self, what):
        for i, (c, s) in self.clients.items():
            if c.pending(0):
                self.fail('client %d (%s) receives something after %s: %s' % (
                    i, 'waits on ' + self.waiting[i][0] if i in self.waiting else 'does not wait', what, short(bytes(c.buf[c.pos:]))))

    def happened(self, i, names, ns):
        """client i ran these commands, the last known namespace is ns"""
        self.sync()
        for name, where in names:
            for j in sorted(self.waiting):
                if j == i or j not in self.clients:
                    continue
                s = self.clients[j][1]
                if where is None or s.ns is not where or s.detached:
                    continue
                if self.waiting[j][0] in ('*', name):
                    self.told(j, '+' + name)
        self.quiet('%s by client %d' % ([n for n, _ in names], i))

    def do(self, i, argv, want=None, quiet=False):
        c, s = self.client(i)
        was = s.ns
        r = World.do(self, i, argv, want, quiet)
        name = resp.b(argv[0]).decode('latin-1').upper()
        if was is None:
            self.waiting.pop(i, None)
        self.happened(i, [(name, s.ns)] if was is not None else [], None)
        return r

    def drop(self, i):
        World.drop(self, i)
        self.waiting.pop(i, None)

    def now(self):
        return self.srv.ctl['todcalls'] + self.srv.ctl['todoff']

    # ---- operations
    def op_wait(self, i, name, timeout=None):
        c, s = self.client(i)
        argv = ['WAIT', name] + ([timeout] if timeout is not None else [])
        good = name.upper() in NAMES or name == '*'
        if timeout is not None:
            t = int(timeout) if timeout.isdigit() and len(timeout) <= 16 else 0
            good = good and 100 <= t <= 1800000
        else:
            t = 5000
        c.send(*argv)
        # twice: the first one may be served together with, and before, this
        self.sync(2)
        if s.ns is None or not good:
            r = c.recv()
            if not isinstance(r, resp.Err):
                self.fail('expected an error, got %s' % short(r), argv)
            if s.ns is None:
                self.drop(i)
                return
        else:
            self.waiting[i] = (name.upper(), self.now(), t)
            self.env.label('wait:' + ('*' if name == '*' else 'cmd'))
        self.happened(i, [('WAIT', s.ns)], None)

    def op_batch(self, i, cmds):
        """several commands in one piece"""
        c, s = self.client(i)
        if s.ns is None:
            return
        out, wants, names = b'', [], []
        for argv in cmds:
            argv = [self.key(argv[1], s.ns) if k == 1 and argv[0] in ('SET', 'GET', 'DEL', 'EXISTS') else
                    value(x) if isinstance(x, list) else x for k, x in enumerate(argv)]
            argv = [resp.b(x) for x in argv]
            out += resp.encode(*argv)
            wants.append((argv, self.model.exec(s, argv)))
            names.append((argv[0].decode('latin-1').upper(), s.ns))
        c.raw(out)
        from ..model import compare
        for argv, want in wants:
            bad = compare(c.recv(), want)
            if bad:
                self.fail(bad, argv)
        self.happened(i, names, None)
        self.env.label('batch')

    def op_clock(self, ms):
        """time passes; the server looks at it at least every 100 events"""
        self.srv.ctl['todoff'] += ms * 1000
        self.sync(110)
        self.expire('%d ms' % ms)

    def op_nap(self, ms):
        """time passes, nothing happens"""
        self.srv.ctl['todoff'] += ms * 1000
        time.sleep(0.6)
        self.sync()
        self.expire('%d ms of silence' % ms)

    def expire(self, what):
        for i in sorted(self.waiting):
            name, since, timeout = self.waiting[i]
            d = (self.now() - since) / 1000
            if d > timeout + 5:
                self.told(i, '-Timeout')
            elif d > timeout - 5:
                # too close to tell
                if self.clients[i][0].pending(0):
                    self.told(i, '-Timeout')
        self.quiet(what)

    def op_leave(self, i):
        if i in self.clients:
            self.drop(i)
            self.sync()
            self.env.label('left')


def gen(rng, i):
    mode = rng.choice(['user', 'seq', None])
    nk = 5
    n = rng.choice([3, 4, 6])
    cfg = {'mode': mode, 'bits': 4, 'datasize': rng.choice([300, 50000]), 'keys': gen_keys(rng, nk),
           'rel': rng.random() < 0.3, 'todstep': 1, 'phase': rng.randrange(1000000)}
    h = Hist(rng, mode, nk, 100, clients=n)
    for _ in range(rng.choice([0, 1, 1, 2])):
        h.new_ns()
    for c in range(n):
        h.select(c)
    used = ['SET', 'GET', 'DEL', 'PING', 'DBSIZE', 'NSINFO', 'SELECT', 'EXISTS', 'WAIT', 'NSNEW', 'NSSET', 'NSLIST', 'LENGTH']
    naps = 0
    for _ in range(rng.randrange(5, 45)):
        o = weighted(rng, [(30, 'wait'), (40, 'cmd'), (6, 'select'), (4, 'clock'), (3, 'leave'), (2, 'nsdel'), (1, 'new'),
                           (4, 'batch'), (1, 'badwait'), (0.3, 'nap'), (1, 'nope')])
        c = h.c()
        if o == 'wait':
            name = rng.choice(['*', rng.choice(used), rng.choice(used), rng.choice(used), rng.choice(NAMES)])
            if rng.random() < 0.1:
                name = name.lower()
            t = rng.choice([None, None, '100', '101', '250', '1000', '5000', '60000', '1800000', '0000000000001000'])
            h.ops.append(['wait', c, name] + ([t] if t else []))
        elif o == 'badwait':
            h.ops.append(['wait', c] + rng.choice([['NOPE'], ['SE'], ['SETT'], [''], ['SET', '99'], ['SET', '0'], ['SET', '1800001'],
                                                   ['SET', 'x'], ['SET', ''], ['SET', '00000000000000100'], ['**'], ['GE']]))
        elif o == 'cmd':
            k = rng.choice(['SET', 'SET', 'GET', 'GET', 'DEL', 'PING', 'DBSIZE', 'NSINFO', 'EXISTS', 'LENGTH', 'NSLIST', 'NSSET'])
            if k == 'SET':
                h.set(c)
            elif k == 'DEL':
                h.delete(c)
            elif k == 'GET':
                h.get(c)
            elif k in ('EXISTS', 'LENGTH'):
                h.ops.append(['key', c, k, h.key(c)])
            elif k == 'NSINFO':
                h.ops.append(['cmd', c, 'NSINFO', rng.choice(list(h.pw) + ['nothere'])])
            elif k == 'NSSET':
                h.setting(c=c, kinds=('maxsize', 'public'))
            else:
                h.ops.append(['cmd', c, k])
        elif o == 'select':
            h.select(c)
        elif o == 'leave':
            h.ops.append(['leave', c])
            h.at[c] = 'default'
        elif o == 'nsdel':
            h.nsdel(c)
        elif o == 'new':
            h.new_ns(c=c)
        elif o == 'nope':
            h.ops.append(['nope', c])
        elif o == 'clock':
            h.ops.append(['clock', rng.randrange(1, 6000) if rng.random() < 0.5 else rng.choice([1, 50, 90, 110, 200, 900, 1200, 4000, 5100, 61000, 2000000])])
        elif o == 'nap':
            if naps == 0:
                h.ops.append(['nap', rng.choice([120, 1100, 5100])])
            naps += 1
        else:
            cmds = []
            for _ in range(rng.randrange(2, 5)):
                k = rng.choice(['SET', 'GET', 'PING', 'DBSIZE', 'EXISTS'])
                if k == 'SET':
                    cmds.append([k, None if h.seq.get(h.at[c]) else rng.randrange(nk), h.value()])
                elif k in ('GET', 'EXISTS'):
                    cmds.append([k, rng.randrange(nk)])
                else:
                    cmds.append([k])
            h.ops.append(['batch', c, cmds])
    h.ops.append(['clock', 1900000])
    return {'cfg': cfg, 'ops': h.ops}


def op_nope(self, i):
    c, s = self.client(i)
    r = c.do('NOSUCH')
    if not isinstance(r, resp.Err):
        self.fail('unknown command answered %s' % short(r))
    if s.ns is None:
        self.drop(i)
    self.happened(i, [], None)


WaitWorld.op_nope = op_nope


def run(case, env):
    w = WaitWorld(env, case['cfg'])
    w.run(case['ops'])
    w.verify()
    L = env.labels
    return sum(v for k, v in L.items() if k.startswith('told:')) >= 1


CHECK = Check(
    'P16',
    'Random schedules of three to six clients over several namespaces: WAIT on any command or on `*` with any timeout, commands '
    'which succeed, fail or are unknown, several in one piece, namespace changes, disconnections, removed namespaces; the clock '
    'read by the server is advanced to chosen instants. After each step, every connection must have received exactly what the '
    'model says: the release with the name of the first matching command, -Timeout once the delay has passed, nothing else. '
    'Non-trivial: one waiting client was released.',
    [Part('wait', gen, run, 1500, 15000)],
    ['delays are judged with a margin of 5 ms, and up to 100 events or 0.5 s of silence late'])
CHECK.technique = 'stateful model-based testing of client schedules with a controlled clock'
