"""P28: serving requests accumulates neither memory nor descriptors."""
import hashlib
import os
import time

from .. import resp
from ..engine import Check, Part, Violation
from ..gens import Hist, gen_keys, weighted
from ..util import short, value
from ..world import World

WARM, MEASURED = 4, 6


class LeakWorld(World):
    """Repeats a cycle which ends in the state it began with."""

    def held(self):
        """bytes allocated, descriptors open, children, when nothing goes on"""
        pid = self.srv.proc.pid
        c = self.client(9)[0]
        for n in range(500):
            r = c.do('PING')
            if r != 'PONG':
                self.fail('PING is answered %s' % short(r))
            fds = len(os.listdir('/proc/%d/fd' % pid))
            with open('/proc/%d/task/%d/children' % (pid, pid)) as f:
                kids = len(f.read().split())
            # closed connections are noticed by and by
            if fds <= self.floor and not kids:
                break
            time.sleep(0.001 if n < 200 else 0.02)
        c.do('PING')
        return self.srv.ctl['memory'], fds, kids

    def leave(self):
        """back to where the cycle began"""
        for c in self.raws:
            c.close()
            self.srv.clients.remove(c)
        self.raws = []
        stay = self.cfg.get('stay')
        if not stay:
            for i in list(self.clients):
                self.drop(i)
        if self.cfg.get('admin'):
            self.do(9, ['AUTH', self.cfg['admin']], quiet=True)
        for name, ns in list(self.model.ns.items()):
            if name == 'default':
                continue
            if not stay:
                self.do(9, ['NSDEL', name], quiet=True)
                continue
            self.do(9, ['NSSET', name, 'worm', '0'], quiet=True)
            self.do(9, ['SELECT', name] + ([ns.password] if ns.password else []), quiet=True)
            if not ns.seq:
                for k in list(ns.items):
                    self.do(9, ['DEL', k], quiet=True)
            self.do(9, ['SELECT', 'default'], quiet=True)

    def op_restart(self, kind):
        pass

    def do(self, i, argv, want=None, quiet=False):
        # nothing is written where it would remain
        s = self.client(i)[1]
        if resp.b(argv[0]).upper() in (b'SET', b'DEL', b'NSJUMP', b'FLUSH') and s.ns is not None and s.ns.name == 'default':
            return None, None
        return World.do(self, i, argv, want, quiet)

    def cycles(self, ops):
        self.raws = []
        self.srv.ctl['memwatch'] = 1
        self.drop(0)
        self.floor = 1 << 20
        seen = []
        for n in range(WARM + MEASURED):
            self.run(ops)
            self.leave()
            if self.cfg.get('hook'):
                # the record of a finished hook is kept for a while, then
                # removed when the server has nothing to do
                self.held()
                self.tick(100000)
                for _ in range(300):
                    # nothing to do, or many requests: it tidies up
                    self.client(9)[0].do('PING')
            h = self.held()
            if n == 0:
                # what is open after a cycle, once everything is noticed
                low = h[1]
                for _ in range(8):
                    h = self.held()
                    low = min(low, h[1])
                    time.sleep(0.004)
                self.floor = low
            seen.append(h)
        mem, fds, kids = zip(*seen)
        if fds[-1] > fds[0]:
            self.fail('descriptors are left open: %s after each repetition' % list(fds))
        if kids[-1]:
            self.fail('finished hooks are left as zombies: %s' % list(kids))
        steps = [b - a for a, b in zip(mem[WARM - 1:], mem[WARM:])]
        if all(x > 0 for x in steps):
            self.fail('each repetition of the same requests leaves memory allocated: %s bytes' % steps)
        self.env.label('steady', MEASURED)

    # ---- operations outside of the model
    def op_raw(self, parts, early):
        """a connection which sends bytes then leaves"""
        c = self.srv.client()
        self.raws.append(c)
        if self.model.ns.get('raw') is None or c.do('SELECT', 'raw') != 'OK':
            return
        try:
            for p in parts:
                c.raw(bytes.fromhex(p))
        except (resp.Closed, OSError):
            pass
        if early:
            self.raws.remove(c)
            self.srv.clients.remove(c)
            c.close()
        self.env.label('raw')

    def op_mirror(self, i):
        c, s = self.client(i)
        c.send('MIRROR')
        self.raws.append(c)
        self.clients.pop(i)
        self.model.sessions.remove(s)
        self.env.label('MIRROR')

    def op_other(self, i, *argv):
        """a request which is not modelled: any answer"""
        c, s = self.client(i)
        try:
            c.do(*argv)
        except resp.Closed:
            self.drop(i)
        self.env.label(argv[0])

    def op_secure(self, i, what, right):
        """a challenge, asked once or more, and its answer"""
        c, s = self.client(i)
        if s.ns is None or s.detached:
            return
        for _ in range(what[1]):
            r = c.do('AUTH', 'SECURE', 'CHALLENGE')
        secret = self.cfg.get('admin') if what[0] is None else getattr(self.model.ns.get(what[0]), 'password', None)
        if isinstance(r, resp.Err) or not secret:
            return
        answer = hashlib.sha1((str(r) + ':' + secret).encode()).hexdigest()
        if right == 'wrong':
            answer = hashlib.sha1(answer.encode()).hexdigest()
        elif right == 'short':
            answer = answer[:39]
        if what[0] is None:
            x = c.do('AUTH', 'SECURE', answer)
            s.admin = s.admin or right == 'right'
        else:
            x = c.do('SELECT', what[0], 'SECURE', answer)
            if right == 'right':
                s.ns, s.writable = self.model.ns[what[0]], True
        if (x == 'OK') != (right == 'right'):
            self.fail('%s answer to a challenge: %s' % (right, short(x)))
        self.env.label('SECURE:' + right)

    def op_waiter(self, i, argv):
        """waits for a command which another client runs"""
        c, s = self.client(i)
        if s.ns is None or s.detached:
            return
        c.send(*argv)
        self.raws.append(c)
        self.clients.pop(i)
        self.model.sessions.remove(s)
        self.env.label('WAIT')


def gen(rng, i):
    mode = rng.choice(['user', 'user', 'seq', None, None])
    nk = rng.choice([2, 6, 20])
    cfg = {'mode': mode, 'bits': rng.choice([1, 6]), 'datasize': rng.choice([700, 4000]), 'keys': gen_keys(rng, nk),
           'admin': rng.choice([None, 'root']), 'stay': rng.random() < 0.4}
    if cfg['stay']:
        cfg['datasize'] = 1 << 30
    if rng.random() < 0.15:
        cfg['hook'] = '/bin/true'
    big = rng.choice([60, 300, 3000])
    h = Hist(rng, mode, nk, big, clients=4, admin=cfg['admin'])
    if cfg['admin']:
        h.ops.append(['cmd', 0, 'AUTH', 'root'])
    names = rng.choice([['alpha'], ['alpha'], ['alpha', 'beta']])
    for n in names:
        h.new_ns(n)
    h.ops.append(['cmd', 0, 'NSNEW', 'raw'])
    stay = cfg['stay']
    for _ in range(rng.randrange(8, 50)):
        c = h.c()
        o = weighted(rng, [(20, 'set'), (6, 'again'), (8, 'del'), (8, 'read'), (4, 'scan'), (3, 'history'), (6, 'select'), (4, 'setting'),
                           (2, 'jump'), (1.5, 'reload'), (1.5, 'flush'), (2, 'info'), (2, 'refused'), (3, 'raw'), (2, 'wait'), (1, 'mirror'),
                           (1, 'other'), (1, 'newdel'), (2, 'close'), (3, 'secure')])
        # what is written stays in namespaces which are deleted at the end
        if h.at[c] == 'default' and o in ('set', 'again', 'jump', 'del'):
            h.select(c, rng.choice(names), 1)
        if h.at[c] == 'default' and o in ('set', 'again', 'jump', 'del', 'flush'):
            continue
        if stay and o in ('jump', 'flush', 'reload', 'newdel'):
            o = 'set'
            if h.at[c] == 'default':
                continue
        if o == 'set':
            h.set(c)
        elif o == 'again':
            h.set(c)
            if h.ops[-1][0] == 'set':
                h.ops.append(list(h.ops[-1]))
        elif o == 'del':
            h.delete(c)
        elif o == 'read':
            h.ops.append(rng.choice([['get', c, h.key(c)], ['mget', c, [h.key(c) for _ in range(rng.randrange(1, 5))]],
                                     ['key', c, rng.choice(['EXISTS', 'CHECK', 'LENGTH', 'KEYTIME']), h.key(c)]]))
        elif o == 'scan':
            h.ops.append(rng.choice([['scan', c, 'SCAN'], ['scan', c, 'RSCAN'], ['cursor', c, 0, h.key(c)],
                                     ['kscan', c, bytes([rng.randrange(256)]).hex()], ['craft', c, 'SCAN', 0, [[rng.randrange(17), rng.randrange(256)]]]]))
        elif o == 'history':
            h.ops.append(['history', c, h.key(c), 3])
        elif o == 'select':
            h.select(c)
        elif o == 'setting':
            h.setting(rng.choice(names), c=0)
        elif o == 'jump':
            h.jump(c)
        elif o == 'reload':
            h.reload(rng.choice(names + ['default']))
        elif o == 'flush':
            n = rng.choice(names)
            h.ops += [['cmd', 0, 'NSSET', n, 'worm', '0'], ['cmd', 0, 'NSSET', n, 'password', 'pf'], ['cmd', 0, 'NSSET', n, 'public', '0'],
                      ['cmd', c, 'SELECT', n, 'pf'], ['cmd', c, 'FLUSH']]
            h.pw[n] = 'pf'
            h.at[c] = n
        elif o == 'info':
            h.ops.append(rng.choice([['other', c, 'INFO'], ['cmd', c, 'NSINFO', rng.choice(names)], ['cmd', c, 'NSLIST'], ['other', c, 'HOOKS'],
                                     ['other', c, 'INDEX', 'DIRTY'], ['other', c, 'NSINFO', 'nothere'], ['other', c, 'COMMAND']]))
        elif o == 'refused':
            h.ops.append(rng.choice([['other', c, 'SET', 'a'], ['other', c, 'SET', 'k' * 256, 'v'], ['other', c, 'NOPE', 'x' * 300],
                                     ['other', c, 'GET', 'k' * 300], ['other', c, 'DEL', 'absent'], ['other', c, 'NSNEW', rng.choice(['', '..', 'alpha', 'x' * 200])],
                                     ['other', c, 'NSDEL', 'absent'], ['other', c, 'NSSET', 'alpha', 'password', 'p' * 300], ['other', c, 'SELECT', 'absent', 'x'],
                                     ['other', c, 'SCAN', 'bad'], ['other', c, 'HISTORY', 'absent'], ['other', c, 'INDEX', 'ENTRIES', '0'],
                                     ['other', c, 'INDEX', 'DIRTY', 'RESET'], ['other', c, 'DATA', 'RAW', '0', '28'], ['other', c, 'AUTH', 'bad']]))
        elif o == 'raw':
            full = [resp.encode('SET', 'k', 'v' * 50), resp.encode('GET', 'k'), resp.encode('SET', 'k', 'v' * 20000), resp.encode('MGET', *['k'] * 50),
                    resp.encode('WAIT', '*'), resp.encode('PING')]
            b = b''.join(rng.choice(full) for _ in range(rng.randrange(1, 4)))
            if rng.random() < 0.6:
                b = b[:rng.randrange(1, len(b))]
            elif rng.random() < 0.5:
                x = bytearray(b)
                x[rng.randrange(len(x))] = rng.randrange(256)
                b = bytes(x)
            k = rng.randrange(len(b))
            h.ops.append(['raw', [b[:k].hex(), b[k:].hex()], rng.random() < 0.5])
        elif o == 'wait':
            h.ops.append(['waiter', c, rng.choice([['WAIT', 'set'], ['WAIT', '*', '60000'], ['WAIT', 'get']])])
            h.at[c], h.auth[c] = 'default', False
        elif o == 'mirror' and c:
            h.ops.append(['cmd', c, 'AUTH', 'root'] if cfg['admin'] else ['other', c, 'PING'])
            h.ops.append(['mirror', c])
            h.at[c] = 'default'
        elif o == 'other':
            h.ops.append(rng.choice([['other', c, 'TIME'], ['other', c, 'NSSET', 'alpha', 'nope', '1'], ['other', c, 'ECHO', 'x' * 1000], ['other', c, 'PING']]))
        elif o == 'newdel':
            h.ops += [['cmd', 0, 'NSNEW', 'g'], ['cmd', 0, 'NSDEL', 'g']]
        elif o == 'close' and c:
            h.ops.append(['close', c])
            h.at[c] = 'default'
        elif o == 'secure':
            h.ops += [['other', c, 'AUTH', 'SECURE', 'CHALLENGE'], ['other', c, 'AUTH', 'SECURE', 'x' * 40]]
            n = None
            if rng.random() < .6:
                n = rng.choice(names)
                h.ops.append(['cmd', 0, 'NSSET', n, 'password', 'pf'])
                h.pw[n] = 'pf'
            h.ops.append(['secure', c, [n, rng.choice([1, 1, 2])], rng.choice(['right', 'wrong', 'wrong', 'short'])])
            if n and h.ops[-1][3] == 'right':
                h.at[c] = n
    return {'cfg': cfg, 'ops': h.ops}


def run(case, env):
    w = LeakWorld(env, case['cfg'])
    w.cycles(case['ops'])
    L = env.labels
    return L['SET'] >= 4 * WARM and L['steady'] >= 1


CHECK = Check(
    'P28',
    'A random cycle of requests (writes, identical rewrites, deletions, reads, enumerations, versions, settings, rotations, reloads, flushes, '
    'refused and malformed requests, partial requests of connections which leave, WAIT, MIRROR, challenges, with or without a hook) which ends where it '
    'began, either because its namespaces are deleted and its clients leave, or because its keys are deleted while everyone stays, is repeated ten times. After each '
    'repetition the bytes allocated in the server are read inside it and its descriptors and children are counted: no descriptor more, '
    'no zombie, and memory must not grow at each of the last six repetitions. '
    'Non-trivial: at least one effective SET in each repetition.',
    [Part('cycle', gen, run, 1000, 12000)],
    ['memory which grows less often than at each repetition is not seen', 'allocations are counted by AddressSanitizer'])
