"""P27: what is flushed when, and what a power loss leaves."""
import os
import random
import re
import signal

from .. import resp
from ..engine import Check, Part, Violation
from ..gens import Hist, gen_keys, weighted
from ..world import World
from .p04 import CrashWorld

FILE = re.compile(r'^(?:.*/)?(?P<kind>data|index)/(?P<ns>[^/]+)/(?P<f>[di]\d+|zdb-namespace[^/]*)$')


class Log:
    """Follows the file operations logged by the server."""

    def __init__(self, srv):
        self.path = os.path.join(srv.root, 'oplog')
        self.root = srv.root
        self.at = 0

    def take(self):
        """[(op, path below the root, a, b)] since the last call"""
        try:
            with open(self.path, 'rb') as f:
                f.seek(self.at)
                b = f.read()
        except OSError:
            return []
        self.at += len(b)
        out = []
        for line in b.decode('latin-1').splitlines():
            op, x, y, path = line.split(' ', 3)
            if path.startswith(self.root + '/'):
                out.append((op, path[len(self.root) + 1:], int(x), int(y)))
        return out


def unflushed(ops):
    """paths written and not flushed after that"""
    out = {}
    for op, path, a, b in ops:
        if op == 'write' and b > 0:
            out[path] = (a, b)
        elif op in ('fsync', 'unlink', 'remove'):
            out.pop(path, None)
    return out


# ------------------------------------------------ flushed before the answer
class SyncWorld(World):
    flow = None

    def start(self):
        World.start(self)
        if self.flow is None:
            self.flow = Log(self.srv)
        self.judge('start')

    def judge(self, what):
        ops = self.flow.take()
        for path in unflushed(ops):
            if FILE.match(path):
                raise Violation('step %d: %s: %s was written and not flushed before the answer; file operations: %s' % (
                    self.n, what, path, ' '.join('%s:%s' % (o[0], o[1]) for o in ops)[-600:]), 'unflushed')
        if any(o[0] == 'fsync' for o in ops):
            self.env.label('flushed')

    def do(self, i, argv, want=None, quiet=False):
        r = World.do(self, i, argv, want, quiet)
        from ..util import short
        self.judge(' '.join(short(resp.b(a), 20) for a in argv[:4]))
        return r


def history(rng, h, n, boost=0):
    for _ in range(n):
        o = weighted(rng, [(40, 'set'), (20, 'del'), (5 + boost, 'jump'), (4, 'select'), (3, 'setting'),
                           (1 + boost, 'new'), (0.5, 'nsdel'), (1.5, 'tick'), (1.5, 'reload'), (1, 'ts'), (1, 'flush')])
        if o == 'set':
            h.set()
        elif o == 'del':
            h.delete()
        elif o == 'jump':
            h.jump()
        elif o == 'select':
            h.select(h.c())
        elif o == 'setting':
            h.setting(kinds=('password', 'public', 'worm', 'maxsize', 'mode', 'mode'))
        elif o == 'new':
            h.new_ns()
        elif o == 'nsdel':
            h.nsdel()
        elif o == 'reload':
            h.reload()
        elif o == 'flush':
            names = [x for x in h.pw if x != 'default']
            if names:
                x = rng.choice(names)
                h.ops += [['cmd', 0, 'NSSET', x, 'worm', '0'], ['cmd', 0, 'NSSET', x, 'password', 'pf'],
                          ['cmd', 0, 'NSSET', x, 'public', '0'], ['cmd', 1, 'SELECT', x, 'pf'], ['cmd', 1, 'FLUSH']]
                h.pw[x], h.public[x], h.at[1] = 'pf', False, x
        elif o == 'ts':
            c = h.c()
            h.ops.append(['set', c, None if h.seq.get(h.at[c]) else h.key(c), h.value(), 5])
        else:
            h.ops.append(['tick', rng.choice([1, 5, 60, 86400])])


def base(rng, opts):
    mode = rng.choice(['user', 'seq', None, None])
    nk = rng.choice([3, 6, 12])
    cfg = {'mode': mode, 'bits': rng.choice([1, 4, 10]), 'datasize': rng.choice([150, 300, 1000, 50000]),
           'keys': gen_keys(rng, nk), 'rel': rng.random() < 0.15, 'opts': opts, 'oplog': True}
    h = Hist(rng, mode, nk, rng.choice([60, 200]), clients=2)
    for _ in range(rng.choice([0, 1, 1, 2])):
        h.new_ns()
    for c in range(2):
        h.select(c)
    return cfg, h


def gen_sync(rng, i):
    cfg, h = base(rng, rng.choice([['--sync'], ['--sync'], ['--sync', '--secure'], ['--sync', '--synctime', '100']]))
    for _ in range(rng.randrange(1, 4)):
        history(rng, h, rng.randrange(3, 40))
        if rng.random() < 0.5:
            h.restart()
            for c in range(2):
                h.select(c)
    return {'cfg': cfg, 'ops': h.ops}


def run_sync(case, env):
    w = SyncWorld(env, case['cfg'])
    w.run(case['ops'])
    L = env.labels
    return L['SET'] >= 2 and L['flushed'] >= 2


# ------------------------------------------------ power loss
class PowerWorld(CrashWorld):
    """The contents which were never flushed are lost, in part or entirely."""

    def lose(self, how):
        """how: 'all', or a seed choosing for each file"""
        rng = random.Random(how)
        dur = os.path.join(self.srv.root, 'durable')
        lost = 0
        for d in (self.srv.data, self.srv.index):
            for dirpath, _, names in os.walk(d):
                for n in sorted(names):
                    p = os.path.join(dirpath, n)
                    if n.startswith('.'):
                        continue
                    try:
                        with open(os.path.join(dur, p.replace('/', '@')), 'rb') as f:
                            safe = f.read()
                    except OSError:
                        safe = b''
                    with open(p, 'rb') as f:
                        now = f.read()
                    if now == safe:
                        continue
                    kind = 'all' if how == 'all' else rng.choice(['all', 'keep', 'part'])
                    if kind == 'keep':
                        continue
                    if kind == 'part' and now.startswith(safe):
                        safe = now[:rng.randrange(len(safe), len(now) + 1)]
                    with open(p, 'wb') as f:
                        f.write(safe)
                    lost += 1
        if lost:
            self.env.label('lost')
        return lost

    def op_power(self, how):
        """power loss between two commands"""
        self.srv.kill()
        self.model.boot()
        self.lose(how)
        self.clients = {}
        self.boot([])
        try:
            self.verify(history=True)
        except Violation as e:
            raise Violation('after a power loss between two commands: %s' % e.msg, 'power')
        self.env.label('power')

    def crashed(self, op, before, replied):
        self.srv.kill()
        self.lose(self.how)
        self.env.label('power')
        CrashWorld.crashed(self, op, before, replied)

    def op_arm(self, n, part, how):
        self.how = how
        CrashWorld.op_arm(self, n, part, ())


def gen_power(rng, i):
    cfg, h = base(rng, rng.choice([['--sync'], ['--sync'], ['--sync', '--secure']]))
    cfg['oplog'] = 'durable'
    for _ in range(rng.randrange(1, 4)):
        history(rng, h, rng.randrange(1, 12))
        how = rng.choice(['all', 'all', rng.randrange(1 << 20)])
        if rng.random() < 0.4:
            h.ops.append(['power', how])
            h.restarted()
        else:
            h.ops.append(['arm', rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 7]),
                          rng.choice([-1, -1, -1, 1, 18, 30, 40, rng.randrange(1, 200)]), how])
            history(rng, h, rng.randrange(2, 8), boost=3)
            h.restarted()
        for c in range(2):
            h.select(c)
    h.ops.append(['power', 'all'])
    return {'cfg': cfg, 'ops': h.ops}


def run_power(case, env):
    w = PowerWorld(env, case['cfg'])
    w.run(case['ops'])
    w.srv.ctl.disarm()
    w.verify(history=True)
    return env.labels['SET'] >= 1 and env.labels['power'] >= 1


# ------------------------------------------------ --synctime and --secure
class LateWorld(World):
    """--synctime: the flush is due at the next write after the delay;
    --secure: a file is flushed when a rotation leaves it."""
    flow = None

    def start(self):
        World.start(self)
        if self.flow is None:
            self.flow = Log(self.srv)
        self.flow.take()
        self.last = {}

    def do(self, i, argv, want=None, quiet=False):
        r = World.do(self, i, argv, want, quiet)
        cmd = resp.b(argv[0]).decode('latin-1').upper()
        ops = self.flow.take()
        if cmd in ('RELOAD', 'NSDEL', 'NSNEW', 'FLUSH') or (cmd == 'NSSET'):
            self.last = {}
            return r
        wrote, synced = {}, {}
        pend = {}
        for op, path, a, b in ops:
            m = FILE.match(path)
            if not m:
                continue
            k = (m.group('ns'), m.group('kind'))
            if op == 'write' and b > 0:
                wrote[k] = path
                pend[path] = 1
            elif op == 'fsync':
                synced[k] = path
                pend.pop(path, None)
            elif op == 'create' and m.group('f')[0] in 'di' and 'secure' in self.cfg:
                # the file before it was left
                f = m.group('f')
                if int(f[1:]) > 0:
                    old = path[:-len(f)] + f[0] + str(int(f[1:]) - 1)
                    if ('fsync', old) not in [(o[0], o[1]) for o in ops]:
                        self.fail('%s was left by a rotation without being flushed' % old, argv)
                    if old in pend:
                        self.fail('%s was written after it was flushed, before the rotation' % old, argv)
                    self.env.label('rotation')
        if self.cfg.get('synctime') is not None:
            now = self.model.now
            for k in wrote:
                if k in self.last and now - self.last[k] > self.cfg['synctime']:
                    if k not in synced:
                        self.fail('%s was not flushed, %d s after the previous time' % (wrote[k], now - self.last[k]), argv)
                    self.env.label('late')
            for k in synced:
                self.last[k] = now
        return r


def gen_late(rng, i):
    n = rng.choice([1, 10, 60])
    cfg, h = base(rng, ['--synctime', str(n)] if i % 2 else ['--secure'])
    if i % 2:
        cfg['synctime'] = n
        cfg['datasize'] = 100000
    else:
        cfg['secure'] = 1
        cfg['datasize'] = rng.choice([150, 300, 500])
    for _ in range(rng.randrange(6, 50)):
        o = weighted(rng, [(30, 'set'), (10, 'del'), (10, 'tick'), (2, 'select'), (2, 'jump')])
        if o == 'set':
            h.set()
        elif o == 'del':
            h.delete()
        elif o == 'select':
            h.select(h.c())
        elif o == 'jump':
            h.jump()
        else:
            h.ops.append(['tick', rng.choice([1, n - 1, n, n + 1, n + 2, 10 * n])])
    return {'cfg': cfg, 'ops': h.ops}


def run_late(case, env):
    w = LateWorld(env, case['cfg'])
    w.run(case['ops'])
    L = env.labels
    return L['SET'] >= 2 and (L['late'] or L['rotation'])


# ------------------------------------------------ flushed by a stop
class StopWorld(World):
    """An orderly stop, and the handler of a crash, flush the current files
    of each namespace."""
    flow = None

    def start(self):
        World.start(self)
        if self.flow is None:
            self.flow = Log(self.srv)
            self.since = []

    def op_halt(self, how):
        self.since += self.flow.take()
        before = unflushed(self.since)
        if how == 'STOP':
            c = self.admin()
            c.send('STOP')
            try:
                c.recv()
            except resp.Closed:
                pass
            code = self.srv.dead(60)
            t = self.srv.sanitizer()
            if code is None or t or code < 0 or code == 99:
                raise Violation('STOP: code %s: %s' % (code, t), 'stop')
            self.srv.stop()
        else:
            code = self.srv.stop({'TERM': signal.SIGTERM, 'INT': signal.SIGINT, 'SEGV': signal.SIGSEGV}[how])
            t = self.srv.sanitizer()
            if t or (code is not None and code < 0) or code == 99:
                raise Violation('stopping (%s) crashed the server (code %s): %s' % (how, code, t), 'stop')
        ops = self.flow.take()
        self.model.boot()
        left = unflushed(self.since + ops)
        last = {}
        for d in (self.srv.data, self.srv.index):
            for path, _, names in os.walk(d):
                ids = [n for n in names if re.match(r'^[di]\d+$', n)]
                if ids:
                    n = max(ids, key=lambda n: int(n[1:]))
                    last[os.path.relpath(os.path.join(path, n), self.srv.root)] = 1
        for path in left:
            if path in last and os.path.exists(os.path.join(self.srv.root, path)):
                raise Violation('step %d: %s was written and the server ended (%s) without flushing it' % (self.n, path, how), 'stop')
        self.env.label('halt:' + how)
        if any(p in last for p in before):
            self.env.label('pending')
        self.clients = {}
        self.since = []
        World.start(self)
        self.flow.take()
        self.verify()


def gen_stop(rng, i):
    cfg, h = base(rng, rng.choice([[], [], ['--secure'], ['--synctime', '100']]))
    for _ in range(rng.randrange(1, 4)):
        history(rng, h, rng.randrange(1, 25))
        if rng.random() < 0.3:
            # everything is deleted
            for c in range(2):
                for k in range(len(cfg['keys'])):
                    h.ops.append(['del', c, k])
        if rng.random() < 0.1:
            h.ops.append(['cmd', 0, 'NSSET', rng.choice(list(h.pw)), 'lock', '1'])
        h.ops.append(['halt', rng.choice(['TERM', 'TERM', 'INT', 'SEGV' if cfg['rel'] else 'STOP'])])
        h.restarted()
        for c in range(2):
            h.select(c)
    return {'cfg': cfg, 'ops': h.ops}


def run_stop(case, env):
    w = StopWorld(env, case['cfg'])
    w.run(case['ops'])
    return env.labels['SET'] >= 1 and env.labels['pending'] >= 1


CHECK = Check(
    'P27',
    'Random histories against a server started with --sync, whose file operations are logged: at each answer (and at the end of '
    'a start), every data, index or settings file written has been flushed after its last write. In a second part the power is '
    'lost between two commands or at a chosen file operation of a command: what was not flushed is lost, wholly or in part, and '
    'the state after the restart is the one before or after that command. A third part checks --synctime (flush due at the next '
    'write) and --secure (flush of a file left by a rotation). A fourth part ends the server by each signal and by STOP: the '
    'current files of each namespace are flushed before it exits. Non-trivial: at least two effective SET and two flushes; one '
    'power loss; one due flush or rotation; something to flush at a stop.',
    [Part('sync', gen_sync, run_sync, 900, 9000), Part('power', gen_power, run_power, 1500, 15000),
     Part('late', gen_late, run_late, 500, 5000),
     Part('stop', gen_stop, run_stop, 500, 5000)],
    ['creations, renames and removals of directory entries are durable in the order they are made: the program never flushes '
     'directories', 'flushes are interposed: fsync, fdatasync, O_SYNC and O_DSYNC count'],
    level='fault_enumeration')
CHECK.technique = 'model-based testing with interposed flushes and generated power losses'
