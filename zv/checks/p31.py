"""P31: db-sync and db-replicate copy the default namespace."""
import os
import pty
import subprocess
import time

from .. import resp
from ..engine import Check, Part, Violation
from ..gens import gen_keys, gen_value, weighted
from ..server import ASAN_OPTIONS
from ..util import short, value
from ..world import World


class CopyWorld(World):
    def setup(self, case):
        cfg = self.cfg
        self.b = self.env.server(self.sc, mode='user', bits=cfg['bits'], datasize=case['bsize'], name='b')
        self.b.start()
        # an enumeration is not cut by a stall of the machine, only by its steps
        self.srv.ctl['todstep'] = case['slice']
        self.b.ctl['todstep'] = 1
        self.ever = {}
        self.touched = set()
        self.snap = None
        self.old = {}
        c = self.cb = self.b.client()
        for k, v in case['before']:
            k, v = self.key(k, None), value(v)
            if k and not isinstance(c.do('SET', k, v), resp.Err):
                self.old[k] = v

    def env_of(self):
        return {'PATH': '/usr/bin:/bin', 'LANG': 'C', 'ASAN_OPTIONS': ASAN_OPTIONS + ':detect_leaks=0'}

    def do(self, i, argv, want=None, quiet=False):
        got, want = World.do(self, i, argv, want, quiet)
        if resp.b(argv[0]) in (b'SET', b'DEL'):
            self.touched.add(resp.b(argv[1]))
        if resp.b(argv[0]) == b'SET' and not isinstance(got, resp.Err):
            self.ever.setdefault(resp.b(argv[1]), set()).add(resp.b(argv[2]))
        return got, want

    def compare(self, exact):
        """what differs on the copy, or None"""
        live = self.model.ns['default'].items
        want = dict(self.old)
        want.update({k: it.value for k, it in live.items()})
        for k, v in want.items():
            g = self.cb.do('GET', k)
            if g != v and not (not exact and k not in live and g in self.ever.get(k, ())):
                return '%s is %s on the copy instead of %s' % (short(k), short(g), short(v))
        got, err = self.walk(self.cb, 'SCAN')
        if err:
            return 'SCAN of the copy: %s' % err
        for k, n, _ in got:
            if k in want:
                continue
            if exact or k not in self.ever:
                return 'the copy has the key %s' % short(k)
            g = self.cb.do('GET', k)
            if g not in self.ever[k]:
                return '%s is %s on the copy, which it never was' % (short(k), short(g))
        if len(got) != len(set(k for k, _, _ in got)):
            return 'the copy lists a key twice'
        return None

    def op_sync(self):
        """a single-shot copy"""
        p = subprocess.run([os.path.join(self.env.build, 'db-sync'), '--source-host', self.srv.sock, '--remote-host', self.b.sock],
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=self.env_of(), timeout=120)
        if p.returncode:
            self.fail('db-sync ends with code %d: %s' % (p.returncode, short(p.stderr[-600:])))
        for k, it in self.model.ns['default'].items.items():
            self.old[k] = it.value
        bad = self.compare(True)
        if bad:
            self.fail('after db-sync: %s' % bad)
        self.env.label('sync')

    def op_begin(self):
        """a copy made while the source changes"""
        self.ever.update({k: self.ever.get(k, set()) | {v} for k, v in self.old.items()})
        self.snap = {k: it.value for k, it in self.model.ns['default'].items.items()}
        self.copier = subprocess.Popen([os.path.join(self.env.build, 'db-sync'), '--source-host', self.srv.sock, '--remote-host', self.b.sock],
                                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=self.env_of())
        self.env.open.append(Tool(self.copier, None))
        self.touched = set()

    def op_end(self):
        if self.snap is None:
            return
        try:
            code = self.copier.wait(60)
        except subprocess.TimeoutExpired:
            self.fail('db-sync does not end')
        if code:
            self.fail('db-sync ends with code %d: %s' % (code, short(self.copier.stderr.read()[-600:])))
        for k, v in self.snap.items():
            g = self.cb.do('GET', k)
            if k not in self.touched and g != v:
                self.fail('%s, unchanged during db-sync, is %s on the copy instead of %s' % (short(k), short(g), short(v)))
        got, err = self.walk(self.cb, 'SCAN')
        for k, _, _ in got:
            g = self.cb.do('GET', k)
            if g not in self.ever.get(k, ()):
                self.fail('%s is %s on the copy after db-sync, which it never was' % (short(k), short(g)))
        self.snap = None
        self.env.label('sync:live')

    def op_replicate(self):
        """the copy follows from now on"""
        m, s = pty.openpty()
        self.tool = subprocess.Popen([os.path.join(self.env.build, 'db-replicate'), '--source-host', self.srv.sock, '--remote-host', self.b.sock],
                                     stdin=subprocess.DEVNULL, stdout=s, stderr=subprocess.PIPE, env=self.env_of())
        os.close(s)
        self.env.open.append(Tool(self.tool, m))
        os.set_blocking(m, False)
        self.pty = m

    def op_settle(self):
        """a change which is sent wakes the copy: it has everything then"""
        end = time.monotonic() + 40
        n = 0
        while True:
            n += 1
            self.op_set(0, self.cfg['nudge'], [8, 5000000 + n + 1000 * self.n])
            wait = time.monotonic() + (0.004 if n < 5 else 0.1)
            while True:
                try:
                    while os.read(self.pty, 65536):
                        pass
                except OSError:
                    pass
                if self.tool.poll() is not None:
                    self.fail('db-replicate ended with code %d: %s' % (self.tool.returncode, short(self.tool.stderr.read()[-600:])))
                bad = self.compare(False)
                if not bad:
                    self.env.label('settled')
                    return
                if time.monotonic() > wait:
                    break
                time.sleep(0.001)
            if time.monotonic() > end:
                self.fail('db-replicate, after %d more changes: %s' % (n, bad))


class Tool:
    def __init__(self, p, m):
        self.p, self.m = p, m

    def close(self):
        self.p.kill()
        self.p.wait()
        self.p.stderr.close()
        if self.m is not None:
            os.close(self.m)


def common(rng, big):
    nk = rng.choice([1, 3, 10, 40])
    keys = gen_keys(rng, nk)
    cfg = {'mode': 'user', 'bits': rng.choice([1, 8]), 'datasize': rng.choice([300, 3000, 1 << 22]), 'keys': keys,
           'nudge': b'the last change'.hex()}
    ops, prev = [], []
    for _ in range(rng.choice([0, 1, rng.randrange(1, 60)])):
        o = weighted(rng, [(20, 'set'), (5, 'del'), (1, 'jump'), (1, 'restart')])
        if o == 'set':
            ops.append(['set', 0, rng.randrange(nk), gen_value(rng, big, prev)])
        elif o == 'del':
            ops.append(['del', 0, rng.randrange(nk)])
        elif o == 'jump':
            ops.append(['cmd', 0, 'NSJUMP'])
    before = [[rng.randrange(nk), gen_value(rng, big, prev)] for _ in range(rng.choice([0, 0, 5]))]
    return {'cfg': cfg, 'ops': ops, 'before': before, 'bsize': rng.choice([300, 1 << 22]), 'slice': rng.choice([0, 1, 50])}, nk, prev


def gen_sync(rng, i):
    big = rng.choice([100, 5000, 5000, 200000])
    case, nk, prev = common(rng, big)
    ops = case['ops']
    if rng.random() < 0.3:
        # more keys than an answer lists
        n = rng.randrange(130, 700)
        ops.insert(rng.randrange(len(ops) + 1), ['many', n, rng.randrange(2, 1 << 20)])
    ops.append(['sync'])
    if rng.random() < 0.4:
        for _ in range(rng.randrange(1, 10)):
            ops.append(['set', 0, rng.randrange(nk), gen_value(rng, big, prev)])
        ops.append(['sync'])
    return case


def gen_live(rng, i):
    case, nk, prev = common(rng, rng.choice([100, 3000]))
    ops = case['ops']
    if rng.random() < 0.7:
        ops.append(['many', rng.choice([20, 100, 400]), rng.randrange(2, 1 << 20)])
    ops.append(['begin'])
    for _ in range(rng.randrange(3, 60)):
        k = rng.choice([rng.randrange(nk), (b'many%d' % rng.randrange(400)).hex()])
        ops.append(['del', 0, k] if rng.random() < 0.6 else ['set', 0, k, gen_value(rng, 100, prev)])
    ops.append(['end'])
    return case


def run_live(case, env):
    w = CopyWorld(env, case['cfg'])
    w.setup(case)
    w.run(case['ops'])
    w.verify()
    return env.labels['sync:live'] >= 1 and env.labels['DEL'] >= 1


def op_many(self, n, seed):
    for k in range(n):
        self.do(0, ['SET', 'many%d' % k, '%d' % (seed + k)], quiet=True)


CopyWorld.op_many = op_many


def run_sync(case, env):
    w = CopyWorld(env, case['cfg'])
    w.setup(case)
    w.run(case['ops'])
    w.verify()
    return env.labels['sync'] >= 1 and len(w.model.ns['default'].items) >= 2


def gen_replicate(rng, i):
    big = rng.choice([100, 3000])
    case, nk, prev = common(rng, big)
    ops = case['ops']
    ops.append(['replicate'])
    for _ in range(rng.randrange(1, 4)):
        for _ in range(rng.randrange(0, 15)):
            o = weighted(rng, [(20, 'set'), (4, 'del'), (1, 'jump'), (1, 'scan')])
            if o == 'set':
                ops.append(['set', 0, rng.randrange(nk), gen_value(rng, big, prev)])
            elif o == 'del':
                ops.append(['del', 0, rng.randrange(nk)])
            elif o == 'jump':
                ops.append(['cmd', 0, 'NSJUMP'])
            else:
                ops.append(['scan', 0, 'SCAN'])
        ops.append(['settle'])
    return case


def run_replicate(case, env):
    w = CopyWorld(env, case['cfg'])
    w.setup(case)
    w.run(case['ops'])
    w.verify()
    return env.labels['settled'] >= 1 and env.labels['SET'] >= 4


CHECK = Check(
    'P31',
    'Generated histories in the default namespace in user-key mode (binary keys, empty and large values, deletions, rotations, up to several '
    'hundreds of keys, enumeration slices of any duration) copied by db-sync to a second server with other contents, which must then hold exactly its former '
    'keys and those of the source; copied by db-sync while the source changes (what did not change is copied, nothing is invented); and followed by db-replicate while the history goes on: after a change made while it waits, every '
    'live key of the source is on the copy. Non-trivial: one copy of two keys; one catch-up and four changes.',
    [Part('sync', gen_sync, run_sync, 400, 5000),
     Part('live', gen_live, run_live, 300, 4000),
     Part('replicate', gen_replicate, run_replicate, 150, 1500)],
    ['deletions are not followed, as documented', 'the connections of the utilities are redirected to unix sockets'])
CHECK.technique = 'differential testing of source and copy'
