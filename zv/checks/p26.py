"""P26: one process per directory, only with a matching mode and format."""
import os
import time

from .. import resp, server
from ..engine import Check, Part, Violation
from ..gens import Hist, gen_keys, weighted
from ..world import World


def image(*roots):
    """{path: content} of everything below, except locks and sockets"""
    out = {}
    for r in roots:
        for d, dirs, names in os.walk(r):
            out[d] = None
            for n in names:
                if n == '.lockfile':
                    continue
                with open(os.path.join(d, n), 'rb') as f:
                    out[os.path.join(d, n)] = f.read()
    return out


def differ(a, b):
    return sorted(p for p in set(a) | set(b) if a.get(p, 'absent') != b.get(p, 'absent'))


def shared(rng, mode):
    nk = rng.choice([3, 8])
    cfg = {'mode': mode, 'bits': rng.choice([1, 4, 10]), 'datasize': rng.choice([150, 400, 5000]),
           'keys': gen_keys(rng, nk), 'rel': rng.random() < 0.15, 'opts': rng.choice([[], ['--sync']])}
    h = Hist(rng, mode, nk, 150, clients=2)
    for _ in range(rng.choice([0, 1, 2, 2])):
        h.new_ns()
    for c in range(2):
        h.select(c)
    return cfg, h


def some(rng, h, n):
    for _ in range(n):
        o = weighted(rng, [(40, 'set'), (15, 'del'), (4, 'jump'), (6, 'select'), (4, 'setting')])
        if o == 'set':
            h.set()
        elif o == 'del':
            h.delete()
        elif o == 'jump':
            h.jump()
        elif o == 'select':
            h.select(h.c())
        else:
            h.setting(kinds=('password', 'public', 'maxsize', 'mode'))


# ------------------------------------------------ lock
class LockWorld(World):
    def other(self, how, mode):
        """a second server; (server, whether it may start)"""
        s, name = self.srv, 't%d' % self.n
        root = self.sc.sub(name)
        os.makedirs(root, exist_ok=True)
        own = os.path.join(root, 'own')
        data, index = s.data, s.index
        if how == 'data':
            index = own
        elif how == 'index':
            data = own
        elif how == 'swap':
            data, index = s.index, s.data
        elif how == 'mixdata':
            data, index = own, s.data
        elif how == 'mixindex':
            data, index = s.index, own
        elif how == 'link':
            data, index = os.path.join(root, 'l1'), os.path.join(root, 'l2')
            os.symlink(s.data, data)
            os.symlink(s.index, index)
        elif how == 'dots':
            data, index = s.data + '/../data', s.index + '/./'
        elif how == 'relative':
            data, index = os.path.relpath(s.data, root), os.path.relpath(s.index, root)
        elif how == 'same':
            data = index = own
        elif how == 'samelink':
            data, index = own, os.path.join(root, 'l1')
            os.makedirs(own)
            os.symlink(own, index)
        return self.env.server(self.sc, name=name, mode=mode, bits=8, datasize=4096, data=data, index=index)

    def refused(self, t, what):
        t.spawn()
        c = resp.wait_for_path(t.sock, t.proc, 30)
        if c is not None:
            c.close()
            t.kill()
            return False
        code = t.dead(20)
        if code is None:
            t.kill()
            raise Violation('step %d: %s: neither started nor refused' % (self.n, what), 'lock')
        if code == 0 or code < 0 or code == 99:
            raise Violation('step %d: %s: ended with code %s: %s' % (self.n, what, code, t.errtail(600)), 'lock')
        t.kill()
        return True

    def op_second(self, how, mode):
        t = self.other(how, mode)
        before = image(self.srv.data, self.srv.index)
        if not self.refused(t, how):
            self.fail('a second server starts (%s)' % how)
        diff = differ(before, image(self.srv.data, self.srv.index))
        if diff:
            self.fail('a refused second server (%s) changed %s' % (how, diff[:5]))
        self.env.label('second:' + how)

    def op_race(self, kind):
        """the directories are left, then taken by two servers at once"""
        if kind == 'kill':
            self.srv.kill()
        else:
            self.srv.stop()
        self.model.boot()
        t = self.env.server(self.sc, name='r%d' % self.n, mode=self.cfg['mode'], bits=self.cfg['bits'],
                            datasize=self.cfg['datasize'], data=self.srv.data, index=self.srv.index)
        self.srv.spawn()
        t.spawn()
        a, b = self.srv, t
        end = time.monotonic() + 60
        up = []
        while time.monotonic() < end:
            up = [x for x in (a, b) if os.path.exists(x.sock) and x.alive()]
            gone = [x for x in (a, b) if not x.alive()]
            if len(up) + len(gone) == 2:
                break
            time.sleep(0.005)
        time.sleep(0.02)
        live = [x for x in (a, b) if x.alive()]
        if len(live) == 2:
            raise Violation('step %d: two servers started at the same time on the same directories both run' % self.n, 'lock')
        # both may be refused when each took one lock: ask again
        if b in live:
            b.stop()
            self.srv.kill()
        elif a in live:
            b.kill()
            c = resp.wait_for_path(a.sock, a.proc)
            if c is None:
                raise Violation('step %d: the remaining server ended: %s' % (self.n, a.errtail(500)), 'lock')
            a.clients.append(c)
            self.clients = {0: (c, self.model.connect())}
            self.env.label('race')
            return
        else:
            a.kill()
            b.kill()
        self.start()
        self.env.label('race')


def gen_lock(rng, i):
    mode = rng.choice(['user', 'seq', None, None])
    cfg, h = shared(rng, mode)
    some(rng, h, rng.randrange(0, 10))
    for _ in range(rng.randrange(1, 5)):
        if rng.random() < 0.75:
            h.ops.append(['second', rng.choice(['both', 'both', 'data', 'index', 'swap', 'mixdata', 'mixindex', 'link', 'dots',
                                                'relative', 'same', 'samelink']),
                          rng.choice([mode, 'user', 'seq', None])])
        else:
            h.ops.append(['race', rng.choice(['kill', 'term'])])
            h.restarted()
            for c in range(2):
                h.select(c)
        some(rng, h, rng.randrange(0, 8))
        h.ops.append(['verify'])
    h.restart()
    return {'cfg': cfg, 'ops': h.ops}


def run_lock(case, env):
    w = LockWorld(env, case['cfg'])
    w.run(case['ops'])
    w.verify(history=True)
    return any(k.startswith('second:') or k == 'race' for k in env.labels)


# ------------------------------------------------ mode and format
class ModeWorld(World):
    def attempt(self, what, mode, ok, srv_mode=True):
        """starts with another mode; the files must not change when refused"""
        self.srv.stop()
        before = image(self.srv.data, self.srv.index)
        keep = self.srv.mode
        self.srv.mode = mode
        try:
            c = self.srv.start()
        except server.ServerDied as e:
            self.srv.kill()
            self.srv.mode = keep
            if ok:
                raise Violation('step %d: %s: refused: %s' % (self.n, what, e), 'mode')
            if e.code == 0 or e.code < 0 or e.code == 99:
                raise Violation('step %d: %s: ended with code %s: %s' % (self.n, what, e.code, self.srv.errtail(500)), 'mode')
            diff = differ(before, image(self.srv.data, self.srv.index))
            if diff:
                raise Violation('step %d: %s: refused, but %s changed' % (self.n, what, [os.path.relpath(p, self.srv.root) for p in diff[:5]]), 'mode')
            self.env.label('refused:' + what.split()[0])
            return False
        if not ok:
            raise Violation('step %d: %s: accepted' % (self.n, what), 'mode')
        self.model.boot()
        self.clients = {0: (c, self.model.connect())}
        self.model.mode = mode
        self.cfg = dict(self.cfg, mode=mode)
        self.env.label('accepted')
        return True

    def op_mode(self, mode):
        stored = {n.seq for n in self.model.ns.values()}
        ok = mode is None or stored == {mode == 'seq'}
        if not self.attempt('mode %s' % mode, mode, ok):
            self.model.boot()
            self.start()
        self.verify(history=True)

    def op_foreign(self, pick, where, value):
        """a file of another format among ours"""
        self.srv.stop()
        names = sorted(p for p, b in image(self.srv.index).items() if b is not None and os.path.basename(p)[0] == 'i')
        p = names[pick % len(names)]
        with open(p, 'rb') as f:
            good = f.read()
        bad = bytearray(good)
        if where == 'magic':
            bad[value % 4] ^= 1 + value % 255
        else:
            bad[4:8] = (value % 100 if value % 100 != 4 else 5).to_bytes(4, 'little')
        with open(p, 'wb') as f:
            f.write(bad)
        self.attempt2(p, where)
        with open(p, 'wb') as f:
            f.write(good)
        self.model.boot()
        self.start()
        self.verify(history=True)

    def attempt2(self, p, where):
        before = image(self.srv.data, self.srv.index)
        try:
            self.srv.start()
        except server.ServerDied as e:
            if e.code == 0 or e.code < 0 or e.code == 99:
                raise Violation('step %d: foreign %s: ended with code %s: %s' % (self.n, where, e.code, self.srv.errtail(500)), 'format')
            self.srv.kill()
            diff = differ(before, image(self.srv.data, self.srv.index))
            if diff:
                raise Violation('step %d: foreign %s in %s: refused, but %s changed' % (
                    self.n, where, os.path.relpath(p, self.srv.root), [os.path.relpath(x, self.srv.root) for x in diff[:5]]), 'format')
            self.env.label('refused:foreign')
            return
        raise Violation('step %d: started over a foreign %s in %s' % (self.n, where, os.path.relpath(p, self.srv.root)), 'format')


def gen_mode(rng, i):
    mode = rng.choice(['user', 'seq', None, None])
    cfg, h = shared(rng, mode)
    some(rng, h, rng.randrange(0, 14))
    for _ in range(rng.randrange(1, 4)):
        if rng.random() < 0.7:
            h.ops.append(['mode', rng.choice(['user', 'seq', None])])
        else:
            h.ops.append(['foreign', rng.randrange(100), rng.choice(['magic', 'version']), rng.randrange(1000)])
        h.restarted()
        for c in range(2):
            h.select(c)
        some(rng, h, rng.randrange(0, 8))
        h.ops.append(['verify'])
    return {'cfg': cfg, 'ops': h.ops}


def run_mode(case, env):
    w = ModeWorld(env, case['cfg'])
    w.run(case['ops'])
    w.verify(history=True)
    return any(k.startswith('refused:') or k == 'accepted' for k in env.labels)


# ------------------------------------------------ a program started by the server
HOOK = """#!/bin/sh
[ "$1" = "%s" ] || exit 0
echo $$ >> %s
exec sleep 30
"""


def gen_hook(rng, i):
    mode = rng.choice(['user', 'seq', None])
    cfg, h = shared(rng, mode)
    cfg['event'] = rng.choice(['namespace-created', 'jump-data', 'namespace-updated'])
    some(rng, h, rng.randrange(0, 6))
    h.new_ns()
    h.setting(kinds=('maxsize',))
    h.jump()
    return {'cfg': cfg, 'ops': h.ops, 'kind': rng.choice(['kill', 'term'])}


def run_hook(case, env):
    """the directories are free as soon as the server has ended, even
    if a program it started still runs"""
    cfg = dict(case['cfg'])
    w = World(env, cfg)
    w.srv.stop()
    hook, pids = w.sc.sub('hook'), w.sc.sub('pids')
    with open(hook, 'w') as f:
        f.write(HOOK % (cfg['event'], pids))
    os.chmod(hook, 0o755)
    w.srv.hook = hook
    w.model.boot()
    w.start()
    try:
        w.run(case['ops'])
        end = time.monotonic() + 1
        while not os.path.exists(pids) and time.monotonic() < end:
            time.sleep(0.005)
        running = os.path.exists(pids)
        w.srv.hook = None
        try:
            w.restart(case['kind'])
        except server.ServerDied as e:
            # a child which did not reach its program yet shares the locks
            for n in range(6):
                time.sleep(0.3)
                try:
                    w.start()
                    break
                except server.ServerDied:
                    w.srv.kill()
            else:
                raise Violation('the server ended, but it cannot be started again while a hook program runs: %s' % e, 'inherit')
        w.verify()
    finally:
        if os.path.exists(pids):
            for p in open(pids).read().split():
                try:
                    os.kill(int(p), 9)
                except OSError:
                    pass
    return running


CHECK = Check(
    'P26',
    'Random histories during which a second server is started on the data and/or index directory of the first (the same, one of '
    'the two, exchanged, through symbolic links or other spellings; also one directory for both), or two servers race for '
    'directories just left by SIGTERM or SIGKILL; and histories cut by starts in each of the three modes or over an index file '
    'with a foreign magic or version. Refusal means a non-zero exit and no byte changed; afterwards the whole state is '
    'verified. Non-trivial: one such start was judged.',
    [Part('lock', gen_lock, run_lock, 700, 7000), Part('mode', gen_mode, run_mode, 900, 9000),
     Part('hook', gen_hook, run_hook, 60, 600)],
    ['when two servers race, both may be refused', 'the lock files themselves are not judged'])
CHECK.technique = 'model-based testing with generated concurrent starts and mode changes'
