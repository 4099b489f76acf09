"""P20: the external hook is run once per event, with the right arguments."""
import os
import shutil
import signal
import time

from .. import disk, resp
from ..engine import Check, Part, Violation
from ..gens import Hist, gen_keys, weighted
from ..model import ERR
from ..util import short
from ..world import World

WAITED = ('namespaces-init', 'ready', 'close', 'missing-data')


class Ran:
    def __init__(self, pid, fds, strange, act, args):
        self.pid, self.fds, self.strange = pid, fds, strange
        self.act = act
        self.event, self.id, self.args = args[0], args[1] if len(args) > 1 else None, args[2:]
        self.ended = None

    def __repr__(self):
        return '%s%s' % (self.event, [short(a, 60) for a in self.args])


class HookWorld(World):
    ready = False

    def start(self):
        if not self.ready:
            self.ready = True
            self.dir = self.sc.sub('h')
            os.mkdir(self.dir)
            self.hook = os.path.join(self.dir, 'hook')
            shutil.copy(os.path.join(self.env.build, 'hooker'), self.hook)
            os.chmod(self.hook, 0o755)
            self.acts, self.runs, self.pos = {}, [], 0
            self.broken = False
            self.seen = 0               # runs which were judged
            open(os.path.join(self.dir, 'hook.log'), 'w').close()
            self.srv.hook = self.hook
        self.watch = {}
        self.listed = []                # [event, args, run or None, created]
        self.id = b'unix://' + self.srv.sock.encode()
        World.start(self)
        c = self.clients[0][0]
        if c.do('PING') != 'PONG':
            self.fail('PING is not answered')
        d = [self.srv.index.encode(), self.srv.data.encode()]
        self.expect([('namespaces-init', d), ('ready', [])], ordered=True)
        for name in self.model.ns:
            self.monitor(name)
        self.counts = self.files()

    # ---- what the hook was asked
    def read(self):
        with open(os.path.join(self.dir, 'hook.log'), 'rb') as f:
            f.seek(self.pos)
            d = f.read()
        d = d[:d.rfind(b'\n') + 1]
        self.pos += len(d)
        for line in d.splitlines():
            w = line.split(b' ')
            if w[0] == b'B':
                r = Ran(int(w[1]), int(w[2]), int(w[3]), w[4].decode(), [bytes.fromhex(x[1:].decode()) for x in w[5:]])
                r.event = r.event.decode('latin-1')
                self.runs.append(r)
            else:
                for r in reversed(self.runs):
                    if r.pid == int(w[1]):
                        r.ended = int(w[2])
                        break

    def expect(self, events, ordered=False):
        """these runs of the hook and nothing else since the last time"""
        n = self.seen + (0 if self.broken else len(events))
        for k in range(3000):
            self.read()
            if len(self.runs) >= n:
                break
            time.sleep(0.001 if k < 1000 else 0.005)
        new = self.runs[self.seen:]
        want = [] if self.broken else list(events)
        got = [(r.event, r.args) for r in new]
        if (got != want) if ordered else (sorted(got) != sorted(want)):
            self.fail('the hook was run for %s instead of %s' % (new, [(e, [short(x, 60) for x in a]) for e, a in want]))
        for r in new:
            if r.id != self.id:
                self.fail('hook %s was given the identifier %s instead of %s' % (r.event, short(r.id, 60), self.id))
            if r.fds or r.strange:
                self.fail('hook %s inherited %d descriptors, %d signal settings' % (r.event, r.fds, r.strange))
            if r.event in WAITED and r.ended is None and r.event != 'close':
                self.fail('%s: the server did not wait for the hook' % r.event)
            self.listed.append([r.event, r.args, r, self.model.now])
            self.env.label('event:' + r.event)
        if self.broken:
            for e, a in events:
                self.listed.append([e, a, None, self.model.now])
        self.seen = len(self.runs)

    def files(self):
        return {n: max(disk.numbered(os.path.join(self.srv.index, n), 'i') or {0: 0}) for n in self.model.ns}

    def monitor(self, name):
        """a connection which stays in that namespace"""
        if name in self.watch:
            return
        c = self.srv.client()
        ns = self.model.ns[name]
        r = c.do('SELECT', name, ns.password) if ns.password else c.do('SELECT', name)
        if r != 'OK':
            raise Violation('step %d: SELECT %s: %s' % (self.n, name, short(r)), 'select')
        self.watch[name] = c

    def dirty(self, name):
        r = self.watch[name].do('INDEX', 'DIRTY')
        if not isinstance(r, list):
            raise Violation('step %d: INDEX DIRTY in %s: %s' % (self.n, name, short(r)), 'dirty')
        return r

    def do(self, i, argv, want=None, quiet=False):
        argv = [resp.b(a) for a in argv]
        cmd = argv[0].decode('latin-1').upper()
        c, s = self.client(i)
        ns = s.ns
        before = self.dirty(ns.name) if ns is not None else []
        got, w = World.do(self, i, argv, want, quiet)
        done = isinstance(got, resp.Simple)
        events = []
        if cmd == 'NSNEW' and done:
            events.append(('namespace-created', [argv[1]]))
            self.monitor(argv[1].decode('latin-1'))
        elif cmd == 'NSSET' and done:
            events.append(('namespace-updated', [argv[1]]))
        elif cmd == 'RELOAD' and done:
            events.append(('namespace-reloaded', [argv[1]]))
        elif cmd == 'NSDEL' and done:
            events.append(('namespace-deleted', [argv[1]]))
            c = self.watch.pop(argv[1].decode('latin-1'))
            self.srv.clients.remove(c)
            c.close()
        now = self.files()
        jumps = 0
        for name, top in sorted(now.items()):
            was = self.counts.get(name, 0)
            if top < was and cmd in ('FLUSH', 'NSDEL', 'NSNEW'):
                continue
            if top == was:
                continue
            jumps += 1
            if ns is None or name != ns.name or top != was + 1:
                self.fail('%s went from file %d to file %d' % (name, was, top), argv)
            i_, d_ = os.path.join(self.srv.index, name, 'i%d'), os.path.join(self.srv.data, name, 'd%d')
            lst = ' '.join(str(x) for x in before).encode()
            events.append(('jump-index', [(i_ % was).encode(), (i_ % top).encode(), lst]))
            events.append(('jump-data', [(d_ % was).encode(), (d_ % top).encode()]))
        if cmd == 'NSJUMP' and done and jumps != 1:
            self.fail('no file was created', argv)
        self.counts = now
        self.expect(events)
        if jumps:
            after = self.dirty(ns.name)
            bad = self.broken or self.code('jump-index') != 0
            top = now[ns.name]
            if bad and not set(before) <= set(after):
                self.fail('the dirty list went from %s to %s while the hook did not succeed' % (before, after), argv)
            if not bad and cmd == 'NSJUMP' and after:
                self.fail('the dirty list is still %s after the hook succeeded' % after, argv)
            if not bad and len(set(after) - {top}) > 2:
                self.fail('the dirty list went from %s to %s after the hook succeeded' % (before, after), argv)
            self.env.label('jump:%s' % ('kept' if bad else 'cleared' if before else 'empty'))
        return got, w

    # ---- what the hook does
    def code(self, event):
        a = self.acts.get(event)
        return 0 if a is None or a[0] not in ('exit', 'kill') else a[1] if a[0] == 'exit' else -a[1]

    def op_act(self, event, act, value):
        if act == 'ok':
            self.acts.pop(event, None)
        else:
            self.acts[event] = (act, value)
        with open(os.path.join(self.dir, 'new.act'), 'w') as f:
            for e, (a, v) in self.acts.items():
                f.write('%s %s %d\n' % (e, a, v))
        os.rename(os.path.join(self.dir, 'new.act'), os.path.join(self.dir, 'hook.act'))

    def op_broken(self, on):
        """the hook cannot be executed any more, or again"""
        self.broken = bool(on)
        os.chmod(self.hook, 0o644 if on else 0o755)

    def op_release(self):
        go = os.path.join(self.dir, 'hook.go')
        open(go, 'w').close()
        self.ended()
        os.unlink(go)

    def ended(self):
        for k in range(4000):
            self.read()
            if all(r.ended is not None for r in self.runs):
                return
            time.sleep(0.003)
        self.fail('a hook never ends: %s' % [r for r in self.runs if r.ended is None])

    def idle(self):
        c = self.clients[0][0] if 0 in self.clients else self.client(0)[0]
        # it reaps what ended, then forgets what is old
        for _ in range(220):
            if c.do('PING') != 'PONG':
                self.fail('PING is not answered')

    def op_hooks(self):
        """HOOKS lists the recent runs"""
        running = [r for r in self.runs if r.ended is None]
        if not any(r.act == 'hold' for r in running):
            self.ended()
            running = []
            time.sleep(0.003)           # it is a zombie now
        self.idle()
        c = self.admin()
        got = c.do('HOOKS')
        c.close()
        self.srv.clients.remove(c)
        if not isinstance(got, list) or not all(isinstance(x, list) and len(x) == 6 for x in got):
            self.fail('HOOKS: %s' % short(got))
        have = {}
        for x in got:
            k = (x[0].decode('latin-1'), tuple(x[1]) if x[1] else (), x[3])
            have.setdefault(k, []).append(x)
        now = self.model.now
        # those whose pid is known are recognized first
        for e in sorted(self.listed, key=lambda e: e[2] is None):
            event, args, run, created = e
            k = (event, tuple(args), created)
            xs = [x for x in have.get(k, []) if run is None or x[2] == run.pid]
            if not xs:
                if created >= now - 60:
                    self.fail('HOOKS does not list %s of %d s ago: %s' % (event, now - created, [short(g) for g in got][:6]))
                continue
            x = xs[0]
            have[k].remove(x)
            self.env.label('listed')
            if run is not None and run.ended is None:
                if x[4] != 0 and run.act == 'hold':
                    self.fail('HOOKS shows %s as finished while it is running: %s' % (event, x))
                continue
            if x[4] < created or x[4] > now:
                self.fail('HOOKS shows %s created at %d and finished at %d (it is %d)' % (event, created, x[4], now))
            if run is not None and run.ended >= 0 and x[5] != run.ended:
                self.fail('HOOKS shows the status %d for %s which exited with %d' % (x[5], event, run.ended))
            if (run is None or run.ended < 0) and x[5] == 0:
                self.fail('HOOKS shows a success for %s which %s' % (event, 'could not be executed' if run is None else 'was killed'))
            if x[4] < now - 900 and not running:
                self.fail('HOOKS still lists %s finished %d s ago' % (event, now - x[4]))
        left = [x for v in have.values() for x in v]
        if left:
            self.fail('HOOKS lists what did not run: %s' % [short(x) for x in left][:4])
        self.env.label('hooks')

    def op_noadmin(self):
        if not self.cfg.get('admin'):
            return
        c = self.srv.client()
        r = c.do('HOOKS')
        if not isinstance(r, resp.Err):
            self.fail('HOOKS without being administrator: %s' % short(r))
        c.close()
        self.srv.clients.remove(c)

    # ---- ends
    def op_end(self, kind):
        if kind == 'stop' and self.cfg.get('rel'):
            kind = 'term'
        if kind == 'segv' and not self.cfg.get('rel'):
            kind = 'int'                # the sanitizer takes it
        now = self.files()
        closing = []
        for name in self.model.ns:
            lst = ' '.join(str(x) for x in self.dirty(name)).encode()
            closing.append(('namespace-closing', [
                name.encode('latin-1'), os.path.join(self.srv.index, name, 'i%d' % now[name]).encode(),
                os.path.join(self.srv.data, name, 'd%d' % now[name]).encode(), lst]))
        sig = {'term': signal.SIGTERM, 'int': signal.SIGINT, 'segv': signal.SIGSEGV}.get(kind)
        code = None
        if kind == 'kill':
            self.srv.kill()
            closing = []
        elif kind == 'stop':
            c = self.admin()
            c.send('STOP')
            try:
                c.recv()
            except resp.Closed:
                pass
            code = self.srv.dead(60)
            if code is None:
                raise Violation('STOP does not end the server', 'stop')
            self.srv.stop()
        else:
            code = self.srv.stop(sig)
        t = self.srv.sanitizer()
        if t and kind != 'segv' or code is not None and code < 0:
            raise Violation('%s: the server crashed (code %s): %s' % (kind, code, t), 'stop')
        if kind in ('term', 'int'):
            first = ('close', [])
            self.expect_end(first, closing)
        elif kind == 'segv':
            self.expect([('crash', [])] + closing)
        else:
            self.expect(closing)
        self.env.label('end:' + kind)
        if kind == 'segv':
            # what is shown is expected
            open(self.srv.errpath, 'w').close()

    def expect_end(self, first, closing):
        n = self.seen
        self.expect([first] + closing)
        if self.broken:
            return
        new = self.runs[n:]
        if new[0].event != 'close':
            self.fail('close was not the first hook when stopping: %s' % new)
        with open(os.path.join(self.dir, 'hook.log'), 'rb') as f:
            lines = f.read().splitlines()
        k = [j for j, x in enumerate(lines) if x.split(b' ')[:2] == [b'B', b'%d' % new[0].pid]][-1]
        if not lines[k + 1].startswith(b'E %d ' % new[0].pid):
            # only a hook which was running before may write in between
            if any(x.startswith(b'B') for x in lines[k + 1:k + 1 + [y.startswith(b'E %d ' % new[0].pid) for y in lines[k + 1:]].index(True)]):
                self.fail('the server did not wait for the close hook')

    def op_again(self, kind):
        self.op_end(kind)
        self.model.boot()
        self.start()

    def op_refused(self, act, value):
        """the ready hook fails: the server must not start"""
        self.op_end('term')
        if act == 'broken':
            was = self.broken
            self.op_broken(1)
        else:
            self.op_act('ready', act, value)
        s = self.srv
        s.spawn()
        code = s.dead(30)
        if code is None:
            raise Violation('step %d: the server runs although its ready hook failed (%s %s)' % (self.n, act, value), 'ready')
        t = s.sanitizer()
        if t or code <= 0 and act != 'x' and code < 0 or code == 99:
            raise Violation('step %d: refused by the ready hook, the server crashed (code %s): %s' % (self.n, code, t), 'ready')
        s._drop()
        s.err.close()
        s.proc = None
        # namespaces were loaded, then unloaded
        for _ in range(20):
            self.read()
            time.sleep(0.002)
        new = self.runs[self.seen:]
        names = [r.event for r in new]
        if act != 'broken' and names[:2] != ['namespaces-init', 'ready'] or any(x not in ('namespaces-init', 'ready', 'namespace-closing') for x in names):
            self.fail('a refused start ran the hook for %s' % new)
        self.seen = len(self.runs)
        if act == 'broken':
            self.op_broken(was)
            if was:
                self.op_broken(0)
        self.op_act('ready', 'ok', 0)
        self.model.boot()
        self.start()
        self.env.label('refused:' + act)

    def op_wide(self, n):
        """many files, then something changed in most of them: the list of dirty files is long"""
        for k in range(n):
            self.do(0, ['SET', b'' if self.model.ns['default'].seq else b'wide%d' % k, b'wide %d' % k])
            self.do(0, ['NSJUMP'])
        keys = [k for k in self.model.ns['default'].items if self.model.ns['default'].items[k].value.startswith(b'wide ')]
        self.op_act('jump-index', 'exit', 1)
        for j, k in enumerate(keys):
            if j % 9 != n % 9:
                self.do(0, ['DEL', k])
        self.do(0, ['NSJUMP'])
        self.env.label('wide')

    def op_stage(self, n):
        """namespaces-init puts a namespace in place before the start"""
        if 'staged' in self.model.ns or self.broken:
            return
        t = self.env.server(self.sc, mode=self.cfg.get('mode'), bits=8, datasize=4096, name='t%d' % self.n)
        c = t.start()
        c.do('NSNEW', 'staged')
        c.do('SELECT', 'staged')
        vals = []
        for k in range(n):
            v = b'staged value %d' % k
            key = c.do('SET', b'' if self.cfg.get('mode') == 'seq' else b'key%d' % k, v)
            vals.append((key, v))
        t.stop()
        st = os.path.join(self.dir, 'stage')
        shutil.rmtree(st, ignore_errors=True)
        os.mkdir(st)
        shutil.copytree(os.path.join(t.index, 'staged'), os.path.join(st, 'index'))
        shutil.copytree(os.path.join(t.data, 'staged'), os.path.join(st, 'data'))
        t.close()
        self.op_end('term')
        self.op_act('namespaces-init', 'stage', 0)
        self.model.boot()
        s = self.srv
        World.start(self)
        c = self.clients[0][0]
        c.do('PING')
        self.watch, self.listed = {}, []
        self.expect([('namespaces-init', [s.index.encode(), s.data.encode()]), ('ready', [])], ordered=True)
        if c.do('SELECT', 'staged') != 'OK':
            self.fail('the namespace restored by namespaces-init is not there')
        for key, v in vals:
            if c.do('GET', key) != v:
                self.fail('the namespace restored by namespaces-init lost %s' % short(key))
        c.do('SELECT', 'default')
        if c.do('NSDEL', 'staged') != 'OK':
            self.fail('the namespace restored by namespaces-init cannot be removed')
        self.expect([('namespace-deleted', [b'staged'])])
        for name in self.model.ns:
            self.monitor(name)
        self.counts = self.files()
        self.op_act('namespaces-init', 'ok', 0)
        self.env.label('staged')

    def finish(self):
        self.op_release()
        if self.broken:
            self.op_broken(0)
        self.op_hooks()
        self.acts = {}
        self.op_act('close', 'ok', 0)
        self.verify(scan=False)
        self.op_end('term')
        time.sleep(0.004)
        self.read()
        if len(self.runs) != self.seen:
            self.fail('the hook was also run for %s' % self.runs[self.seen:])


EVENTS = ['namespace-created', 'namespace-updated', 'namespace-deleted', 'namespace-reloaded', 'jump-data', 'jump-index',
          'namespace-closing', 'namespaces-init', 'close', 'crash']


def gen(rng, i):
    mode = rng.choice(['user', 'seq', None, None])
    nk = rng.choice([2, 6])
    cfg = {'mode': mode, 'bits': rng.choice([1, 4, 8]), 'datasize': rng.choice([150, 300, 800, 5000]),
           'keys': gen_keys(rng, nk), 'rel': rng.random() < 0.2}
    nc = 2
    h = Hist(rng, mode, nk, rng.choice([30, 200]), clients=nc)
    n = rng.randrange(6, 45)
    if rng.random() < 0.05:
        h.ops.append(['wide', rng.randrange(20, 60)])
    for _ in range(n):
        o = weighted(rng, [(30, 'set'), (6, 'del'), (7, 'jump'), (6, 'new'), (9, 'setting'), (3, 'reload'), (3, 'nsdel'), (7, 'select'),
                           (10, 'act'), (2, 'release'), (5, 'hooks'), (2, 'tick'), (3, 'again'), (1, 'refused'), (1, 'broken'),
                           (0.7, 'stage'), (1, 'flush')])
        if o == 'set':
            h.set()
        elif o == 'del':
            h.delete()
        elif o == 'jump':
            h.jump()
        elif o == 'new':
            if rng.random() < 0.3:
                # exists already, or with bytes a shell would not like
                h.ops.append(['cmd', 0, 'NSNEW', rng.choice(['alpha', 'default', '$(x) `y`', '*', "a'b\"c", 'n\nl', '-n', 'x' * 120])])
            else:
                h.new_ns()
        elif o == 'setting':
            h.setting(kinds=('password', 'public', 'worm', 'maxsize', 'mode'))
        elif o == 'reload':
            h.reload()
        elif o == 'nsdel':
            h.nsdel()
        elif o == 'select':
            h.select(h.c())
        elif o == 'act':
            e = rng.choice(EVENTS)
            a = rng.choice(['ok', 'exit', 'exit', 'kill', 'sleep', 'hold'])
            if a == 'hold' and e in ('jump-index', 'namespaces-init', 'close'):
                a = 'sleep'
            h.ops.append(['act', e, a, {'exit': rng.choice([1, 2, 77, 255]), 'kill': rng.choice([9, 15, 6]), 'sleep': rng.choice([1, 20])}.get(a, 0)])
        elif o == 'tick':
            h.ops.append(['tick', rng.choice([1, 30, 200, 400, 1000, 5000])])
        elif o == 'again':
            h.ops.append(['again', rng.choice(['term', 'term', 'int', 'kill', 'stop', 'segv'])])
            h.restarted()
        elif o == 'refused':
            a = rng.choice(['exit', 'exit', 'kill', 'broken'])
            h.ops.append(['refused', a, {'exit': rng.choice([1, 3, 255]), 'kill': rng.choice([9, 15])}.get(a, 0)])
            h.restarted()
        elif o == 'broken':
            h.ops.append(['broken', 1])
            for _ in range(rng.randrange(1, 5)):
                rng.choice([h.set, h.jump, h.new_ns, h.setting])()
            h.ops += [['hooks'], ['broken', 0]]
        elif o == 'stage':
            h.ops.append(['stage', rng.randrange(1, 6)])
            h.restarted()
        elif o == 'flush':
            h.ops.append(['cmd', h.c(), 'FLUSH'])
        else:
            h.ops.append([o])
    return {'cfg': cfg, 'ops': h.ops}


def run(case, env):
    w = HookWorld(env, case['cfg'])
    try:
        w.run(case['ops'])
        w.finish()
    finally:
        # nothing is left waiting
        try:
            open(os.path.join(w.dir, 'hook.go'), 'w').close()
        except OSError:
            pass
    return len(w.runs) >= 8


CHECK = Check(
    'P20',
    'Random histories of namespace commands, writes which rotate files, explicit rotations, stops (signals, STOP, crash, kill) and starts, with a '
    'hook program which logs its arguments, what it inherited, its begin and its end, and which succeeds, fails, is killed, sleeps, '
    'waits until released, cannot be executed, refuses the start or restores a namespace. After each command the runs of the hook must be '
    'exactly those of the events (names, identifier, arguments, dirty list), blocking ones ended before what follows; every reply '
    'follows the model whatever the hook does; HOOKS must list the recent runs with their pid, times and status. Non-trivial: 8 runs or more.',
    [Part('events', gen, run, 1000, 20000)],
    ['asynchronous hooks of one command may log in any order', 'jump-index may be waited for (documented as not blocking)',
     'the time of the server is fixed by the check, HOOKS keeps what is less than 60 s old and drops what is more than 15 minutes old'])
CHECK.technique = 'stateful model-based testing with a logging hook program of generated behaviour'
