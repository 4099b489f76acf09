"""P29: new files are started when they are full, asked or old, and only then."""
import os

from .. import disk, resp, server
from ..engine import Check, Part, Violation
from ..gens import Hist, gen_keys, weighted, wide
from ..model import ERR
from ..util import short
from ..world import World

WRITES = (b'SET', b'DEL')


class FileWorld(World):
    ready = False

    def start(self):
        if not self.ready:
            self.ready = True
            self.limit = self.cfg['limit']
            self.age = self.cfg.get('rotate', 0)
            self.state = {}
        World.start(self)
        self.boot()

    def boot(self):
        # a start counts as a rotation
        for n in self.model.ns:
            self.state[n] = [self.model.now, 'clean']
        self.last = self.files()

    def files(self):
        """{namespace: number of its current pair of files}"""
        out = {}
        for n in self.model.ns:
            d = disk.numbered(os.path.join(self.srv.data, n), 'd')
            x = disk.numbered(os.path.join(self.srv.index, n), 'i')
            if sorted(d) != list(range(len(d))) or sorted(x) != sorted(d):
                self.fail('%s: data files %s and index files %s' % (n, sorted(d), sorted(x)))
            if not d:
                self.fail('%s: no file' % n)
            out[n] = len(d) - 1
        return out

    def size(self, n, fid):
        try:
            return os.stat(os.path.join(self.srv.data, n, 'd%d' % fid)).st_size
        except OSError:
            return None

    def due(self, n):
        """whether the files of this namespace are too old: yes, no or maybe"""
        at, how = self.state[n]
        if not self.age or self.model.now - at <= self.age or how == 'clean':
            return 'no'
        return 'yes' if how == 'changed' else 'maybe'

    def idle(self):
        c = self.client(90)[0]
        for _ in range(130):
            c.do('PING')

    def rotated(self, n):
        self.state[n] = [self.model.now, 'clean']

    def settle(self, argv):
        """rotations of old files, after a step"""
        dues = {n: self.due(n) for n in self.model.ns}
        if self.age and ('yes' in dues.values() or 'maybe' in dues.values()):
            self.idle()
        now = self.files()
        for n, d in dues.items():
            step = now[n] - self.last.get(n, now[n])
            if d == 'yes' and step != 1:
                self.fail('%s: written since its last rotation, %d seconds ago (limit %d): %d new files' % (
                    n, self.model.now - self.state[n][0], self.age, step), argv)
            if d == 'no' and step:
                self.fail('%s: %d new files without a reason' % (n, step), argv)
            if step not in (0, 1):
                self.fail('%s: %d new files at once' % (n, step), argv)
            if step:
                self.rotated(n)
                self.env.label('rotated:old')
        self.last = now

    def do(self, i, argv, want=None, quiet=False):
        argv = [resp.b(a) for a in argv]
        cmd = argv[0].upper()
        s = self.client(i)[1]
        ns = s.ns
        name = ns.name if ns is not None else None
        before = self.last.get(name)
        size = self.size(name, before) if ns is not None and not s.detached else None
        got, want = World.do(self, i, argv, want, quiet)
        expect, also = 0, None
        if cmd == b'NSJUMP' and want is not ERR and not isinstance(got, resp.Err):
            expect = 1
        elif cmd == b'SET' and len(argv) >= 3 and size is not None:
            full = size + len(argv[2]) > self.limit
            if full:
                expect = 1
                if isinstance(got, resp.Err):
                    # what is refused does not need a new file
                    also = 0
            self.env.label('full' if full else 'fits')
            if abs(size + len(argv[2]) - self.limit) <= 1:
                self.env.label('edge')
        if name not in self.model.ns or self.model.ns[name] is not ns:
            name = None
        for n in list(self.state):
            if n not in self.model.ns:
                del self.state[n]
                self.last.pop(n, None)
        for n in self.model.ns:
            if n not in self.state:
                self.state[n] = [self.model.now, 'clean']
                self.last[n] = 0
        if cmd in (b'FLUSH', b'RELOAD') and not isinstance(got, resp.Err):
            t = name if cmd == b'FLUSH' else argv[1].decode('latin-1')
            self.state[t] = [self.model.now, 'clean']
            if cmd == b'FLUSH':
                self.last[t] = 0
        if cmd == b'NSSET' and not isinstance(got, resp.Err):
            t = argv[1].decode('latin-1')
            if argv[2] == b'mode':
                # writes the first file again
                self.state[t][1] = 'maybe' if self.state[t][1] == 'clean' else self.state[t][1]
        if name is not None and (expect or also is not None):
            now = self.files()
            step = now[name] - before
            if step == expect and expect:
                self.rotated(name)
                self.last[name] = now[name]
                self.env.label('rotated:' + ('asked' if cmd == b'NSJUMP' else 'full'))
            elif step != also:
                self.fail('%s: %d new files, %d bytes were written of %d' % (name, step, size, self.limit), argv)
        if name is not None and cmd in WRITES and not isinstance(got, resp.Err) and got is not None:
            st = self.state[name]
            if cmd == b'SET':
                st[1] = 'changed'
            elif st[1] == 'clean':
                # the deleted entry is in these files, or not
                st[1] = 'maybe'
        self.settle(argv)
        return got, want

    def tick(self, d):
        World.tick(self, d)
        self.settle(['tick %d' % d])

    def op_bulk(self, i, n, first, pool, size, jump, upd):
        for k in range(first, first + n):
            ns = self.client(i)[1].ns
            if ns is None:
                return
            if jump and k % jump == 0:
                self.do(i, [b'NSJUMP'])
            key = b'K%d' % (k % pool)
            if ns.seq:
                key = ns.ids[k * 7919 % len(ns.ids)] if ns.ids and upd and k % upd == 0 else b''
            self.do(i, [b'SET', key, b'%d.' % k])
        self.env.label('bulk', n)

    def op_edge(self, i, key, delta, seed):
        """a value which ends exactly at (or next to) the end of the file"""
        s = self.client(i)[1]
        ns = s.ns
        if ns is None or s.detached:
            return
        n = self.limit - (self.size(ns.name, self.last[ns.name]) or 0) + delta
        if 0 <= n <= 4 << 20:
            self.op_set(i, key, [n, seed])

    def op_restart(self, kind):
        before = self.files()
        World.op_restart(self, kind)
        if self.files() != before:
            self.fail('a restart changed the files: %s, they were %s' % (self.files(), before))


def gen(rng, i):
    mode = rng.choice(['user', 'seq', None, None])
    nk = rng.choice([2, 5, 12])
    limit = rng.choice([60, 300, 1000, 5000])
    cfg = {'mode': mode, 'bits': rng.choice([1, 6]), 'datasize': limit, 'limit': limit, 'keys': gen_keys(rng, nk), 'rel': rng.random() < 0.15}
    opts = []
    if rng.random() < 0.5:
        cfg['rotate'] = rng.choice([1, 10, 3600])
        opts += ['--rotate', str(cfg['rotate'])]
    if rng.random() < 0.2:
        opts.append(rng.choice(['--sync', '--secure']))
    cfg['opts'] = opts
    h = Hist(rng, mode, nk, rng.choice([30, 200]), clients=2)
    for _ in range(rng.choice([0, 1, 2])):
        h.new_ns()
    for c in range(2):
        h.select(c)
    for _ in range(rng.randrange(15, 80)):
        c = h.c()
        o = weighted(rng, [(24, 'set'), (14, 'edge'), (8, 'del'), (4, 'read'), (4, 'select'), (4, 'setting'), (3, 'jump'), (1, 'reload'), (0.7, 'flush'),
                           (1, 'nsdel'), (1, 'new'), (1.5, 'restart'), (8 if 'rotate' in cfg else 0, 'tick'), (1, 'scan'), (0.5, 'verify')])
        if o == 'set':
            h.set(c)
        elif o == 'edge':
            k = None if h.seq.get(h.at[c]) and rng.random() < 0.6 else h.key(c)
            h.ops.append(['edge', c, k, rng.choice([-1, 0, 0, 1, 1, 2, -20, 200]), rng.randrange(2, 1 << 20)])
        elif o == 'del':
            h.delete(c)
        elif o == 'read':
            h.get(c)
        elif o == 'select':
            h.select(c)
        elif o == 'setting':
            h.setting(c=c, kinds=('maxsize', 'worm', 'lock', 'freeze'))
        elif o == 'jump':
            h.jump(c)
        elif o == 'reload':
            h.reload(c=c)
        elif o == 'flush':
            names = [n for n in h.pw if n != 'default']
            if names:
                n = rng.choice(names)
                h.ops += [['cmd', c, 'NSSET', n, 'worm', '0'], ['cmd', c, 'NSSET', n, 'password', 'pf'], ['cmd', c, 'NSSET', n, 'public', '0'],
                          ['cmd', c, 'SELECT', n, 'pf'], ['cmd', c, 'FLUSH'], ['cmd', c, 'NSSET', n, 'password', '*']]
                h.at[c] = n
        elif o == 'nsdel':
            h.nsdel(c)
        elif o == 'new':
            h.new_ns(c=c)
        elif o == 'restart':
            h.restart(rng.choice(['term', 'kill']))
            for x in range(2):
                h.select(x)
        elif o == 'tick':
            r = cfg['rotate']
            h.ops.append(['tick', rng.choice([1, r, r, r + 1, r + 1, 2 * r + 1])])
        elif o == 'scan':
            h.ops.append(['scan', c, rng.choice(['SCAN', 'RSCAN'])])
        elif o == 'verify':
            h.ops.append(['verify'])
    return wide(rng, {'cfg': cfg, 'ops': h.ops})


def run(case, env):
    w = FileWorld(env, case['cfg'])
    w.run(case['ops'])
    w.verify(history=True)
    L = env.labels
    if L['rotated:old']:
        env.label('age')
    return L['rotated:full'] >= 1 and L['fits'] >= 2


# ---- the option itself, with its real bounds
def gen_option(rng, i):
    limit = rng.choice([512 * 1024, 512 * 1024 + 1, 700000, 1 << 20])
    nk = 4
    cfg = {'mode': rng.choice(['user', 'seq', None]), 'bits': 6, 'datasize': None, 'limit': limit, 'keys': gen_keys(rng, nk),
           'opts': ['--datasize', str(limit)]}
    ops = []
    for _ in range(rng.randrange(6, 20)):
        k = rng.randrange(nk)
        if cfg['mode'] == 'seq' and rng.random() < 0.7:
            k = None
        r = rng.random()
        if r < 0.45:
            ops.append(['set', 0, k, [rng.choice([0, 100, 100000, 300000, 600000]), rng.randrange(2, 1 << 20)]])
        elif r < 0.85:
            ops.append(['edge', 0, k, rng.choice([-1, 0, 1, 2, 5000]), rng.randrange(2, 1 << 20)])
        elif r < 0.95:
            ops.append(['del', 0, k if k is not None else 0])
        else:
            ops.append(['restart', 'term'])
    return {'cfg': cfg, 'ops': ops}


def run_option(case, env):
    w = FileWorld(env, case['cfg'])
    w.run(case['ops'])
    w.verify(history=True)
    return env.labels['rotated:full'] >= 1


# ---- sizes which are refused
def gen_refused(rng, i):
    low = rng.random() < 0.5
    if low:
        v = rng.choice([0, 1, 511 * 1024, 512 * 1024 - 1, rng.randrange(512 * 1024), -1, -rng.randrange(1, 1 << 31)])
    else:
        v = rng.choice([0xffffffff, 1 << 32, (1 << 32) + 600000, (1 << 33) - 1, 1 << 40, 1 << 62, rng.randrange(0xffffffff, 1 << 63)])
    return {'ops': [v]}


def run_refused(case, env):
    for v in case['ops']:
        sc = env.scratch()
        srv = env.server(sc, bits=4, opts=['--datasize', str(v)])
        try:
            srv.start()
        except server.ServerDied as e:
            if e.code != 1 or srv.sanitizer():
                raise Violation('--datasize %s ends with code %s: %s' % (v, e.code, short(e.err)), 'refused')
            env.label('refused')
            srv.proc = None
            continue
        raise Violation('--datasize %s is accepted' % v, 'refused')
    return True


CHECK = Check(
    'P29',
    'Random histories over up to three namespaces of both modes with a small file size, values which end exactly at that size, one byte before or '
    'after, NSJUMP, reloads, flushes, restarts and, with --rotate, a clock moved just up to and beyond the limit; after each command the '
    'files of every namespace are listed: a new pair appears exactly when expected, the numbers have no gap, and each data file has its index. All '
    'content and versions are verified at the end. The --datasize option is run with its real bounds, and refused outside of them. '
    'Non-trivial: a rotation of a full file and two writes which fit.',
    [Part('rotate', gen, run, 1500, 15000),
     Part('option', gen_option, run_option, 60, 600),
     Part('bounds', gen_refused, run_refused, 40, 200)],
    ['the size of the file before the command is read from the file system',
     'a namespace whose only change is a deletion may be rotated or not when it is old'])
