"""P36: a read-only disk is served, and nothing of it is lost."""
import copy

from .. import disk, resp, server
from ..engine import Check, Part, Violation
from ..gens import Hist, gen_keys, weighted
from ..model import compare, doubt
from ..util import short
from ..world import World

SAFE = (b'PING', b'TIME', b'INFO', b'GET', b'MGET', b'EXISTS', b'CHECK', b'LENGTH', b'KEYTIME', b'KEYCUR', b'SCAN', b'RSCAN', b'KSCAN', b'HISTORY',
        b'DBSIZE', b'NSLIST', b'NSINFO', b'SELECT', b'AUTH')


class DiskWorld(World):
    mask = 0

    def do(self, i, argv, want=None, quiet=False):
        argv = [resp.b(a) for a in argv]
        cmd = argv[0].upper()
        if self.mask and cmd == b'RELOAD':
            # files are opened again, read-only
            self.stuck = True
        if not self.mask or cmd in SAFE:
            return World.do(self, i, argv, want, quiet)
        c, s = self.client(i)
        if s.ns is None:
            return World.do(self, i, argv, want, quiet)
        ctl = self.srv.ctl
        before = copy.deepcopy((self.model, {k: x[1] for k, x in self.clients.items()}))
        met = ctl['rorefused']
        want = self.model.exec(s, argv)
        try:
            got = c.do(*argv)
        except resp.Closed:
            self.srv.dead(5)
            raise Violation('step %d: %s on a read-only disk (%s): the server ended: %s' % (
                self.n, short(argv), self.where(), self.srv.errtail(300)), 'died')
        if compare(got, want) is None:
            if ctl['rorefused'] > met:
                self.env.label('ro:%s:same' % cmd.decode('latin-1'))
            if isinstance(got, resp.Err) or got is None or not self.changes(before[0]) or cmd == b'NSSET' and not self.mask & 2:
                return got, want
            self.fail('accepted on a read-only disk (%s): %s' % (self.where(), short(got)), argv)
        if not isinstance(got, resp.Err):
            self.fail('read-only disk (%s): %s' % (self.where(), compare(got, want)), argv)
        if ctl['rorefused'] == met and not self.stuck:
            self.fail('refused although nothing had to be written: %s' % short(got), argv)
        self.env.label('ro:%s:refused' % cmd.decode('latin-1'))
        doubt(before[0], self.model, [before[0]])
        self.model = before[0]
        for k, x in before[1].items():
            self.clients[k] = (self.clients[k][0], x)
        if cmd == b'NSSET':
            # may be in use, is not stored
            self.op_restart('kill')
        return got, want

    def changes(self, before):
        a, b = before, self.model
        return any((n in a.ns) != (n in b.ns) or
                   ({k: (i.value, i.ts) for k, i in a.ns[n].items.items()}, a.ns[n].settings()) !=
                   ({k: (i.value, i.ts) for k, i in b.ns[n].items.items()}, b.ns[n].settings()) for n in set(a.ns) | set(b.ns))

    def where(self):
        return ('data', 'index', 'data and index')[self.mask - 1] + (' since the start' if self.stuck else '')

    stuck = False

    def op_readonly(self, mask, how):
        if self.mask:
            return
        if how != 'live':
            if '--rotate' in self.cfg['opts']:
                # not while a file is being created
                self.op_age(0)
            if how == 'kill':
                self.srv.kill()
            else:
                self.srv.stop()
            self.model.boot()
        self.mask = mask
        self.srv.ctl['rofs'] = mask
        self.env.label('ro:%d:%s' % (mask, how))
        if how != 'live':
            self.stuck = True
            self.clients = {}
            self.cursors = {}
            World.start(self)

    def op_writable(self, how):
        if not self.mask:
            return
        self.mask = 0
        if how == 'live' and not self.stuck:
            self.srv.ctl['rofs'] = 0
        else:
            # stops while it is still read-only
            self.srv.stop() if how != 'kill' else self.srv.kill()
            self.srv.ctl['rofs'] = 0
            self.model.boot()
            self.clients = {}
            self.cursors = {}
            World.start(self)
        self.stuck = False
        self.verify(history=True)

    def op_restart(self, kind):
        if self.mask:
            self.stuck = True
        World.op_restart(self, kind)

    def op_age(self, d):
        self.tick(d)
        c = self.admin()
        # what is done from time to time only
        for _ in range(130):
            c.do('PING')
        c.close()

    def run(self, ops):
        for self.n, op in enumerate(ops):
            getattr(self, 'op_' + op[0])(*op[1:])
            if not self.srv.alive():
                raise Violation('the server ended during %r (read-only: %d): %s' % (op, self.mask, self.srv.errtail()), 'died')


def gen(rng, i):
    mode = rng.choice(['user', 'seq', None, None])
    nk = rng.choice([3, 6, 12])
    cfg = {'mode': mode, 'bits': rng.choice([1, 4, 10]), 'datasize': rng.choice([300, 1000, 50000, 50000]),
           'keys': gen_keys(rng, nk), 'rel': rng.random() < 0.1, 'opts': rng.choice([[], [], [], ['--sync']])}
    rotate = rng.random() < 0.15
    if rotate:
        cfg['opts'] = cfg['opts'] + ['--rotate', '10']
    h = Hist(rng, mode, nk, rng.choice([60, 200, 600]), clients=2)
    for _ in range(rng.choice([0, 1, 1, 2])):
        h.new_ns()
    h.select(0)
    h.select(1)

    def some(n, ro=False):
        for _ in range(n):
            o = weighted(rng, [(40, 'set'), (15, 'del'), (8, 'get'), (2, 'jump'), (4, 'select'), (2, 'setting'), (1, 'new'), (0.7, 'nsdel'),
                               (0.7, 'reload'), (0.7, 'flush'), (1, 'lock'), (2, 'scan'), (2, 'history'), (1, 'verify'),
                               (3 if rotate else 0, 'age')])
            if o == 'set':
                h.set()
            elif o == 'del':
                h.delete()
            elif o == 'get':
                h.get()
            elif o == 'jump':
                h.jump()
            elif o == 'select':
                h.select(h.c())
            elif o == 'setting':
                h.setting(kinds=('password', 'public', 'worm', 'maxsize'))
            elif o == 'lock':
                h.setting(kinds=('lock', 'freeze'))
            elif o == 'new':
                if ro:
                    h.ops.append(['cmd', h.c(), 'NSNEW', rng.choice(h.NAMES)])
                else:
                    h.new_ns()
            elif o == 'nsdel':
                if ro:
                    h.ops.append(['cmd', h.c(), 'NSDEL', rng.choice(list(h.pw))])
                else:
                    h.nsdel()
            elif o == 'reload':
                h.reload()
            elif o == 'flush':
                h.ops.append(['cmd', h.c(), 'FLUSH'])
            elif o == 'age':
                h.ops.append(['age', rng.choice([1, 11, 100])])
            elif o == 'scan':
                h.ops.append(['scan', h.c(), rng.choice(['SCAN', 'RSCAN'])])
            elif o == 'history':
                c = h.c()
                h.ops.append(['history', c, h.key(c), 5])
            else:
                h.ops.append(['verify', 1])

    for _ in range(rng.randrange(1, 4)):
        some(rng.randrange(1, 20))
        how = rng.choice(['live', 'live', 'term', 'kill'])
        h.ops.append(['readonly', rng.choice([3, 3, 1, 2]), how])
        if how != 'live':
            h.restarted()
        some(rng.randrange(1, 10), True)
        h.ops.append(['verify', 1])
        if rng.random() < 0.3:
            h.restart()
            h.ops.append(['verify', 1])
            some(rng.randrange(1, 5), True)
        how = rng.choice(['live', 'term', 'kill'])
        h.ops.append(['writable', how])
        h.restarted()
        for c in range(2):
            h.select(c)
    some(rng.randrange(1, 8))
    h.restart()
    h.ops.append(['verify', 1])
    return {'cfg': cfg, 'ops': h.ops}


def run(case, env):
    w = DiskWorld(env, case['cfg'])
    w.run(case['ops'])
    w.op_writable('term')
    w.verify(history=True)
    disk.check(w.srv, w.model, strict=False)
    L = env.labels
    return L['SET'] >= 1 and any(k.startswith('ro:') and k.endswith(('refused', 'same')) for k in L)


CHECK = Check(
    'P36',
    'Random histories over one to three namespaces during which the disk of the data files, of the indexes, or of both becomes read-only (each call which '
    'would change it is refused with EROFS by the shim), under the running server or while it is down, and becomes writable again. Each answer is compared '
    'with the model: what reads is as always, what would change something is refused and has no effect, and what would be refused anyway is refused; the whole '
    'state is read while read-only, once writable again and at the end. A case is non-trivial when something was stored and a command met the read-only disk.',
    [Part('readonly', gen, run, 1500, 20000)],
    ['the read-only disk is played by a shim around the system calls; a setting which could not be written may be in use until the next start (the check '
     'starts the server again)',
     'an index or data file being created when the disk becomes read-only is not generated (the server refuses to start on a namespace without any file)'],
    level='fault_enumeration')

CHECK.technique = 'stateful model-based testing with a disk which becomes read-only'
