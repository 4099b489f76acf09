"""P05: refused and shortened writes."""
import copy
import os

from .. import resp
from ..engine import Check, Part, Violation
from ..gens import Hist, gen_keys, weighted
from ..model import ERR, compare, doubt
from ..util import short
from .p04 import CrashWorld

EXIT = 1


class FaultWorld(CrashWorld):
    armed = False
    counter = 'failed'

    def op_fault(self, n, count, errno, part, mask):
        ctl = self.srv.ctl
        ctl['failed'] = 0
        ctl['fail_errno'], ctl['fail_short'], ctl['fail_mask'] = errno, part, mask
        ctl['fail_count'] = count
        ctl['fail_at'] = ctl['mutations'] + n
        self.armed = True
        self.mask = mask

    def fired(self):
        """how many faults happened"""
        return self.srv.ctl[self.counter]

    def op_heal(self):
        self.srv.ctl.disarm()
        self.armed = False

    def drop_raw(self, c):
        c.close()
        self.srv.clients.remove(c)

    def files(self):
        out = set()
        for d in (self.srv.data, self.srv.index):
            for n in os.listdir(d):
                try:
                    out |= {d + '/' + n + '/' + x for x in os.listdir(d + '/' + n)}
                except NotADirectoryError:
                    pass
        return out

    def do(self, i, argv, want=None, quiet=False):
        if not self.armed:
            return CrashWorld.do(self, i, argv, want, quiet)
        ctl = self.srv.ctl
        c, s = self.client(i)
        argv = [resp.b(a) for a in argv]
        before = copy.deepcopy((self.model, {k: x[1] for k, x in self.clients.items()}))
        files = self.files()
        was = s.ns
        failed = self.fired()
        want = self.model.exec(s, argv)
        cmd = argv[0].decode('latin-1').upper()
        try:
            got = c.do(*argv)
        except resp.Closed:
            if was is None:
                raise
            code = self.srv.dead(20)
            if code is None or code != EXIT or self.srv.sanitizer():
                raise Violation('step %d: %s: the server ended (code %s)' % (self.n, cmd, code), 'died')
            if self.fired() == failed:
                raise Violation('step %d: %s: the server ended without any fault' % (self.n, cmd), 'died')
            if not (self.files() - files) and not self.mask & 2 and cmd not in ('RELOAD', 'FLUSH'):
                raise Violation('step %d: %s: the server ended on a refused write' % (self.n, cmd), 'died')
            self.env.label('fault:stop')
            self.settle(before[0], argv)
            return None, None
        bad = compare(got, want)
        if self.fired() > failed:
            self.env.label('fault:' + cmd + (':ok' if bad is None else ':err'))
        if was is None:
            self.drop(i)
        if bad is None:
            return got, want
        if self.fired() > failed and self.allowed(i, before, cmd, argv, got, want):
            return got, want
        if self.fired() == failed or not isinstance(got, resp.Err):
            self.fail(bad, argv)
        if cmd == 'NSSET':
            # the setting may be in use already, it has to work when asked again
            self.op_heal()
            r = c.do(*argv)
            if compare(r, want):
                self.fail('asked again without fault: %s' % short(r), argv)
            return got, want
        doubt(before[0], self.model, [before[0]])
        self.model = before[0]
        for k, x in before[1].items():
            self.clients[k] = (self.clients[k][0], x)
        if cmd in ('SET', 'SETX', 'NSJUMP'):
            # may have moved to new files
            if before[1].get(i) is not None and before[1][i].ns is not None:
                ns = before[1][i].ns
                ns.unsure = True
                if ns.seq and len(argv) > 2 and argv[1]:
                    # a failed update may have used one identifier
                    a = self.admin()
                    r = a.do('NSINFO', ns.name)
                    self.drop_raw(a)
                    ns.nextid += 1
                    if compare(r, self.model.c_nsinfo(None, [b'NSINFO', ns.name.encode('latin-1')])):
                        ns.nextid -= 1
                    else:
                        ns.fresh = False
        return got, want

    def allowed(self, i, before, cmd, argv, got, want):
        return False

    def settle(self, before, argv):
        after = self.model
        self.srv.kill()
        self.armed = False
        cands = [after, before]
        doubt(before, after, cands)
        for m in cands:
            m.boot()
            for x in m.ns.values():
                x.unsure = True
        self.clients = {}
        self.cursors = {}
        self.boot([])
        bad = None
        for m in cands:
            m.sessions = self.model.sessions
            saved = self.model
            self.model = m
            try:
                self.verify(history=True)
                bad = None
                break
            except Violation as e:
                bad = bad or e
                self.model = saved
        if bad:
            raise Violation('after a refused write stopped the server during %s, the state is neither the previous one '
                            'nor the next one: %s' % (short(argv), bad.msg), 'fault')
        self.rebind()

    def run(self, ops):
        for self.n, op in enumerate(ops):
            getattr(self, 'op_' + op[0])(*op[1:])
            self.alive(op)

    def op_restart(self, kind):
        self.op_heal()
        self.restart(kind)


def gen(rng, i):
    mode = rng.choice(['user', 'seq', None, None])
    nk = rng.choice([3, 6, 12])
    cfg = {'mode': mode, 'bits': rng.choice([1, 4, 10]), 'datasize': rng.choice([300, 1000, 50000, 50000, 50000]),
           'keys': gen_keys(rng, nk), 'rel': rng.random() < 0.1,
           'opts': rng.choice([[], [], ['--sync'], ['--secure']])}
    h = Hist(rng, mode, nk, rng.choice([60, 200, 600]), clients=2)
    for _ in range(rng.choice([0, 1, 1, 2])):
        h.new_ns()
    h.select(0)
    h.select(1)

    def some(n, fault=False):
        for _ in range(n):
            o = weighted(rng, [(45, 'set'), (18, 'del'), (6, 'get'), (2, 'jump'), (4, 'select'), (3, 'setting'),
                               (1, 'new'), (0.5, 'nsdel'), (0.7, 'reload')])
            if o == 'set':
                h.set()
            elif o == 'del':
                h.delete()
            elif o == 'get':
                h.get()
            elif o == 'jump':
                h.jump()
            elif o == 'select':
                h.select(h.c())
            elif o == 'setting':
                h.setting(kinds=('password', 'public', 'worm', 'maxsize'))
            elif o == 'new':
                h.new_ns()
            elif o == 'nsdel':
                h.nsdel()
            else:
                h.reload()

    for _ in range(rng.randrange(1, 5)):
        some(rng.randrange(1, 14))
        count = rng.choice([1, 1, 1, 2, 3, 5, 1000])
        h.ops.append(['fault', rng.choice([0, 0, 1, 1, 2, 3, 5, 8]), count, rng.choice([28, 5, 27, 122]),
                      rng.choice([-1, -1, 1, 3, 10, 20, 33, rng.randrange(1, 150)]), rng.choice([1, 1, 1, 3])])
        some(rng.randrange(1, 10), True)
        h.ops.append(['heal'])
        h.ops.append(['verify', 1])
        some(rng.randrange(1, 8))
        if rng.random() < 0.6:
            h.restart()
            h.ops.append(['verify', 1])
            for c in range(2):
                h.select(c)
    h.restart()
    h.ops.append(['verify', 1])
    return {'cfg': cfg, 'ops': h.ops}


def run(case, env):
    w = FaultWorld(env, case['cfg'])
    w.run(case['ops'])
    w.files_agree()
    L = env.labels
    return L['SET'] >= 1 and any(k.startswith('fault:') for k in L)


CHECK = Check(
    'P05',
    'Random histories in which, for a window of commands, chosen file writes (and in part of the cases file creations) are '
    'refused with ENOSPC, EIO, EFBIG or EDQUOT, the first one possibly after accepting a part of the block. A command answered with '
    'an error must have changed nothing, one answered with success must hold; the whole state is verified when the fault '
    'ends and again after a restart. Non-trivial: one SET took effect and one command met a fault.',
    [Part('fault', gen, run, 2500, 25000)],
    ['the process may stop when a file cannot be created, or when the header of a new one is refused (then: state before or '
     'after the command)', 'removals, truncations and flushes are not made to fail'],
    level='fault_enumeration')
