"""P04: what an interruption at any file operation leaves."""
import copy

from .. import disk, resp, server
from ..engine import Check, Part, Violation
from ..gens import Hist, gen_keys, weighted
from ..model import doubt
from ..world import World

CRASHED = 77


class CrashWorld(World):
    inflight = None

    def op_arm(self, n, part, again=()):
        self.arming = (n, part, list(again))
        ctl = self.srv.ctl
        ctl['crash_part'] = part
        ctl['crash_at'] = ctl['mutations'] + n

    def op_bootcrash(self, n, part):
        """interrupts the next start"""
        if self.srv.ctl['crash_at'] >= 0:
            return
        self.srv.stop()
        self.model.boot()
        self.boot([[n, part]])
        self.verify(history=True)

    def files_agree(self):
        """an independent reader finds the same content in the files"""
        try:
            disk.check(self.srv, self.model, strict=False)
        except disk.Bad as e:
            raise Violation('step %d: the server works but its files are wrong: %s' % (self.n, e), 'disk')
        self.env.label('disk')

    def boot(self, again):
        """start, interrupted as many times as asked"""
        ctl = self.srv.ctl
        for n, part in again:
            ctl.disarm()
            ctl['crash_part'] = part
            ctl['crash_at'] = ctl['mutations'] + n
            try:
                self.srv.start()
            except server.ServerDied as e:
                if e.code != CRASHED:
                    raise
                self.srv.kill()
                self.env.label('crash:start')
                continue
            self.srv.kill()
        ctl.disarm()
        try:
            self.start()
        except server.ServerDied as e:
            raise Violation('does not start again: %s' % e, 'nostart')

    def run(self, ops):
        ctl = self.srv.ctl
        self.arming = None
        for self.n, op in enumerate(ops):
            if op[0] in ('arm', 'bootcrash'):
                if not self.arming:
                    getattr(self, 'op_' + op[0])(*op[1:])
                continue
            if not self.arming:
                getattr(self, 'op_' + op[0])(*op[1:])
                self.alive(op)
                continue
            before = copy.deepcopy(self.model)
            replied = False
            try:
                if op[0] == 'restart':
                    # the stop may be interrupted as well
                    self.restart(op[1])
                else:
                    getattr(self, 'op_' + op[0])(*op[1:])
                replied = True
            except (resp.Closed, server.ServerDied):
                if not ctl['crashed']:
                    raise
            except Violation as e:
                if not ctl['crashed']:
                    raise
                if e.sig != 'stop':
                    raise
            if not ctl['crashed'] and not (self.srv.proc and self.srv.proc.poll() is not None):
                continue
            code = self.srv.dead(20)
            if code != CRASHED:
                self.alive(op)
                raise Violation('the server ended with code %s during %r' % (code, op), 'died')
            self.crashed(op, before, replied)
        ctl.disarm()

    def alive(self, op):
        if not self.srv.alive():
            self.srv.dead(2)
            raise Violation('the server ended during %r: %s' % (op, self.srv.errtail()), 'died')

    def crashed(self, op, before, replied):
        n, part, again = self.arming
        self.arming = None
        self.env.label('crash:%s' % (op[2] if op[0] == 'cmd' else op[0]))
        if part >= 0:
            self.env.label('crash:torn')
        self.srv.kill()
        after = self.model
        cands = [after] if replied else [after, before]
        if not replied:
            doubt(before, after, cands)
        half = None
        if not replied and op[0] == 'set':
            # the identifier used by an interrupted insertion may be lost
            sess = self.where(op[1], before)
            if sess and sess.seq:
                third = copy.deepcopy(before)
                t = third.ns[sess.name]
                if op[2] is None:
                    pass
                else:
                    t.nextid += 1
                    t.fresh = False
                    cands.append(third)
        if not replied and op[0] == 'cmd' and op[2] == 'NSDEL' and op[3] in before.ns and op[3] not in after.ns:
            half = op[3]
        if not replied and op[0] == 'cmd' and op[2] == 'FLUSH':
            s = self.where(op[1], before)
            if s is not None and (s.items or s.touched) and self.where(op[1], after).epoch != s.epoch:
                half = s.name
        for m in cands:
            m.boot()
            for x in m.ns.values():
                x.unsure = True
        self.model = after
        self.clients = {}
        self.cursors = {}
        self.boot(again)
        if half:
            self.forget(half, cands)
        bad = None
        for m in cands:
            m.sessions = self.model.sessions
            saved = self.model
            self.model = m
            try:
                self.verify(history=True)
                bad = None
                break
            except Violation as e:
                bad = bad or e
                self.model = saved
        if bad:
            raise Violation('after an interruption during %r (file operation %d of it, part %d), the state is neither '
                            'the previous one nor the next one: %s' % (op, n, part, bad.msg), 'crash')
        self.rebind()
        # and this does not change any more
        self.restart('kill')
        self.verify(history=True)

    def rebind(self):
        m = self.model
        d = m.ns['default']
        for c, s in self.clients.values():
            s.ns = d
        m.sessions = [s for c, s in self.clients.values()]

    def where(self, i, model):
        """namespace of client i in this copy of the model"""
        if i not in self.clients:
            return model.ns['default']
        s = self.clients[i][1]
        if s.ns is None:
            return None
        return model.ns.get(s.ns.name)

    def forget(self, name, cands):
        """An interrupted deletion leaves any part of that namespace; it can
        be deleted and created again, and nothing of it comes back."""
        c = self.admin()
        r = c.do('NSLIST')
        if name.encode('latin-1') in r:
            r = c.do('NSDEL', name)
            if str(r) != 'OK':
                self.fail('NSDEL of the half-deleted namespace %s: %r' % (name, r))
        for m in cands:
            m.ns.pop(name, None)
            m.halved |= {name}
        c.close()
        self.srv.clients.remove(c)
        self.env.label('crash:half')


def gen(rng, i):
    mode = rng.choice(['user', 'seq', None, None])
    nk = rng.choice([3, 6, 12])
    cfg = {'mode': mode, 'bits': rng.choice([1, 4, 10]), 'datasize': rng.choice([150, 300, 1000, 50000]),
           'keys': gen_keys(rng, nk), 'rel': rng.random() < 0.1,
           'opts': rng.choice([[], [], ['--sync'], ['--secure']])}
    h = Hist(rng, mode, nk, rng.choice([60, 200]), clients=2)
    for _ in range(rng.choice([0, 1, 1, 2])):
        h.new_ns()
    h.select(0)
    h.select(1)

    def some(n, boost=0):
        for _ in range(n):
            o = weighted(rng, [(40, 'set'), (18, 'del'), (2, 'get'), (3 + boost, 'jump'), (3, 'select'), (2 + 2 * boost, 'setting'),
                               (1 + boost, 'new'), (0.5 + boost, 'nsdel'), (1, 'reload'), (0.5 + 2 * boost, 'flush')])
            if o == 'set':
                h.set()
            elif o == 'del':
                h.delete()
            elif o == 'get':
                h.get()
            elif o == 'jump':
                h.jump()
            elif o == 'select':
                h.select(h.c())
            elif o == 'setting':
                h.setting(kinds=('password', 'password', 'public', 'worm', 'maxsize', 'mode'))
            elif o == 'new':
                h.new_ns()
            elif o == 'nsdel':
                h.nsdel()
            elif o == 'flush':
                names = [n for n in h.pw if n != 'default']
                if names:
                    n = rng.choice(names)
                    h.ops += [['cmd', 0, 'NSSET', n, 'worm', '0'], ['cmd', 0, 'NSSET', n, 'password', 'pf'],
                              ['cmd', 0, 'NSSET', n, 'public', '0'], ['cmd', 1, 'SELECT', n, 'pf'], ['cmd', 1, 'FLUSH']]
                    h.pw[n], h.public[n], h.at[1] = 'pf', False, n
            else:
                h.reload()

    for _ in range(rng.randrange(1, 4)):
        some(rng.randrange(0, 14))
        part = rng.choice([-1, -1, 0, 1, 2, 5, 17, 18, 19, 28, 30, 33, 40, rng.randrange(1, 200)])
        again = [[rng.randrange(0, 4), rng.choice([-1, 0, 3, 20])] for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        if rng.random() < 0.15:
            h.ops.append(['bootcrash', rng.randrange(0, 6), part])
            h.restarted()
        else:
            h.ops.append(['arm', rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 7]), part, again])
            some(rng.randrange(2, 8), boost=3)
            h.restarted()
            for c in range(2):
                h.select(c)
    some(rng.randrange(0, 8))
    h.restart()
    h.ops.append(['verify'])
    return {'cfg': cfg, 'ops': h.ops}


def run(case, env):
    w = CrashWorld(env, case['cfg'])
    w.run(case['ops'])
    w.srv.ctl.disarm()
    w.verify(history=True)
    w.files_agree()
    L = env.labels
    return L['SET'] >= 1 and any(k.startswith('crash:') for k in L)


CHECK = Check(
    'P04',
    'Random histories in which the process is ended at a chosen file operation (write, file or directory creation, removal, '
    'rename, truncation) of a chosen command, or of a following start; the appended block being written is cut at a chosen '
    'byte. Then the server has to start and the whole state (contents, timestamps, settings, HISTORY, SCAN) has to be '
    'the one before or after the interrupted command, with every acknowledged command, and to stay so after one more '
    'restart. Non-trivial: at least one SET took effect and one interruption happened.',
    [Part('crash', gen, run, 2500, 25000)],
    ['a write over already written bytes (headers, index flags) is atomic; appended blocks may be cut anywhere',
     'file operations reach the disk in the order they are made (what --sync adds is P27)',
     'an interrupted NSDEL or FLUSH may leave any part of that namespace'], level='fault_enumeration')
