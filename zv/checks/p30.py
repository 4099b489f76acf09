"""P30: a replica which follows the data files record by record is identical."""
import os
import subprocess
import sys

from .. import disk, resp
from ..build import NATIVE, REPO
from ..engine import Check, Part, Violation
from ..gens import Hist, gen_keys, weighted
from ..model import parse_info
from ..util import short
from ..world import World


class FollowWorld(World):
    def setup(self, case):
        cfg = self.cfg
        self.b = self.env.server(self.sc, mode=cfg.get('mode'), bits=cfg['bits'], datasize=case['bsize'], admin=cfg.get('admin'),
                                 rel=cfg.get('rel', False), name='b')
        # its clock is elsewhere: timestamps have to come from the source
        self.b.ctl['timefix'] = case.get('bclock', 1900000000)
        self.b.start()
        self.records = self.jumps = 0
        self.ca = self.cb = None

    def login(self, srv):
        c = srv.client()
        if self.cfg.get('admin'):
            r = c.do('AUTH', self.cfg['admin'])
            if not isinstance(r, resp.Simple):
                self.fail('AUTH: %s' % short(r))
        return c

    def place(self, c, name):
        r = c.do('NSINFO', name)
        if isinstance(r, resp.Err):
            return None
        i = parse_info(r)
        return int(i['data_current_id']), int(i['data_current_offset'])

    def follow(self, name, limit):
        """what the incremental update does: asks for the record at the end of the replica"""
        ns = self.model.ns[name]
        if self.ca is None:
            self.ca = self.login(self.srv)
        if self.cb is None:
            self.cb = self.login(self.b)
        a, b = self.ca, self.cb
        there = self.place(b, name)
        if there is None:
            if b.do('NSNEW', name) != 'OK':
                self.fail('replica: NSNEW %s' % name)
            there = self.place(b, name)
        self.select(a, ns)
        r = b.do('SELECT', name)
        if not isinstance(r, resp.Simple):
            self.fail('replica: SELECT %s: %s' % (name, short(r)))
        while limit > 0:
            limit -= 1
            here, there = self.place(a, name), self.place(b, name)
            if there > here:
                self.fail('%s: the replica is ahead, at %s, of the source, at %s' % (name, there, here))
            if there == here:
                return True
            r = a.do('DATA', 'RAW', there[0], there[1])
            if isinstance(r, resp.Err):
                if str(r) != 'EOF' or there[0] == here[0]:
                    self.fail('%s: DATA RAW %d %d, before the end %s: %s' % (name, there[0], there[1], here, short(r)))
                r = b.do('NSJUMP')
                if not isinstance(r, resp.Simple):
                    self.fail('replica: NSJUMP: %s' % short(r))
                self.jumps += 1
                continue
            if not (isinstance(r, list) and len(r) == 6):
                self.fail('%s: DATA RAW %d %d: %s' % (name, there[0], there[1], short(r)))
            self.records += 1
            if r[3] == 0:
                x = b.do('SET', r[0], r[5], r[4])
                if x != r[0]:
                    self.fail('replica: SET %s: %s' % (short(r), short(x)))
            else:
                x = b.do('DEL', r[0], r[4])
                if not isinstance(x, resp.Simple):
                    self.fail('replica: DEL %s: %s' % (short(r), short(x)))
                self.env.label('deletions')
        return False

    def op_follow(self, which, n):
        names = list(self.model.ns)
        self.follow(names[which % len(names)], n)
        self.env.label('follow')

    def op_script(self):
        """the script does it, until it waits for changes"""
        p = self.model.ns['default'].password
        if p is not None and p != self.cfg.get('admin'):
            return
        r = subprocess.run([sys.executable, os.path.join(NATIVE, 'redis_stub', 'runinc.py'), os.path.join(REPO, 'tools/incremental-update/incremental.py'),
                            self.srv.sock, self.b.sock, self.cfg.get('admin') or ''], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
        out = r.stdout.decode('utf-8', 'replace')
        if r.returncode or not out.endswith('WAITS\n'):
            self.fail('the incremental update ends with %d: %s' % (r.returncode, out[-300:]))
        if self.ca is None:
            self.ca = self.login(self.srv)
        if self.cb is None:
            self.cb = self.login(self.b)
        here, there = self.place(self.ca, 'default'), self.place(self.cb, 'default')
        if here != there:
            self.fail('the incremental update waits at %s, the source is at %s' % (there, here))
        self.env.label('script')

    def op_brestart(self, kind):
        if kind == 'kill':
            self.b.kill()
        else:
            self.b.stop()
        self.cb = None
        self.b.start()

    def op_restart(self, kind):
        World.op_restart(self, kind)
        self.ca = None

    def final(self):
        for n in range(2):
            for name in self.model.ns:
                if not self.follow(name, 100000):
                    self.fail('%s: the replica never reaches the end' % name)
            if n == 0:
                # nothing is left to do the second time
                before = self.records, self.jumps
        if (self.records, self.jumps) != before:
            self.fail('the replica was complete and had more to do')
        for name in self.model.ns:
            fa = disk.numbered(os.path.join(self.srv.data, name), 'd')
            fb = disk.numbered(os.path.join(self.b.data, name), 'd')
            if sorted(fa) != sorted(fb):
                self.fail('%s: data files %s, on the replica %s' % (name, sorted(fa), sorted(fb)))
            for n in sorted(fa):
                with open(fa[n], 'rb') as f, open(fb[n], 'rb') as g:
                    x, y = f.read(), g.read()
                # the first record of a file points to a place in an earlier
                # one, or to nothing when the server started in between
                x, y = x[:33] + x[37:], y[:33] + y[37:]
                if x != y:
                    k = next((k for k, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                    self.fail('%s: data file %d is not the same on the replica: %d and %d bytes, from byte %d' % (name, n, len(x), len(y), k))
        self.verify(history=True)
        # settings are not followed
        for ns in self.model.ns.values():
            ns.password, ns.public, ns.worm, ns.maxsize, ns.lock = None, True, False, 0, 0
        src, self.srv = self.srv, self.b
        try:
            self.verify(history=True)
        except Violation as e:
            raise Violation('on the replica: ' + e.msg, e.sig)
        finally:
            self.srv = src


def gen(rng, i):
    mode = rng.choice(['user', None])
    nk = rng.choice([2, 4, 10])
    size = rng.choice([300, 600, 3000, 50000])
    cfg = {'mode': mode, 'bits': rng.choice([1, 6]), 'datasize': size, 'keys': gen_keys(rng, nk), 'admin': rng.choice([None, 'root']), 'rel': rng.random() < 0.3}
    h = Hist(rng, 'user', nk, min(rng.choice([40, 400, 5000]), size - 40), clients=3, admin=cfg['admin'])
    for c in range(3):
        if cfg['admin']:
            h.ops.append(['cmd', c, 'AUTH', cfg['admin']])
    for _ in range(rng.choice([0, 0, 1])):
        h.new_ns()
    for c in range(3):
        h.select(c)
    for _ in range(rng.randrange(10, 90)):
        c = h.c()
        o = weighted(rng, [(30, 'set'), (12, 'del'), (2, 'again'), (2, 'select'), (2, 'tset'), (2, 'tdel'), (2.5, 'jump'), (2, 'tick'), (9, 'follow'), (1, 'setting'),
                           (1, 'restart'), (1, 'brestart'), (1, 'reload'), (0.7, 'script')])
        if o == 'set':
            h.set(c)
        elif o == 'again':
            # gone, then back with the same value
            k, v = rng.randrange(nk), h.value()
            h.ops += [['set', c, k, v], ['del', c, k], ['set', c, k, v]]
        elif o == 'del':
            h.delete(c)
        elif o == 'tset':
            h.set(c)
            h.ops[-1] = h.ops[-1][:4] + [rng.choice([1, 1234567890, 1700009999, 2147483648, 4000000000])]
        elif o == 'tdel':
            h.delete(c)
            h.ops[-1] = h.ops[-1][:3] + [rng.choice([1, 1234567890, 1700009999, 2147483648, 4000000000])]
        elif o == 'select':
            h.select(c)
        elif o == 'setting':
            h.setting(c=c, kinds=('maxsize', 'worm', 'freeze'))
        elif o == 'jump':
            h.jump(c)
        elif o == 'tick':
            h.ops.append(['tick', rng.choice([1, 60, 100000])])
        elif o == 'follow':
            h.ops.append(['follow', rng.randrange(4), rng.choice([1, 1, 3, 10, 1000])])
        elif o == 'restart':
            h.restart()
            for x in range(3):
                if cfg['admin']:
                    h.ops.append(['cmd', x, 'AUTH', cfg['admin']])
                h.select(x)
        elif o == 'brestart':
            h.ops.append(['brestart', rng.choice(['kill', 'term'])])
        elif o == 'reload':
            h.reload(c=c)
        elif o == 'script':
            h.ops.append(['script'])
    return {'cfg': cfg, 'ops': h.ops, 'bsize': rng.choice([size, size, 1 << 20]),
            'bclock': rng.choice([1900000000, 1500000000, 1000])}


def run(case, env):
    w = FollowWorld(env, case['cfg'])
    w.setup(case)
    w.run(case['ops'])
    w.final()
    env.label('records', w.records)
    env.label('jumps', w.jumps)
    return w.records >= 5 and env.labels['deletions'] >= 1


CHECK = Check(
    'P30',
    'Generated histories in user-key mode over one or two namespaces (updates, deletions, keys which come back, explicit timestamps, rotations, restarts '
    'of both sides), followed from time to time and at the end by a replica on a second server whose clock is ahead or behind: it asks DATA RAW for the record which '
    'starts where its own data ends, applies it with its timestamp, and jumps at EOF. Its data files must then be identical byte for byte (but for the backward offset of the first record of each file) and its content and '
    'versions equal the model. Non-trivial: five records and one deletion followed.',
    [Part('follow', gen, run, 1000, 12000)],
    ['settings are not part of the data files', 'each payload fits in a data file'])
CHECK.technique = 'stateful differential testing: source, replica fed by raw records, byte comparison and reference model'
