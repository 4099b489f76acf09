"""P11: quota and statistics."""
import os

from .. import disk, resp
from ..engine import Check, Part
from ..gens import Hist, gen_keys, weighted
from ..model import parse_info
from ..util import short
from ..world import World


class QuotaWorld(World):
    unit = None

    def op_fill(self, i, key, delta, seed):
        """a value which ends exactly at (or next to) the limit"""
        c, s = self.client(i)
        ns = s.ns
        if ns is None or s.detached or not ns.maxsize:
            return
        k = self.key(key, ns)
        cur = ns.items.get(k)
        n = ns.maxsize - ns.size + (len(cur.value) if cur else 0) + delta
        if not 0 <= n <= 20000:
            return
        _, want = self.op_set(i, key, [n, seed])
        self.env.label('fill:%+d' % delta)

    def op_limit(self, i, name, delta):
        """moves the limit next to the present size"""
        ns = self.model.ns.get(name)
        if ns is None:
            return
        self.do(i, ['NSSET', name, 'maxsize', str(max(0, ns.size + delta))])
        self.env.label('limit')

    def op_info(self, i, name):
        c, s = self.client(i)
        if s.ns is None or s.detached:
            return
        ns = self.model.ns.get(name)
        r, _ = self.do(i, ['NSINFO', name])
        if ns is None:
            return
        info = parse_info(r)
        size = ns.size
        if info.get('data_size_mb') != '%.2f' % (size / (1024 * 1024.0)):
            self.fail('NSINFO %s: data_size_mb is %s for %d bytes' % (name, info.get('data_size_mb'), size))
        if ns.maxsize:
            if info.get('space_available') != str(max(0, ns.maxsize - size)):
                self.fail('NSINFO %s: space_available is %s, %d bytes are used of %d' % (
                    name, info.get('space_available'), size, ns.maxsize))
        elif 'space_available' in info:
            self.fail('NSINFO %s: space_available without a limit' % name)
        # the index needs the same room for every key, plus the key itself
        room = int(info['index_size_bytes']) - sum(len(k) for k in ns.items)
        n = len(ns.items)
        if n == 0 and room != 0:
            self.fail('NSINFO %s: index_size_bytes is %d for an empty namespace' % (name, room))
        if n:
            if room % n or room <= 0:
                self.fail('NSINFO %s: index_size_bytes is %s for %d keys' % (name, info['index_size_bytes'], n))
            if self.unit is None:
                self.unit = room // n
            if room // n != self.unit:
                self.fail('NSINFO %s: index_size_bytes is %s for %d keys, %d bytes each elsewhere' % (
                    name, info['index_size_bytes'], n, self.unit))
        self.rest(name, ns, info, s.admin, False)
        self.env.label('info')

    def rest(self, name, ns, info, admin, master):
        want = {'index_size_kb': '%.2f' % (int(info['index_size_bytes']) / 1024.0)}
        for k in ('index_io_errors', 'index_io_error_last', 'index_faults', 'data_io_errors', 'data_io_error_last', 'data_faults'):
            want['stats_' + k] = '0'
        n = self.srv.ctl['vfs']
        for k, n in (('index', n), ('data', n + 7)):
            want[k + '_disk_freespace_bytes'] = str(4096 * n)
            want[k + '_disk_freespace_mb'] = '%.2f' % (4096 * n / (1024 * 1024.0))
        if master and ns.password is not None:
            want['password_raw'] = ns.password
        elif 'password_raw' in info:
            self.fail('NSINFO %s gives the password' % name)
        where = {}
        for k, top in (('data', self.srv.data), ('index', self.srv.index)):
            files = disk.numbered(os.path.join(top, name), k[0])
            last = max(files)
            where[k + '_path'] = os.path.join(top, name)
            where[k + '_active'] = os.path.join(top, name, '%s%d' % (k[0], last))
            if k == 'data':
                where['data_current_id'] = str(last)
                where['data_current_offset'] = str(os.path.getsize(files[last]))
        if admin:
            want.update(where)
        else:
            for k in where:
                if k in info:
                    self.fail('NSINFO %s gives %s to a client which is not administrator' % (name, k))
        for k, v in want.items():
            got = info.get(k)
            if k.endswith(('_path', '_active')) and got:
                got = os.path.normpath(got)
            if got != v:
                self.fail('NSINFO %s: %s is %s instead of %s' % (name, k, got, v))

    def start(self):
        World.start(self)
        self.srv.ctl['vfs'] = self.cfg.get('vfs', 0) or 1

    def op_master(self, name):
        """what a master is told, which gives the identifier of its source with each command"""
        ns = self.model.ns.get(name)
        if ns is None:
            return
        c = self.admin()
        r = c.do('MASTER')
        if not isinstance(r, resp.Simple):
            self.fail('MASTER: %s' % short(r))
        r = c.do('NSINFO', name, '77')
        c.close()
        self.srv.clients.remove(c)
        if not isinstance(r, bytes):
            self.fail('NSINFO %s from a master: %s' % (name, short(r)))
        self.rest(name, ns, parse_info(r), True, True)
        self.env.label('master')

    def op_restart(self, kind):
        World.op_restart(self, kind)
        self.allinfo()

    def allinfo(self):
        for name in list(self.model.ns):
            self.op_info(0, name)


def gen(rng, i):
    mode = rng.choice(['user', 'seq', None, None])
    nk = rng.choice([2, 5, 12])
    default = rng.choice([0, 0, 300, 2000])
    cfg = {'mode': mode, 'bits': rng.choice([1, 6]), 'datasize': rng.choice([500, 2000, 100000]), 'keys': gen_keys(rng, nk),
           'rel': rng.random() < 0.2, 'maxsize': default, 'opts': ['--maxsize', str(default)] if default else []}
    cfg['vfs'] = rng.choice([1, 1000, 123456789, 1 << 31, 1 << 40])
    cfg['admin'] = rng.choice([None, None, 'root'])
    big = rng.choice([60, 400])
    h = Hist(rng, mode, nk, big, clients=2)
    if cfg['admin']:
        h.ops.append(['cmd', 0, 'AUTH', 'root'])
    for _ in range(rng.choice([1, 2])):
        n = h.new_ns()
        if rng.random() < 0.85:
            h.ops.append(['cmd', 0, 'NSSET', n, 'maxsize', str(rng.choice([1, 100, 500, 2000, 4000]))])
    for c in range(2):
        h.select(c)
    for _ in range(rng.randrange(20, 110)):
        c = h.c()
        o = weighted(rng, [(24, 'set'), (16, 'fill'), (12, 'del'), (4, 'read'), (5, 'select'), (5, 'limit'), (3, 'setting'),
                           (6, 'info'), (1.5, 'restart'), (1, 'jump'), (1, 'reload'), (1, 'flush'), (1, 'nsdel'), (1, 'new'), (1, 'master'), (1, 'pass'), (0.5, 'verify')])
        if o == 'set':
            h.set(c)
        elif o == 'fill':
            k = None if h.seq.get(h.at[c]) and rng.random() < 0.5 else h.key(c)
            h.ops.append(['fill', c, k, rng.choice([-1, 0, 0, 1, 1, 2, -7]), rng.randrange(2, 1 << 20)])
        elif o == 'del':
            h.delete(c)
        elif o == 'read':
            h.ops.append(rng.choice([['cmd', c, 'DBSIZE'], ['get', c, h.key(c)]]))
        elif o == 'select':
            h.select(c)
        elif o == 'limit':
            h.ops.append(['limit', c, rng.choice(list(h.pw)), rng.choice([-50, -1, 0, 1, 30, 200])])
        elif o == 'setting':
            h.setting(c=c, kinds=('maxsize', 'maxsize', 'worm'))
        elif o == 'info':
            h.ops.append(['info', c, rng.choice(list(h.pw))])
        elif o == 'restart':
            h.restart(rng.choice(['term', 'kill']))
            if cfg['admin']:
                h.ops.append(['cmd', 0, 'AUTH', 'root'])
            for x in range(2):
                h.select(x)
        elif o == 'jump':
            h.jump(c)
        elif o == 'reload':
            h.reload(c=c)
        elif o == 'flush':
            names = [n for n in h.pw if n != 'default']
            if names:
                n = rng.choice(names)
                h.ops += [['cmd', c, 'NSSET', n, 'worm', '0'], ['cmd', c, 'NSSET', n, 'password', 'pf'], ['cmd', c, 'NSSET', n, 'public', '0'],
                          ['cmd', c, 'SELECT', n, 'pf'], ['cmd', c, 'FLUSH'], ['info', c, n], ['cmd', c, 'NSSET', n, 'password', '*']]
                h.pw[n] = None
                h.at[c] = n
        elif o == 'nsdel':
            h.nsdel(c)
        elif o == 'new':
            h.new_ns()
        elif o == 'master':
            h.ops.append(['master', rng.choice(list(h.pw))])
        elif o == 'pass':
            h.setting(c=c, kinds=('password',))
        elif o == 'verify':
            h.ops.append(['verify'])
    return {'cfg': cfg, 'ops': h.ops}


def run(case, env):
    w = QuotaWorld(env, case['cfg'])
    w.run(case['ops'])
    w.allinfo()
    w.verify()
    L = env.labels
    return L['SET'] >= 2 and L['SET:err'] >= 1 and L['fill:+0'] + L['fill:+1'] >= 1 and L['info'] >= 1


CHECK = Check(
    'P11',
    'Random histories over up to three namespaces of both modes whose limit changes, is moved next to the present size, and is reached '
    'with values ending exactly on it, one byte before or one byte after, by new keys, longer and shorter updates and after '
    'deletions, FLUSH, RELOAD and restarts; each reply follows the model and each NSINFO field is recomputed from the content, the files and the '
    'free space given to the server, with those reserved to administrators and masters. '
    'Non-trivial: two effective and one refused SET, a value aimed at the limit, one NSINFO.',
    [Part('quota', gen, run, 3000, 25000)],
    ['index_size_bytes is judged as a constant per key plus the keys'])
