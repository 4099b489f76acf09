"""Histories which start on files of up to 4 GiB (sparse, written by this
module from the documented format), as a production server has them."""
import os

from . import disk, resp
from .engine import Part
from .gens import gen_value, weighted
from .model import Item, compare
from .util import crc32c, seqid, short
from .world import World

LIMIT = (1 << 32) - 2       # the largest --datasize
BIG = 8 << 20
ZERO = b'\0' * BIG


def zcrc(n):
    """crc of n zero bytes; it starts from 0"""
    return 0


assert crc32c(b'\0' * 50) == zcrc(50)


class LargeWorld(World):
    def __init__(self, env, cfg):
        World.__init__(self, env, cfg)
        self.srv.stop()
        self.fill(cfg['fill'])
        self.model.boot()
        self.start()

    def fill(self, targets):
        """one file per target: entries of zeros up to that size"""
        ns = self.model.ns['default']
        self.fillers = []
        self.ends = {}
        xprev = 0
        for fid, target in enumerate(targets):
            d = open(os.path.join(self.srv.data, 'default', 'd%d' % fid), 'wb')
            x = open(os.path.join(self.srv.index, 'default', 'i%d' % fid), 'wb')
            d.write(disk.DHEAD.pack(b'DAT0', disk.VERSION, 0, 0, fid))
            x.write(disk.IHEAD.pack(b'IDX0', disk.VERSION + 1, 0, 0, fid, 1 if ns.seq else 0))
            at, prev = disk.DHEAD.size, 0
            while at < target:
                if ns.seq:
                    key = seqid(ns.nextid)
                    ns.nextid += 1
                    ns.ids.append(key)
                else:
                    key = b'F%d' % ns.pos
                n = min(BIG, target - at - disk.DENTRY.size - len(key))
                if n < 1:
                    break
                if 0 < target - at - disk.DENTRY.size - len(key) - n < 60:
                    n -= 100
                ns.pos += 1
                ts = 1600000000 + ns.pos
                d.seek(at)
                d.write(disk.DENTRY.pack(len(key), n, prev, zcrc(n), 0, ts) + key)
                xat = x.tell()
                x.write(disk.IITEM.pack(len(key), at, n, xprev, 0, fid, ts, zcrc(n), 0, 0) + key)
                xprev = xat
                v = ZERO if n == BIG else b'\0' * n
                ns.items[key] = Item(v, ts, None, ns.pos)
                self.fillers.append(key)
                prev, at = at, at + disk.DENTRY.size + len(key) + n
            d.truncate(at)
            self.ends[fid] = (at, prev)
            d.close()
            x.close()
        ns.fresh = False

    def key(self, ref, ns):
        if isinstance(ref, list) and ref[0] == 'fill':
            # counted from the end
            return self.fillers[-1 - ref[1] % len(self.fillers)]
        return World.key(self, ref, ns)

    def verify_ns(self, c, ns, scan=True):
        full = ns.items
        n = c.do('DBSIZE')
        if n != len(full):
            self.fail('DBSIZE is %s, should be %d' % (short(n), len(full)))
        keys = list(full)
        for k in range(0, len(keys), 200):
            ask = []
            for key in keys[k:k + 200]:
                v = full[key].value
                ask += [('KEYTIME', key, full[key].ts), ('LENGTH', key, len(v))]
                if len(v) < 100000:
                    ask.append(('GET', key, v))
            c.raw(b''.join(resp.encode(x[0], x[1]) for x in ask))
            for what, key, want in ask:
                bad = compare(c.recv(), want)
                if bad:
                    self.fail('verify: %s %s: %s' % (what, short(key), bad))
        for key in list(ns.dead)[:50]:
            r = c.do('EXISTS', key)
            if r != (1 if key in full else 0):
                self.fail('verify: EXISTS %s is %s' % (short(key), short(r)))
        if scan:
            self.check_scan(c, ns, 'SCAN')
            self.check_scan(c, ns, 'RSCAN')

    def verify_history(self, c, ns):
        """of what was written since, and of a few others"""
        keep, few = ns.items, set(self.fillers[:1] + self.fillers[-3:])
        ns.items = {k: it for k, it in keep.items() if k in few or len(it.versions[-1][1]) < 100000}
        try:
            World.verify_history(self, c, ns)
        finally:
            ns.items = keep

    def op_raw(self, i, record=None):
        """what was added since: DATA RAW of each record"""
        c = self.admin()
        d = os.path.join(self.srv.data, 'default')
        for fid, path in sorted(disk.numbered(d, 'd').items()):
            at, prev = self.ends.get(fid, (disk.DHEAD.size, 0))
            with open(path, 'rb') as f:
                f.seek(at)
                b = f.read()
            base, pos = at, 0
            while pos < len(b):
                idlen, length, previous, crc, flags, ts = disk.DENTRY.unpack_from(b, pos)
                off = base + pos
                pos += disk.DENTRY.size
                key, val = b[pos:pos + idlen], b[pos + idlen:pos + idlen + length]
                pos += idlen + length
                if not flags & 1 and off != disk.DHEAD.size and off + length > self.cfg['datasize']:
                    self.fail('d%d: the record at %d of %d bytes exceeds --datasize %d' % (fid, off, length, self.cfg['datasize']))
                # deletions are not limited: a record past 4 GiB can exist,
                # the field has 32 bits; the first one of a file: see P25
                if prev and previous != prev & 0xffffffff:
                    self.fail('d%d: the record at %d says the previous one is at %d, it is at %d' % (fid, off, previous, prev))
                prev = off
                r = c.do('DATA', 'RAW', str(fid), str(off))
                want = [key, previous, b'0x%08x' % crc, flags, ts, None if flags & 1 else val]
                if r != want:
                    self.fail('DATA RAW %d %d: %s instead of %s' % (fid, off, short(r), short(want)))
                self.env.label('DATA RAW')
        c.close()
        if c in self.srv.clients:
            self.srv.clients.remove(c)

    def op_last(self, i, count):
        """the entries at the end of the largest file, whole"""
        for k in range(count):
            self.op_get(i, ['fill', k])


def gen(mode):
    def g(rng, i):
        return _gen(rng, mode)
    return g


def _gen(rng, mode):
    limit = rng.choice([LIMIT, LIMIT, LIMIT - rng.randrange(5000), (1 << 31) + rng.randrange(6000), 3000000000])
    near = rng.choice([1 << 31, (1 << 31) + rng.randrange(1 << 30), limit, limit])
    fill = [min(near, limit) - rng.choice([0, 1, 60, 300, 900, 2500])]
    if rng.random() < .35:
        # a full file before it: more than 4 GiB in total
        fill.insert(0, LIMIT - rng.choice([0, 500, 3000000]))
    cfg = {'mode': mode, 'bits': 8, 'datasize': limit, 'fill': fill, 'rel': rng.random() < .5,
           'keys': ['%02x%02x' % (97 + k, 97 + k) for k in range(6)] + ['46' + '30' * 40]}
    ops, prev = [], []

    def key():
        r = rng.random()
        if r < .2:
            return ['fill', rng.choice([0, 0, 1, 2, 300, rng.randrange(1000)])]
        if mode == 'seq':
            return rng.randrange(1 << 16)
        return rng.randrange(7)

    if rng.random() < .35:
        # deletions are not limited by the size of the file
        for k in range(rng.randrange(2, 9)):
            ops.append(['del', 0, ['fill', rng.choice([k, rng.randrange(1000)])]])
        ops += rng.choice([[['raw', 0]], [['restart', 'kill'], ['del', 0, ['fill', 9]], ['raw', 0]]])
    for _ in range(rng.randrange(10, 50)):
        o = weighted(rng, [(34, 'set'), (18, 'get'), (6, 'del'), (8, 'key'), (6, 'history'), (2, 'jump'), (3, 'restart'),
                           (2, 'scan'), (2, 'info'), (2, 'ts'), (2, 'raw'), (2, 'tick'), (1, 'verify')])
        if o == 'set':
            k = None if mode == 'seq' and rng.random() < .5 else key()
            ops.append(['set', 0, k, gen_value(rng, rng.choice([40, 400, 3000]), prev)])
        elif o == 'ts':
            ops.append(['set', 0, key(), gen_value(rng, 50, prev), rng.choice([0, (1 << 31) + 5, (1 << 32) - 1])])
        elif o == 'get':
            ops.append(['get', 0, key()])
        elif o == 'del':
            ops.append(['del', 0, key()])
        elif o == 'key':
            ops.append(['key', 0, rng.choice(['EXISTS', 'LENGTH', 'KEYTIME', 'CHECK']), key()])
        elif o == 'history':
            ops.append(['history', 0, key(), 1000])
        elif o == 'jump':
            ops.append(['cmd', 0, 'NSJUMP'])
        elif o == 'restart':
            ops.append(['restart', rng.choice(['term', 'kill'])])
        elif o == 'scan':
            ops.append(['scan', 0, rng.choice(['SCAN', 'RSCAN'])])
        elif o == 'info':
            ops.append(['cmd', 0, 'NSINFO', 'default'])
        elif o == 'raw':
            ops.append(['raw', 0])
        elif o == 'tick':
            ops.append(['tick', rng.choice([1, 60])])
        else:
            ops.append(['verify'])
    if rng.random() < .5:
        ops.append(['restart', rng.choice(['term', 'kill'])])
    return {'cfg': cfg, 'ops': ops}


def run(case, env):
    w = LargeWorld(env, case['cfg'])
    w.run(case['ops'])
    w.op_raw(0)
    w.verify(history=True)
    d = os.path.join(w.srv.data, 'default')
    top = max(os.stat(p).st_size for p in disk.numbered(d, 'd').values())
    files = len(disk.numbered(d, 'd'))
    for lo, name in ((1 << 32, 'beyond 4 GiB'), (1 << 31, 'beyond 2 GiB')):
        if top > lo:
            env.label(name)
            break
    if files > len(case['cfg']['fill']):
        env.label('rotated')
    return top > 1 << 31 and env.labels['SET'] >= 2 and env.labels['GET'] >= 1


def part(mode, quick=120, thorough=1500):
    return Part('large', gen(mode), run, quick, thorough)


RULE = ('Part large: the same kind of history on files which start at 2 to 4 GiB (sparse, made from the documented format), '
        'with --datasize up to its maximum; non-trivial: a file beyond 2 GiB, at least 2 SET and 1 GET.')
