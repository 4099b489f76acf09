"""P14: altered files."""
import os
import random
import shutil
import struct
import subprocess

from .. import disk, resp, server
from ..engine import Check, Part, Violation
from ..gens import Hist, gen_keys, weighted, wide
from ..model import ERR, Model, compare
from ..util import collide, seqid, short
from ..world import World


# ------------------------------------------------ payloads
class Altered(Model):
    """The dictionary, once payloads were altered behind its back."""

    def __init__(self, *a):
        Model.__init__(self, *a)
        self.stored = {}            # (namespace, key) -> (Item, checksum it was written with)

    def sum_of(self, ns, k):
        it = ns.items.get(k)
        s = self.stored.get((ns, k))
        return s[1] if s and s[0] is it else None

    def c_check(self, s, a):
        r = Model.c_check(self, s, a)
        if r != 1:
            return r
        c = self.sum_of(s.ns, a[1])
        if c is not None and disk.crc(s.ns.items[a[1]].value) != c:
            return 0
        return 1

    def c_set(self, s, a):
        ns = s.ns
        if len(a) >= 3 and a[1] in ns.items:
            c = self.sum_of(ns, a[1])
            it = ns.items[a[1]]
            if c is not None and a[2] == it.value and disk.crc(a[2]) != c:
                # what the key was written with is something else
                keep, it.value = it.value, bytes(x ^ 0xff for x in it.value)
                r = Model.c_set(self, s, a)
                if ns.items.get(a[1]) is it:
                    it.value = keep
                return r
        return Model.c_set(self, s, a)

    c_setx = c_set


class PayloadWorld(World):
    def __init__(self, env, cfg):
        self.want = None
        World.__init__(self, env, cfg)
        m = Altered(cfg.get('mode'), None, False, 0)
        m.__dict__.update({k: v for k, v in self.model.__dict__.items() if k != 'stored'})
        m.stored = {}
        self.model = m

    def op_alter(self, which, kind, arg, old):
        """changes the payload of one stored entry"""
        cands = []
        for ns, sp in disk.spaces(self.srv, self.model):
            ref = {}
            for k, it in sp.live().items():
                n = 0
                while True:
                    e = sp.payload(it)
                    ref[(e.file, e.offset)] = (k, n)
                    if it.parent == (0, 0):
                        break
                    it, n = sp.iat[it.parent], n + 1
            for e in sp.entries():
                if e.value:
                    cands.append((ns, e, ref.get((e.file, e.offset))))
        if old == 'live':
            cands = [c for c in cands if c[2] and c[2][1] == 0] or cands
        if not cands:
            return
        if kind == 'all':
            ns, e, _ = cands[which % len(cands)]
            todo = [c for c in cands if c[0] is ns and c[1].file == e.file]
        else:
            todo = [cands[which % len(cands)]]
        for ns, e, ref in todo:
            self.alter(ns, e, ref, kind, arg, cands)

    def alter(self, ns, e, ref, kind, arg, cands):
        v = bytearray(e.value)
        if kind in ('bit', 'all'):
            v[(arg // 8) % len(v)] ^= 1 << (arg % 8)
        elif kind == 'byte':
            v[arg % len(v)] = (v[arg % len(v)] + 1 + arg % 255) & 0xff
        elif kind == 'zero':
            v = bytearray(len(v))
        elif kind == 'invert':
            v = bytearray(x ^ 0xff for x in v)
        elif kind == 'twin':
            if len(v) < 5:
                return
            v = bytearray(collide(bytes(v), arg % (len(v) - 4)))
        elif kind == 'swap':
            same = [c for c in cands if len(c[1].value) == len(v) and c[1].value != e.value]
            if not same:
                return
            v = bytearray(same[arg % len(same)][1].value)
        elif kind == 'last':
            v[-1] ^= 1 << (arg % 8)
        v = bytes(v)
        path = os.path.join(self.srv.data, ns.name, 'd%d' % e.file)
        with open(path, 'r+b') as f:
            f.seek(e.offset + disk.DENTRY.size + len(e.key))
            f.write(v)
        self.env.label('alter:' + kind)
        if ref and ref[0] in ns.items:
            k, n = ref
            it = ns.items[k]
            ts, was = it.versions[-1 - n]
            it.versions[-1 - n] = (ts, v)
            if n == 0:
                it.value = v
                self.model.stored[(ns, k)] = (it, e.crc)
                self.env.label('alter:live')
            else:
                self.env.label('alter:old')
        else:
            self.env.label('alter:unreachable')

    def op_checks(self):
        """CHECK of every key, live or not"""
        c = self.admin()
        for ns in list(self.model.ns.values()):
            self.select(c, ns)
            s = type('S', (), {})()
            s.ns = ns
            ks = list(ns.items) + list(ns.dead)[:5]
            for k in ks:
                want = self.model.c_check(s, [b'CHECK', k])
                bad = compare(c.do('CHECK', k), want)
                if bad:
                    self.fail('CHECK %s in %s: %s' % (short(k), ns.name, bad))
                self.env.label('check:%s' % want)
        c.close()

    def op_tool(self):
        """the integrity tool on every data file"""
        tool = os.path.join(self.env.build, 'integrity-check')
        for ns in list(self.model.ns.values()):
            d = os.path.join(self.srv.data, ns.name)
            for n, p in sorted(disk.numbered(d, 'd').items()):
                es = disk.read_data(p, n)
                bad = [e for e in es if e.value and disk.crc(e.value) != e.crc]
                with open(p, 'rb') as f:
                    before = f.read()
                r = subprocess.run([tool, p], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   cwd=self.sc.path, timeout=60,
                                   env={'PATH': '/usr/bin:/bin', 'ASAN_OPTIONS': server.ASAN_OPTIONS})
                err = r.stderr.decode('latin-1')
                what = 'step %d: integrity-check of d%d of %s, with %d altered entries of %d' % (self.n, n, ns.name, len(bad), len(es))
                if r.returncode < 0 or 'AddressSanitizer' in err or 'runtime error' in err:
                    raise Violation('%s: crash (code %d): %s' % (what, r.returncode, err[-1500:]), 'tool')
                if (r.returncode != 0) != bool(bad):
                    raise Violation('%s: exit code %d: %s' % (what, r.returncode, err[-300:]), 'tool')
                with open(p, 'rb') as f:
                    if f.read() != before:
                        raise Violation('%s: the file was modified' % what, 'tool')
                self.env.label('tool:%d' % (1 if bad else 0))


def some(rng, h, n):
    for _ in range(n):
        o = weighted(rng, [(45, 'set'), (10, 'del'), (8, 'get'), (3, 'jump'), (4, 'select'), (2, 'key'), (2, 'hist')])
        c = h.c()
        if o == 'set':
            h.set(c)
        elif o == 'del':
            h.delete(c)
        elif o == 'get':
            h.get(c)
        elif o == 'jump':
            h.jump(c)
        elif o == 'select':
            h.select(c)
        elif o == 'hist':
            h.ops.append(['history', c, h.key(c), rng.choice([1, 3, 10])])
        else:
            h.ops.append(['key', c, rng.choice(['CHECK', 'EXISTS', 'LENGTH']), h.key(c)])


def gen_payload(rng, i):
    mode = rng.choice(['user', 'seq', None])
    nk = rng.choice([3, 6, 15])
    cfg = {'mode': mode, 'bits': rng.choice([1, 4, 10]), 'datasize': rng.choice([200, 600, 4000, 50000]),
           'keys': gen_keys(rng, nk), 'rel': rng.random() < 0.2}
    h = Hist(rng, mode, nk, rng.choice([60, 300, 3000]), clients=2)
    if i % 60 == 59:
        # as many altered entries as an exit code can(not) tell
        cfg['datasize'] = 1 << 20
        cfg['keys'] = [b'k%d'.hex() if 0 else (b'k%d' % k).hex() for k in range(256)]
        for k in range(256):
            h.ops.append(['set', 0, None if mode == 'seq' else k, [8, k + 2]])
        h.ops += [['alter', 0, 'all', rng.randrange(64), 'any'], ['tool'], ['checks']]
        return {'cfg': cfg, 'ops': h.ops}
    for _ in range(rng.choice([0, 0, 1])):
        h.new_ns()
    for c in range(2):
        h.select(c)
    some(rng, h, rng.randrange(4, 40))
    for _ in range(rng.randrange(1, 4)):
        for _ in range(rng.choice([1, 1, 2, 4])):
            h.ops.append(['alter', rng.randrange(1 << 16), rng.choice(['bit', 'bit', 'bit', 'byte', 'zero', 'invert', 'twin', 'swap', 'last', 'all']),
                          rng.randrange(1 << 16), rng.choice(['live', 'live', 'any'])])
        if rng.random() < 0.4:
            h.restart()
        h.ops.append(['checks'])
        h.ops.append(['tool'])
        some(rng, h, rng.randrange(0, 15))
    h.ops.append(['checks'])
    return wide(rng, {'cfg': cfg, 'ops': h.ops})


def run_payload(case, env):
    w = PayloadWorld(env, case['cfg'])
    w.run(case['ops'])
    w.verify(history=True)
    w.restart('term')
    w.op_checks()
    w.verify(history=True)
    L = env.labels
    return L['alter:live'] >= 1 and L['check:0'] >= 1


# ------------------------------------------------ any bytes
INTS = [0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]


def mutate(rng, files, path, b, kind):
    """new content of one file"""
    b = bytearray(b)
    n = len(b)
    at = rng.randrange(n) if n else 0
    if rng.random() < 0.35:
        at = min(at, rng.randrange(80))
    if kind == 'byte' and n:
        b[at] = rng.choice([0, 1, 255, 128, rng.randrange(256)])
    elif kind == 'bit' and n:
        b[at] ^= 1 << rng.randrange(8)
    elif kind == 'int' and n:
        v = struct.pack('<I', rng.choice(INTS + [n, n - 1, n + 1, at]) & 0xffffffff)
        b[at:at + 4] = v[:len(b[at:at + 4])]
    elif kind == 'long' and n:
        v = struct.pack('<Q', rng.choice([0, 1, (1 << 64) - 1, 1 << 63, 1 << 32, rng.randrange(1 << 64)]))
        b[at:at + 8] = v[:len(b[at:at + 8])]
    elif kind == 'cut':
        del b[at:]
    elif kind == 'grow':
        b += bytes(rng.randrange(256) for _ in range(rng.choice([1, 17, 18, 33, 34, 60, 300])))
    elif kind == 'zeros':
        b += bytes(rng.choice([1, 34, 100, 4096]))
    elif kind == 'remove':
        del b[at:at + rng.choice([1, 2, 4, 18, 34, 40])]
    elif kind == 'repeat':
        m = rng.choice([1, 4, 18, 34, 42, 100])
        b[at:at] = b[at:at + m]
    elif kind == 'random':
        m = rng.choice([4, 20, 60])
        for k in range(at, min(n, at + m)):
            b[k] = rng.randrange(256)
    elif kind == 'other' and files:
        b = bytearray(files[rng.choice(sorted(files))])
    elif kind == 'empty':
        b = bytearray()
    return bytes(b)


KINDS = [(14, 'byte'), (10, 'bit'), (16, 'int'), (4, 'long'), (6, 'cut'), (5, 'grow'), (3, 'zeros'), (5, 'remove'), (5, 'repeat'),
         (6, 'random'), (2, 'other'), (1, 'empty')]


class BytesWorld(World):
    def spoil(self, edits, seed):
        """alters the files; the server is stopped"""
        rng = random.Random(seed)
        for what, kind in edits:
            files = {}
            for r in (self.srv.data, self.srv.index):
                for d, dirs, names in os.walk(r):
                    for x in names:
                        if x != '.lockfile':
                            p = os.path.join(d, x)
                            with open(p, 'rb') as f:
                                files[p] = f.read()
            pick = [p for p in sorted(files) if what == 'any' or os.path.basename(p)[0] == what]
            if kind == 'litter':
                d = rng.choice([self.srv.data, self.srv.index])
                sub = rng.choice(sorted(set(os.path.dirname(p) for p in files)) + [d])
                name = rng.choice(['x', 'i99', 'd99', 'i1', 'd1', 'zdb-namespace', 'i', 'd', 'zdb-namespace.tmp', 'new', 'i4294967295',
                                   'd99999999999999999999', 'i-1', 'n' * 250])
                p = os.path.join(sub, name)
                if os.path.exists(p):
                    continue
                if rng.random() < 0.3 and name[0] in 'xn':
                    os.mkdir(p)
                else:
                    with open(p, 'wb') as f:
                        f.write(files[rng.choice(sorted(files))] if files and rng.random() < 0.6 else b'xyz')
            elif not pick:
                continue
            elif kind == 'unlink':
                os.unlink(rng.choice(pick))
            elif kind == 'rename':
                p, q = rng.choice(pick), rng.choice(pick)
                if p != q:
                    os.rename(p, q)
            else:
                p = rng.choice(pick)
                with open(p, 'wb') as f:
                    f.write(mutate(rng, files, p, files[p], kind))
            self.env.label('spoil:' + kind)

    def crashed(self, what):
        code = self.srv.dead(5)
        t = self.srv.sanitizer()
        if code == 1 and not t and self.last in ('SET', 'SAME', 'NEW', 'NSJUMP', 'RELOAD'):
            # opening another file (rotation, reload) found one which is not usable: it stops as it would have refused to start
            self.env.label('stopped')
            return
        raise Violation('%s: the server ended with code %s: %s' % (what, code, t or self.srv.errtail(600)), 'crash')

    def use(self, seed, n):
        """any command; any answer is fine, as long as there is one"""
        rng = random.Random(seed)
        s = self.srv
        self.last = None
        c = s.client()
        r = c.do('NSLIST')
        names = [x for x in r if isinstance(x, bytes)] if isinstance(r, list) else []
        keys = {x.encode('latin-1'): list(ns.items) + list(ns.dead)[:3] for x, ns in self.model.ns.items()}
        pws = {x.encode('latin-1'): ns.password for x, ns in self.model.ns.items()}
        try:
            for name in names or [b'default']:
                c.do('NSINFO', name)
                if pws.get(name):
                    c.do('SELECT', name, pws[name])
                else:
                    c.do('SELECT', name)
                ks = keys.get(name) or [b'k', seqid(0)]
                for k in ks[:30]:
                    for cmd in ('GET', 'CHECK', 'LENGTH'):
                        c.do(cmd, k)
                    r = c.do('HISTORY', k)
                    for _ in range(6):
                        if isinstance(r, list) and r and isinstance(r[0], bytes):
                            r = c.do('HISTORY', k, r[0])
                    r = c.do('KEYCUR', k)
                    if isinstance(r, bytes):
                        c.do('SCAN', r)
                        c.do('RSCAN', r)
                for cmd in ('SCAN', 'RSCAN'):
                    r = c.do(cmd)
                    for _ in range(20):
                        if not (isinstance(r, list) and isinstance(r[0], bytes)):
                            break
                        r = c.do(cmd, r[0])
                c.do('KSCAN', ks[0][:1])
                for _ in range(n):
                    k = rng.choice(ks)
                    o = rng.choice(['SET', 'SET', 'DEL', 'GET', 'NEW', 'NSJUMP', 'RAW', 'DIRTY', 'RELOAD', 'SAME', 'NSSET', 'EXISTS'])
                    self.last = o
                    if o == 'SET':
                        c.do('SET', k, b'v%d' % rng.randrange(1 << 20))
                    elif o == 'SAME':
                        r = c.do('GET', k)
                        if isinstance(r, bytes):
                            c.do('SET', k, r)
                    elif o == 'NEW':
                        c.do('SET', rng.choice([b'', b'new%d' % rng.randrange(9)]), b'x' * rng.randrange(400))
                    elif o == 'RAW':
                        c.do('DATA', 'RAW', str(rng.randrange(4)), str(rng.choice([0, 1, 25, 28, rng.randrange(4000), 1 << 31])))
                    elif o == 'DIRTY':
                        c.do('INDEX', 'DIRTY', rng.choice(['', 'RESET'])) if rng.random() < 0.5 else c.do('INDEX', 'DIRTY')
                    elif o == 'RELOAD':
                        c.do('RELOAD', name)
                        c.do('SELECT', name, pws.get(name) or '')
                    elif o == 'NSSET':
                        c.do('NSSET', name, 'maxsize', rng.choice(['0', '1000000']))
                    elif o == 'NSJUMP':
                        c.do('NSJUMP')
                    else:
                        c.do(o, k)
                    self.env.label('use:' + o)
            if len(names) > 1:
                c.do('NSDEL', [x for x in names if x != b'default'][0])
        except resp.Closed:
            if not s.alive() or s.dead(0.5) is not None:
                self.crashed('a command')
                return
            raise Violation('the connection was closed', 'closed')


def gen_bytes(rng, i):
    mode = rng.choice(['user', 'seq', None, None])
    nk = rng.choice([3, 8])
    cfg = {'mode': mode, 'bits': rng.choice([1, 4]), 'datasize': rng.choice([150, 600, 5000]),
           'keys': gen_keys(rng, nk), 'rel': rng.random() < 0.1}
    h = Hist(rng, mode, nk, rng.choice([30, 200]), clients=2)
    for _ in range(rng.choice([0, 1, 1])):
        h.new_ns()
        if rng.random() < 0.5:
            h.setting(kinds=('password', 'maxsize'))
    for c in range(2):
        h.select(c)
    for _ in range(rng.randrange(2, 25)):
        o = weighted(rng, [(40, 'set'), (12, 'del'), (4, 'jump'), (4, 'select')])
        if o == 'set':
            h.set()
        elif o == 'del':
            h.delete()
        elif o == 'jump':
            h.jump()
        else:
            h.select(h.c())
    edits = []
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        edits.append([rng.choice(['i', 'i', 'i', 'd', 'z', 'any']),
                      weighted(rng, KINDS + [(2, 'litter'), (2, 'unlink'), (1, 'rename')])])
    return wide(rng, {'cfg': cfg, 'ops': h.ops, 'edits': edits, 'seed': rng.randrange(1 << 30), 'n': rng.choice([0, 5, 30])})


def run_bytes(case, env):
    w = BytesWorld(env, case['cfg'])
    w.run(case['ops'])
    w.srv.stop()
    w.spoil(case['edits'], case['seed'])
    for k in range(2):
        try:
            w.srv.start()
        except server.ServerDied as e:
            t = w.srv.sanitizer()
            if t or e.code < 0 or e.code == 99 or e.code >= 128:
                raise Violation('start: the server crashed (code %s): %s' % (e.code, t or e.err[-600:]), 'crash')
            env.label('refused')
            return True
        env.label('started')
        w.use(case['seed'] + k, case['n'])
        code = w.srv.stop()
        t = w.srv.sanitizer()
        if t or (code is not None and (code < 0 or code == 99)):
            raise Violation('stop: the server crashed (code %s): %s' % (code, t or w.srv.errtail(600)), 'crash')
    return True


CHECK = Check(
    'P14',
    'Part payload: random histories in both modes; then payloads of live, former or unreachable entries are altered on disk '
    '(bits, bytes, zeroes, swapped payloads, all of a file, and other payloads of the same checksum, which cannot be detected), '
    'with the server running or restarted. CHECK must tell exactly the live keys whose payload no longer has its '
    'checksum, every other reply must follow the model, and integrity-check must fail exactly on the files with such entries. '
    'Part bytes: any file is altered anyhow (bytes, lengths, cut, grown, exchanged, removed, litter); start, every command and stop must not '
    'crash nor leave a request unanswered. Non-trivial: CHECK found an altered key; any altered file.',
    [Part('payload', gen_payload, run_payload, 700, 7000),
     Part('bytes', gen_bytes, run_bytes, 2500, 40000, ('ops', 'edits'))],
    ['a start refused with an error message is accepted when structure was altered'])
CHECK.technique = 'fault injection on stored bytes against a model (checksums), structure fuzzing of files under AddressSanitizer'
