"""P15: offloaded data files, DATA RAW."""
import os
import shutil

from .. import disk, resp
from ..engine import Check, Part, Violation
from ..gens import Hist, gen_keys, weighted
from ..model import ERR, compare
from ..util import short, value
from ..world import World

HOOK = """#!/bin/sh
[ "$1" = missing-data ] || exit 0
printf '%%s\\n' "$3" >> "%(log)s"
read m < "%(mode)s"
case "$m" in
restore) cp "%(store)s/${3#%(data)s/}" "$3.part" && mv "$3.part" "$3"; exit $? ;;
slow) sleep 0.05; cp "%(store)s/${3#%(data)s/}" "$3.part" && mv "$3.part" "$3"; exit $? ;;
fail) exit 1 ;;
kill) kill -9 $$ ;;
esac
exit 0
"""


class OffWorld(World):
    def start(self):
        if not hasattr(self, 'absent'):
            self.absent = set()         # (namespace name, file number)
            self.answer = None          # what the hook does
            self.store = self.sc.sub('store')
            self.logfile, self.modefile = self.sc.sub('hook.log'), self.sc.sub('hook.mode')
            if self.cfg.get('hooked'):
                h = self.sc.sub('hook')
                with open(h, 'w') as f:
                    f.write(HOOK % {'log': self.logfile, 'mode': self.modefile, 'store': self.store, 'data': self.srv.data})
                os.chmod(h, 0o755)
                self.srv.hook = h
                self.op_answer('restore')
            open(self.logfile, 'w').close()
            self.seen = 0
        World.start(self)

    def op_answer(self, m):
        if self.cfg.get('hooked'):
            self.answer = m
            with open(self.modefile, 'w') as f:
                f.write(m + '\n')

    def path(self, ns, n):
        return os.path.join(self.srv.data, ns, 'd%d' % n)

    def kept(self, ns, n):
        return os.path.join(self.store, ns, 'd%d' % n)

    def places(self, ns):
        """{key: [(data file, offset)]}, newest first, as the index says"""
        x = os.path.join(self.srv.index, ns.name)
        its, live = {}, {}
        for n, p in sorted(disk.numbered(x, 'i').items()):
            for it in disk.read_index(p, n)[1]:
                its[(n, it.offset)] = it
                if not it.deleted:
                    live[it.key] = it
        out = {}
        for k, it in live.items():
            out[k] = []
            while True:
                out[k].append((it.dataid, it.dataoff))
                if it.parent == (0, 0):
                    break
                it = its[it.parent]
        return out

    # ---- what the hook was asked
    def asked(self, want, what):
        with open(self.logfile) as f:
            lines = f.read().split('\n')[:-1]
        new = lines[self.seen:]
        self.seen = len(lines)
        want = [self.path(ns, n) for ns, n in want] if self.cfg.get('hooked') else []
        if new != want:
            self.fail('%s: the hook was asked for %s instead of %s' % (what, new, want))

    def still(self, what):
        for ns, n in self.absent:
            if os.path.lexists(self.path(ns, n)):
                self.fail('%s: something was created as data file %d of %s, which is absent' % (what, n, ns))

    def need(self, ns, n, asks):
        """reads data file n; True when its content can be had"""
        if (ns.name, n) not in self.absent:
            return True
        asks.append((ns.name, n))
        self.env.label('absent:%s' % self.answer)
        if self.answer in ('restore', 'slow'):
            self.absent.discard((ns.name, n))
            return True
        return False

    # ---- operations
    def op_offload(self, which, keep):
        files = []
        for ns in self.model.ns.values():
            ds = sorted(disk.numbered(os.path.join(self.srv.data, ns.name), 'd'))
            files += [(ns.name, n) for n in ds[:-1]]
        files.sort()
        if not files:
            return
        for k in range(min(keep, len(files))):
            ns, n = files[(which + k * 7) % len(files)]
            if (ns, n) in self.absent:
                continue
            os.makedirs(os.path.join(self.store, ns), exist_ok=True)
            shutil.copyfile(self.path(ns, n), self.kept(ns, n))
            os.unlink(self.path(ns, n))
            self.absent.add((ns, n))
            self.env.label('offload')

    def op_bringback(self, which):
        if self.absent:
            ns, n = sorted(self.absent)[which % len(self.absent)]
            shutil.copyfile(self.kept(ns, n), self.path(ns, n))
            self.absent.discard((ns, n))
            self.env.label('bringback')

    def op_get(self, i, key):
        self.read(i, 'GET', [key])

    def op_mget(self, i, keys):
        self.read(i, 'MGET', keys)

    def op_check(self, i, key):
        self.read(i, 'CHECK', [key])

    def read(self, i, cmd, refs):
        c, s = self.client(i)
        if s.ns is None or s.detached:
            return self.do(i, [cmd] + [self.key(k, s.ns) for k in refs])
        ks = [self.key(k, s.ns) for k in refs]
        argv = [cmd] + ks
        want = self.model.exec(s, [resp.b(a) for a in argv])
        asks = []
        if want is not ERR:
            pl = self.places(s.ns)
            parts = want if cmd == 'MGET' else [want]
            out = []
            for k, w in zip(ks, parts):
                if w is not None and k in s.ns.items and not self.need(s.ns, pl[k][0][0], asks):
                    w = ERR
                out.append(w)
            want = out
        got = c.do(*argv)
        if want is ERR:
            bad = compare(got, ERR)
        else:
            gots = got if cmd == 'MGET' else [got]
            if not isinstance(gots, list) or len(gots) != len(want):
                self.fail('malformed answer %s' % short(got), argv)
            bad = None
            for g, w in zip(gots, want):
                if cmd == 'CHECK' and w is ERR and g == -1:
                    continue
                bad = bad or compare(g, w)
        if bad:
            self.fail('%s (absent files: %s, hook: %s)' % (bad, sorted(self.absent), self.answer), argv)
        self.asked(asks, '%s %s' % (cmd, short(ks[0])))
        self.still(cmd)
        self.env.label(cmd)

    def op_set(self, i, key, val, ts=None):
        c, s = self.client(i)
        ns = s.ns
        asks = []
        k = self.key(key, ns)
        v = value(val)
        it = ns.items.get(k) if ns is not None and not s.detached else None
        if it is not None and len(it.value) == len(v) and disk.crc(it.value) == disk.crc(v) and self.accepted(s, k, v):
            if not self.need(ns, self.places(ns)[k][0][0], asks) and it.value == v:
                # cannot be compared: it is written again
                keep, it.value = it.value, None
                it.value = bytes(x ^ 0xff for x in keep) if keep else None
                if not keep:
                    it.value = Other()
                self.do(i, ['SET', k, v])
                if ns.items.get(k) is it:
                    it.value = keep
                self.asked(asks, 'SET')
                self.still('SET')
                self.env.label('blind')
                return
        self.do(i, ['SET', k, v])
        self.asked(asks, 'SET %s' % short(k))
        self.still('SET')

    def accepted(self, s, k, v):
        ns = s.ns
        return s.writable and ns.lock == 0 and not ns.worm and (not ns.maxsize or ns.size + len(v) <= ns.maxsize + len(ns.items[k].value))

    def op_quiet(self, i, cmd, key):
        """needs no payload"""
        c, s = self.client(i)
        if s.ns is None or s.detached:
            return
        self.do(i, [cmd, self.key(key, s.ns)])
        self.asked([], cmd)
        self.still(cmd)

    def op_del(self, i, key, ts=None):
        c, s = self.client(i)
        self.do(i, ['DEL', self.key(key, s.ns)])
        self.asked([], 'DEL')
        self.still('DEL')

    def op_cmd(self, i, *argv):
        known = set(self.model.ns)
        World.op_cmd(self, i, *argv)
        for n in known - set(self.model.ns):
            self.absent = {a for a in self.absent if a[0] != n}
        self.asked([], argv[0])
        self.still(argv[0])

    def op_scans(self, i):
        c, s = self.client(i)
        if s.ns is None or s.detached or s.ns.lock == 2:
            return
        self.check_scan(c, s.ns, 'SCAN')
        self.check_scan(c, s.ns, 'RSCAN')
        self.asked([], 'SCAN')
        self.still('SCAN')

    def op_versions(self, i, key):
        """HISTORY, down to the first version which cannot be read"""
        c, s = self.client(i)
        if s.ns is None or s.detached or s.ns.lock == 2:
            return
        k = self.key(key, s.ns)
        it = s.ns.items.get(k)
        if it is None:
            return
        pl = self.places(s.ns)[k]
        cur = []
        for n in range(len(it.versions)):
            ts, v = it.versions[-1 - n]
            asks = []
            ok = self.need(s.ns, pl[n][0], asks)
            r = c.do('HISTORY', k, *cur)
            if not ok:
                if not isinstance(r, resp.Err):
                    self.fail('HISTORY %s, version %d: %s although its data file is absent' % (short(k), n, short(r)))
            else:
                h = self.hist(r)
                if h is None or (h[1], h[2]) != (str(ts).encode(), v):
                    self.fail('HISTORY %s, version %d: %s instead of %s %s' % (short(k), n, short(r), ts, short(v)))
            self.asked(asks, 'HISTORY')
            self.still('HISTORY')
            if not ok or h[0] is None:
                break
            cur = [h[0]]
        self.env.label('HISTORY')

    def op_raw(self, which, kind):
        """DATA RAW of any stored record, or of anything"""
        nss = sorted(self.model.ns)
        ns = self.model.ns[nss[which % len(nss)]]
        if ns.lock == 2:
            return
        recs, absent = [], []
        d = os.path.join(self.srv.data, ns.name)
        for n, p in sorted(disk.numbered(d, 'd').items()):
            recs += disk.read_data(p, n)
        for name, n in sorted(self.absent):
            if name == ns.name:
                absent += disk.read_data(self.kept(name, n), n)
        pool = absent if kind == 'absent' and absent else recs
        if not pool and kind in ('any', 'absent'):
            return
        c = self.admin()
        self.select(c, ns)
        asks = []
        want = None
        if kind in ('any', 'absent'):
            e = pool[(which // 7) % len(pool)]
            at = (e.file, e.offset)
            if self.need(ns, e.file, asks):
                want = [e.key, e.previous, b'0x%08x' % e.crc, e.flags, e.ts, None if e.deleted else e.value]
            else:
                want = ERR
            self.env.label('raw:' + ('deleted' if e.deleted else 'empty' if not e.value else 'value'))
        elif kind == 'end':
            files = sorted(disk.numbered(d, 'd'))
            n = files[which % len(files)]
            at = (n, os.path.getsize(os.path.join(d, 'd%d' % n)) + which % 3)
            want = ERR
        elif kind == 'nofile':
            n = max([n for n in disk.numbered(d, 'd')]) + 1 + which % 5
            at = (n, 28)
            want = ERR
            asks = [(ns.name, n)]
            if self.answer in ('restore', 'slow'):
                self.op_answer('fail')
        else:
            files = sorted(disk.numbered(d, 'd'))
            n = files[which % len(files)]
            at = (n, which % (os.path.getsize(os.path.join(d, 'd%d' % n)) + 1))
        r = c.do('DATA', 'RAW', str(at[0]), str(at[1]))
        if want is not None:
            bad = compare(r, want)
            if bad:
                self.fail('DATA RAW %d %d in %s: %s' % (at[0], at[1], ns.name, bad))
        elif not isinstance(r, (resp.Err, list)):
            self.fail('DATA RAW %d %d: %s' % (at[0], at[1], short(r)))
        self.asked(asks, 'DATA RAW')
        self.still('DATA RAW')
        c.close()
        if c in self.srv.clients:
            self.srv.clients.remove(c)


class Other(bytes):
    """an empty value which equals nothing"""

    def __eq__(self, o):
        return False

    __hash__ = bytes.__hash__


def gen(rng, i):
    mode = rng.choice(['user', 'seq', None])
    nk = rng.choice([4, 8])
    cfg = {'mode': mode, 'bits': rng.choice([1, 4, 10]), 'datasize': rng.choice([100, 200, 500]),
           'keys': gen_keys(rng, nk), 'rel': rng.random() < 0.2, 'hooked': rng.random() < 0.7}
    h = Hist(rng, mode, nk, rng.choice([60, 150]), clients=2)
    if rng.random() < 0.4:
        h.new_ns()
    for c in range(2):
        h.select(c)
    for _ in range(rng.randrange(4, 20)):
        h.set() if rng.random() < 0.8 else h.delete()
    for _ in range(rng.randrange(8, 50)):
        o = weighted(rng, [(8, 'offload'), (3, 'bringback'), (14, 'get'), (4, 'mget'), (4, 'check'), (10, 'set'), (5, 'again'), (4, 'del'),
                           (3, 'quiet'), (2, 'scans'), (6, 'versions'), (8, 'raw'), (4, 'answer'), (1, 'select'), (1, 'jump'),
                           (1, 'restart'), (0.7, 'reload'), (0.5, 'nsdel')])
        c = h.c()
        if o == 'offload':
            h.ops.append(['offload', rng.randrange(1 << 10), rng.choice([1, 1, 2, 5])])
        elif o == 'bringback':
            h.ops.append(['bringback', rng.randrange(1 << 10)])
        elif o == 'get':
            h.get(c)
        elif o == 'mget':
            h.ops.append(['mget', c, [h.key(c) for _ in range(rng.randrange(1, 6))]])
        elif o == 'check':
            h.ops.append(['check', c, h.key(c)])
        elif o == 'set':
            h.set(c)
        elif o == 'again':
            # an earlier value of an earlier key
            sets = [x for x in h.ops if x[0] == 'set' and x[2] is not None]
            if sets:
                x = rng.choice(sets)
                v = list(x[3])
                if len(v) == 2 and rng.random() < 0.3:
                    v.append('x')
                h.ops.append(['set', c, x[2], v])
        elif o == 'del':
            h.delete(c)
        elif o == 'quiet':
            h.ops.append(['quiet', c, rng.choice(['EXISTS', 'LENGTH', 'KEYTIME']), h.key(c)])
        elif o == 'scans':
            h.ops.append(['scans', c])
        elif o == 'versions':
            h.ops.append(['versions', c, h.key(c)])
        elif o == 'raw':
            h.ops.append(['raw', rng.randrange(1 << 16), rng.choice(['any', 'any', 'absent', 'absent', 'end', 'nofile', 'junk'])])
        elif o == 'answer':
            h.ops.append(['answer', rng.choice(['restore', 'restore', 'slow', 'fail', 'lie', 'kill'])])
        elif o == 'select':
            h.select(c)
        elif o == 'jump':
            h.jump(c)
        elif o == 'restart':
            h.restart()
        elif o == 'reload':
            h.reload()
        else:
            h.nsdel()
    return {'cfg': cfg, 'ops': h.ops}


def run(case, env):
    w = OffWorld(env, case['cfg'])
    w.run(case['ops'])
    if w.cfg.get('hooked'):
        w.op_answer('restore')
    else:
        while w.absent:
            w.op_bringback(0)
    w.verify(history=True)
    L = env.labels
    return L['offload'] >= 1 and sum(v for k, v in L.items() if k.startswith('absent:')) >= 1


CHECK = Check(
    'P15',
    'Random histories over many small data files, in both modes; data files other than the active one are moved away and brought back, '
    'and the hook, if any, restores the file, fails, pretends, is killed or is slow. GET, MGET, CHECK, HISTORY, SET of an '
    'equal value and DATA RAW are judged by where the index says the payload is: the right value, or an error when it cannot be had, '
    'one hook call per attempt with the right path, nothing created in its place; every other command must work without '
    'asking. DATA RAW of stored records is compared with an independent reader. Non-trivial: a payload in an absent file was requested.',
    [Part('offload', gen, run, 1200, 12000)],
    ['the active data file is never removed (documented)', 'CHECK may answer -1 or an error when the file is absent'])
CHECK.technique = 'stateful model-based testing with generated absences of data files and hook behaviours'
