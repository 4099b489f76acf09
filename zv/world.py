"""Runs a list of operations against a real server and against the model."""
import struct

from . import resp, server
from .engine import Violation
from .model import ANY, ERR, Model, compare, parse_info
from .util import seqid, short, value


class World:
    def __init__(self, env, cfg):
        self.env, self.cfg = env, cfg
        self.sc = env.scratch()
        self.model = Model(cfg.get('mode'), cfg.get('admin'), cfg.get('protect', False), cfg.get('maxsize', 0))
        self.srv = env.server(
            self.sc, mode=cfg.get('mode'), opts=cfg.get('opts', ()), bits=cfg.get('bits', 8),
            datasize=cfg.get('datasize', 4096), admin=cfg.get('admin'),
            protect=cfg.get('protect', False), rel=cfg.get('rel', False),
            hook=cfg.get('hook'), oplog=cfg.get('oplog', False))
        self.keys = [bytes.fromhex(k) for k in cfg.get('keys', [])] or [b'k']
        self.clients = {}
        self.n = 0
        self.log = []
        self.srv.ctl['timefix'] = self.model.now
        if cfg.get('todstep') is not None:
            self.srv.ctl['todstep'] = cfg['todstep']
        self.cursors = {}
        self.start()

    # ---- process
    def start(self):
        c = self.srv.start()
        self.clients = {0: (c, self.model.connect())}

    def restart(self, kind='term'):
        if kind == 'kill':
            self.srv.kill()
        elif kind == 'stop' and not self.cfg.get('rel'):
            c = self.admin()
            c.send('STOP')
            try:
                c.recv()
            except resp.Closed:
                pass
            code = self.srv.dead(60)
            if code is None:
                raise Violation('STOP does not end the server', 'stop')
            t = self.srv.sanitizer()
            if t or code < 0 or code in (99, 128 + 11):
                raise Violation('STOP crashed the server (code %s): %s' % (code, t), 'stop')
            self.srv.stop()
        else:
            code = self.srv.stop()
            t = self.srv.sanitizer()
            if t or (code is not None and code < 0) or code == 99:
                raise Violation('stopping crashed the server (code %s): %s' % (code, t), 'stop')
        self.model.boot()
        self.start()
        self.env.label('restart:' + kind)

    def tick(self, d):
        self.model.now += d
        self.srv.ctl['timefix'] = self.model.now

    def client(self, i):
        if i not in self.clients:
            c = self.srv.client()
            self.clients[i] = (c, self.model.connect())
        return self.clients[i]

    def admin(self):
        """A new raw connection with administrator rights."""
        c = self.srv.client()
        if self.cfg.get('admin'):
            c.do('AUTH', self.cfg['admin'])
        return c

    def drop(self, i):
        if i in self.clients:
            c, s = self.clients.pop(i)
            c.close()
            if s in self.model.sessions:
                self.model.sessions.remove(s)

    # ---- arguments
    def key(self, ref, ns):
        if ref is None:
            return b''
        if isinstance(ref, str):
            return bytes.fromhex(ref)
        if isinstance(ref, list):
            # a key longer than allowed, which starts like another one
            return self.key(ref[1], ns) + b'x' * 256
        if ns is not None and ns.seq:
            if isinstance(ref, int):
                return ns.ids[ref % len(ns.ids)] if ns.ids else seqid(0)
        return self.keys[ref % len(self.keys)]

    def fail(self, what, argv=None):
        if argv is not None:
            what = 'step %d: %s: %s' % (self.n, ' '.join(short(resp.b(a), 24) for a in argv[:6]) + (' ...' if len(argv) > 6 else ''), what)
        raise Violation(what, 'mismatch')

    def do(self, i, argv, want=None, quiet=False):
        """One command by client i, judged by the model."""
        c, s = self.client(i)
        argv = [resp.b(a) for a in argv]
        was = s.ns
        want = self.model.exec(s, argv)
        got = c.do(*argv)
        bad = compare(got, want)
        if bad:
            self.fail(bad, argv)
        if was is None:
            # the server says so, then disconnects
            self.drop(i)
        cmd = argv[0].decode('latin-1').upper()
        if not quiet:
            self.env.label(cmd + (':err' if want is ERR else ':nil' if want is None else ''))
        return got, want

    # ---- operations
    def run(self, ops):
        for self.n, op in enumerate(ops):
            getattr(self, 'op_' + op[0])(*op[1:])
            if not self.srv.alive():
                self.srv.dead(2)
                raise Violation('the server ended during %r: %s' % (op, self.srv.errtail()), 'died')

    def ns_of(self, i):
        return self.client(i)[1].ns

    def op_set(self, i, key, val, ts=None):
        argv = ['SET', self.key(key, self.ns_of(i)), value(val)]
        if ts is not None:
            argv.append(str(ts))
        return self.do(i, argv)

    def op_get(self, i, key):
        self.do(i, ['GET', self.key(key, self.ns_of(i))])

    def op_mget(self, i, keys):
        self.do(i, ['MGET'] + [self.key(k, self.ns_of(i)) for k in keys])

    def op_key(self, i, cmd, key):
        self.do(i, [cmd, self.key(key, self.ns_of(i))])

    def op_del(self, i, key, ts=None):
        argv = ['DEL', self.key(key, self.ns_of(i))]
        if ts is not None:
            argv.append(str(ts))
        self.do(i, argv)

    def op_bulk(self, i, n, first, pool, size, jump, upd):
        """n SET commands at once, every `jump` of them after a file change"""
        c, s = self.client(i)
        ns = s.ns
        if ns is None:
            return
        for base in range(0, n, 500):
            batch = []
            for k in range(first + base, first + min(n, base + 500)):
                if jump and k % jump == 0:
                    batch.append([b'NSJUMP'])
                v = (b'%d.' % k) * size
                if ns.seq:
                    key = ns.ids[k * 7919 % len(ns.ids)] if ns.ids and upd and k % upd == 0 else b''
                else:
                    key = b'K%d' % (k % pool)
                batch.append([b'SET', key, v])
            # ids depend on what comes before, the model goes first
            want = [self.model.exec(s, a) for a in batch]
            c.raw(b''.join(resp.encode(*a) for a in batch))
            for a, x in zip(batch, want):
                bad = compare(c.recv(), x)
                if bad:
                    self.fail('bulk: %s' % bad, a)
        self.env.label('bulk', n)

    def op_cmd(self, i, *argv):
        """any command made of text arguments"""
        argv = list(argv)
        if argv[0] == 'NSSET' and len(argv) == 4 and argv[2] == 'mode':
            ns = self.model.ns.get(argv[1])
            if ns is not None and ns.unsure and (ns.fresh or not ns.items and not ns.dead):
                # an interrupted command may have moved to new files, or not
                return
        self.do(i, argv)

    def op_tick(self, d):
        self.tick(d)

    def op_restart(self, kind):
        self.restart(kind)

    def op_close(self, i):
        self.drop(i)

    def op_connect(self, i):
        self.client(i)

    def op_verify(self, history=0):
        self.verify(history=bool(history))

    # ---- enumeration operations
    def op_scan(self, i, cmd):
        """a whole walk"""
        c, s = self.client(i)
        if s.ns is None or s.detached or s.ns.lock == 2:
            return
        self.check_scan(c, s.ns, cmd)
        self.env.label(cmd)

    def op_cursor(self, i, slot, key):
        """KEYCUR: remembers the place of a key"""
        c, s = self.client(i)
        k = self.key(key, s.ns)
        if s.ns is None or not k:
            return
        r = c.do('KEYCUR', k)
        it = s.ns.items.get(k)
        if it is None or s.ns.lock == 2 or len(k) > 255:
            if not isinstance(r, resp.Err):
                self.fail('KEYCUR of an absent key %s: %s' % (short(k), short(r)))
            return
        if not isinstance(r, bytes):
            self.fail('KEYCUR of the existing key %s: %s' % (short(k), short(r)))
        self.cursors[slot] = (r, it.pos, s.ns, s.ns.epoch)
        self.env.label('KEYCUR')

    def op_step(self, i, cmd, slot, fresh):
        """one SCAN/RSCAN call, keeping its cursor"""
        c, s = self.client(i)
        ns = s.ns
        if ns is None or s.detached or ns.lock == 2:
            return
        cur = None if fresh else self.cursors.get(slot)
        if cur is not None and (cur[2] is not ns or cur[3] != ns.epoch):
            cur = None
        rest = self.after(ns, cmd, cur[1] if cur else None)
        r = c.do(cmd, cur[0]) if cur else c.do(cmd)
        if not rest:
            if not isinstance(r, resp.Err):
                self.fail('%s returns %s when nothing is left' % (cmd, short(r)))
            return
        if not (isinstance(r, list) and len(r) == 2 and isinstance(r[1], list) and r[1]):
            self.fail('%s returns %s, %d entries are left' % (cmd, short(r), len(rest)))
        got = [tuple(x) for x in r[1]]
        want = [(k, len(it.value), it.ts) for k, it in rest[:len(got)]]
        if got != want:
            self.fail('%s returns %s instead of %s' % (cmd, short(r[1]), short([list(x) for x in want])))
        self.cursors[slot] = (r[0], rest[len(got) - 1][1].pos, ns, ns.epoch)
        self.env.label(cmd + ':step')

    def after(self, ns, cmd, pos):
        """[(key, item)] which a walk from `pos` has to list"""
        if cmd == 'SCAN':
            return [(k, it) for k, it in ns.items.items() if pos is None or it.pos > pos]
        return [(k, it) for k, it in reversed(list(ns.items.items())) if pos is None or it.pos < pos]

    def op_walk(self, i, cmd, slot):
        """walks from a remembered cursor to the end"""
        c, s = self.client(i)
        cur = self.cursors.get(slot)
        if cur is None or s.ns is not cur[2] or s.ns.epoch != cur[3] or s.detached or s.ns.lock == 2:
            return
        want = [(k, len(it.value), it.ts) for k, it in self.after(s.ns, cmd, cur[1])]
        got, err = self.walk(c, cmd, cur[0])
        if err:
            self.fail('%s from a valid cursor fails after %d entries of %d: %s' % (cmd, len(got), len(want), err))
        if got != want:
            self.fail('%s from a cursor lists %s instead of %s' % (cmd, short([list(x) for x in got]), short([list(x) for x in want])))
        self.env.label(cmd + ':walk')

    def op_craft(self, i, cmd, slot, edit):
        """a cursor no one handed out: refused, or answered properly"""
        c, s = self.client(i)
        cur = self.cursors.get(slot)
        b = bytearray(cur[0] if cur else b'\0' * 17)
        for pos, val in edit:
            if pos < len(b):
                b[pos] = val
            else:
                b.append(val)
        c.do(cmd, bytes(b))
        self.env.label('crafted')

    def op_kscan(self, i, prefix):
        c, s = self.client(i)
        if s.ns is None or s.detached:
            return
        p = bytes.fromhex(prefix)
        r = c.do('KSCAN', p)
        if self.cfg.get('rel') or s.ns.seq or not p or s.ns.lock == 2:
            if not isinstance(r, resp.Err):
                self.fail('KSCAN should be refused, got %s' % short(r))
            return
        want = sorted(k for k in s.ns.items if k.startswith(p))
        if not want:
            if not isinstance(r, resp.Err):
                self.fail('KSCAN %s without any match: %s' % (short(p), short(r)))
            return
        if not (isinstance(r, list) and len(r) == 2 and isinstance(r[1], list)) or sorted(r[1]) != want:
            self.fail('KSCAN %s: %s instead of %s' % (short(p), short(r), short(want)))
        self.env.label('KSCAN')

    # ---- history
    def hist(self, r):
        if isinstance(r, list) and len(r) == 3 and (r[0] is None or isinstance(r[0], bytes)) and \
                isinstance(r[1], bytes) and isinstance(r[2], bytes):
            return r
        return None

    def op_history(self, i, key, depth, slot=None):
        """walks the versions of a key, newest first"""
        c, s = self.client(i)
        k = self.key(key, s.ns)
        if s.ns is None or s.detached or not k or s.ns.lock == 2:
            return
        it = s.ns.items.get(k)
        r = c.do('HISTORY', k)
        if it is None:
            if not isinstance(r, resp.Err):
                self.fail('HISTORY of the absent key %s: %s' % (short(k), short(r)))
            return
        vs = it.versions
        n = len(vs) - 1
        while True:
            h = self.hist(r)
            if h is None:
                self.fail('HISTORY %s: %s at version %d of %d' % (short(k), short(r), n + 1, len(vs)))
            if (h[1], h[2]) != (str(vs[n][0]).encode(), vs[n][1]):
                self.fail('HISTORY %s: version %d of %d is %s %s instead of %s %s' % (
                    short(k), n + 1, len(vs), short(h[1]), short(h[2]), vs[n][0], short(vs[n][1])))
            if (h[0] is None) != (n == 0):
                self.fail('HISTORY %s: version %d of %d %s' % (
                    short(k), n + 1, len(vs), 'ends the chain' if h[0] is None else 'does not end the chain'))
            self.env.label('HISTORY')
            if h[0] is None:
                break
            n -= 1
            depth -= 1
            if slot is not None:
                self.cursors['h%s' % slot] = (h[0], k, list(vs[:n + 1]), s.ns, s.ns.epoch)
            if depth < 0:
                break
            r = c.do('HISTORY', k, h[0])
        self.env.label('HISTORY:depth%s' % min(len(vs), 5))

    def op_histfrom(self, i, slot):
        """continues from a remembered place, whatever happened since"""
        c, s = self.client(i)
        cur = self.cursors.get('h%s' % slot)
        if cur is None or s.ns is not cur[3] or s.ns.epoch != cur[4] or s.detached or s.ns.lock == 2:
            return
        h, k, vs = cur[0], cur[1], cur[2]
        for n in range(len(vs) - 1, -1, -1):
            r = self.hist(c.do('HISTORY', k, h))
            if r is None or (r[1], r[2]) != (str(vs[n][0]).encode(), vs[n][1]) or (r[0] is None) != (n == 0):
                self.fail('HISTORY %s from a remembered place, version %d: %s instead of %s %s' % (
                    short(k), n + 1, short(r), vs[n][0], short(vs[n][1])))
            h = r[0]
        self.env.label('HISTORY:resumed')

    def op_histcraft(self, i, slot, key, edit):
        """a place which does not belong to the key, or to anything"""
        c, s = self.client(i)
        cur = self.cursors.get('h%s' % slot)
        k = self.key(key, s.ns)
        b = bytearray(cur[0] if cur else b'\1' * 8)
        for pos, val in edit:
            if pos < len(b):
                b[pos] = val
            else:
                b.append(val)
        r = c.do('HISTORY', k, bytes(b))
        if cur is not None and not edit and k != cur[1] and s.ns is cur[3] and s.ns.epoch == cur[4] and not s.detached:
            if not isinstance(r, resp.Err):
                self.fail('HISTORY of %s accepted the place of another key: %s' % (short(k), short(r)))
            self.env.label('HISTORY:foreign')
        self.env.label('crafted')

    # ---- whole-state verification
    def select(self, c, ns):
        """moves a raw connection to a namespace"""
        if ns.password is not None:
            r = c.do('SELECT', ns.name, ns.password)
        else:
            r = c.do('SELECT', ns.name)
        if not isinstance(r, resp.Simple):
            self.fail('SELECT %s: %s' % (ns.name, short(r)))

    def verify(self, scan=True, history=False):
        """The whole content of every namespace equals the model's."""
        c = self.admin()
        r = c.do('NSLIST')
        want = sorted(n.encode('latin-1') for n in self.model.ns)
        if not isinstance(r, list) or sorted(r) != want:
            self.fail('verify: namespaces are %s, should be %s' % (short(r), short(want)))
        for ns in list(self.model.ns.values()):
            info = c.do('NSINFO', ns.name)
            sess = type('S', (), {})()
            bad = compare(info, self.model.c_nsinfo(None, [b'NSINFO', ns.name.encode('latin-1')]))
            if bad:
                self.fail('verify: NSINFO %s: %s' % (ns.name, bad))
            self.select(c, ns)
            if ns.lock == 2:
                continue
            self.verify_ns(c, ns, scan)
            if history:
                self.verify_history(c, ns)
        c.close()
        if c in self.srv.clients:
            self.srv.clients.remove(c)
        esc = self.srv.ctl.escaped
        if esc:
            self.fail('verify: a file operation left the data directories: %s' % esc)
        self.env.label('verify')

    def verify_ns(self, c, ns, scan=True):
        n = c.do('DBSIZE')
        if n != len(ns.items):
            self.fail('verify: %s: DBSIZE is %s, should be %d' % (ns.name, short(n), len(ns.items)))
        keys = list(ns.items)
        for k in range(0, len(keys), 200):
            part = keys[k:k + 200]
            c.raw(b''.join(resp.encode('GET', x) + resp.encode('KEYTIME', x) + resp.encode('LENGTH', x) for x in part))
            for x in part:
                it = ns.items[x]
                for what, w in (('GET', it.value), ('KEYTIME', it.ts), ('LENGTH', len(it.value))):
                    bad = compare(c.recv(), w)
                    if bad:
                        self.fail('verify: %s: %s %s: %s' % (ns.name, what, short(x), bad))
        gone = list(ns.dead)[:50]
        absent = [x for x in gone if x not in ns.items]
        if not ns.seq:
            absent += [x for x in self.keys if x not in ns.items]
        else:
            absent += [seqid(ns.nextid), seqid(ns.nextid + 1)]
        for x in absent:
            r = c.do('EXISTS', x)
            if r != 0:
                self.fail('verify: %s: EXISTS %s is %s for a key which should not exist' % (ns.name, short(x), short(r)))
        if scan:
            self.check_scan(c, ns, 'SCAN')

    def verify_history(self, c, ns):
        """every version of every key"""
        for k, it in ns.items.items():
            r = c.do('HISTORY', k)
            for n in range(len(it.versions) - 1, -1, -1):
                h = self.hist(r)
                want = it.versions[n]
                if h is None or (h[1], h[2]) != (str(want[0]).encode(), want[1]) or (h[0] is None) != (n == 0):
                    self.fail('verify: %s: HISTORY %s: version %d of %d is %s, should be %s %s' % (
                        ns.name, short(k), n + 1, len(it.versions), short(r), want[0], short(want[1])))
                if n:
                    r = c.do('HISTORY', k, h[0])

    # ---- enumeration
    def walk(self, c, cmd, cursor=None, limit=1000000):
        """Follows the cursors until the end; [(key, len, ts)]"""
        out = []
        retry = 0
        while True:
            r = c.do(cmd, cursor) if cursor is not None else c.do(cmd)
            if isinstance(r, resp.Err):
                if str(r) == 'No more data':
                    # the time slice of a stalled process can expire before
                    # anything is read: ask again before believing it
                    if retry < 3:
                        retry += 1
                        continue
                    return out, None
                return out, str(r)
            retry = 0
            if not (isinstance(r, list) and len(r) == 2 and isinstance(r[0], bytes) and isinstance(r[1], list) and r[1]):
                return out, 'malformed answer %s' % short(r)
            for e in r[1]:
                if not (isinstance(e, list) and len(e) == 3):
                    return out, 'malformed entry %s' % short(e)
                out.append((e[0], e[1], e[2]))
            cursor = r[0]
            if len(out) > limit:
                return out, 'endless'

    def expected_scan(self, ns):
        return [(k, len(i.value), i.ts) for k, i in ns.items.items()]

    def check_scan(self, c, ns, cmd='SCAN'):
        want = self.expected_scan(ns)
        if cmd == 'RSCAN':
            want.reverse()
        got, err = self.walk(c, cmd)
        if err:
            self.fail('verify: %s: %s fails after %d entries of %d: %s' % (ns.name, cmd, len(got), len(want), err))
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            self.fail('verify: %s: %s lists %d entries instead of %d; entry %d is %s, should be %s' % (
                ns.name, cmd, len(got), len(want), i,
                short(list(got[i])) if i < len(got) else 'missing',
                short(list(want[i])) if i < len(want) else 'absent'))


def info_field(b, name):
    return parse_info(b).get(name)
