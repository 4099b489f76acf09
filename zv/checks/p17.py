"""P17: the embedding interface behaves as a dictionary, and shares its files
with the server."""
import copy
import os
import subprocess
import threading

from .. import disk
from ..engine import Check, Part, Violation
from ..gens import Hist, gen_keys, weighted
from ..model import ERR, OK, doubt
from ..util import short, value
from ..world import World
from .p04 import CRASHED
from .p05 import EXIT


class Killer:
    def __init__(self, lib):
        self.lib = lib

    def clean(self):
        self.lib.guard.cancel()
        if self.lib.p.poll() is None:
            self.lib.p.kill()
            self.lib.p.wait()


class Ended(Violation):
    def __init__(self, code, msg):
        Violation.__init__(self, msg, 'died')
        self.code = code


class Library:
    """A process embedding the library."""

    def __init__(self, env, srv, mode, datasize, leaks):
        e = srv.env()
        if leaks:
            e['ASAN_OPTIONS'] = e['ASAN_OPTIONS'].replace('detect_leaks=0', 'detect_leaks=1')
        self.srv = srv
        self.err = open(srv.errpath, 'ab')
        self.p = subprocess.Popen(
            [os.path.join(env.build, 'api'), srv.data, srv.index, mode or 'mix', str(datasize)],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e, cwd=srv.root)
        self.guard = threading.Timer(60, self.p.kill)
        self.guard.daemon = True
        self.guard.start()
        env.open.append(Killer(self))

    def line(self):
        while True:
            t = self.p.stdout.readline()
            if not t:
                code = self.p.wait()
                raise Ended(code, 'the library ended with code %s: %s' % (code, self.srv.errtail(1500)))
            # the library prints its own messages too
            if t.startswith(b'@'):
                return t[1:].decode().strip()

    def ask(self, *words):
        self.p.stdin.write((' '.join(words) + '\n').encode())
        self.p.stdin.flush()
        return self.line()

    def close(self, kill=False):
        self.guard.cancel()
        if kill:
            self.p.kill()
            self.p.wait()
        else:
            r = self.ask('quit')
            code = self.p.wait(60)
            # where a process cannot be traced, leaks are not searched
            if code and 'LeakSanitizer has encountered a fatal error' in self.srv.errtail(5000):
                code = 0
            if r != 'closed' or code:
                raise Violation('closing the library: %s, code %s: %s' % (r, code, self.srv.errtail(1500)), 'close')
        self.p.stdin.close()
        self.p.stdout.close()
        self.err.close()


def hx(b):
    return b.hex() or '-'


class LibWorld(World):
    lib = None

    def start(self):
        if self.cfg.get('first') == 'server' or self.lib is not None:
            World.start(self)
        else:
            self.clients = {}
            self.openlib()

    def openlib(self):
        self.lib = Library(self.env, self.srv, self.cfg.get('mode'), self.cfg.get('datasize', 4096), not self.cfg.get('kills'))
        r = self.lib.line()
        if r != 'ready':
            self.fail('the library does not open the database: %s' % r)
        self.session = self.model.connect()

    @property
    def inlib(self):
        return self.lib is not None

    # ---- on which side
    def op_library(self, how):
        """the application takes the files over"""
        if self.inlib:
            return
        if how == 'kill':
            self.srv.kill()
        else:
            code = self.srv.stop()
            t = self.srv.sanitizer()
            if t or (code is not None and code < 0) or code == 99:
                raise Violation('stopping crashed the server (code %s): %s' % (code, t), 'stop')
        self.model.boot()
        self.clients = {}
        self.openlib()
        self.env.label('to:library')

    def op_server(self, how):
        if not self.inlib:
            return
        self.lib.close(how == 'kill')
        self.lib = None
        self.model.boot()
        World.start(self)
        self.env.label('to:server')

    def op_reopen(self, how):
        if not self.inlib:
            return
        if how == 'same':
            r = self.lib.ask('reopen')
            if r != 'ready':
                self.fail('closing and opening again: %s' % r)
            self.model.boot()
            self.session = self.model.connect()
        else:
            self.lib.close(how == 'kill')
            self.model.boot()
            self.openlib()
        self.env.label('reopen:' + how)

    def op_both(self):
        """the files belong to one process"""
        if self.inlib:
            t = self.env.server(self.sc, mode=self.cfg.get('mode'), data=self.srv.data, index=self.srv.index, name='x%d' % self.n)
            t.spawn()
            code = t.dead(30)
            t.close()
            if code in (None, 0):
                self.fail('the server runs on the files an application has opened')
        else:
            other = Library(self.env, self.srv, self.cfg.get('mode'), 4096, False)
            r = other.line()
            other.close(True)
            if r != 'noboot':
                self.fail('the library opens the files a server is using')
        self.env.label('locked')

    def verify(self, scan=True, history=False):
        keep = self.keys
        self.keys = [k for k in keep if len(k) <= 255]
        World.verify(self, scan, history)
        self.keys = keep

    # ---- calls
    def op_cmd(self, i, *argv):
        if not self.inlib:
            World.op_cmd(self, i, *argv)

    def op_api(self, what, name, key=None, val=None):
        ns = self.model.ns.get(name)
        if not self.inlib or ns is None and what != 'new':
            return
        m = self.model
        s = self.session
        n = name.encode('latin-1')
        s.ns, s.writable, s.admin = ns or m.ns['default'], True, True
        call = '%s %s' % (what, name)
        if what in ('new', 'delns', 'flush', 'reload'):
            if what == 'flush' and ns is not None:
                keep = ns.public, ns.password
                ns.public, ns.password = False, 'x'
                w = m.c_flush(s, [b'FLUSH'])
                ns.public, ns.password = keep
            elif what == 'delns' and name == 'default':
                return
            else:
                if what == 'delns':
                    s.ns = m.ns['default']
                w = m.exec(s, [{'new': b'NSNEW', 'delns': b'NSDEL', 'reload': b'RELOAD'}[what], n])
            r = self.lib.ask(what, hx(n))
            bad = {'new': '1', 'delns': '0', 'flush': '0', 'reload': '0'}[what]
            if w is OK and r != bad or w is ERR and r == bad:
                self.fail('%s answers %s' % (call, r))
            self.env.label('lib:' + what)
            return
        k = self.key(key, ns)
        call += ' ' + short(k)
        if what == 'set':
            v = value(val)
            call += ' ' + short(v)
            had = k in ns.items
            last, end = self.active(name)
            w = m.exec(s, [b'SET', k, v])
            r = self.answer = self.lib.ask('set', hx(n), hx(k), hx(v))
            now, _ = self.active(name)
            if w is not ERR and now != last + (end + len(v) > self.cfg['datasize']):
                self.fail('%s: the active file went from %d (of %d bytes) to %d, the limit is %d bytes' % (call, last, end, now, self.cfg['datasize']))
            if now != last:
                self.env.label('lib:rotated')
            if w is ERR:
                ok = r in ('ZDB_API_FAILURE', 'ZDB_API_INSERT_DENIED')
                if r == 'ZDB_API_INSERT_DENIED':
                    ok = ns.seq and k and not had
            elif w is None:
                ok = r == 'ZDB_API_UP_TO_DATE'
            else:
                ok = r == 'ZDB_API_BUFFER ' + hx(w)
            st = 'err' if w is ERR else 'same' if w is None else 'update' if had else 'new'
        else:
            it = ns.items.get(k)
            gone = ('ZDB_API_NOT_FOUND', 'ZDB_API_DELETED') if k in ns.dead else ('ZDB_API_NOT_FOUND',)
            st = 'hit' if it else 'miss'
            if what == 'del':
                w = m.exec(s, [b'DEL', k])
            r = self.answer = self.lib.ask(what, hx(n), hx(k))
            if what == 'exists':
                ok = r == ('ZDB_API_TRUE' if it else 'ZDB_API_FALSE')
            elif it is None:
                ok = r in gone
            else:
                ok = r == {'get': 'ZDB_API_ENTRY %s %s' % (hx(k), hx(it.value)), 'check': 'ZDB_API_TRUE', 'del': 'ZDB_API_SUCCESS'}[what]
            w = it
        if not ok:
            self.fail('%s answers %s, the model says %s' % (call, short(r, 80), short(w.value if hasattr(w, 'value') else 'an error' if w is ERR else w, 80)))
        self.env.label('lib:%s:%s' % (what, st))

    def active(self, name):
        """last data file and its size"""
        d = os.path.join(self.srv.data, name)
        n = max([int(f[1:]) for f in os.listdir(d) if f[0] == 'd' and f[1:].isdigit()], default=0)
        return n, os.path.getsize(os.path.join(d, 'd%d' % n))

    def run(self, ops):
        for self.n, op in enumerate(ops):
            if self.inlib and op[0] not in ('server', 'reopen', 'both', 'api', 'tick', 'cmd', 'everything', 'damage'):
                continue
            getattr(self, 'op_' + op[0])(*op[1:])
            if not self.inlib and not self.srv.alive():
                raise Violation('the server ended during %r: %s' % (op, self.srv.errtail()), 'died')

    def op_everything(self):
        """every key, through the library"""
        if not self.inlib:
            return self.verify()
        for ns in list(self.model.ns.values()):
            for k in list(ns.items) + list(ns.dead)[:20]:
                for what in ('get', 'check', 'exists'):
                    self.op_api(what, ns.name, k.hex())

    def op_damage(self, pick, what):
        """check tells a stored payload which is not the one which was written"""
        names = [n for n in self.model.ns.values() if n.items]
        if not self.inlib or not names:
            return
        ns = names[pick % len(names)]
        sp = disk.Space(self.srv.data, self.srv.index, ns.name, tail=True)
        live = sp.live()
        keys = [k for k in live if live[k].length]
        if not keys:
            return
        k = sorted(keys)[pick // 7 % len(keys)]
        e = sp.payload(live[k])
        path = os.path.join(self.srv.data, ns.name, 'd%d' % e.file)
        with open(path, 'rb') as f:
            was = f.read()
        at = e.offset + disk.DENTRY.size + len(e.key) + pick % len(e.value)
        with open(path, 'wb') as f:
            f.write(was[:at] if what == 'cut' else was[:at] + bytes([was[at] ^ (1 << pick % 8)]) + was[at + 1:])
        r = self.lib.ask('check', hx(ns.name.encode()), hx(k))
        if r not in (('ZDB_API_FALSE',) if what == 'flip' else ('ZDB_API_FALSE', 'ZDB_API_INTERNAL_ERROR')):
            self.fail('check of %s whose payload is damaged (%s) answers %s' % (short(k), what, r))
        with open(path, 'wb') as f:
            f.write(was)
        self.op_api('check', ns.name, k.hex())
        self.env.label('lib:damage:' + what)

    def finish(self):
        self.op_everything()
        self.op_server('term')
        self.verify(history=True)
        self.srv.stop()
        disk.check(self.srv, self.model, strict=not self.cfg.get('kills'))



class FaultLib(LibWorld):
    """Calls during which the files cannot be written or read, or the process ends."""

    def op_library(self, how):
        LibWorld.op_library(self, how)

    def names(self):
        return {d + '/' + x for top in (self.srv.data, self.srv.index) for d, _, fs in os.walk(top) for x in fs}

    def adopt(self, pair):
        self.model, self.session = pair

    def op_apifault(self, kind, n, count, errno, part, *call):
        ns = self.model.ns.get(call[1])
        if not self.inlib or ns is None:
            return
        if call[2] is not None and not isinstance(call[2], str):
            # the same key for every attempt
            call = (call[0], call[1], self.key(call[2], ns).hex()) + call[3:]
        before = copy.deepcopy((self.model, self.session))
        files = self.names()
        ctl = self.srv.ctl
        ctl.disarm()
        if kind == 'write':
            ctl['failed'] = 0
            ctl['fail_errno'], ctl['fail_short'], ctl['fail_mask'], ctl['fail_count'] = errno, part, 1, count
            ctl['fail_at'] = ctl['mutations'] + n
        elif kind == 'read':
            ctl['rfailed'] = 0
            ctl['rfail_errno'], ctl['rfail_short'], ctl['rfail_mask'], ctl['rfail_count'] = errno, part, 1, count
            ctl['rfail_at'] = ctl['reads'] + n
        elif kind == 'disk':
            ctl['rorefused'] = 0
            ctl['rofs'] = n
        else:
            ctl['crash_part'] = part
            ctl['crash_at'] = ctl['mutations'] + n
        self.answer = bad = None
        try:
            self.op_api(*call)
        except Ended as e:
            ctl['rofs'] = 0
            if kind in ('read', 'disk') or e.code != (CRASHED if kind == 'crash' else EXIT):
                raise
            if kind == 'write' and not (ctl['failed'] and self.names() - files):
                raise Violation('step %d: %s: the process ended on a refused write' % (self.n, call[0]), 'died')
            ctl.disarm()
            self.env.label('lib:%s:end' % kind)
            return self.settle(before, call)
        except Violation as e:
            bad = e
        met = ctl[{'write': 'failed', 'read': 'rfailed', 'disk': 'rorefused'}[kind]] if kind != 'crash' else 0
        ctl['rofs'] = 0
        ctl.disarm()
        if met:
            self.env.label('lib:%s:%s:%s' % (kind, call[0], 'err' if bad else 'ok'))
        if bad is None:
            return
        if not met or self.answer is None:
            raise bad
        after = self.model, self.session
        self.adopt(before)
        refused = self.answer in ('ZDB_API_FAILURE', 'ZDB_API_INTERNAL_ERROR')
        if kind == 'read' and call[0] == 'set' and not refused:
            # could not see that the value is the same: stored again
            self.model.nocompare = True
            self.session.ns = self.model.ns[call[1]]
            k, v = self.key(call[2], self.session.ns), value(call[3])
            w = self.model.exec(self.session, [b'SET', k, v])
            self.model.nocompare = False
            if w in (ERR, None) or self.answer != 'ZDB_API_BUFFER ' + hx(w):
                raise bad
            return
        if kind == 'read' and call[0] == 'check' and self.answer == 'ZDB_API_FALSE' and after[0].ns[call[1]].items.get(self.key(call[2], self.model.ns[call[1]])):
            # what it answers for a value which is not intact
            return
        if not refused:
            raise bad
        doubt(before[0], after[0], [before[0]])
        ns = self.model.ns[call[1]]
        if kind in ('write', 'disk'):
            ns.unsure = True
        if ns.seq and call[0] == 'set':
            # a failed update may have used one identifier
            ns.fresh = False
            self.resync(ns)

    def resync(self, ns):
        if ns.maxsize:
            return
        r = self.lib.ask('set', hx(ns.name.encode('latin-1')), '-', hx(b'resync'))
        w = r.split()
        if len(w) != 2 or w[0] != 'ZDB_API_BUFFER' or int.from_bytes(bytes.fromhex(w[1]), 'little') - ns.nextid not in (0, 1):
            self.fail('an insertion after a refused update answers %s, the next identifier is %d' % (r, ns.nextid))
        ns.nextid = int.from_bytes(bytes.fromhex(w[1]), 'little')
        self.session.ns = ns
        self.model.exec(self.session, [b'SET', b'', b'resync'])

    def settle(self, before, call):
        after = self.model, self.session
        self.lib.close(True)
        doubt(before[0], after[0], [before[0], after[0]])
        for m, _ in (before, after):
            m.boot()
            for x in m.ns.values():
                x.unsure = True
        bad = None
        self.openlib()
        session = self.session
        for m in (after[0], before[0]):
            if m is not self.model:
                m.sessions = self.model.sessions
            keep, self.model = self.model, m
            try:
                self.op_everything()
                ns = m.ns[call[1]]
                if ns.seq and call[0] == 'set':
                    self.resync(ns)
                return
            except Ended:
                raise
            except Violation as e:
                bad = bad or e
                self.model = keep
        raise Violation('after the process ended during %s the content is neither the previous one nor the next one: %s' % (
            short(call), bad.msg), 'crash')

    def run(self, ops):
        for self.n, op in enumerate(ops):
            if self.inlib and op[0] not in ('server', 'reopen', 'both', 'api', 'apifault', 'tick', 'everything'):
                continue
            getattr(self, 'op_' + op[0])(*op[1:])
            if not self.inlib and not self.srv.alive():
                raise Violation('the server ended during %r: %s' % (op, self.srv.errtail()), 'died')

    def finish(self):
        self.op_everything()
        self.op_server('term')
        self.verify(history=True)
        self.srv.stop()
        disk.check(self.srv, self.model, strict=False)


def gen(rng, i):
    mode = rng.choice(['user', 'seq', None])
    nk = rng.choice([2, 5, 12])
    keys = gen_keys(rng, nk)
    if rng.random() < 0.3:
        # longer than a key can be, and what it would be cut to
        b = bytes.fromhex(keys[0])
        keys.append((b + b'\0' * 256)[:256 + rng.choice([0, 1, len(b)])].hex())
        keys.append(keys[-1][:2 * (len(keys[-1]) // 2 % 256)] or 'aa')
    kills = rng.random() < 0.15
    cfg = {'mode': mode, 'bits': rng.choice([1, 4, 8]), 'datasize': rng.choice([120, 300, 800, 5000]), 'keys': keys,
           'first': rng.choice(['server', 'library']), 'kills': kills}
    h = Hist(rng, mode, len(keys), rng.choice([40, 200, 900]), clients=1)
    inlib = cfg['first'] == 'library'
    names = ['default']
    how = lambda: rng.choice(['term', 'kill']) if kills else 'term'
    for _ in range(rng.randrange(10, 70)):
        if rng.random() < 0.04:
            h.ops.append(['library' if not inlib else 'server', how()])
            inlib = not inlib
            h.restarted()
            continue
        if not inlib:
            o = weighted(rng, [(30, 'set'), (8, 'del'), (5, 'jump'), (4, 'new'), (4, 'select'), (3, 'maxsize'), (1, 'both'), (6, 'leave')])
            if o == 'set':
                h.set()
            elif o == 'del':
                h.delete()
            elif o == 'new':
                h.new_ns()
            elif o == 'maxsize':
                h.setting(kinds=('maxsize',))
            elif o == 'leave':
                h.ops.append(['library', how()])
                inlib = True
                h.restarted()
            elif o == 'both':
                h.ops.append(['both'])
            else:
                getattr(h, o)(0)
            continue
        o = weighted(rng, [(40, 'set'), (14, 'get'), (5, 'exists'), (5, 'check'), (10, 'del'), (4, 'new'), (1.5, 'delns'), (1, 'flush'),
                           (2, 'reload'), (3, 'reopen'), (2, 'tick'), (1, 'both'), (1.5, 'everything'), (1.5, 'damage')])
        name = rng.choice(list(h.pw))
        key = rng.randrange(1 << 12) if h.seq.get(name) else rng.randrange(len(keys))
        if o == 'set':
            if rng.random() < (0.6 if h.seq.get(name) else 0.03):
                key = None
            elif rng.random() < 0.04:
                key = rng.choice(keys)
            h.ops.append(['api', 'set', name, key, h.value()])
        elif o in ('get', 'exists', 'check', 'del'):
            if rng.random() < 0.1:
                key = rng.choice([None, rng.choice(keys), '0000000000000000', 'ff' * 8])
            h.ops.append(['api', o, name, key])
        elif o == 'new':
            name = rng.choice(h.NAMES + ['', '.', '..', 'a/b', 'default'])
            h.ops.append(['api', 'new', name])
            if name in h.NAMES and name not in h.pw:
                h.pw[name], h.public[name], h.seq[name] = None, True, mode == 'seq'
        elif o in ('delns', 'flush', 'reload'):
            h.ops.append(['api', o, name])
            if o == 'delns' and name != 'default':
                for d in (h.pw, h.seq, h.public):
                    d.pop(name)
        elif o == 'reopen':
            h.ops.append(['reopen', 'kill' if kills and rng.random() < 0.5 else rng.choice(['same', 'same', 'term'])])
        elif o == 'tick':
            h.ops.append(['tick', rng.choice([1, 60, 100000])])
        elif o == 'damage':
            h.ops.append(['damage', rng.randrange(1 << 20), rng.choice(['flip', 'flip', 'cut'])])
        else:
            h.ops.append([o])
    return {'cfg': cfg, 'ops': h.ops}



def genfault(rng, i):
    case = gen(rng, i)
    case['cfg']['kills'] = True
    if rng.random() < 0.6:
        case['cfg']['datasize'] = 50000
    part = rng.choice(['write', 'read', 'crash', 'disk', None, None])
    ops = []
    for o in case['ops']:
        if o[0] == 'damage' or o[0] == 'setting' or o[0] == 'cmd' and 'maxsize' in o:
            continue
        if o[0] == 'api' and o[1] in ('set', 'del', 'get', 'check', 'exists') and rng.random() < 0.4:
            kind = part or rng.choice(['write', 'read', 'crash', 'disk'])
            if kind in ('read', 'disk') or o[1] in ('set', 'del'):
                a = ['apifault', kind, rng.choice([0, 0, 0, 1, 1, 2, 3, 4]), rng.choice([1, 1, 1, 2, 1000]),
                     5 if kind == 'read' else rng.choice([28, 5, 27, 122]),
                     rng.choice([-1, -1, 0, 1, 3, 10, 20, 33, rng.randrange(1, 150)])]
                if kind == 'crash' and a[5] < 0 and rng.random() < 0.5:
                    a[5] = rng.randrange(60)
                if kind == 'disk':
                    a[2] = rng.choice([1, 2, 3])
                ops.append(a + o[1:])
                continue
        ops.append(o)
    case['ops'] = ops
    return case

def run(case, env):
    w = LibWorld(env, case['cfg'])
    w.run(case['ops'])
    w.finish()
    return sum(1 for o in case['ops'] if o[0] == 'api') >= 5



def runfault(case, env):
    w = FaultLib(env, case['cfg'])
    w.run(case['ops'])
    w.finish()
    return any(k.startswith(('lib:write:', 'lib:read:', 'lib:crash:', 'lib:disk:')) for k in env.labels)

CHECK = Check(
    'P17',
    'Random histories of calls made by a program embedding the library (set, get, exists, check, del, creation, removal, flush and reload of '
    'namespaces, closing and opening in the same or another process), alternating with the server on the same files, in every mode and with '
    'tiny data files. Each returned status and payload must be those of a dictionary, and files rotate when full only; at the end the server and an independent '
    'reader find the same content and every previous version. In a second part, reads or writes made within chosen calls fail, the disk is read-only during a call, or the process ends '
    'at a chosen file operation of a call, which must then fail without effect or be right. Non-trivial: 5 calls or more; one fault met.',
    [Part('calls', gen, run, 1500, 30000), Part('faults', genfault, runfault, 1500, 30000)],
    ['worm mode and passwords are protections of the server, the library does not apply them',
     'a process is killed only between calls here (see P04 for within calls)'])
CHECK.technique = 'stateful model-based testing of the library interface with injected faults, differential with the server on the same files'
