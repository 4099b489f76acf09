"""P24: replication through MIRROR and MASTER."""
from .. import resp
from ..engine import Check, Part, Violation
from ..gens import Hist, gen_keys, weighted
from ..model import ANY, ERR, Model
from ..util import expand, short
from ..world import World

ADMIN = 'the admin'
CHANGES = ('SET', 'SETX', 'DEL', 'NSNEW', 'NSDEL', 'NSSET', 'FLUSH')


def gen(rng, i):
    mode = rng.choice(['user', 'seq', None])
    nk = rng.choice([3, 8])
    admin = ADMIN if rng.random() < 0.8 else None
    protect = admin is not None and rng.random() < 0.2
    cfg = {'mode': mode, 'bits': 6, 'datasize': rng.choice([600, 50000]), 'keys': gen_keys(rng, nk), 'admin': admin, 'protect': protect,
           'rel': rng.random() < 0.3}
    h = Hist(rng, mode, nk, rng.choice([60, 400]), clients=4, admin=admin, protect=protect)
    if admin:
        h.ops.append(['cmd', 0, 'AUTH', admin])
        h.auth[0] = True
    h.new_ns()
    for c in range(4):
        h.select(c)
    for _ in range(rng.randrange(15, 90)):
        c = h.c()
        o = weighted(rng, [(26, 'set'), (8, 'del'), (3, 'read'), (5, 'select'), (3, 'new'), (5, 'setting'), (2, 'denied'), (1.5, 'nsdel'), (2.5, 'tset'),
                           (1, 'tdel'), (1.5, 'jump'), (1, 'flush'), (2, 'tick'), (2, 'big'), (1, 'unknown'), (2, 'sync'), (1, 'forge'), (1, 'reload'), (0.6, 'bad')])
        if o == 'set':
            h.set(c)
        elif o == 'del':
            h.delete(c)
        elif o == 'read':
            h.get(c)
        elif o == 'select':
            h.select(c)
        elif o == 'new':
            h.new_ns(c=rng.choice([0, 0, c]))
        elif o == 'setting':
            h.setting(c=rng.choice([0, 0, 0, c]), kinds=('password', 'public', 'worm', 'maxsize', 'lock', 'mode'))
        elif o == 'denied':
            n = rng.choice(list(h.pw) + ['evil'])
            h.ops.append(['cmd', rng.randrange(1, 4)] + rng.choice([['NSNEW', 'evil'], ['NSDEL', n], ['NSSET', n, 'maxsize', '1'], ['NSSET', n, 'public', '0'],
                                                                     ['NSSET', n, 'password', 'stolen'], ['NSJUMP'], ['FLUSH'], ['RELOAD', n], ['NSSET', n, 'lock', '1']]))
        elif o == 'nsdel':
            h.nsdel(c=0)
        elif o == 'tset':
            h.set(c)
            h.ops[-1] = h.ops[-1][:4] + [rng.choice([1, 1234567890, 1700009999, 2147483648, 4000000000])]
        elif o == 'tdel':
            h.delete(c)
            h.ops[-1] = h.ops[-1][:3] + [rng.choice([1, 1234567890, 1700009999, 2147483648, 4000000000])]
        elif o == 'jump':
            h.jump(0)
        elif o == 'flush':
            n = rng.choice([x for x in h.pw if x != 'default'] or ['default'])
            h.ops += [['cmd', 0, 'NSSET', n, 'password', 'pw1'], ['cmd', 0, 'NSSET', n, 'public', '0'], ['cmd', c, 'SELECT', n, 'pw1'], ['cmd', c, 'FLUSH']]
            if n != 'default':
                h.pw[n], h.public[n], h.at[c] = 'pw1', False, n
        elif o == 'tick':
            h.ops.append(['tick', rng.choice([1, 60, 100000])])
        elif o == 'big':
            h.ops.append(['set', c, None if h.seq.get(h.at[c]) else rng.randrange(nk), [rng.choice([8000, 100000, 400000]), rng.randrange(2, 1000)]])
        elif o == 'unknown':
            h.ops.append(['unknown', c, rng.randrange(4)])
        elif o == 'reload':
            h.reload(c=0)
        elif o == 'forge':
            h.ops.append(['forge', c, rng.randrange(6)])
        elif o == 'bad':
            h.ops.append(['bad', rng.randrange(6)])
        else:
            h.ops.append(['sync'])
    return {'cfg': cfg, 'ops': h.ops, 'two': rng.random() < 0.3, 'chain': rng.random() < 0.3,
            'bclock': rng.choice([1900000000, 1500000000, 1000])}


class MirrorWorld(World):
    def setup(self, case):
        cfg = self.cfg
        self.b = self.env.server(self.sc, mode=cfg.get('mode'), bits=cfg['bits'], datasize=cfg['datasize'], admin=cfg.get('admin'),
                                 protect=cfg.get('protect', False), rel=cfg.get('rel', False), name='b')
        # its clock is elsewhere: timestamps have to come from the source
        self.b.ctl['timefix'] = case.get('bclock', 1900000000)
        self.b.start()
        self.mirrors = []
        for _ in range(2 if case['two'] else 1):
            self.mirrors.append(self.start_mirror(self.srv))
        self.sync_c = self.srv.client()
        self.master = self.login(self.b)
        r = self.master.do('MASTER')
        if not isinstance(r, resp.Simple):
            self.fail('MASTER: %s' % short(r))
        self.chain = self.start_mirror(self.b) if case['chain'] else None
        info = self.login(self.srv).do('INFO')
        self.iid = None
        for line in info.decode('latin-1').split('\n'):
            if line.startswith('instance_id: '):
                self.iid = int(line.split()[1])
        if self.iid is None:
            self.fail('INFO shows no instance_id')
        self.owner = None
        self.pw = {'default': cfg.get('admin') if cfg.get('protect') else None}
        self.messages = self.replayed = 0
        self.refused = []
        self.effective = []
        self.forged = 0
        self.chained = []

    def login(self, srv):
        c = srv.client()
        if self.cfg.get('admin'):
            r = c.do('AUTH', self.cfg['admin'])
            if not isinstance(r, resp.Simple):
                self.fail('AUTH: %s' % short(r))
        return c

    def start_mirror(self, srv):
        c = self.login(srv)
        c.s.settimeout(20)
        c.TIMEOUT = 20
        r = c.do('MIRROR')
        if not isinstance(r, resp.Simple):
            self.fail('MIRROR: %s' % short(r))
        return c

    def do(self, i, argv, want=None, quiet=False):
        got, want = World.do(self, i, argv, want, quiet)
        a = [resp.b(x) for x in argv]
        if a[0].upper().decode('latin-1') in CHANGES and got is not None and not isinstance(got, resp.Err):
            self.effective.append(a)
        return got, want

    def drain(self, c, sync, expected=()):
        """every message already sent; the effective changes are waited for"""
        out = []
        quiet = n = done = 0
        while quiet < 2 or n < len(expected):
            while done < len(out) and n < len(expected):
                m = out[done]
                if isinstance(m, list) and m[3:] == expected[n]:
                    n += 1
                done += 1
            if quiet >= 2 and n < len(expected) and done == len(out):
                try:
                    out.append(c.recv())
                except resp.Hang:
                    self.fail('mirror: the change %s was not received (after %s)' % (short(expected[n]), short(out[-2:])))
                continue
            if c.pending():
                out.append(c.recv())
                quiet = 0
            else:
                # the server is single-threaded: once it answers, what comes
                # from earlier requests has been sent or is queued
                if sync.do('PING') != 'PONG':
                    self.fail('PING')
                quiet += 1
        return out

    def op_sync(self):
        streams = [self.drain(c, self.sync_c, self.effective) for c in self.mirrors]

        self.effective = []

        def clean(s):
            return [m for m in s if not (isinstance(m, list) and len(m) >= 4 and isinstance(m[3], bytes) and m[3].upper().decode('latin-1') not in CHANGES)]
        streams = [clean(s) for s in streams]
        if len(streams) > 1 and streams[0] != streams[1]:
            n = next((k for k, (a, b) in enumerate(zip(*streams)) if a != b), min(map(len, streams)))
            self.fail('two mirrors received different changes, from number %d of %d and %d: %s and %s' % (
                n, len(streams[0]), len(streams[1]), short(streams[0][n:n + 2]), short(streams[1][n:n + 2])))
        for m in streams[0]:
            self.replay(m)
        if self.chain:
            bsync = self.b.client()
            for m in clean(self.drain(self.chain, bsync)):
                self.shape(m)
                if m[2] != self.owner:
                    self.fail('a replayed change is forwarded with the owner %s instead of its origin %s' % (m[2], self.owner))
                self.chained.append(m[3].upper())
            bsync.close()
            self.b.clients.remove(bsync)

    def shape(self, m):
        if not (isinstance(m, list) and len(m) >= 4 and isinstance(m[0], int) and isinstance(m[1], bytes) and isinstance(m[2], int)
                and all(isinstance(x, bytes) for x in m[3:])):
            self.fail('mirror: unexpected message %s' % short(m))

    def send(self, *argv):
        return self.master.do(*(list(argv) + [str(self.owner)]))

    def replay(self, m):
        self.shape(m)
        ts, ns, owner = m[0], m[1].decode('latin-1'), m[2]
        argv = list(m[3:])
        cmd = argv[0].upper().decode('latin-1')
        self.messages += 1
        if owner == 0:
            self.fail('mirror: the owner is missing: %s' % short(m))
        if self.owner is None:
            self.owner = owner
        if owner != self.owner:
            self.fail('mirror: the owner changes from %d to %d' % (self.owner, owner))
        if cmd not in CHANGES:
            return
        self.replayed += 1
        if cmd in ('SET', 'SETX') and len(argv) == 3 or cmd == 'DEL' and len(argv) == 2:
            argv.append(str(ts).encode())
        a = ['SELECT', ns] + ([self.pw[ns]] if self.pw.get(ns) else [])
        r = self.send(*a)
        if not isinstance(r, resp.Simple):
            self.fail('replaying %s: SELECT %s: %s' % (short(m), ns, short(r)))
        r = self.send(*argv)
        if isinstance(r, resp.Err):
            # the source may have refused it too: the content decides
            self.refused.append('replaying %s: %s' % (short(m), r))
            return
        if cmd == 'NSSET' and argv[2] == b'password':
            v = argv[3].split(b'\0')[0].decode('latin-1')
            self.pw[argv[1].decode('latin-1')] = None if v == '*' else v
        elif cmd == 'NSDEL':
            self.pw.pop(argv[1].decode('latin-1'), None)
        elif cmd == 'NSNEW':
            self.pw[argv[1].decode('latin-1')] = None

    def op_tick(self, d):
        # what is executed now is mirrored with the present time
        self.sync_c.do('PING')
        self.tick(d)

    def op_unknown(self, i, x):
        c, s = self.client(i)
        was = s.ns
        r = c.do(*[['NOSUCH'], ['SETT', 'a', 'b'], ['GET'], ['*']][x])
        if not isinstance(r, resp.Err):
            self.fail('an invalid request was answered %s' % short(r))
        if was is None:
            self.drop(i)

    def op_forge(self, i, x):
        """what is reserved to administrators and masters"""
        c, s = self.client(i)
        if s.ns is None or s.admin:
            return
        a = [['MASTER'], ['MIRROR'], ['SET', 'forged', 'value', '12'], ['DEL', 'forged', '12'], ['NSNEW', 'forged', '77'], ['MASTER', '77']][x]
        r = c.do(*a)
        if not isinstance(r, resp.Err):
            self.fail('%s was accepted from a client without rights: %s' % (a[0], short(r)))
        if c.do('PING') != 'PONG':
            self.fail('PING after a refused %s' % a[0])
        self.forged += 1

    def op_bad(self, x):
        """malformed requests of a master are refused"""
        c = self.login(self.b)
        c.do('MASTER')
        r = c.do(*[['PING'], ['PING', 'x' * 33], ['PING', '9' * 32], ['PING', ''], ['NSLIST'], ['STOP']][x])
        if x in (0, 1, 4, 5) and not isinstance(r, resp.Err):
            self.fail('a master request without a valid owner was answered %s' % short(r))
        r = c.do('PING', '5')
        if r != 'PONG':
            self.fail('a master request after a malformed one was answered %s' % short(r))
        c.close()
        self.b.clients.remove(c)

    def final(self):
        self.op_sync()
        if self.srv.alive() and self.model.ns:
            self.verify()
        # the copy
        if not self.b.alive():
            raise Violation('the replica ended: %s' % self.b.errtail(), 'died')
        src = self.srv
        self.srv = self.b
        try:
            self.verify()
        except Violation as e:
            raise Violation('on the replica: ' + e.msg + ('; refused there: ' + self.refused[0] if self.refused else ''), e.sig)
        finally:
            self.srv = src


def run(case, env):
    w = MirrorWorld(env, case['cfg'])
    w.setup(case)
    w.run(case['ops'])
    w.final()
    env.label('messages', w.messages)
    env.label('replayed', w.replayed)
    env.label('chained', len(w.chained))
    return w.replayed >= 3


CHECK = Check(
    'P24',
    'Generated histories over several namespaces, settings, passwords, clients with and without rights, explicit timestamps, large values and '
    'clients whose namespace is removed. One or two MIRROR clients receive the stream; every change in it is replayed, under the namespace, owner and timestamp it carries, '
    'through an authenticated MASTER on a second server with another clock, whose whole content and settings must then equal the model. '
    'Some cases mirror the replica too (owner kept). Refused requests must not reach the replica. Non-trivial: three changes replayed.',
    [Part('replicate', gen, run, 700, 12000)],
    ['requests which change nothing may or may not be mirrored'])
CHECK.technique = 'stateful differential testing: source, replica fed by the mirrored stream, and reference model'
