"""P10: access control."""
from .. import resp
from ..engine import Check, Part
from ..gens import Hist, gen_keys, weighted
from ..util import short
from ..world import World

ADMIN = 'the admin'
WRONG = ['', 'x', 'the admi', 'the admin ', 'The admin', 'the admin\0', 'the admin\0x', 'A' * 127, 'A' * 128, 'A' * 129, 'A' * 300, '*', 'SECURE']


class RightsWorld(World):
    def op_priv(self, i, *argv):
        """what only an administrator may do, by someone else"""
        c, s = self.client(i)
        if s.ns is None or s.detached or s.admin:
            return
        r = c.do(*argv)
        if not isinstance(r, resp.Err):
            self.fail('by a client which is not administrator: %s' % short(r), argv)
        self.env.label('priv:' + argv[0])


def gen(rng, i):
    mode = rng.choice(['user', 'seq', None, None])
    nk = rng.choice([2, 5])
    admin = ADMIN if rng.random() < 0.9 else None
    protect = admin is not None and rng.random() < 0.4
    cfg = {'mode': mode, 'bits': rng.choice([1, 10]), 'datasize': rng.choice([500, 50000]), 'keys': gen_keys(rng, nk),
           'admin': admin, 'protect': protect, 'rel': rng.random() < 0.2}
    h = Hist(rng, mode, nk, 60, clients=4, admin=admin, protect=protect)

    def start():
        if admin:
            h.ops.append(['cmd', 0, 'AUTH', admin])
            h.auth[0] = True

    def setting(c):
        h.setting(c=c, kinds=('password', 'password', 'public', 'public', 'worm', 'lock', 'freeze', 'maxsize', 'mode'))

    start()
    for _ in range(rng.choice([1, 2, 3])):
        h.new_ns()
        for _ in range(rng.choice([0, 1, 3])):
            setting(0)
    for c in range(4):
        h.select(c)
        h.set(c)
    for _ in range(rng.randrange(20, 120)):
        c = h.c()
        o = weighted(rng, [(20, 'set'), (8, 'del'), (10, 'read'), (16, 'select'), (3, 'wrongselect'), (6, 'setting'), (3, 'denied'), (2, 'priv'),
                           (4, 'admincmd'), (2, 'badauth'), (1, 'auth'), (3, 'tset'), (3, 'enum'), (1, 'flush'), (1, 'new'),
                           (0.5, 'nsdel'), (0.7, 'restart'), (2, 'verify'), (1, 'close'), (1, 'flushset')])
        if o == 'set':
            h.set(c)
        elif o == 'del':
            h.delete(c)
        elif o == 'read':
            h.ops.append(rng.choice([['get', c, h.key(c)], ['mget', c, [h.key(c), h.key(c)]], ['key', c, 'EXISTS', h.key(c)],
                                     ['key', c, 'CHECK', h.key(c)], ['key', c, 'LENGTH', h.key(c)], ['key', c, 'KEYTIME', h.key(c)],
                                     ['cmd', c, 'DBSIZE'], ['cmd', c, 'NSLIST'], ['cmd', c, 'NSINFO', rng.choice(list(h.pw))]]))
        elif o == 'select':
            h.select(c)
        elif o == 'wrongselect':
            n = rng.choice(list(h.pw))
            h.ops.append(['cmd', c, 'SELECT', n, rng.choice(WRONG + ['pw1', 'pw', 'pw11', 'PW1', 'pw1\0'])] + rng.choice([[], [], ['x']]))
            # where the client is now depends on the outcome; aim may be lost
        elif o == 'setting':
            setting(rng.choice([0, 0, 0, c]))
        elif o == 'admincmd' or o == 'denied':
            x = c if o == 'denied' else rng.choice([0, c])
            n = rng.choice(list(h.pw))
            a = rng.choice([['NSNEW', 'evil'], ['NSSET', n, rng.choice(['password', 'public', 'lock', 'freeze', 'worm', 'maxsize']), '1'],
                            ['NSJUMP'], ['RELOAD', n], ['HOOKS'], ['INDEX', 'DIRTY'], ['INDEX', 'DIRTY', 'RESET'], ['NSDEL', 'evil'],
                            ['NSNEW', 'evil']])
            if a[0] == 'NSDEL' or not (h.auth[x] and a[0] in ('NSSET',)):
                h.ops.append(['cmd', x] + a)
        elif o == 'priv':
            h.ops.append(['priv', c] + rng.choice([['MIRROR'], ['MIRROR'], ['MASTER'], ['STOP'] if cfg['rel'] else ['MASTER'], ['DATA', 'RAW', '0', '28'],
                                                   ['INDEX', 'DIRTY', 'RESET'], ['DATA', 'RAW', '0', '100'], ['HOOKS'], ['NSJUMP']]))
        elif o == 'badauth':
            h.ops.append(['cmd', c, 'AUTH', rng.choice(WRONG)] + rng.choice([[], [], ['x']]))
        elif o == 'auth' and admin:
            h.ops.append(['cmd', c, 'AUTH', admin])
            h.auth[c] = True
        elif o == 'tset':
            k = None if h.seq.get(h.at[c]) else h.key(c)
            h.ops.append(rng.choice([['set', c, k, h.value(), 12345], ['del', c, h.key(c), 12345]]))
        elif o == 'enum':
            h.ops.append(['cmd', c] + rng.choice([['SCAN'], ['RSCAN'], ['KSCAN', 'k'], ['KEYCUR', 'k'], ['HISTORY', 'k']]))
        elif o == 'flush':
            h.ops.append(['cmd', c, 'FLUSH'])
        elif o == 'flushset':
            names = [n for n in h.pw if n != 'default']
            if names:
                n = rng.choice(names)
                h.ops += [['cmd', 0, 'NSSET', n, 'password', 'pf'], ['cmd', 0, 'NSSET', n, 'public', rng.choice('10')]]
                h.ops += [['cmd', c, 'SELECT', n] + rng.choice([[], ['pf'], ['no']])]
                h.ops += [['cmd', 0, 'NSSET', n, 'public', rng.choice('10')], ['cmd', 0, 'NSSET', n, rng.choice(['lock', 'freeze']), rng.choice('001')]]
                h.ops += [['cmd', c, 'FLUSH'], ['verify']]
                h.pw[n] = 'pf'
        elif o == 'new':
            h.new_ns()
        elif o == 'nsdel':
            h.nsdel(rng.choice([0, c]))
        elif o == 'verify':
            h.ops.append(['verify'])
        elif o == 'close':
            h.ops.append(['close', c])
            h.at[c], h.auth[c] = 'default', admin is None
            if c == 0:
                start()
        elif o == 'restart':
            h.restart(rng.choice(['term', 'kill']))
            start()
            for x in range(4):
                h.select(x)
    return {'cfg': cfg, 'ops': h.ops}


def run(case, env):
    w = RightsWorld(env, case['cfg'])
    w.run(case['ops'])
    w.verify()
    L = env.labels
    return L['SET'] >= 1 and L['SET:err'] + L['DEL:err'] >= 1 and L['SELECT'] >= 1 and L['SELECT:err'] + L['AUTH:err'] >= 1


CHECK = Check(
    'P10',
    'Random histories of four clients, one of them administrator, over up to four namespaces whose password, public flag, worm, '
    'lock, freeze, mode and quota change all the time, with and without an administrator password and --protect; right, wrong and '
    'near-miss passwords, administrative commands and explicit timestamps by anyone. Each reply (allowed or refused) follows the '
    'model of the rights, and the whole state is verified at random points. Non-trivial: an effective and a refused write, and '
    'an effective and a refused SELECT or AUTH.',
    [Part('rights', gen, run, 3000, 25000)],
    ['rights on a namespace are those at the time of the SELECT; the challenge forms are P21'])
