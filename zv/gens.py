"""Generators shared by the checks."""
from .util import expand


def weighted(rng, table):
    total = sum(w for w, _ in table)
    x = rng.random() * total
    for w, v in table:
        x -= w
        if x < 0:
            return v
    return table[-1][1]


def gen_keys(rng, n):
    """distinct binary keys of every length class"""
    out = []
    seen = set()
    while len(out) < n:
        r = rng.random()
        if r < 0.15:
            k = bytes([rng.randrange(256)])
        elif r < 0.30:
            k = b'key%d' % rng.randrange(1000)
        elif r < 0.42 and out:
            # extends or cuts another key
            b = rng.choice(out)
            k = (b + bytes([rng.randrange(256)]))[:255] if rng.random() < 0.6 else b[:-1]
        elif r < 0.50 and out:
            b = bytearray(rng.choice(out))
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            k = bytes(b)
        elif r < 0.58:
            k = expand(rng.choice([254, 255]), rng.randrange(2, 1 << 30))
        elif r < 0.64:
            k = b'\0' * rng.randrange(1, 10)
        elif r < 0.70:
            k = rng.choice([b'\r\n', b'*1\r\n$4\r\nPING\r\n', b'$-1\r\n', b' ', b'\n', b'%s%n', b'default'])
        elif r < 0.76:
            k = expand(8, rng.randrange(2, 1 << 30))
        else:
            k = expand(rng.randrange(1, 40), rng.randrange(2, 1 << 30))
        if k and k not in seen:
            seen.add(k)
            out.append(k)
    return [k.hex() for k in out]


def gen_value(rng, big=3000, prev=None):
    """value spec; `prev` is a list of earlier specs, to repeat or to twin"""
    if prev and rng.random() < 0.22:
        v = list(rng.choice(prev))
        if rng.random() < 0.5 and v[0] >= 5:
            # same length, same checksum, other content
            v = v[:2] if len(v) > 2 else v + ['x']
        return v
    r = rng.random()
    if r < 0.06:
        n = 0
    elif r < 0.25:
        n = rng.randrange(1, 8)
    elif r < 0.80:
        n = rng.randrange(8, 200)
    elif r < 0.97:
        n = rng.randrange(200, max(201, big // 2))
    else:
        n = rng.randrange(max(201, big // 2), max(202, big))
    seed = weighted(rng, [(0.05, 0), (0.07, 1), (0.88, rng.randrange(2, 1 << 20))])
    v = [n, seed]
    if prev is not None:
        prev.append(v)
    return v


class Hist:
    """Builds histories over several namespaces and clients.

    It tracks roughly who is where, only to aim well: any operation is a
    legal input, whatever the tracked state is worth.
    """
    NAMES = ['alpha', 'beta', 'g', 'D-4_.x', 'a b', 'n' * 120]

    def __init__(self, rng, mode, nk=10, big=600, clients=3, admin=None, protect=False):
        self.rng, self.mode, self.nk, self.big = rng, mode, nk, big
        self.nclients = clients
        self.admin, self.protect = admin, protect
        self.ops, self.prev = [], []
        self.pw = {'default': admin if protect else None}      # name -> password
        self.seq = {'default': mode == 'seq'}
        self.public = {'default': True}
        self.at = ['default'] * clients
        self.auth = [admin is None] * clients

    def c(self):
        return self.rng.randrange(self.nclients)

    def value(self):
        return gen_value(self.rng, self.big, self.prev)

    def new_ns(self, name=None, c=0):
        rng = self.rng
        if name is None:
            free = [n for n in self.NAMES if n not in self.pw]
            if not free:
                return None
            name = rng.choice(free)
        self.ops.append(['cmd', c, 'NSNEW', name])
        self.pw[name] = None
        self.public[name] = True
        self.seq[name] = self.mode == 'seq'
        if self.mode is None and rng.random() < 0.5:
            self.ops.append(['cmd', c, 'NSSET', name, 'mode', 'seq'])
            self.seq[name] = True
        return name

    def setting(self, name=None, c=0, kinds=('password', 'public', 'worm', 'maxsize')):
        rng = self.rng
        name = name or rng.choice(list(self.pw))
        k = rng.choice(kinds)
        if k == 'password':
            v = rng.choice(['*', 'pw1', 'a much longer password than before', 'x', 'P' * 63])
            if name != 'default':
                self.pw[name] = None if v == '*' else v
        elif k == 'public':
            v = rng.choice(['0', '1'])
            if name != 'default':
                self.public[name] = v == '1'
        elif k == 'worm':
            v = rng.choice(['0', '0', '1'])
        elif k == 'maxsize':
            v = str(rng.choice([0, 1, 500, 2000, 10000, 1 << 40]))
        elif k == 'mode':
            v = rng.choice(['user', 'seq'])
            if rng.random() < 0.08:
                v = rng.choice(['bad', '', 'USER', 'sequential', '0', '1', 'direct'])
        elif k in ('lock', 'freeze'):
            v = rng.choice(['0', '0', '1'])
        self.ops.append(['cmd', c, 'NSSET', name, k, v])

    def select(self, c, name=None, good=0.9):
        rng = self.rng
        name = name or rng.choice(list(self.pw))
        if self.pw.get(name) and rng.random() < good:
            self.ops.append(['cmd', c, 'SELECT', name, self.pw[name]])
            self.at[c] = name
        elif rng.random() < good:
            self.ops.append(['cmd', c, 'SELECT', name])
            if not self.pw.get(name) or self.public.get(name):
                self.at[c] = name
        else:
            self.ops.append(['cmd', c, 'SELECT', name, rng.choice(['bad', 'pw1', 'x'])])

    def restarted(self):
        self.at = ['default'] * self.nclients
        self.auth = [self.admin is None] * self.nclients

    def restart(self, kind=None):
        self.ops.append(['restart', kind or self.rng.choice(['term', 'kill', 'stop'])])
        self.restarted()

    def key(self, c):
        return self.rng.randrange(1 << 12) if self.seq.get(self.at[c]) else self.rng.randrange(self.nk)

    def set(self, c=None):
        c = self.c() if c is None else c
        if self.seq.get(self.at[c]):
            k = None if self.rng.random() < 0.6 else self.key(c)
        else:
            k = self.rng.randrange(self.nk)
        self.ops.append(['set', c, k, self.value()])

    def delete(self, c=None):
        c = self.c() if c is None else c
        self.ops.append(['del', c, self.key(c)])

    def get(self, c=None):
        c = self.c() if c is None else c
        self.ops.append(['get', c, self.key(c)])

    def jump(self, c=None):
        self.ops.append(['cmd', self.c() if c is None else c, 'NSJUMP'])

    def reload(self, name=None, c=0):
        self.ops.append(['cmd', c, 'RELOAD', name or self.rng.choice(list(self.pw))])

    def nsdel(self, c=0):
        names = [n for n in self.pw if n != 'default']
        if not names:
            return
        n = self.rng.choice(names)
        self.ops.append(['cmd', c, 'NSDEL', n])
        if self.at[c] != n:
            for d in (self.pw, self.public, self.seq):
                d.pop(n, None)
            # the next command of a detached client fails and reconnects
            self.at = ['default' if a == n else a for a in self.at]


def wide(rng, case, p=0.012, client=0):
    """Now and then, a lot of files (or of versions) somewhere in the history."""
    if rng.random() < p:
        n = rng.choice([260, 270, 300, 520])
        op = ['bulk', client, n, rng.choice([0, 1, 1000]), rng.choice([1, 3, 40, 5000]), 1, rng.choice([1, 1, 1, 2, 0]), rng.choice([0, 0, 2, 5])]
        ops = case['ops']
        ops.insert(rng.randrange(len(ops) + 1), op)
    return case
