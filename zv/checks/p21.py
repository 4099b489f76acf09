"""P21: challenge authentication, digests and checksums."""
import hashlib
import os
import subprocess

from .. import resp
from ..engine import Check, Part, Violation
from ..gens import weighted
from ..server import ASAN_OPTIONS
from ..util import crc32c, expand, short
from ..world import World

PWS = ['pw', 'another password', 'x', 'A' * 60, '*a', ':', 'a:b', 'CHALLENGE', 'SECURE', '%s%n']


def gen(rng, i):
    admin = rng.choice(PWS + ['adm', 'p' * 100, 'p' * 128]) if rng.random() < 0.85 else None
    spaces = {}
    for n in ('alpha', 'beta', 'open'):
        spaces[n] = None if n == 'open' else rng.choice(PWS)
    public = rng.random() < 0.5
    ops = []
    nc = rng.choice([1, 2, 3])
    for _ in range(rng.randrange(4, 60)):
        c = rng.randrange(nc)
        o = weighted(rng, [(10, 'challenge'), (12, 'auth'), (10, 'select'), (3, 'probe'), (1.5, 'plain'), (1, 'close'), (1, 'other')])
        if o in ('auth', 'select'):
            how = weighted(rng, [(10, 'right'), (3, 'previous'), (3, 'otherconn'), (2, 'wrongpw'), (1, 'upper'), (1, 'short'), (1, 'long'),
                                 (1, 'nul'), (1, 'nocolon'), (1, 'flip'), (1, 'swap'), (1, 'plain'), (1, 'raw'), (1, 'empty'), (1.5, 'nonce'), (1, 'none')])
            target = 'admin' if o == 'auth' else rng.choice(list(spaces))
            ops.append([o, c, target, how, rng.randrange(1 << 16)])
            if rng.random() < 0.35:
                # once more
                ops.append([o if rng.random() < 0.5 else 'select', c, target if target != 'admin' or ops[-1][0] == 'auth' else 'alpha', 'right', 0])
                if ops[-1][0] == 'select' and ops[-1][2] == 'admin':
                    ops[-1][2] = 'alpha'
        elif o == 'other':
            ops.append(['other', c, rng.randrange(12)])
        else:
            ops.append([o, c, rng.randrange(1 << 16)])
    return {'cfg': {'mode': rng.choice(['user', 'seq', None]), 'admin': admin, 'protect': admin is not None and rng.random() < 0.2,
                    'rel': rng.random() < 0.3}, 'spaces': spaces, 'public': public, 'ops': ops, 'nc': nc}


class SecureWorld(World):
    def setup(self, case):
        self.spaces = case['spaces']
        self.nonce = {}          # connection -> challenge waiting for an answer
        self.old = {}            # connection -> earlier ones
        self.unsure = set()      # malformed attempts: spent or not
        self.every = set()
        a = self.admin()
        for n, pw in self.spaces.items():
            for x in (('NSNEW', n), ('NSSET', n, 'password', pw) if pw else None, ('NSSET', n, 'public', '1' if case['public'] else '0')):
                if x and not isinstance(a.do(*[resp.b(y) for y in x]), resp.Simple):
                    self.fail('setup', [resp.b(y) for y in x])
        self.adminc = a
        for x in [['NSNEW', n] for n in self.spaces]:
            pass
        from ..model import Ns
        for n, pw in self.spaces.items():
            m = Ns(n, self.model.mode == 'seq')
            m.password, m.public = pw, case['public']
            self.model.ns[n] = m
        self.good = self.refused = 0

    def op_challenge(self, i, x=0):
        c, s = self.client(i)
        kw = ['AUTH', 'SECURE', 'CHALLENGE']
        if x % 3 == 0:
            kw = ['auth', 'Secure', 'challenge']
        r = c.do(*kw)
        if not isinstance(r, resp.Simple) or len(r) != 16 or any(z not in '0123456789abcdef' for z in r):
            self.fail('a challenge of 16 hexadecimal digits was expected, got %s' % short(r), [resp.b(k) for k in kw])
        if str(r) in self.every:
            self.fail('the challenge %s was handed out twice' % r, [resp.b(k) for k in kw])
        self.every.add(str(r))
        if i in self.nonce:
            self.old.setdefault(i, []).append(self.nonce[i])
        self.nonce[i] = str(r)
        self.unsure.discard(i)
        self.env.label('challenge')

    def answer(self, i, pw, how, x):
        n = self.nonce.get(i)

        def h(salt, pw):
            return hashlib.sha1((salt + ':' + pw).encode('latin-1')).hexdigest().encode()

        if how == 'previous':
            olds = self.old.get(i, [])
            if not olds:
                return h('0' * 16, pw)
            return h(olds[x % len(olds)], pw)
        if how == 'otherconn':
            for j in sorted(self.nonce):
                if j != i and self.nonce[j]:
                    return h(self.nonce[j], pw)
            return h('1' * 16, pw)
        salt = n or (self.old.get(i) or ['f' * 16])[-1]
        r = h(salt, pw)
        if how == 'right':
            return r
        if how == 'wrongpw':
            return h(salt, pw + 'x' if x % 2 else pw[:-1])
        if how == 'upper':
            return r.upper()
        if how == 'short':
            return r[:x % 40]
        if how == 'long':
            return r + expand(1 + x % 20, x)
        if how == 'nul':
            return r[:x % 40] + b'\0' * (40 - x % 40)
        if how == 'nocolon':
            return hashlib.sha1((salt + pw).encode('latin-1')).hexdigest().encode()
        if how == 'none':
            # what the digest of no challenge would be
            return h(['(null)', '', '0', '0' * 16, '\0'][x % 5], pw)
        if how == 'nonce':
            return h(['(null)', '', salt][x % 3], ['(null)', '', pw][x // 3 % 3])
        if how == 'flip':
            b = bytearray(r)
            b[x % 40] = b'0123456789abcdef'[(b'0123456789abcdef'.index(b[x % 40]) + 1 + x % 15) % 16]
            return bytes(b)
        if how == 'swap':
            return h(pw, salt)
        if how == 'plain':
            return pw.encode('latin-1')
        if how == 'raw':
            return hashlib.sha1((salt + ':' + pw).encode('latin-1')).digest()
        return b'x'

    def attempt(self, i, argv, pw, given, enabled):
        """-> True when the attempt has to succeed, None when it is open"""
        c, s = self.client(i)
        r = c.do(*argv)
        ok = isinstance(r, resp.Simple) and str(r) == 'OK'
        if not ok and not isinstance(r, resp.Err):
            self.fail('unexpected reply %s' % short(r), argv)
        n = self.nonce.get(i)
        right = n is not None and given == hashlib.sha1((n + ':' + pw).encode('latin-1')).hexdigest().encode()
        if not enabled:
            want = False
        else:
            want = right
            if n is not None:
                if len(given) == 40:
                    self.old.setdefault(i, []).append(n)
                    unsure = i in self.unsure
                    self.nonce.pop(i)
                    self.unsure.discard(i)
                    if unsure and right:
                        want = ok
                else:
                    self.unsure.add(i)
            if given.lower() != given and n is not None and given.lower() == hashlib.sha1((n + ':' + pw).encode('latin-1')).hexdigest().encode():
                want = ok
        if ok != want:
            self.fail('%s: %s' % ('accepted' if ok else 'refused', 'the right answer to the challenge %s' % n if right else
                                  'challenge in force: %s' % n), argv)
        self.good += ok
        self.refused += not ok
        self.env.label(('accepted' if ok else 'refused'))
        return ok

    def op_auth(self, i, target, how, x):
        pw = self.cfg['admin']
        given = self.answer(i, pw or 'nothing', how, x)
        if given.upper() == b'CHALLENGE'[:len(given)]:
            return
        c, s = self.client(i)
        if self.attempt(i, [b'AUTH', b'SECURE', given], pw or 'nothing', given, pw is not None):
            s.admin = True
        self.state(i)

    def op_select(self, i, target, how, x):
        c, s = self.client(i)
        pw = self.spaces[target]
        if pw is None:
            return
        given = self.answer(i, pw, how, x)
        if self.attempt(i, [b'SELECT', target.encode(), b'SECURE', given], pw, given, True):
            s.ns, s.writable = self.model.ns[target], True
        self.state(i)

    def state(self, i):
        """what the connection may do now is what it was granted"""
        c, s = self.client(i)
        r = c.do('NSNEW', 'default')
        t = str(r)
        denied = isinstance(r, resp.Err) and 'denied' in t.lower()
        if not isinstance(r, resp.Err) or denied == s.admin:
            self.fail('administrator rights: expected %s, NSNEW default says %s' % (s.admin, t))
        r = c.do('SET', '' if s.ns.seq else 'k%d' % i, '')
        if isinstance(r, resp.Err) == s.writable:
            self.fail('write access to %s: expected %s, got %s' % (s.ns.name, s.writable, short(r)))

    def op_probe(self, i, x=0):
        self.state(i)

    def op_plain(self, i, x=0):
        """the plain form uses and spends nothing"""
        self.do(i, ['AUTH', [self.cfg['admin'] or 'a', 'wrong', self.nonce.get(i) or 'n'][x % 3]])

    def op_close(self, i, x=0):
        self.drop(i)
        n = self.nonce.pop(i, None)
        if n:
            self.old.setdefault(i, []).append(n)
        self.unsure.discard(i)

    def op_other(self, i, x=0):
        """requests which are no attempt"""
        c, s = self.client(i)
        a = [['AUTH', 'SECURE'], ['AUTH', 'x', 'y', 'z'], ['PING'], ['AUTH', 'NOTSECURE', 'x'], ['SELECT', 'open'], ['DBSIZE'],
             ['SELECT', 'alpha', 'SECURE', 'x', 'y'], ['SELECT', 'nope', 'SECURE', 'a' * 40], ['AUTH'], ['AUTH', 'SECUREX', 'a' * 40],
             ['SELECT', 'alpha', 'NOTSECURE', 'a' * 40], ['GET', 'k0']][x]
        r = c.do(*a)
        if a == ['AUTH', 'SECURE'] and self.cfg['admin'] == 'SECURE':
            s.admin = True
        if a[:2] == ['SELECT', 'open'] and isinstance(r, resp.Simple):
            s.ns, s.writable = self.model.ns['open'], True
        self.state(i)


def run(case, env):
    w = SecureWorld(env, case['cfg'])
    w.setup(case)
    w.run(case['ops'])
    return w.good > 0 and w.refused > 0


def gen_digest(rng, i):
    ops = []
    for _ in range(120):
        r = rng.random()
        if r < 0.55:
            n = rng.randrange(0, 200)
        elif r < 0.75:
            n = rng.choice([0, 1, 7, 8, 9, 15, 16, 17, 55, 56, 57, 63, 64, 65, 119, 120, 121, 127, 128, 129, 255, 256])
        elif r < 0.9:
            n = rng.randrange(200, 3000)
        elif r < 0.93:
            n = rng.choice([8191, 8192, 8193, 16384, 30000])
        else:
            ops.append(['h', rng.choice(['', '0123456789abcdef', expand(rng.randrange(1, 80), rng.randrange(2, 1 << 20)).replace(b'\0', b'0').decode('latin-1')]),
                        rng.choice(PWS + ['', 'p' * rng.randrange(1, 200)])])
            continue
        ops.append(['d', rng.randrange(8), n, rng.randrange(1 << 24), rng.random() < 0.5])
    ops.append(['c'])
    return {'ops': ops}


def data(op):
    _, shift, n, seed, rnd = op
    if not rnd:
        return expand(n, seed)
    import random
    return random.Random(seed).randbytes(n)


def run_digest(case, env):
    text, want = [], []
    for op in case['ops']:
        if op[0] == 'c':
            text.append('c\nc')
            want += ['c', 'c']
        elif op[0] == 'h':
            a, b = op[1].encode('latin-1'), op[2].encode('latin-1')
            text.append('h %s %s' % (a.hex(), b.hex()))
            want.append(hashlib.sha1(a + b':' + b).hexdigest())
        else:
            d = data(op)
            text.append('%d %s' % (op[1], d.hex()))
            x = '%08x' % crc32c(d)
            want.append((hashlib.sha1(d).hexdigest(), x))
    p = subprocess.run([os.path.join(env.build, 'digest')], input='\n'.join(text) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, env={'ASAN_OPTIONS': ASAN_OPTIONS}, timeout=120)
    if p.returncode:
        raise Violation('digest ends with %d: %s' % (p.returncode, p.stderr[-1500:]), 'digest')
    out = [x[1:] for x in p.stdout.split('\n') if x.startswith('@')]
    if len(out) != len(want):
        raise Violation('%d answers instead of %d' % (len(out), len(want)), 'digest')
    ch = set()
    ops = [o for o in case['ops'] if o[0] != 'c']
    for k, (got, w) in enumerate(zip(out, want)):
        if w == 'c':
            if len(got) != 16 or got in ch or got.strip('0123456789abcdef'):
                raise Violation('challenge %r' % got, 'digest')
            ch.add(got)
        elif isinstance(w, str):
            if got != w:
                raise Violation('password hash of %r is %s instead of %s' % (ops[k][1:], got, w), 'digest')
        else:
            g = got.split()
            if g[0] != w[0]:
                raise Violation('sha1 of %d bytes %s is %s instead of %s' % (ops[k][2], short(data(ops[k])), g[0], w[0]), 'digest')
            if any(x != w[1] for x in g[1:]):
                raise Violation('crc32 of %d bytes (alignment %d) %s is %s instead of %s' % (ops[k][2], ops[k][1], short(data(ops[k])), g[1:], w[1]), 'digest')
            env.label('digests')
    return len(ops) > 1


CHECK = Check(
    'P21',
    'auth: one to three connections ask challenges and answer them for the administrator or for protected namespaces, with the right answer, '
    'answers to earlier challenges or to those of other connections, replays, wrong passwords and formats, over generated passwords; '
    'the rights of the connection are probed after each attempt. Non-trivial: an accepted and a refused attempt. '
    'digest: the SHA-1, CRC-32C (accelerated and portable) and password digest primitives against Python implementations, for '
    'generated lengths, alignments and content under AddressSanitizer.',
    [Part('auth', gen, run, 3000, 40000), Part('digest', gen_digest, run_digest, 600, 12000)],
    ['an answer of another length or in upper case may be refused with or without spending the challenge'])
CHECK.technique = 'stateful generation of challenge/answer histories against a protocol oracle; differential testing of the digests'
