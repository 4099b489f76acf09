"""P22: namespace names stay inside the data and index directories."""
import hashlib
import os

from .. import resp
from ..engine import Check, Part
from ..gens import gen_keys, gen_value, weighted
from ..model import ERR, compare
from ..util import short, value
from ..world import World

PIECES = ['', '.', '..', '/', '//', 'a', 'b', 'decoy', 'data', 'index', 'default', '\0', '\0a', '.lockfile', 'decoy.txt', 'zdb-namespace', 'd0',
          'i0', '%s', '%n', '\n', ' ', '~', '*', '\\', '..\\', '-rf', '\xff', '\xc0\xaf', '%2f', '...', '. ', '{ROOT}', '{DATA}', 'alpha', '\x7f', '$HOME', ';', "'"]
WHOLE = ['../decoy', '../../decoy', 'alpha/../../decoy', './alpha', 'alpha/', '/alpha', '../data/alpha', '../index', '{ROOT}/decoy', '{DATA}/new', '..', '.',
         'alpha/.', 'alpha/..', 'alpha/sub', '../', '/', '//', '/tmp', '.../...', '..\0x', '\0', '\0x', '../decoy\0', 'alpha\0/../x', 'default', 'default/',
         './default', 'Default', 'default\0', 'd0', 'zdb-namespace', '.lockfile', 'decoy.txt', '.hidden', '..a', 'a..', '..x/..', 'a' * 127, 'a' * 128,
         'a' * 129, '../' * 42, '../' * 43 + 'x', '/' * 128, '.' * 128, 'x' * 255, 'x' * 300, '\n', ' ', '\xff' * 128, 'zdb-namespace.tmp', 'a\nb', 'd0/..']


def gen_name(rng):
    r = rng.random()
    if r < 0.45:
        return rng.choice(WHOLE)
    if r < 0.8:
        return ''.join(rng.choice(PIECES) for _ in range(rng.randrange(1, 6)))
    if r < 0.9:
        s = list(rng.choice(WHOLE))
        for _ in range(rng.choice([1, 1, 2])):
            s.insert(rng.randrange(len(s) + 1), rng.choice(['/', '.', '\0', 'a', '\\']))
        return ''.join(s)
    return rng.choice(['alpha', 'beta', 'g'])


def gen(rng, i):
    names = [gen_name(rng) for _ in range(rng.randrange(1, 8))] + ['alpha']
    ops = []
    mode = rng.choice(['user', 'seq', None])
    for _ in range(rng.randrange(4, 50)):
        n = rng.choice(names) if rng.random() < 0.8 else gen_name(rng)
        c = rng.randrange(2)
        o = weighted(rng, [(14, 'NSNEW'), (7, 'NSDEL'), (8, 'SELECT'), (4, 'NSSET'), (3, 'NSINFO'), (2.5, 'RELOAD'), (10, 'write'), (1.5, 'NSJUMP'),
                           (1.5, 'flush'), (1, 'restart'), (1, 'verify')])
        if o == 'NSSET':
            ops.append(['name', c, 'NSSET', n] + rng.choice([['maxsize', '1000000'], ['password', 'pw'], ['password', '*'], ['public', '0'], ['public', '1'],
                                                             ['mode', 'seq'], ['worm', '0'], ['x', 'y'], ['lock', '0']]))
        elif o == 'write':
            ops.append(['write', c, rng.randrange(4), gen_value(rng, 300)])
        elif o == 'flush':
            ops.append(['flush', c])
        elif o == 'restart':
            ops.append(['restart', rng.choice(['term', 'kill'])])
        elif o == 'verify':
            ops.append(['verify'])
        elif o == 'NSJUMP':
            ops.append(['jump', c])
        else:
            ops.append(['name', c, o, n])
    return {'cfg': {'mode': mode, 'bits': 4, 'datasize': 400, 'keys': gen_keys(rng, 4), 'rel': rng.random() < 0.3}, 'ops': ops}


def snapshot(root):
    out = {}
    root = os.fsencode(root)
    for d, dirs, files in os.walk(root):
        for x in dirs:
            out[os.path.join(d, x)] = 'dir'
        for x in files:
            p = os.path.join(d, x)
            if os.path.dirname(p) == os.path.join(root, b's') or not os.path.isfile(p) or os.path.dirname(p) == root and x.endswith(b'.ctl'):
                continue
            with open(p, 'rb') as f:
                out[p] = hashlib.md5(f.read()).digest()
    return out


class NameWorld(World):
    def __init__(self, env, cfg):
        World.__init__(self, env, cfg)
        self.root = self.sc.path
        for d in ('decoy', 's/decoy', 'decoy/sub'):
            os.makedirs(self.sc.sub(d), exist_ok=True)
            for f in ('d0', 'i0', 'zdb-namespace', 'x'):
                with open(self.sc.sub(d + '/' + f), 'wb') as h:
                    h.write(b'decoy ' + f.encode())
        for d in (self.srv.data, self.srv.index):
            with open(d + '/decoy.txt', 'wb') as h:
                h.write(b'decoy')
        self.tree = snapshot(self.root)
        self.odd = 0

    def subst(self, n):
        b = n.encode('latin-1')
        return b.replace(b'{ROOT}', self.root.encode()).replace(b'{DATA}', self.srv.data.encode())

    def check_tree(self, names, what):
        """only the directories of `names` may have changed"""
        now = snapshot(self.root)
        ok = []
        for n in names:
            for r in (self.srv.data, self.srv.index):
                ok.append(os.path.join(os.fsencode(r), n))
        for p in set(now) | set(self.tree):
            if now.get(p) == self.tree.get(p):
                continue
            if os.path.basename(p) == b'.lockfile' and os.path.dirname(p) in (os.fsencode(self.srv.data), os.fsencode(self.srv.index)) and 'start' in what:
                continue
            if not any(p == o or p.startswith(o + b'/') for o in ok):
                state = 'created' if p not in self.tree else 'removed' if p not in now else 'changed'
                self.fail('%s: %s was %s' % (what, short(p[len(self.root):], 200), state))
        self.tree = now
        esc = self.srv.ctl.escaped
        if esc:
            self.fail('%s: an operation on %r was attempted' % (what, esc))

    @staticmethod
    def containable(n):
        return 0 < len(n) <= 128 and n not in (b'.', b'..') and b'/' not in n

    def op_name(self, i, cmd, name, *more):
        raw = self.subst(name)
        n = raw.split(b'\0')[0]
        c, s = self.client(i)
        argv = [cmd.encode(), raw] + [x.encode() for x in more]
        if s.ns is None:
            self.do(i, argv)
            return
        if cmd == 'NSSET' and more[0] == 'mode':
            ns = self.model.ns.get(n.decode('latin-1'))
            if ns is not None and ns.fresh and ns.unsure:
                return
        before = dict(self.model.ns)
        import copy
        state = {k: copy.copy(v.__dict__) for k, v in before.items()}
        sns, sw = s.ns, s.writable
        got = c.do(*argv)
        text = ' '.join(short(x) for x in argv)
        want = self.model.exec(s, argv)
        occupied = n in (b'.lockfile', b'decoy.txt') and cmd == 'NSNEW'
        if isinstance(got, resp.Err) and want is not ERR and (b'\0' in raw or occupied):
            # refused: nothing happened
            self.model.ns = before
            for k, v in before.items():
                v.__dict__.update(state[k])
            for o in self.model.sessions:
                if o.ns is None and cmd == 'NSDEL' and o is not s:
                    o.ns = before.get(n.decode('latin-1'))
            s.ns, s.writable = sns, sw
            want = ERR
        elif occupied and not isinstance(got, resp.Err):
            self.fail('the name of an existing file was accepted', argv)
        bad = compare(got, want)
        if bad:
            self.fail(bad, argv)
        dirs = [n] if self.containable(n) and want is not ERR else []
        self.check_tree(dirs, text)
        self.env.label(cmd + (':err' if want is ERR else ''))
        if not self.containable(raw) or b'\0' in raw or occupied:
            self.odd += 1
        if cmd == 'NSNEW' and want is not ERR:
            for r in (self.srv.data, self.srv.index):
                if self.tree.get(os.path.join(os.fsencode(r), n)) != 'dir':
                    self.fail('%s: no directory of that name in %s' % (text, r), argv)
        if cmd == 'NSDEL' and want is not ERR:
            left = [p for p in self.tree for r in (self.srv.data, self.srv.index) if p == os.path.join(os.fsencode(r), n)]
            if left:
                self.fail('%s is left' % left, argv)

    def within(self, i, what):
        s = self.client(i)[1]
        self.check_tree([s.ns.name.encode('latin-1')] if s.ns else [], what)

    def op_write(self, i, key, val):
        self.op_set(i, key, val)
        self.within(i, 'SET')

    def op_jump(self, i):
        self.do(i, ['NSJUMP'])
        self.within(i, 'NSJUMP')

    def op_flush(self, i):
        self.do(i, ['FLUSH'])
        self.within(i, 'FLUSH')

    def op_restart(self, kind):
        self.restart(kind)
        self.check_tree([n.encode('latin-1') for n in self.model.ns], 'start')


def run(case, env):
    w = NameWorld(env, case['cfg'])
    w.run(case['ops'])
    w.restart('term')
    w.check_tree([n.encode('latin-1') for n in w.model.ns], 'start')
    w.verify()
    return w.odd > 0


CHECK = Check(
    'P22',
    'NSNEW, NSDEL, NSSET, NSINFO, SELECT and RELOAD with generated names (path pieces, dots, slashes, null bytes, absolute paths of the scratch '
    'directory, existing files, lengths around the limit, control bytes) mixed with writes, jumps, flushes and restarts. After every command '
    'the whole scratch tree (with decoy files around the roots) is compared: only the directories of the named or selected namespace may differ; '
    'file operations outside of the scratch directory are stopped and recorded by the shim. '
    'Non-trivial: at least one name which cannot be contained, or with a null byte, or taken by a file.',
    [Part('names', gen, run, 2000, 30000)],
    ['a name with a null byte may be refused or cut there'])
CHECK.technique = 'generated hostile names against a file-tree invariant and the reference model'
