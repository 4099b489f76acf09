"""P08: append-only data files, complete dirty list."""
import os
import shutil
import struct

from ..engine import Check, Part
from ..gens import Hist, gen_keys, weighted, wide
from ..util import short
from ..world import World

DHEAD, IHEAD = 28, 29


class FileWorld(World):
    def __init__(self, env, cfg):
        self.seen = {}     # (kind, ns) -> {name: bytes}
        self.dirty = {}    # ns -> index files modified in place since the last reset
        self.gen = {}      # ns -> identity of its content
        World.__init__(self, env, cfg)

    hooked = False

    def start(self):
        if self.cfg.get('failhook') and not self.hooked:
            # a rotation whose hook does not succeed is no reset
            self.hooked = True
            d = self.sc.sub('h')
            os.mkdir(d)
            hook = os.path.join(d, 'hook')
            shutil.copy(os.path.join(self.env.build, 'hooker'), hook)
            os.chmod(hook, 0o755)
            with open(os.path.join(d, 'hook.act'), 'w') as f:
                f.write('jump-index %s %d\n' % tuple(self.cfg['failhook']))
            self.srv.hook = hook
        World.start(self)

    def load(self, root, ns, letter):
        out = {}
        d = os.path.join(root, ns)
        try:
            names = os.listdir(d)
        except OSError:
            return out
        for n in names:
            if n[0] == letter and n[1:].isdigit():
                with open(os.path.join(d, n), 'rb') as f:
                    out[n] = f.read()
        return out

    def snapshot(self):
        for name, ns in self.model.ns.items():
            ident = (id(ns), ns.epoch)
            data = self.load(self.srv.data, name, 'd')
            index = self.load(self.srv.index, name, 'i')
            if self.gen.get(name) != ident:
                self.gen[name] = ident
                self.keep = getattr(self, 'keep', []) + [ns]   # identities stay unique
                self.seen[name] = (data, index)
                self.dirty[name] = set()
                continue
            odata, oindex = self.seen[name]
            for n, old in odata.items():
                new = data.get(n)
                if new is None:
                    self.fail('%s: data file %s disappeared' % (name, n))
                if len(new) < len(old):
                    self.fail('%s: data file %s shrank from %d to %d bytes' % (name, n, len(old), len(new)))
                if new[DHEAD:len(old)] != old[DHEAD:]:
                    at = next(i for i in range(DHEAD, len(old)) if new[i] != old[i])
                    self.fail('%s: data file %s: written bytes were modified at %d' % (name, n, at))
            for n, old in oindex.items():
                new = index.get(n)
                if new is None:
                    self.fail('%s: index file %s disappeared' % (name, n))
                if len(new) < len(old):
                    self.fail('%s: index file %s shrank from %d to %d bytes' % (name, n, len(old), len(new)))
                if new[IHEAD:len(old)] != old[IHEAD:]:
                    self.dirty[name].add(int(n[1:]))
            # a file which is not the current one gets no data any more
            last = max((int(n[1:]) for n in odata), default=0)
            for n in odata:
                if int(n[1:]) < last and len(data[n]) != len(odata[n]):
                    self.fail('%s: data file %s, closed before, grew' % (name, n))
            self.seen[name] = (data, index)

    def run(self, ops):
        self.snapshot()
        for self.n, op in enumerate(ops):
            getattr(self, 'op_' + op[0])(*op[1:])
            self.snapshot()

    def forget(self):
        self.snapshot()
        for name in self.dirty:
            self.dirty[name] = set()

    def op_restart(self, kind):
        self.restart(kind)
        self.forget()

    def op_cmd(self, i, *argv):
        World.op_cmd(self, i, *argv)
        if argv[0] == 'RELOAD':
            self.forget()

    def op_dirty(self, i, reset):
        c, s = self.client(i)
        if s.ns is None or s.detached:
            return
        ns = s.ns
        r = c.do('INDEX', 'DIRTY')
        if not isinstance(r, list) or any(not isinstance(x, int) for x in r) or len(set(r)) != len(r):
            self.fail('INDEX DIRTY: %s' % short(r))
        index = self.load(self.srv.index, ns.name, 'i')
        changed = sorted(self.dirty.get(ns.name, ()))
        missing = [x for x in changed if x not in r]
        if missing:
            self.fail('INDEX DIRTY of %s lists %s, index files %s were modified in place' % (ns.name, r, changed))
        if any('i%d' % x not in index for x in r):
            self.fail('INDEX DIRTY of %s lists %s, which do not exist' % (ns.name, r))
        self.env.label('dirty')
        if changed:
            self.env.label('dirty:%d' % min(len(changed), 4))
        if len(index) > 8:
            self.env.label('dirty:bitmap')
        if reset:
            r = c.do('INDEX', 'DIRTY', 'RESET')
            if str(r) != 'OK' or c.do('INDEX', 'DIRTY') != []:
                self.fail('INDEX DIRTY RESET: %s' % short(r))
            self.dirty[ns.name] = set()


def gen(rng, i):
    mode = rng.choice(['user', 'user', 'seq', None, None])
    nk = rng.choice([3, 8, 20])
    cfg = {'mode': mode, 'bits': rng.choice([1, 4, 10]), 'datasize': rng.choice([150, 300, 800, 5000]),
           'keys': gen_keys(rng, nk), 'opts': rng.choice([[], [], ['--sync']])}
    if rng.random() < 0.12:
        cfg['failhook'] = rng.choice([['exit', 1], ['exit', 1], ['exit', 128], ['kill', 15], ['kill', 9]])
    h = Hist(rng, mode, nk, rng.choice([60, 300]), clients=2)
    for _ in range(rng.choice([0, 1, 2])):
        h.new_ns()
    h.select(0)
    h.select(1)
    for _ in range(rng.randrange(20, 110)):
        o = weighted(rng, [(45, 'set'), (20, 'del'), (3, 'get'), (5, 'jump'), (4, 'select'), (2, 'setting'), (9, 'dirty'),
                           (1, 'new'), (0.5, 'nsdel'), (1, 'reload'), (1, 'restart'), (1, 'scan')])
        if o == 'set':
            h.set()
        elif o == 'del':
            h.delete()
        elif o == 'get':
            h.get()
        elif o == 'jump':
            h.jump()
        elif o == 'select':
            h.select(h.c())
        elif o == 'setting':
            h.setting(kinds=('password', 'public', 'maxsize', 'mode'))
        elif o == 'new':
            h.new_ns()
        elif o == 'nsdel':
            h.nsdel()
        elif o == 'reload':
            h.reload()
        elif o == 'scan':
            h.ops.append(['scan', h.c(), rng.choice(['SCAN', 'RSCAN'])])
        elif o == 'restart':
            h.restart()
            for c in range(2):
                h.select(c)
        else:
            h.ops.append(['dirty', h.c(), rng.random() < 0.6])
    h.ops += [['dirty', 0, 0], ['dirty', 1, 0]]
    return wide(rng, {'cfg': cfg, 'ops': h.ops})


def run(case, env):
    w = FileWorld(env, case['cfg'])
    w.run(case['ops'])
    L = env.labels
    return L['SET'] >= 3 and L['dirty:1'] + L['dirty:2'] + L['dirty:3'] + L['dirty:4'] >= 1


CHECK = Check(
    'P08',
    'Random histories over several namespaces of both modes; after each command every data and index file is read and compared '
    'with its previous content (data files may only get longer past their header, closed ones not at all, none may disappear); '
    'INDEX DIRTY has to list each index file in which already written entries were modified since the last reset (a rotation whose hook fails is none). Non-trivial: at least 3 effective '
    'SET and one INDEX DIRTY when some file had been modified.',
    [Part('files', gen, run, 2500, 20000)],
    ['the headers of the files are not part of the comparison', 'the dirty list starts empty after a start or a RELOAD'])
