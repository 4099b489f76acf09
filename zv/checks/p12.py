"""P12: FLUSH."""
import os

from .. import resp
from ..engine import Check, Part
from ..gens import Hist, gen_keys, weighted, wide
from ..util import short
from ..world import World


def files(root):
    out = {}
    for d, _, names in os.walk(root):
        for n in names:
            p = os.path.join(d, n)
            try:
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, root)] = f.read()
            except FileNotFoundError:
                pass
    return out


class FlushWorld(World):
    def snapshot(self):
        return {'data': files(self.srv.data), 'index': files(self.srv.index)}

    def op_flush(self, i):
        c, s = self.client(i)
        ns = s.ns
        if ns is None or s.detached:
            self.do(i, ['FLUSH'])
            return
        items = len(ns.items)
        before = self.snapshot()
        got, want = self.do(i, ['FLUSH'])
        after = self.snapshot()
        done = isinstance(got, resp.Simple)
        for kind in ('data', 'index'):
            mine = ns.name + '/'
            a = {k: v for k, v in before[kind].items() if not (done and k.startswith(mine))}
            b = {k: v for k, v in after[kind].items() if not (done and k.startswith(mine))}
            if a != b:
                diff = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
                self.fail('FLUSH of %s (%s) changed the %s files %s' % (ns.name, short(got), kind, ', '.join(diff[:5])))
            if not done:
                continue
            for k, v in after[kind].items():
                base = os.path.basename(k)
                if not k.startswith(mine) or base == 'zdb-namespace':
                    continue
                # only file headers may be left
                if len(v) > 40 and not base.endswith('.map'):
                    self.fail('FLUSH of %s leaves %d bytes in the %s file %s' % (ns.name, len(v), kind, k))
                if base[1:].isdigit() and int(base[1:]) != 0:
                    self.fail('FLUSH of %s leaves the %s file %s' % (ns.name, kind, k))
            desc = ns.name + '/zdb-namespace'
            if kind == 'index' and before[kind].get(desc) != after[kind].get(desc):
                self.fail('FLUSH of %s changed its settings on disk' % ns.name)
        self.env.label('flushed:%s' % ('some' if items else 'none') if done else 'refused')


def gen(rng, i):
    mode = rng.choice(['user', 'seq', None, None])
    nk = rng.choice([2, 5, 12])
    cfg = {'mode': mode, 'bits': rng.choice([1, 6]), 'datasize': rng.choice([300, 1000, 100000]), 'keys': gen_keys(rng, nk),
           'rel': rng.random() < 0.2}
    h = Hist(rng, mode, nk, rng.choice([60, 400]), clients=3)
    flushable = []
    for _ in range(rng.choice([2, 3, 4])):
        n = h.new_ns()
        if rng.random() < 0.75:
            h.ops += [['cmd', 0, 'NSSET', n, 'password', 'pf'], ['cmd', 0, 'NSSET', n, 'public', '0']]
            h.pw[n], h.public[n] = 'pf', False
            flushable.append(n)
        if rng.random() < 0.3:
            h.ops.append(['cmd', 0, 'NSSET', n, 'maxsize', str(rng.choice([500, 5000]))])

    def settle():
        for c in range(3):
            h.select(c, good=1.0)

    settle()
    for _ in range(rng.randrange(20, 110)):
        c = h.c()
        o = weighted(rng, [(40, 'set'), (12, 'del'), (4, 'read'), (6, 'select'), (6, 'flush'), (4, 'setting'), (3, 'state'), (2, 'jump'),
                           (1.5, 'restart'), (1, 'reload'), (0.5, 'nsdel'), (0.5, 'new'), (1, 'verify'), (2, 'enum')])
        if o == 'set':
            h.set(c)
        elif o == 'del':
            h.delete(c)
        elif o == 'read':
            h.get(c)
        elif o == 'select':
            h.select(c, rng.choice(flushable) if flushable and rng.random() < .5 else None)
        elif o == 'flush':
            if rng.random() < 0.6 and flushable:
                n = rng.choice(flushable)
                if h.pw.get(n):
                    h.ops.append(['cmd', c, 'SELECT', n, h.pw[n]])
                    h.at[c] = n
                    for _ in range(rng.choice([0, 0, 3])):
                        h.set(c)
            h.ops.append(['flush', c])
            if rng.random() < 0.3:
                h.ops.append(['verify', 1])
            if rng.random() < 0.15:
                h.ops.append(['flush', c])
        elif o == 'setting':
            h.setting(c=c, kinds=('password', 'public', 'worm', 'maxsize', 'mode'))
        elif o == 'state':
            h.setting(c=c, kinds=('lock', 'freeze'))
        elif o == 'jump':
            h.jump(c)
        elif o == 'reload':
            h.reload(c=c)
        elif o == 'restart':
            h.restart(rng.choice(['term', 'kill']))
            settle()
        elif o == 'nsdel':
            h.nsdel(c)
        elif o == 'new':
            h.new_ns()
        elif o == 'verify':
            h.ops.append(['verify', 1])
        elif o == 'enum':
            h.ops.append(['scan', c, rng.choice(['SCAN', 'RSCAN'])])
    h.restart(rng.choice(['term', 'kill']))
    return wide(rng, {'cfg': cfg, 'ops': h.ops})


def run(case, env):
    w = FlushWorld(env, case['cfg'])
    w.run(case['ops'])
    w.verify(history=True)
    L = env.labels
    return L['SET'] >= 3 and L['flushed:some'] >= 1


CHECK = Check(
    'P12',
    'Random histories over two to five namespaces of both modes with passwords, public access, locks, freezes and file rotations, '
    'flushed at any time by clients of any rights. All files are read before and after each FLUSH: those of other namespaces '
    '(and all of them when it is refused) stay identical, those of the flushed one hold file headers only; replies and content '
    'follow the model, which is compared in full at the end after a restart. Non-trivial: three SET and a FLUSH of a non-empty namespace.',
    [Part('flush', gen, run, 2500, 20000)],
    ['FLUSH is allowed on a WORM namespace, as the code does'])
