"""P25: what the files say, read by something else than the server."""
from .. import disk
from ..engine import Check, Part, Violation
from ..gens import Hist, gen_keys, weighted, wide
from ..world import World


class DiskWorld(World):
    def op_disk(self, strict=1):
        try:
            st = disk.check(self.srv, self.model, bool(strict))
        except disk.Bad as e:
            raise Violation('step %d: files: %s' % (self.n, e), 'disk')
        self.env.label('disk')
        self.env.label('disk:entries', st['entries'])
        self.env.label('disk:files', st['files'])


def gen(rng, i):
    mode = rng.choice(['user', 'seq', None, None, None])
    nk = rng.choice([4, 10, 30])
    cfg = {'mode': mode, 'bits': rng.choice([1, 4, 10]), 'datasize': rng.choice([100, 300, 1000, 4000, 50000]),
           'keys': gen_keys(rng, nk), 'rel': rng.random() < 0.2,
           'opts': rng.choice([[], [], ['--sync'], ['--secure']])}
    h = Hist(rng, mode, nk, rng.choice([100, 600, 3000]))
    for _ in range(rng.choice([0, 1, 2])):
        h.new_ns()
    for c in range(h.nclients):
        h.select(c)
    for _ in range(rng.randrange(1, 4)):
        for _ in range(rng.randrange(3, 50)):
            o = weighted(rng, [(45, 'set'), (20, 'del'), (4, 'jump'), (4, 'select'), (4, 'setting'),
                               (1, 'new'), (1, 'nsdel'), (2, 'tick'), (1.5, 'reload'), (2, 'ts'), (1.5, 'disk')])
            if o == 'set':
                h.set()
            elif o == 'del':
                h.delete()
            elif o == 'jump':
                h.jump()
            elif o == 'select':
                h.select(h.c())
            elif o == 'setting':
                h.setting(kinds=('password', 'public', 'worm', 'maxsize', 'mode'))
            elif o == 'new':
                h.new_ns()
            elif o == 'nsdel':
                h.nsdel()
            elif o == 'reload':
                h.reload()
            elif o == 'ts':
                c = h.c()
                t = rng.choice([0, 5, (1 << 31) - 1, 1 << 31, (1 << 32) - 1])
                if rng.random() < 0.3:
                    h.ops.append(['del', c, h.key(c), t])
                else:
                    h.ops.append(['set', c, None if h.seq.get(h.at[c]) else h.key(c), h.value(), t])
            elif o == 'disk':
                h.ops.append(['disk'])
            else:
                h.ops.append(['tick', rng.choice([1, 60, 86400])])
        h.ops.append(['disk'])
        if rng.random() < 0.6:
            h.restart()
            h.ops.append(['disk'])
            for c in range(h.nclients):
                h.select(c)
    return wide(rng, {'cfg': cfg, 'ops': h.ops})


def run(case, env):
    w = DiskWorld(env, case['cfg'])
    w.run(case['ops'])
    w.op_disk()
    w.restart('term')
    w.op_disk()
    w.verify(history=True)
    L = env.labels
    return L['SET'] >= 3 and L['disk:entries'] >= 3


CHECK = Check(
    'P25',
    'Random histories over several namespaces of both modes with rotations, reloads and restarts; at chosen points and at the '
    'end, a separate reader of the documented file format parses every file: names and headers, entries filling each file '
    'exactly, checksums (its own CRC32-C), back links, one live index item per key, each pointing to a data entry which agrees '
    'with it, parent links giving the versions of the model, namespace descriptors, and the content rebuilt from the data '
    'files alone. Non-trivial: at least 3 effective SET and 3 entries parsed.',
    [Part('hist', gen, run, 2500, 25000)],
    ['`previous` of the first entry of a file, and the times in the headers, are not judged'])
